package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// ---- MMD models for the converters

type case13 struct {
	mk   func() *mmd.Document
	opt  *converter.MMDToMQOOption
	what string
}

func (c *case13) Describe() string { return c.what }

// gen13Doc: focus selects the explored dimensions: f(aces), m(aterials), w(eights), b(ones), o (morphs), p(hysics).
func gen13Doc(focus string, rt bool) func(c *Chooser) *mmd.Document {
	return func(c *Chooser) *mmd.Document {
		ch := func(group, label string, n int) int {
			if strings.Contains(focus, group) {
				return c.Choose(label, n)
			}
			return 0
		}
		doc := mmd.NewDocument()
		doc.Name = "モデル"
		for i, p := range [][3]float32{{0, 0, 0}, {1, 0, 0}, {0, 1, 0.5}, {1, 1, -0.5}, {4, 0, 1}, {5, 0, 2}, {4, 1, 3}, {8, 0, -1}, {9, 0, -2}, {8, 1, -3}, {20, 20, 20}} {
			v := &mmd.Vertex{Pos: v3(p[0], p[1], p[2]), UV: geom.Vector2{X: 0.1 * float32(i), Y: 0.03 * float32(i*i)}, EdgeScale: 1}
			v.Normal = *v3d{float64(i%3) - 1, 0.5, float64(i%4) - 2}.unit().geom()
			doc.Vertexes = append(doc.Vertexes, v)
		}
		if ch("f", "sameuv", 2) == 1 {
			for _, v := range doc.Vertexes {
				v.UV = geom.Vector2{}
			}
		}
		faces := [][][3]int{
			{{0, 1, 2}, {1, 3, 2}, {4, 5, 6}, {7, 8, 9}},
			{{0, 1, 2}, {1, 3, 2}, {3, 4, 5}, {5, 6, 7}},
			{},
			{{9, 8, 7}, {4, 5, 6}, {2, 1, 0}, {3, 1, 2}},
			{{0, 1, 2}, {4, 5, 6}, {0, 2, 1}, {4, 6, 5}}, // front and back
			{{0, 1, 2}, {4, 5, 6}, {1, 3, 2}, {7, 8, 9}},
			{{7, 8, 9}},
			{{0, 1, 2}, {7, 8, 9}, {6, 5, 4}, {2, 7, 4}}, // joined by the last one
		}[ch("f", "faces", 8)]
		for _, f := range faces {
			doc.Faces = append(doc.Faces, &mmd.Face{Verts: f})
		}
		doc.Textures = []string{"tex0.png", "dir\\テクスチャ.bmp"}
		n := len(faces)
		counts := [][]int{{2, n - 2}, {n}, {0, n}, {n, 0}, {1, n - 1}, {1, 0, n - 1}, {1, 1, n - 2}, {0, 0, n}}[ch("m", "counts", 8)]
		if n == 0 {
			counts = make([]int, len(counts))
		}
		if n == 1 {
			counts = [][]int{{1}, {0, 1}, {1, 0}}[len(counts)%3]
		}
		for i, k := range counts {
			m := &mmd.Material{Name: []string{"mat", "顔", "mat c"}[i], Color: geomV4(1, 0.5, float32(i)*0.25, 1), Specularity: float32(5 + i), Specular: v3(0.1, 0.2, 0.3), AColor: v3(0.5, 0.5, 0.5), TextureID: -1, EnvID: -1, Toon: -1, Count: k * 3, EdgeScale: 1}
			if i == 1 {
				m.TextureID = 1
			}
			if i < 2 {
				l := fmt.Sprintf("m%d.", i)
				m.TextureID = Pick2(ch("m", l+"tex", 3), m.TextureID, 0, 1)
				m.Color.W = Pick2(ch("m", l+"alpha", 3), m.Color.W, 0.5, 0)
				m.Flags = Pick2[byte](ch("m", l+"flags", 5), 0, 1, 2, 0x1f, 0x1e)
				m.EdgeScale = Pick2[float32](ch("m", l+"edge", 3), 1, 0, 0.5)
				m.Specularity = Pick2[float32](ch("m", l+"power", 3), m.Specularity, 0, 100)
				if ch("m", l+"toon", 2) == 1 {
					m.ToonType, m.Toon, m.EnvID, m.EnvMode = 1, 3, 0, 1
				}
				m.Name = Pick2(ch("m", l+"name", 3), m.Name, "", "材質 \"1\"")
			}
			doc.Materials = append(doc.Materials, m)
		}
		// bones
		nb := Pick2(ch("b", "nbones", 4), 4, 1, 0, 6)
		par := [][]int{{-1, 0, 1, 2, 3, 4}, {-1, 0, 0, 1, 1, 0}, {-1, -1, -1, 0, 0, -1}, {1, 2, 3, -1, 0, 4}, {3, 0, 1, -1, 2, 2}}[ch("b", "parents", 5)]
		for i := 0; i < nb; i++ {
			b := &mmd.Bone{Name: fmt.Sprintf("ボーン%d", i), Pos: v3(float32(i)*0.5, float32(i), float32(i)*-0.25), ParentID: par[i], TailID: -1, Flags: mmd.BoneFlagVisible | mmd.BoneFlagEnabled | mmd.BoneFlagRotatable}
			if b.ParentID >= nb {
				b.ParentID = -1
			}
			doc.Bones = append(doc.Bones, b)
		}
		if nb >= 3 {
			last := doc.Bones[nb-1]
			switch ch("b", "ik", 6) {
			case 1:
				last.Flags |= mmd.BoneFlagEnableIK | mmd.BoneFlagTailIndex
				last.TailID = 1
				last.IK.TargetID, last.IK.Loop, last.IK.LimitRad = 2, 40, 0.5
				last.IK.Links = []*mmd.Link{{TargetID: 1}}
			case 2:
				last.Flags |= mmd.BoneFlagEnableIK | mmd.BoneFlagTailIndex
				last.TailID = 0
				last.IK.TargetID, last.IK.Loop = 1, 40
				last.IK.Links = []*mmd.Link{{TargetID: 1, HasLimit: true}, {TargetID: 0}}
			case 3:
				last.Flags |= mmd.BoneFlagEnableIK
				last.IK.TargetID = 1 // no links
			case 4:
				last.Flags |= mmd.BoneFlagEnableIK
				last.IK.TargetID = -1
				last.IK.Links = []*mmd.Link{{TargetID: 1}}
			case 5: // two chains
				last.Flags |= mmd.BoneFlagEnableIK
				last.IK.TargetID = 1
				last.IK.Links = []*mmd.Link{{TargetID: 0}}
				b := doc.Bones[0]
				b.Flags |= mmd.BoneFlagEnableIK | mmd.BoneFlagTailIndex
				b.TailID = nb - 1
				b.IK.TargetID = 2
				b.IK.Links = []*mmd.Link{{TargetID: 1}, {TargetID: 0}, {TargetID: 0}}
			}
			switch k := ch("b", "inherit", 6); k {
			case 1, 2, 3:
				b := doc.Bones[nb-1]
				b.Flags |= mmd.BoneFlagInheritRotation
				b.InheritParentID, b.InheritParentInfluence = []int{0, 0, 1, 0}[k], []float32{1, 0.5, -1}[ch("b", "influence", 3)]
			case 4:
				b := doc.Bones[1]
				b.Flags |= mmd.BoneFlagInheritTranslation
				b.InheritParentID, b.InheritParentInfluence = 0, 1
			case 5:
				b := doc.Bones[1]
				b.Flags |= mmd.BoneFlagInheritRotation
				b.InheritParentID, b.InheritParentInfluence = -1, 1
			}
			b := doc.Bones[1]
			if ch("b", "movable", 2) == 1 {
				b.Flags |= mmd.BoneFlagTranslatable
			}
			b.Layer = Pick2(ch("b", "layer", 3), 0, 1, 7)
			switch ch("b", "tail", 3) {
			case 1:
				b.Flags |= mmd.BoneFlagTailIndex
				b.TailID = 2
			case 2:
				b.TailPos = v3(1, 2, 3)
			}
		}
		// weights
		for i, v := range doc.Vertexes {
			if nb == 0 {
				if !rt {
					v.Bones, v.BoneWeights = []int{-1}, []float32{1}
				}
				continue
			}
			v.Bones, v.BoneWeights = []int{i % nb}, []float32{1}
			if i < 3 || i == 4 {
				v.Bones, v.BoneWeights = weights13(ch("w", fmt.Sprintf("w%d", i), 13), nb, i, rt)
			}
		}
		// morphs
		add := func(name string, typ byte) *mmd.Morph {
			m := &mmd.Morph{Name: name, MorphType: typ, PanelType: 2}
			doc.Morphs = append(doc.Morphs, m)
			return m
		}
		vm := func(name string, vs ...int) {
			m := add(name, 1)
			for k, v := range vs {
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: v, Offset: v3(0.25*float32(len(doc.Morphs)), 0.5*float32(k+1), -0.125*float32(v+1))})
			}
		}
		um := func(name string, typ byte, vs ...int) {
			m := add(name, typ)
			for k, v := range vs {
				m.UV = append(m.UV, &mmd.MorphUV{Target: v, Value: geomV4(0.25, 0.125*float32(k+1), 3, 4)})
			}
		}
		mm := func(name string, target int, flags byte) {
			m := add(name, 8)
			m.Material = append(m.Material, &mmd.MorphMaterial{Target: target, Flags: flags, Diffuse: geomV4(0.5, 0.25, 2, 0.5), Specularity: 3})
		}
		switch ch("o", "morph0", 8) {
		case 1:
			vm("あ", 0)
		case 2:
			vm("あ", 0, 3)
		case 3:
			vm("あ", 4, 5, 6)
		case 4:
			vm("あ", 8, 0) // two groups
		case 5:
			vm("あ", 10) // not used by a face
		case 6:
			vm("あ")
		case 7:
			vm("あ", 2, 2, 10, -1)
		}
		switch ch("o", "morph1", 9) {
		case 1:
			vm("い", 1)
		case 2:
			vm("い", 8)
		case 3:
			um("い", 3, 1, 2)
		case 4:
			um("い", 3, 9, 10)
		case 5:
			um("い", 5, 0)
		case 6:
			vm("い", 5, 8)
		case 7:
			um("い", 3, 4, 4, -1)
		case 8:
			m := add("い", 0)
			m.Group = append(m.Group, &mmd.MorphGroup{Target: 0, Weight: 0.5}, &mmd.MorphGroup{Target: -1, Weight: 1})
		}
		switch ch("o", "morph2", 8) {
		case 1:
			vm("う", 0, 9)
		case 2:
			vm("う", 3, 1)
		case 3:
			if len(doc.Materials) > 0 {
				mm("う", 0, 0)
			}
		case 4:
			mm("う", len(doc.Materials)-1, 1)
		case 5:
			mm("う", -1, 0)
		case 6:
			add("う", 2)
		case 7:
			um("う", 3, 0, 7)
		}
		// physics
		if k := ch("p", "bodies", 4); k > 0 {
			for i := 0; i < k; i++ {
				l := fmt.Sprintf("r%d.", i)
				b := &mmd.RigidBody{Name: fmt.Sprintf("剛体%d", i), Bone: -1, Mass: 1 + float32(i), Size: v3(0.5, 0.75, 1.25), Position: v3(float32(i), 2, 3), Rotation: v3(0.1, -0.2, 0.3), LinearDamping: 0.25, AngularDamping: 0.75, Restitution: 0.125, Friction: 0.625, Group: i, GroupTarget: 0xff00, Mode: 1}
				if i < 2 {
					b.Bone = Pick2(ch("p", l+"bone", 3), 0, -1, 2)
					if b.Bone >= nb {
						b.Bone = -1
					}
					b.Shape = byte(ch("p", l+"shape", 3))
					b.Mode = Pick2[byte](ch("p", l+"mode", 3), 1, 0, 2)
					b.GroupTarget = Pick2(ch("p", l+"mask", 3), 0xff00, 0, 0xffff)
					b.Group = Pick2(ch("p", l+"group", 3), i, 15, 0)
					b.Mass = Pick2[float32](ch("p", l+"mass", 2), b.Mass, 0)
				}
				doc.Bodies = append(doc.Bodies, b)
			}
			for i := 0; i < ch("p", "joints", 3); i++ {
				j := &mmd.Joint{Name: fmt.Sprintf("ジョイント%d", i), Body1: 0, Body2: (k - 1 + i) % k, Position: v3(1, 2, float32(3+i)), Rotation: v3(0.4, 0.5, 0.6), PositionMin: v3(-1, -2, -3), PositionMax: v3(1, 2, 3), RotationMin: v3(-1, -2, -3), RotationMax: v3(1, 2, 3), LinerSpring: v3(19, 20, 21), AngulerSpring: v3(22, 23, 24)}
				if i == 0 {
					j.Body2 = Pick2(ch("p", "j.body2", 2), j.Body2, -1)
				}
				doc.Joints = append(doc.Joints, j)
			}
		}
		return doc
	}
}

// Pick2 selects by an index that was already chosen.
func Pick2[V any](k int, vs ...V) V { return vs[k] }

func weights13(k, nb, i int, rt bool) ([]int, []float32) {
	b := func(x int) int { return x % nb }
	switch k {
	case 1:
		return []int{b(0), b(1)}, []float32{0.25, 0.75}
	case 2:
		return []int{b(1), b(0)}, []float32{1, 0}
	case 3:
		return []int{b(0), b(1)}, []float32{0, 1}
	case 4:
		return []int{b(3), b(2), b(1), b(0)}, []float32{0.125, 0.25, 0.5, 0.125}
	case 5:
		return []int{b(1), b(2), -1, -1}, []float32{0.5, 0.5, 0, 0}
	case 6:
		return []int{b(0), b(1)}, []float32{0.25, 0.75, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	case 7:
		return []int{-1}, []float32{1}
	case 8:
		return []int{b(0), b(0)}, []float32{0.25, 0.75}
	case 9:
		return []int{b(1), b(0), b(1), b(0)}, []float32{0.125, 0.25, 0.5, 0.125}
	case 10:
		return nil, nil
	case 11:
		return []int{b(0)}, []float32{1}
	case 12:
		return []int{b(2), b(1), 0, 0}, []float32{0.5, 0.25, 0, 0}
	}
	return []int{b(i)}, []float32{1}
}

func frozen13(c *Chooser, g func(*Chooser) *mmd.Document) func() *mmd.Document {
	before := len(c.Vec())
	g(c)
	vec := append([]int{}, c.Vec()[before:]...)
	return func() *mmd.Document { return g(Replay(vec)) }
}

func gen13(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		r := &case13{mk: frozen13(c, gen13Doc(focus, false))}
		switch c.Choose("options", 5) {
		case 1:
			r.opt = &converter.MMDToMQOOption{}
		case 2:
			r.opt = &converter.MMDToMQOOption{KnownBoneNames: []string{"ボーン0", "x"}, InheritParentThreshold: 0.6}
		case 3:
			r.opt = &converter.MMDToMQOOption{KnownBoneNames: []string{"ボーン1"}}
		case 4:
			r.opt = &converter.MMDToMQOOption{KnownBoneNames: []string{"", "ボーン1", "ボーン0"}, InheritParentThreshold: 0.4}
		}
		r.what = c.Trace()
		return r
	}
}

// mmdWeights are the effective weights of a vertex.
func mmdWeights(v *mmd.Vertex, nb int) map[int]float64 {
	r := map[int]float64{}
	for i, b := range v.Bones {
		if i < len(v.BoneWeights) && b >= 0 && b < nb && v.BoneWeights[i] > 0 {
			r[b] += float64(v.BoneWeights[i])
		}
	}
	return r
}

// mmdFaces are the faces with their material; scaled and mirrored.
func mmdFaces(doc *mmd.Document, scale float64) (r []*eface) {
	at := 0
	for mi, m := range doc.Materials {
		for k := 0; k < m.Count/3; k, at = k+1, at+1 {
			e := &eface{mat: fmt.Sprint(mi), left: 1}
			var ps []v3d
			for _, vi := range doc.Faces[at].Verts {
				v := doc.Vertexes[vi]
				n := mirror(v.Normal)
				e.corners = append(e.corners, corner{pos: mirror(v.Pos).mul(scale), uv: &[2]float64{float64(v.UV.X), float64(v.UV.Y)}, normal: &n})
				ps = append(ps, e.corners[len(e.corners)-1].pos)
			}
			e.area = areaOf(ps...)
			r = append(r, e)
		}
	}
	return
}

func mirror(v geom.Vector3) v3d { return v3d{float64(v.X), float64(v.Y), -float64(v.Z)} }

func c13Check(t *T, v any) {
	c := v.(*case13)
	src := c.mk()
	in := c.mk()
	out := converter.NewMMDToMQOConverter(c.opt).Convert(in)
	t.Expect(reflect.DeepEqual(in, c.mk()), "source changed", "the source model was modified")
	again := converter.NewMMDToMQOConverter(c.opt).Convert(c.mk())
	t.Expect(string(mqoBytes(out)) == string(mqoBytes(again)) && string(mqxBytes(out)) == string(mqxBytes(again)), "deterministic", "a second conversion of the same model gives another result")

	byName := map[string]*mqo.Object{}
	for _, o := range out.Objects {
		byName[o.Name] = o
	}
	target := map[string]bool{}
	var lists []*mqo.MorphTargetList
	if mp := morphPlugin(out); mp != nil {
		lists = mp.Morphs()
	}
	for _, l := range lists {
		for _, m := range l.Target {
			target[m.Name] = true
		}
	}
	vert := map[v3d]int{}
	for i, x := range src.Vertexes {
		vert[mirror(x.Pos)] = i
	}
	model := func(o *mqo.Object, i int) int {
		k, ok := vert[v3g(o.Vertexes[i])]
		t.Must(ok, "vertex position", "object %q has a vertex at %v that the model does not have", o.Name, *o.Vertexes[i])
		return k
	}

	// faces
	d := &diffs{}
	var got []eface
	for _, o := range out.Objects {
		if target[o.Name] {
			continue
		}
		d.eq("object "+o.Name+" visible", true, o.Visible)
		got = append(got, vals(mqoFaces(o))...)
	}
	coverage(d, "model", mmdFaces(src, 1), got, false, 1e-6)
	t.Expect(d.empty(), "faces", "%s", d)

	// materials
	d = &diffs{}
	nm := len(src.Materials)
	var mats []string
	for _, m := range src.Materials {
		mats = append(mats, m.Name)
	}
	var wantMorphMats []*mmd.MorphMaterial
	var morphNames []string
	for _, m := range src.Morphs {
		for _, x := range m.Material {
			if x.Target >= 0 {
				mats = append(mats, "$MORPH:"+m.Name+":"+src.Materials[x.Target].Name)
				wantMorphMats = append(wantMorphMats, x)
				morphNames = append(morphNames, m.Name)
			}
		}
	}
	d.eq("number of materials", len(mats), len(out.Materials))
	for i := 0; i < len(mats) && i < len(out.Materials); i++ {
		g := out.Materials[i]
		p := fmt.Sprintf("material %d", i)
		d.eq(p+" name", mats[i], g.Name)
		s := (*mmd.Material)(nil)
		if i < nm {
			s = src.Materials[i]
			d.eq(p+" color", s.Color, g.Color)
			d.eq(p+" power", s.Specularity, g.Power)
		} else {
			x := wantMorphMats[i-nm]
			s = src.Materials[x.Target]
			w := s.Color
			if x.Flags&1 == 1 {
				w.X, w.Y, w.Z, w.W = w.X+x.Diffuse.X, w.Y+x.Diffuse.Y, w.Z+x.Diffuse.Z, w.W+x.Diffuse.W
			} else {
				w.X, w.Y, w.Z, w.W = w.X*x.Diffuse.X, w.Y*x.Diffuse.Y, w.Z*x.Diffuse.Z, w.W*x.Diffuse.W
			}
			d.eq(p+" color", w, g.Color)
		}
		tex := ""
		if s.TextureID >= 0 {
			tex = src.Textures[s.TextureID]
		}
		d.eq(p+" texture", tex, g.Texture)
		d.eq(p+" double sided", s.Flags&1 != 0, g.DoubleSided)
		if g.Ex2 == nil {
			d.add("%s has no shader", p)
		} else {
			d.eq(p+" edge", s.EdgeScale > 0, g.Ex2.ShaderParams["Edge"])
		}
	}
	t.Expect(d.empty(), "materials", "%s", d)

	// bones
	d = &diffs{}
	var bones []*mqo.Bone
	if bp := bonePlugin(out); bp != nil {
		bones = bp.Bones()
	}
	d.eq("number of bones", len(src.Bones), len(bones))
	var ids = map[int]int{0: -1}
	for i, b := range bones {
		ids[b.ID] = i
	}
	d.eq("bone identifiers", len(bones)+1, len(ids))
	ik := map[int]*mmd.Bone{}
	for _, b := range src.Bones {
		if len(b.IK.Links) > 0 && b.IK.TargetID >= 0 {
			ik[b.IK.TargetID] = b
		}
	}
	for i := 0; i < len(bones) && i < len(src.Bones); i++ {
		s, g := src.Bones[i], bones[i]
		p := fmt.Sprintf("bone %d", i)
		d.eq(p+" name", s.Name, g.Name)
		d.v3d(p+" position", mirror(s.Pos), &g.Pos.Vector3, 1e-6)
		d.eq(p+" group", s.Layer, g.Group)
		d.eq(p+" movable", s.Flags&mmd.BoneFlagTranslatable != 0, g.Movable != 0)
		want := s.ParentID
		if c.opt != nil && s.Flags&mmd.BoneFlagInheritRotation != 0 && s.InheritParentID >= 0 && s.InheritParentInfluence > c.opt.InheritParentThreshold && contains(c.opt.KnownBoneNames, src.Bones[s.InheritParentID].Name) {
			want = s.InheritParentID
		}
		d.eq(p+" parent", want, ids[g.Parent])
		k := ik[i]
		if (k != nil) != (g.IK != nil) {
			d.add("%s: IK: want %v, got %v", p, k != nil, g.IK != nil)
		} else if k != nil {
			d.eq(p+" IK name", k.Name, g.IK.Name)
			d.eq(p+" IK chain", len(k.IK.Links)+1, g.IK.ChainCount)
			if k.TailID > 0 && k.TailID < len(src.Bones) {
				d.eq(p+" IK tip", src.Bones[k.TailID].Name, g.IK.TipName)
			} else if k.TailID != 0 {
				d.eq(p+" IK tip", "", g.IK.TipName)
			}
		}
	}
	t.Expect(d.empty(), "bones", "%s", d)

	// weights
	d = &diffs{}
	seen := map[int]bool{}
	for oi, o := range out.Objects {
		if target[o.Name] {
			continue
		}
		d.eq(fmt.Sprintf("object %d id", oi), true, o.UID > 0 && !seen[o.UID])
		seen[o.UID] = true
		ws := make([]map[int]float64, len(o.Vertexes))
		for i := range ws {
			ws[i] = map[int]float64{}
		}
		for bi, b := range bones {
			for _, l := range b.Weights {
				if l.ObjectID != o.UID {
					continue
				}
				for _, x := range l.Vertexes {
					k := o.GetVertexIndexByID(x.VertexID)
					if k < 0 || k >= len(ws) {
						d.add("bone %d weights vertex %d of object %q", bi, x.VertexID, o.Name)
						continue
					}
					ws[k][bi] += float64(x.Weight)
				}
			}
		}
		for i := range o.Vertexes {
			m := model(o, i)
			want := mmdWeights(src.Vertexes[m], len(src.Bones))
			same := len(want) == len(ws[i])
			for b, w := range want {
				same = same && math.Abs(w*100-ws[i][b]) < 1e-4
			}
			if !same {
				d.add("object %q vertex %d (%d of the model): want weights %v, got %v percent", o.Name, i, m, want, ws[i])
			}
		}
	}
	for bi, b := range bones {
		for _, l := range b.Weights {
			if !seen[l.ObjectID] {
				d.add("bone %d has weights of object %d", bi, l.ObjectID)
			}
		}
	}
	t.Expect(d.empty(), "weights", "%s", d)

	// morphs
	d = &diffs{}
	usedVert := map[int]bool{}
	for _, f := range src.Faces {
		for _, x := range f.Verts {
			usedVert[x] = true
		}
	}
	listed := map[string][]*mqo.Object{}
	for _, l := range lists {
		base := byName[l.Base]
		if base == nil || target[l.Base] {
			d.add("morph base %q is missing or a target", l.Base)
			continue
		}
		for _, mt := range l.Target {
			var m *mmd.Morph
			for _, x := range src.Morphs {
				if x.Name == mt.Name {
					m = x
				}
			}
			o := byName[mt.Name]
			if m == nil || o == nil {
				d.add("morph target %q: object %v, morph %v", mt.Name, o != nil, m != nil)
				continue
			}
			listed[mt.Name] = append(listed[mt.Name], base)
			p := "target " + o.Name
			d.eq(p+" hidden", false, o.Visible)
			if len(o.Vertexes) != len(base.Vertexes) || len(o.Faces) != len(base.Faces) {
				d.add("%s: %d vertices and %d faces, its base has %d and %d", p, len(o.Vertexes), len(o.Faces), len(base.Vertexes), len(base.Faces))
				continue
			}
			for i := range base.Vertexes {
				k := model(base, i)
				w := mirror(src.Vertexes[k].Pos)
				for _, x := range m.Vertex {
					if x.Target == k {
						w = w.add(mirror(x.Offset))
					}
				}
				d.v3d(fmt.Sprintf("%s vertex %d", p, i), w, o.Vertexes[i], 1e-6)
			}
			for fi, f := range base.Faces {
				g := o.Faces[fi]
				d.eq(fmt.Sprintf("%s face %d", p, fi), fmt.Sprint(f.Verts, f.Material), fmt.Sprint(g.Verts, g.Material))
				if len(g.UVs) != len(f.Verts) {
					d.add("%s face %d has %d UVs", p, fi, len(g.UVs))
					continue
				}
				for i, x := range f.Verts {
					k := model(base, x)
					w := src.Vertexes[k].UV
					for _, u := range m.UV {
						if u.Target == k && m.MorphType == 3 {
							w.X += u.Value.X
							w.Y += u.Value.Y
						}
					}
					if !v2near(w, g.UVs[i], 1e-6) {
						d.add("%s face %d corner %d UV: want %v, got %v", p, fi, i, w, g.UVs[i])
					}
				}
			}
		}
	}
	for _, m := range src.Morphs {
		var vs []int
		for _, x := range m.Vertex {
			vs = append(vs, x.Target)
		}
		if m.MorphType == 3 {
			for _, x := range m.UV {
				vs = append(vs, x.Target)
			}
		}
		need := false
		for _, k := range vs {
			if !usedVert[k] {
				continue
			}
			need = true
			// every face that uses the vertex belongs to the base
			for _, o := range out.Objects {
				if target[o.Name] {
					continue
				}
				has := false
				for i := range o.Vertexes {
					has = has || model(o, i) == k
				}
				in := false
				for _, b := range listed[m.Name] {
					in = in || b == o
				}
				if has && !in {
					d.add("morph %q moves vertex %d of object %q, which has no such target", m.Name, k, o.Name)
				}
			}
		}
		if !need && len(listed[m.Name]) > 0 {
			d.add("morph %q has a target although it changes no face", m.Name)
		}
		if len(listed[m.Name]) > 1 {
			d.add("morph %q is listed %d times", m.Name, len(listed[m.Name]))
		}
	}
	t.Expect(d.empty(), "morphs", "%s", d)

	// physics
	d = &diffs{}
	var bodies []*mqo.PhysicsBody
	var joints []*mqo.PhysicsJointConstraint
	if pp := physicsPlugin(out); pp != nil {
		bodies, joints = pp.Bodies, pp.Constraints
	}
	d.eq("number of bodies", len(src.Bodies), len(bodies))
	for i := 0; i < len(bodies) && i < len(src.Bodies); i++ {
		s, g := src.Bodies[i], bodies[i]
		p := fmt.Sprintf("body %d", i)
		if len(g.Shapes) != 1 {
			d.add("%s has %d shapes", p, len(g.Shapes))
			continue
		}
		h := g.Shapes[0]
		d.eq(p+" shape", []string{"SPHERE", "BOX", "CAPSULE"}[s.Shape], h.Type)
		d.v3(p+" size", &s.Size, h.Size.Vec3(), 0)
		d.v3d(p+" position", mirror(s.Position), h.Position.Vec3(), 1e-6)
		d.v3(p+" rotation", &s.Rotation, h.Rotation.Vec3(), 0)
		d.eq(p+" name", s.Name, g.Name)
		bone, ok := ids[g.TargetBoneID]
		if !ok {
			bone = -2
		}
		d.eq(p+" bone", s.Bone, bone)
		d.eq(p+" values", fmt.Sprint(s.Mass, s.LinearDamping, s.AngularDamping, s.Restitution, s.Friction, s.Group, s.GroupTarget, s.Mode == 0), fmt.Sprint(g.Mass, g.LinearDamping, g.AngularDamping, g.Restitution, g.Friction, g.CollisionGroup, g.CollisionMask, g.Kinematic))
	}
	d.eq("number of joints", len(src.Joints), len(joints))
	for i := 0; i < len(joints) && i < len(src.Joints); i++ {
		s, g := src.Joints[i], joints[i]
		p := fmt.Sprintf("joint %d", i)
		d.eq(p+" name", s.Name, g.Name)
		d.eq(p+" bodies", fmt.Sprint(s.Body1, s.Body2), fmt.Sprint(g.Body1-1, g.Body2-1))
		d.v3d(p+" position", mirror(s.Position), g.Position.Vec3(), 1e-6)
		d.v3(p+" rotation", &s.Rotation, g.Rotation.Vec3(), 0)
		d.v3(p+" linear spring", &s.LinerSpring, g.LinerSpring.Vec3(), 0)
		d.v3(p+" angular spring", &s.AngulerSpring, g.AngulerSpring.Vec3(), 0)
	}
	t.Expect(d.empty(), "physics", "%s", d)
	t.State(mqoBytes(out), mqxBytes(out))
}

func init() {
	Register(&Property{ID: "C13", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "models", Quick: 2, Thorough: 3, Gen: gen13("fmwbop"), Check: c13Check, What: "every model x options within the deviation bound"},
		{Name: "morphs", Quick: 4, Thorough: 5, Gen: gen13("fo"), Check: c13Check, What: "face groups x morph sets"},
		{Name: "weights", Quick: 3, Thorough: 4, Gen: gen13("fw"), Check: c13Check, What: "face groups x weight patterns"},
		{Name: "skeleton", Quick: 4, Thorough: 6, Gen: gen13("b"), Check: c13Check, What: "bone hierarchies, IK and inherited rotations x options"},
		{Name: "physics", Quick: 3, Thorough: 4, Gen: gen13("p"), Check: c13Check, What: "rigid bodies and joints"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: gen13Sizes, Check: c13Check, What: "sections with n elements, n around every power of two up to 66000"},
	}})
}
