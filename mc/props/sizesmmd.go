package props

import (
	"fmt"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"

	. "modelconvmc/engine"
)

// mmdBase: nv vertices in a strip, one face each, nm materials, nb bones.
func mmdBase(nv, nm, nb int) *mmd.Document {
	doc := mmd.NewDocument()
	doc.Name = "sizes"
	for i := 0; i < nv; i++ {
		v := &mmd.Vertex{Pos: v3(float32(i/2%1024), float32(i%2+3*(i/2048)), float32(i%5)*0.125), UV: geom.Vector2{X: float32(i%64) / 64, Y: float32(i/64%64) / 64}, Normal: v3(0, 0, 1), EdgeScale: 1, Bones: []int{i % nb}, BoneWeights: []float32{1}}
		doc.Vertexes = append(doc.Vertexes, v)
	}
	for i := 0; i+2 < nv; i++ {
		doc.Faces = append(doc.Faces, &mmd.Face{Verts: [3]int{i, i + 1 + i%2, i + 2 - i%2}})
	}
	nf := len(doc.Faces)
	for i := 0; i < nm; i++ {
		m := &mmd.Material{Name: fmt.Sprint("m", i), Color: geomV4(1, 0.5, float32(i%8)*0.125, 1), Specularity: 5, Specular: v3(0.1, 0.2, 0.3), AColor: v3(0.5, 0.5, 0.5), TextureID: -1, EnvID: -1, Toon: -1, EdgeScale: 1}
		m.Count = 3 * (nf*(i+1)/nm - nf*i/nm)
		doc.Materials = append(doc.Materials, m)
	}
	for i := 0; i < nb; i++ {
		doc.Bones = append(doc.Bones, &mmd.Bone{Name: fmt.Sprint("b", i), Pos: v3(float32(i)*0.5, float32(i%9), float32(i%7)*-0.25), ParentID: i - 1, TailID: -1, Flags: mmd.BoneFlagVisible | mmd.BoneFlagEnabled | mmd.BoneFlagRotatable})
	}
	return doc
}

func mmdBody(i, bone int) *mmd.RigidBody {
	return &mmd.RigidBody{Name: fmt.Sprint("r", i), Bone: bone, Mass: 1 + float32(i), Size: v3(0.5, 0.75, 1.25), Position: v3(float32(i), 2, 3), Rotation: v3(0.1, -0.2, 0.3), LinearDamping: 0.25, AngularDamping: 0.75, Restitution: 0.125, Friction: 0.625, Group: i % 16, GroupTarget: 0xff00, Mode: byte(i % 3), Shape: byte(i % 3)}
}

type mmdSize struct {
	name string
	max  int
	mk   func(n int) *mmd.Document
}

var mmdSizes = []mmdSize{
	{"vertices", 66000, func(n int) *mmd.Document { return mmdBase(n+2, 2, 2) }},
	{"materials", 1030, func(n int) *mmd.Document {
		doc := mmdBase(n+2, n, 1)
		for i, m := range doc.Materials {
			doc.Textures = append(doc.Textures, fmt.Sprint("t", i, ".png"))
			m.TextureID = n - 1 - i
		}
		return doc
	}},
	{"bones", 1030, func(n int) *mmd.Document {
		doc := mmdBase(n+2, 1, n)
		for i, v := range doc.Vertexes {
			v.Bones, v.BoneWeights = []int{i % n, (i + n/2) % n}, []float32{0.75, 0.25}
			if n == 1 {
				v.Bones, v.BoneWeights = []int{0}, []float32{1}
			}
		}
		return doc
	}},
	{"links", 300, func(n int) *mmd.Document {
		doc := mmdBase(5, 1, n+2)
		b := doc.Bones[n+1]
		b.Flags |= mmd.BoneFlagEnableIK
		b.ParentID = -1
		b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = n, 40, 0.5
		for i := 0; i < n; i++ {
			b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: n - 1 - i})
		}
		return doc
	}},
	{"morphs", 300, func(n int) *mmd.Document {
		doc := mmdBase(10, 1, 1)
		for i := 0; i < n; i++ {
			doc.Morphs = append(doc.Morphs, &mmd.Morph{Name: fmt.Sprint("o", i), MorphType: 1, PanelType: 2, Vertex: []*mmd.MorphVertex{{Target: i % 10, Offset: v3(float32(1+i), 0.5, -0.125)}}})
		}
		return doc
	}},
	{"offsets", 4097, func(n int) *mmd.Document {
		doc := mmdBase(n+2, 1, 1)
		m := &mmd.Morph{Name: "o", MorphType: 1, PanelType: 2}
		for i := 0; i < n; i++ {
			m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: n + 1 - i, Offset: v3(float32(1+i%100), 0.5, -0.125)})
		}
		doc.Morphs = append(doc.Morphs, m)
		return doc
	}},
	{"uvoffsets", 1030, func(n int) *mmd.Document {
		doc := mmdBase(n+2, 1, 1)
		m := &mmd.Morph{Name: "o", MorphType: 3, PanelType: 2}
		for i := 0; i < n; i++ {
			m.UV = append(m.UV, &mmd.MorphUV{Target: i, Value: geomV4(0.25, 0.125*float32(1+i%8), 0, 0)})
		}
		doc.Morphs = append(doc.Morphs, m)
		return doc
	}},
	{"groups", 300, func(n int) *mmd.Document {
		doc := mmdBase(10, 1, 1)
		g := &mmd.Morph{Name: "g", MorphType: 0, PanelType: 2}
		for i := 0; i < n; i++ {
			doc.Morphs = append(doc.Morphs, &mmd.Morph{Name: fmt.Sprint("o", i), MorphType: 1, PanelType: 2, Vertex: []*mmd.MorphVertex{{Target: i % 10, Offset: v3(float32(1+i), 0.5, -0.125)}}})
			g.Group = append(g.Group, &mmd.MorphGroup{Target: i, Weight: float32(i%8) * 0.125})
		}
		doc.Morphs = append(doc.Morphs, g)
		return doc
	}},
	{"bodies", 513, func(n int) *mmd.Document {
		doc := mmdBase(10, 1, n)
		for i := 0; i < n; i++ {
			doc.Bodies = append(doc.Bodies, mmdBody(i, n-1-i))
		}
		return doc
	}},
	{"joints", 513, func(n int) *mmd.Document {
		doc := mmdBase(10, 1, 1)
		for i := 0; i < n+1; i++ {
			doc.Bodies = append(doc.Bodies, mmdBody(i, 0))
		}
		for i := 0; i < n; i++ {
			doc.Joints = append(doc.Joints, &mmd.Joint{Name: fmt.Sprint("j", i), Body1: i, Body2: i + 1, Position: v3(1, 2, float32(3+i)), Rotation: v3(0.4, 0.5, 0.6), PositionMin: v3(-1, -2, -3), PositionMax: v3(1, 2, 3), RotationMin: v3(-1, -2, -3), RotationMax: v3(1, 2, 3), LinerSpring: v3(19, 20, 21), AngulerSpring: v3(22, 23, 24)})
		}
		return doc
	}},
	{"names", 1030, func(n int) *mmd.Document {
		doc := mmdBase(10, 2, 2)
		doc.Name = strings.Repeat("N", n)
		doc.NameEn = strings.Repeat("E", n+1)
		doc.Comment = strings.Repeat("comment ", n)
		doc.Materials[1].Name = strings.Repeat("m", n)
		doc.Bones[1].Name = strings.Repeat("骨", n)
		doc.Textures = []string{strings.Repeat("t", n) + ".png"}
		doc.Materials[0].TextureID = 0
		doc.Morphs = []*mmd.Morph{{Name: strings.Repeat("o", n), MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: 1, Offset: v3(1, 2, 3)}}}}
		return doc
	}},
}

func mmdSizeCase(c *Chooser, only ...string) (string, int, func() *mmd.Document) {
	var l []mmdSize
	for _, s := range mmdSizes {
		if len(only) == 0 || contains(only, s.name) {
			l = append(l, s)
		}
	}
	s := l[c.Free("section", len(l))]
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= s.max {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	return fmt.Sprint(s.name, " ", n), n, func() *mmd.Document { return s.mk(n) }
}

func gen13Sizes(c *Chooser) any {
	what, _, mk := mmdSizeCase(c)
	return &case13{mk: mk, what: what}
}

func c03Sizes(c *Chooser) any {
	_, _, mk := mmdSizeCase(c)
	return &mmdCase{doc: mk()}
}

func c04Sizes(c *Chooser) any {
	what, n, mk := mmdSizeCase(c)
	doc := mk()
	w := byte(4)
	if n < 120 && c.FreeFlag("narrow") {
		w = 1
	} else if n < 32000 {
		w = 2
	}
	info := []byte{byte(c.Free("text", 2)), 0, w, w, w, w, w, w}
	doc.Header.Info = info
	return &mmdCase{doc: doc, data: encodePMX(doc, info, pmxExtra{displayGroups: n % 300}), enc: " " + what}
}

func c04PMDSizes(c *Chooser) any {
	kind := c.Free("section", 7)
	l := append(append([]int{}, sizesAll...), 32766, 32767, 32768, 40000, 65533)
	n := l[c.Free("size", len(l))]
	max := []int{65533, 1030, 1030, 250, 250, 65533, 255}[kind]
	if n > max {
		return nil
	}
	nv, nm, nb := 6, 1, 2
	switch kind {
	case 0:
		nv = n + 2
	case 1:
		nv, nm = n+2, n
	case 2:
		nb = n
	case 3:
		nb = n + 2
	case 5:
		nv = n + 2
	}
	doc := mmdBase(nv, nm, nb)
	doc.Header = &mmd.Header{Format: []byte("Pmd"), Version: 1}
	for _, v := range doc.Vertexes {
		v.Bones, v.BoneWeights, v.EdgeScale = []int{v.Bones[0], (v.Bones[0] + 1) % nb}, []float32{0.75, 1 - float32(0.75)}, 0
	}
	for i, m := range doc.Materials {
		m.Name = fmt.Sprint("mat", i+1)
		m.Toon, m.EnvID, m.EdgeScale = 0, 0, 0
		m.Flags = 0
	}
	for _, b := range doc.Bones {
		b.Flags = 0
	}
	switch kind {
	case 1:
		for i, m := range doc.Materials {
			m.TextureID = i
			doc.Textures = append(doc.Textures, fmt.Sprint("t", i, ".bmp"))
		}
	case 3:
		b := doc.Bones[n+1]
		b.IK.TargetID, b.IK.Loop = n, 15
		for i := 0; i < n; i++ {
			b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: n - 1 - i})
		}
	case 4:
		for i := 0; i < n; i++ {
			doc.Morphs = append(doc.Morphs, &mmd.Morph{Name: fmt.Sprint("o", i), MorphType: 1, PanelType: 2, Vertex: []*mmd.MorphVertex{{Target: i % 6, Offset: v3(float32(1+i), 0.5, -0.125)}}})
		}
	case 5:
		m := &mmd.Morph{Name: "o", MorphType: 1, PanelType: 2}
		for i := 0; i < n; i++ {
			m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: i, Offset: v3(float32(1+i), 0.5, -0.125)})
		}
		doc.Morphs = append(doc.Morphs, m)
	case 6:
		doc.Comment = strings.Repeat("c", n)
	}
	var base []int
	for i := nv - 1; i >= 0; i-- {
		base = append(base, i)
	}
	return &mmdCase{doc: doc, data: encodePMD(doc, nil, base, 0xfd), enc: " pmd"}
}

func c04VMDSizes(c *Chooser) any {
	a := &mmd.Animation{Name: "m"}
	l := append(append([]int{}, sizesAll...), 65535, 65536, 65537)
	n := l[c.Free("size", len(l))]
	k := c.Free("section", 2)
	for i := 0; i < n; i++ {
		if k == 0 {
			s := &mmd.AnimationBoneSample{Target: fmt.Sprint("b", i%50), Frame: i, Position: v3(float32(i), 2, 3), Rotation: geomV4(0, 0, 0, 1)}
			for j := range s.Params {
				s.Params[j] = byte(j + i)
			}
			a.Bone = append(a.Bone, s)
		} else {
			a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: fmt.Sprint("o", i%50), Frame: i, Value: float32(i%100) / 64})
		}
	}
	return &vmdCase{a: a, data: encodeVMD(a, 0, 0)}
}
