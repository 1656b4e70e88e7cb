package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

const scale14 = 1.0 / 80

func gen14(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		mk := frozen(c, func(c *Chooser) *mqo.Document {
			doc := gen10Doc(focus)(c)
			if strings.Contains(focus, "r") {
				bodies14(c, doc)
			}
			return doc
		})
		return &case10{mk: mk, what: c.Trace()}
	}
}

func bodies14(c *Chooser, doc *mqo.Document) {
	pp := mqo.GetPhysicsPlugin(doc)
	n := c.Choose("nbody", 4)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("body%d.", i)
		b := &mqo.PhysicsBody{Name: fmt.Sprint("剛体", i), Mass: 1 + float32(i), LinearDamping: 0.25, AngularDamping: 0.75, Restitution: 0.125, Friction: 0.625}
		b.Kinematic = c.Flag(l + "kinematic")
		b.CollisionGroup = Pick(c, l+"group", i, 15)
		b.CollisionMask = Pick(c, l+"mask", 0xff, 0, 0xffff)
		b.TargetBoneID = Pick(c, l+"bone", 1, 0, 2, 99)
		ns := Pick(c, l+"shapes", 1, 2, 3, 0)
		for k := 0; k < ns; k++ {
			b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: Pick(c, fmt.Sprintf("%sshape%d", l, k), "BOX", "SPHERE", "CAPSULE"), Size: mqo.Vector3XmlAttr(v3(40, 80, float32(20*(k+1)))), Position: mqo.Vector3XmlAttr(v3(float32(80*i), 8, 160)), Rotation: mqo.Vector3XmlAttr(v3(0.1, 0.2, 0.3))})
		}
		pp.Bodies = append(pp.Bodies, b)
	}
}

// strip14 is the model without weights.
func strip14(doc *mmd.Document) *mmd.Document {
	r := *doc
	r.Vertexes = nil
	for _, v := range doc.Vertexes {
		x := *v
		x.Bones, x.BoneWeights = nil, nil
		r.Vertexes = append(r.Vertexes, &x)
	}
	return &r
}

func c14Check(t *T, v any) {
	c := v.(*case10)
	src := c.mk()
	out, err := converter.NewMQOToMMDConverter(nil).Convert(c.mk())
	t.Must(err == nil, "error", "%v", err)
	again, _ := converter.NewMQOToMMDConverter(nil).Convert(c.mk())
	t.Expect(diffMMD(out, again).empty(), "deterministic", "a second conversion gives another result: %s", diffMMD(out, again))
	var buf bytes.Buffer
	t.Must(mmd.WritePMX(out, &buf) == nil, "write", "the model cannot be written")
	back, err := mmd.Parse(bytes.NewReader(buf.Bytes()))
	t.Must(err == nil, "reread", "the written model cannot be read: %v", err)
	diff := diffMMD(strip14(out), strip14(back))
	for i := 0; diff.empty() && i < len(out.Vertexes); i++ {
		a, b := mmdWeights(out.Vertexes[i], len(out.Bones)), mmdWeights(back.Vertexes[i], len(out.Bones))
		sum := 0.0
		for _, w := range a {
			sum += w
		}
		for k, w := range a {
			if math.Abs(sum-1) < 1e-5 && math.Abs(w-b[k]) > 1e-5 {
				diff.add("vertex %d: weights %v, were %v", i, b, a)
			}
		}
	}
	t.Expect(diff.empty(), "reread", "the written model reads differently: %s", diff)
	out, _ = converter.NewMQOToMMDConverter(nil).Convert(c.mk()) // as converted, not as written

	_, targets := objs10(src, converter.MQOToGLTFOption{})
	byName := map[string]*mqo.Object{}
	for _, o := range src.Objects {
		byName[o.Name] = o
	}
	M := func(p *geom.Vector3) v3d { return mirror(*p).mul(scale14) }

	// structure
	d := &diffs{}
	n := 0
	for i, m := range out.Materials {
		n += m.Count
		if m.Count%3 != 0 || m.Count < 0 {
			d.add("material %d has %d vertex references", i, m.Count)
		}
		if m.TextureID >= len(out.Textures) || m.EnvID >= len(out.Textures) {
			d.add("material %d refers to texture %d %d", i, m.TextureID, m.EnvID)
		}
	}
	d.eq("vertex references of all materials", len(out.Faces)*3, n)
	for i, f := range out.Faces {
		for _, x := range f.Verts {
			if x < 0 || x >= len(out.Vertexes) {
				d.add("face %d refers to vertex %d", i, x)
			}
		}
	}
	for i, b := range out.Bones {
		if b.ParentID < -1 || b.ParentID >= len(out.Bones) || b.TailID < -1 || b.TailID >= len(out.Bones) {
			d.add("bone %d has parent %d, tail %d", i, b.ParentID, b.TailID)
		}
	}
	for i, m := range out.Morphs {
		for _, x := range m.Vertex {
			if x.Target < 0 || x.Target >= len(out.Vertexes) {
				d.add("morph %d refers to vertex %d", i, x.Target)
			}
		}
	}
	for i, x := range out.Vertexes {
		if len(x.Bones) > 4 || len(x.Bones) != len(x.BoneWeights) {
			d.add("vertex %d has %d bones and %d weights", i, len(x.Bones), len(x.BoneWeights))
		}
		for _, b := range x.Bones {
			if b < 0 || b >= len(out.Bones) {
				d.add("vertex %d has bone %d", i, b)
			}
		}
	}
	t.Must(d.empty(), "structure", "%s", d)

	// materials
	d = &diffs{}
	d.eq("number of materials", len(src.Materials), len(out.Materials))
	for i := 0; i < len(src.Materials) && i < len(out.Materials); i++ {
		s, g := src.Materials[i], out.Materials[i]
		p := fmt.Sprintf("material %d", i)
		d.eq(p+" name", s.Name, g.Name)
		d.eq(p+" color", s.Color, g.Color)
		d.eq(p+" power", s.Power, g.Specularity)
		d.eq(p+" double sided", s.DoubleSided, g.Flags&mmd.MaterialFlagDoubleSided != 0)
		tex := ""
		if g.TextureID >= 0 {
			tex = out.Textures[g.TextureID]
		}
		d.eq(p+" texture", s.Texture, tex)
		d.eq(p+" sphere map", true, g.EnvID < 0 || g.EnvMode == 0)
	}
	t.Must(d.empty(), "materials", "%s", d)

	// bones
	d = &diffs{}
	bones := mqo.GetBonePlugin(src).Bones()
	d.eq("number of bones", len(bones), len(out.Bones))
	id := map[int]int{}
	for i, b := range bones {
		id[b.ID] = i
	}
	for i := 0; i < len(bones) && i < len(out.Bones); i++ {
		p := fmt.Sprintf("bone %d", i)
		d.eq(p+" name", bones[i].Name, out.Bones[i].Name)
		d.v3d(p+" position", M(&bones[i].Pos.Vector3), &out.Bones[i].Pos, 1e-5)
		w, ok := id[bones[i].Parent]
		if !ok {
			w = -1
		}
		d.eq(p+" parent", w, out.Bones[i].ParentID)
	}
	t.Must(d.empty(), "bones", "%s", d)

	// morph names
	d = &diffs{}
	var names []string
	base := map[string]map[string]bool{} // object -> targets
	for _, l := range mqo.GetMorphPlugin(src).Morphs() {
		for _, x := range l.Target {
			names = append(names, x.Name)
			if base[l.Base] == nil {
				base[l.Base] = map[string]bool{}
			}
			base[l.Base][x.Name] = true
		}
	}
	var got []string
	off := map[string]map[int]v3d{}
	for _, m := range out.Morphs {
		got = append(got, m.Name)
		off[m.Name] = map[int]v3d{}
		for _, x := range m.Vertex {
			off[m.Name][x.Target] = off[m.Name][x.Target].add(v3d{float64(x.Offset.X), float64(x.Offset.Y), float64(x.Offset.Z)})
		}
		d.eq("type of morph "+m.Name, byte(1), m.MorphType)
	}
	d.eq("morphs", fmt.Sprint(names), fmt.Sprint(got))
	t.Must(d.empty(), "morphs", "%s", d)

	// faces; every corner carries its weights and displacements along
	d = &diffs{}
	var want []*eface
	type vinfo struct {
		pos     v3d
		weights map[string]float64
		entries int
		moves   map[string]v3d
		where   string
	}
	var infos []vinfo
	for oi, o := range src.Objects {
		if !o.Visible || targets[o.Name] {
			continue
		}
		sm := smooth23(o)
		ws, entries := weights12(src, oi)
		mine := map[int]bool{}
		for _, f := range o.Faces {
			if len(f.Verts) < 3 || f.Material < 0 || f.Material >= len(src.Materials) {
				continue
			}
			e := &eface{mat: fmt.Sprint(f.Material), left: len(f.Verts) - 2}
			var ps []v3d
			for i, x := range f.Verts {
				mine[x] = true
				k := corner{pos: M(o.Vertexes[x]), uv: &[2]float64{}}
				if len(f.UVs) > 0 {
					k.uv = &[2]float64{float64(f.UVs[i].X), float64(f.UVs[i].Y)}
				}
				if s := sm[x]; !math.IsNaN(s.len()) && s.len() > 0.5 {
					nn := v3d{s[0], s[1], -s[2]}
					k.normal = &nn
				}
				e.corners = append(e.corners, k)
				ps = append(ps, k.pos)
			}
			e.area = areaOf(ps...)
			want = append(want, e)
		}
		for x := range o.Vertexes {
			if !mine[x] {
				continue
			}
			in := vinfo{pos: M(o.Vertexes[x]), moves: map[string]v3d{}, where: fmt.Sprintf("vertex %d of %q", x, o.Name)}
			if ws != nil {
				in.weights, in.entries = ws[x], entries[x]
			}
			for tn := range base[o.Name] {
				if to := byName[tn]; to != nil && x < len(to.Vertexes) {
					in.moves[tn] = M(to.Vertexes[x]).sub(in.pos)
				}
			}
			infos = append(infos, in)
		}
	}
	var tris []eface
	at := 0
	for mi, m := range out.Materials {
		for k := 0; k < m.Count/3; k, at = k+1, at+1 {
			e := eface{mat: fmt.Sprint(mi)}
			for _, vi := range out.Faces[at].Verts {
				x := out.Vertexes[vi]
				nn := v3g(&x.Normal)
				e.corners = append(e.corners, corner{pos: v3g(&x.Pos), uv: &[2]float64{float64(x.UV.X), float64(x.UV.Y)}, normal: &nn})
			}
			tris = append(tris, e)
		}
	}
	coverage(d, "model", want, tris, false, 1e-5)
	t.Expect(d.empty(), "faces", "%s", d)

	// vertices
	d = &diffs{}
	var ix xindex
	for k := range infos {
		ix.add(infos[k].pos, k)
	}
	ix.sort()
	for vi, x := range out.Vertexes {
		var best *vinfo
		for _, k := range ix.near(v3g(&x.Pos), 2e-5) {
			if infos[k].pos.near(v3g(&x.Pos), 1e-5) {
				best = &infos[k]
				g := map[string]float64{}
				for i, b := range x.Bones {
					g[out.Bones[b].Name] += float64(x.BoneWeights[i])
				}
				if best.entries > 4 {
					for b, w := range g {
						if math.Abs(w-best.weights[b]) > 1e-5 {
							d.add("%s: bone %s has weight %v instead of %v", best.where, b, w, best.weights[b])
						}
					}
				} else {
					for b, w := range best.weights {
						if math.Abs(w-g[b]) > 1e-5 {
							d.add("%s: bone %s has weight %v instead of %v", best.where, b, g[b], w)
						}
						delete(g, b)
					}
					for b, w := range g {
						if w != 0 {
							d.add("%s: unexpected weight %v of bone %s", best.where, w, b)
						}
					}
				}
				for m := range off {
					if !off[m][vi].near(best.moves[m], 1e-5) {
						d.add("%s: morph %q moves it by %v instead of %v", best.where, m, off[m][vi], best.moves[m])
					}
				}
			}
		}
		if best == nil {
			d.add("vertex %d at %v is not a vertex of the document", vi, x.Pos)
		}
	}
	t.Expect(d.empty(), "vertices", "%s", d)

	// physics
	d = &diffs{}
	k := 0
	if pp := physicsPlugin(src); pp != nil {
		for bi, b := range pp.Bodies {
			for _, s := range b.Shapes {
				if k >= len(out.Bodies) {
					d.add("body %d is missing", bi)
					continue
				}
				g := out.Bodies[k]
				k++
				p := fmt.Sprintf("body %d", bi)
				if !strings.HasPrefix(g.Name, b.Name) {
					d.add("%s: name %q", p, g.Name)
				}
				d.eq(p+" shape", map[string]byte{"SPHERE": 0, "BOX": 1, "CAPSULE": 2}[s.Type], g.Shape)
				d.v3d(p+" size", v3g(s.Size.Vec3()).mul(scale14), &g.Size, 1e-6)
				d.v3d(p+" position", M(s.Position.Vec3()), &g.Position, 1e-6)
				d.v3(p+" rotation", s.Rotation.Vec3(), &g.Rotation, 1e-6)
				bone, ok := id[b.TargetBoneID]
				if !ok {
					bone = -1
				}
				d.eq(p+" bone", bone, g.Bone)
				d.eq(p+" kinematic", b.Kinematic, g.Mode == 0)
				d.eq(p+" values", fmt.Sprint(b.Mass, b.LinearDamping, b.AngularDamping, b.Restitution, b.Friction, b.CollisionGroup, b.CollisionMask), fmt.Sprint(g.Mass, g.LinearDamping, g.AngularDamping, g.Restitution, g.Friction, g.Group, g.GroupTarget))
			}
		}
	}
	d.eq("number of bodies", k, len(out.Bodies))
	t.Expect(d.empty(), "physics", "%s", d)
	t.State(buf.Bytes())
}

// there and back: MMD -> MQO -> (80 times) -> MMD
func gen14Back(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		return &case13{mk: frozen13(c, gen13Doc(focus, true)), what: c.Trace()}
	}
}

func c14CheckBack(t *T, v any) {
	c := v.(*case13)
	src := c.mk()
	q := converter.NewMMDToMQOConverter(nil).Convert(c.mk())
	q.ApplyTransform(geom.NewScaleMatrix4(80, 80, 80))
	out, err := converter.NewMQOToMMDConverter(nil).Convert(q)
	t.Must(err == nil, "error", "%v", err)
	var buf bytes.Buffer
	t.Must(mmd.WritePMX(out, &buf) == nil, "write", "the model cannot be written")

	flat := func(doc *mmd.Document) (r []eface) {
		for _, e := range mmdFaces(doc, 1) {
			r = append(r, *e)
		}
		return
	}
	d := &diffs{}
	n := 0
	for _, m := range out.Materials {
		n += m.Count
	}
	t.Must(n == len(out.Faces)*3, "structure", "materials have %d vertex references, %d faces", n, len(out.Faces))
	coverage(d, "there and back", mmdFaces(src, 1), flat(out), false, 1e-5)
	t.Expect(d.empty(), "faces", "%s", d)

	d = &diffs{}
	if len(out.Materials) < len(src.Materials) {
		t.Fatal("materials", "%d materials instead of %d", len(out.Materials), len(src.Materials))
	}
	tex := func(doc *mmd.Document, m *mmd.Material) string {
		if m.TextureID < 0 {
			return ""
		}
		return doc.Textures[m.TextureID]
	}
	for i, s := range src.Materials {
		g := out.Materials[i]
		d.eq(fmt.Sprintf("material %d", i), fmt.Sprint(s.Name, s.Color, s.Specularity, s.Flags&1, tex(src, s), s.Count), fmt.Sprint(g.Name, g.Color, g.Specularity, g.Flags&1, tex(out, g), g.Count))
	}
	d.eq("number of bones", len(src.Bones), len(out.Bones))
	for i := 0; i < len(src.Bones) && i < len(out.Bones); i++ {
		s, g := src.Bones[i], out.Bones[i]
		d.eq(fmt.Sprintf("bone %d", i), fmt.Sprint(s.Name, s.ParentID), fmt.Sprint(g.Name, g.ParentID))
		d.v3(fmt.Sprintf("bone %d position", i), &s.Pos, &g.Pos, 1e-5)
	}
	t.Expect(d.empty(), "attributes", "%s", d)

	// vertices: the source positions are unique
	d = &diffs{}
	moves := func(doc *mmd.Document) map[string]map[int]v3d {
		r := map[string]map[int]v3d{}
		for _, m := range doc.Morphs {
			r[m.Name] = map[int]v3d{}
			for _, x := range m.Vertex {
				if x.Target >= 0 {
					r[m.Name][x.Target] = r[m.Name][x.Target].add(v3g(&x.Offset))
				}
			}
		}
		return r
	}
	ms, mg := moves(src), moves(out)
	for gi, g := range out.Vertexes {
		si := -1
		for k, s := range src.Vertexes {
			if v3g(&s.Pos).near(v3g(&g.Pos), 1e-5) {
				si = k
			}
		}
		if si < 0 {
			d.add("vertex at %v is new", g.Pos)
			continue
		}
		a, b := mmdWeights(src.Vertexes[si], len(src.Bones)), mmdWeights(g, len(out.Bones))
		for k, w := range a {
			if math.Abs(w-b[k]) > 1e-5 {
				d.add("vertex %d: weights %v, were %v", si, b, a)
				break
			}
		}
		if len(a) != len(b) {
			d.add("vertex %d: weights %v, were %v", si, b, a)
		}
		for _, m := range src.Morphs {
			if m.MorphType == 1 && !ms[m.Name][si].near(mg[m.Name][gi], 1e-5) {
				d.add("vertex %d: morph %q moves it by %v, was %v", si, m.Name, mg[m.Name][gi], ms[m.Name][si])
			}
		}
	}
	t.Expect(d.empty(), "vertices", "%s", d)

	d = &diffs{}
	d.eq("number of bodies", len(src.Bodies), len(out.Bodies))
	for i := 0; i < len(src.Bodies) && i < len(out.Bodies); i++ {
		s, g := *src.Bodies[i], *out.Bodies[i]
		p := fmt.Sprintf("body %d", i)
		d.v3(p+" size", &s.Size, &g.Size, 1e-5)
		d.v3(p+" position", &s.Position, &g.Position, 1e-5)
		d.v3(p+" rotation", &s.Rotation, &g.Rotation, 1e-5)
		d.eq(p+" kinematic", s.Mode == 0, g.Mode == 0)
		s.Size, s.Position, s.Rotation, s.Mode = g.Size, g.Position, g.Rotation, g.Mode
		d.eq(p, s, g)
	}
	t.Expect(d.empty(), "physics", "%s", d)
	t.State(buf.Bytes())
}

func init() {
	Register(&Property{ID: "C14", Level: "model_checking", Setup: writeTextures, Scenarios: []*Scenario{
		{Name: "geometry", Quick: 3, Thorough: 4, Gen: gen14("gom"), Check: c14Check, What: "object tree, faces, UVs, normals, materials"},
		{Name: "skinning", Quick: 3, Thorough: 4, Gen: gen14("sg"), Check: c14Check, What: "skeletons x weight patterns x identifiers x faces"},
		{Name: "morphs", Quick: 4, Thorough: 5, Gen: gen14("tog"), Check: c14Check, What: "morph lists x base shapes"},
		{Name: "physics", Quick: 3, Thorough: 4, Gen: gen14("rs"), Check: c14Check, What: "rigid bodies"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: gen10Sizes(0), Check: c14Check, What: "sections with n elements, n around every power of two up to 66000"},
		{Name: "there-and-back", Quick: 3, Thorough: 4, Gen: gen14Back("fmwbop"), Check: c14CheckBack, What: "MMD to MQO and back"},
	}})
}
