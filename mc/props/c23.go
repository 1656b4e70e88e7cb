package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// ---- harness-side copy of a document

func cpV(v *geom.Vector3) *geom.Vector3 {
	if v == nil {
		return nil
	}
	c := *v
	return &c
}

func cpObj(o *mqo.Object) *mqo.Object {
	c := *o
	c.Scale, c.Rotation, c.Translation, c.Color = cpV(o.Scale), cpV(o.Rotation), cpV(o.Translation), cpV(o.Color)
	c.Vertexes = nil
	for _, v := range o.Vertexes {
		c.Vertexes = append(c.Vertexes, cpV(v))
	}
	c.Faces = nil
	for _, f := range o.Faces {
		g := *f
		g.Verts = append([]int{}, f.Verts...)
		g.UVs = append([]geom.Vector2{}, f.UVs...)
		g.Normals = nil
		for _, n := range f.Normals {
			g.Normals = append(g.Normals, cpV(n))
		}
		c.Faces = append(c.Faces, &g)
	}
	c.VertexByUID = map[int]int{}
	for k, v := range o.VertexByUID {
		c.VertexByUID[k] = v
	}
	c.Extra = map[string]interface{}{}
	for k, v := range o.Extra {
		c.Extra[k] = v
	}
	if o.InternalTransform != nil {
		m := *o.InternalTransform
		c.InternalTransform = &m
	}
	return &c
}

type bone23 struct {
	id, parent int
	name       string
	pos, off   geom.Vector3
	w          map[string]float32 // object id/vertex id
	lists      map[int]int        // object id -> number of lists
}

type state23 struct {
	objs   []*mqo.Object
	mats   []mqo.Material
	bones  []*bone23
	morphs []string
	bodies []*mqo.PhysicsBody
	joints []*mqo.PhysicsJointConstraint
}

func snap23(doc *mqo.Document) *state23 {
	s := &state23{}
	for _, o := range doc.Objects {
		s.objs = append(s.objs, cpObj(o))
	}
	for _, m := range doc.Materials {
		s.mats = append(s.mats, *m)
	}
	if bp := bonePlugin(doc); bp != nil {
		for _, b := range bp.Bones() {
			n := &bone23{id: b.ID, parent: b.Parent, name: b.Name, pos: b.Pos.Vector3, off: b.RotationOffset, w: map[string]float32{}, lists: map[int]int{}}
			for _, l := range b.Weights {
				n.lists[l.ObjectID]++
				for _, v := range l.Vertexes {
					n.w[fmt.Sprint(l.ObjectID, "/", v.VertexID)] += v.Weight
				}
			}
			s.bones = append(s.bones, n)
		}
	}
	if mp := morphPlugin(doc); mp != nil {
		for _, m := range mp.Morphs() {
			s.morphs = append(s.morphs, morphStr(m))
		}
	}
	if pp := physicsPlugin(doc); pp != nil {
		for _, b := range pp.Bodies {
			c := *b
			c.Shapes = nil
			for _, sh := range b.Shapes {
				x := *sh
				c.Shapes = append(c.Shapes, &x)
			}
			s.bodies = append(s.bodies, &c)
		}
		for _, j := range pp.Constraints {
			x := *j
			s.joints = append(s.joints, &x)
		}
	}
	return s
}

func local23(o *mqo.Object) m4 {
	r := v3g(o.Rotation)
	return m4t(v3g(o.Translation)).mul(m4r(1, r[1])).mul(m4r(0, r[0])).mul(m4r(2, r[2])).mul(m4s(v3g(o.Scale)))
}

func parents23(objs []*mqo.Object) []int {
	p := make([]int, len(objs))
	for i, o := range objs {
		p[i] = -1
		for j := i - 1; j >= 0; j-- {
			if objs[j].Depth < o.Depth {
				p[i] = j
				break
			}
		}
	}
	return p
}

func world23(objs []*mqo.Object) []m4 {
	w := make([]m4, len(objs))
	for i, p := range parents23(objs) {
		w[i] = local23(objs[i])
		if p >= 0 {
			w[i] = w[p].mul(w[i])
		}
	}
	return w
}

const tolN23 = 2e-4

// tol is the float32 tolerance for coordinates of the document's size.
func (s *state23) tol() float64 {
	mag := 1000.0
	v := func(p geom.Vector3) {
		mag = math.Max(mag, math.Max(math.Abs(float64(p.X)), math.Max(math.Abs(float64(p.Y)), math.Abs(float64(p.Z)))))
	}
	for _, o := range s.objs {
		for _, p := range o.Vertexes {
			v(*p)
		}
	}
	for _, b := range s.bones {
		v(b.pos)
	}
	return 2e-4 * mag / 1000
}

// wtol is the tolerance for the elements of a matrix.
func wtol23(m m4) float64 {
	mag := 10.0
	for _, r := range m {
		for _, x := range r {
			mag = math.Max(mag, math.Abs(x))
		}
	}
	return 5e-4 * mag / 10
}

func (s *state23) diff(g *state23, worlds []m4, skipWorld map[int]bool, checkRot bool) *diffs {
	d := &diffs{}
	tol23 := s.tol()
	d.eq("number of objects", len(s.objs), len(g.objs))
	for i := 0; i < len(s.objs) && i < len(g.objs); i++ {
		a, b := s.objs[i], g.objs[i]
		p := fmt.Sprintf("object %d", i)
		d.eq(p+" name", a.Name, b.Name)
		d.eq(p+" uid", a.UID, b.UID)
		d.eq(p+" depth", a.Depth, b.Depth)
		d.eq(p+" flags", fmt.Sprint(a.Visible, a.Locked, a.Folding, a.Shading, a.Facet, a.Patch, a.Mirror), fmt.Sprint(b.Visible, b.Locked, b.Folding, b.Shading, b.Facet, b.Patch, b.Mirror))
		d.eq(p+" number of vertices", len(a.Vertexes), len(b.Vertexes))
		for k := 0; k < len(a.Vertexes) && k < len(b.Vertexes); k++ {
			d.v3(fmt.Sprintf("%s vertex %d", p, k), a.Vertexes[k], b.Vertexes[k], tol23)
		}
		d.eq(p+" ids", fmt.Sprint(a.VertexByUID), fmt.Sprint(b.VertexByUID))
		d.eq(p+" number of faces", len(a.Faces), len(b.Faces))
		for k := 0; k < len(a.Faces) && k < len(b.Faces); k++ {
			f, h := a.Faces[k], b.Faces[k]
			q := fmt.Sprintf("%s face %d", p, k)
			d.eq(q, fmt.Sprint(f.Verts, f.Material, f.UVs), fmt.Sprint(h.Verts, h.Material, h.UVs))
			d.eq(q+" normals", len(f.Normals), len(h.Normals))
			for x := 0; x < len(f.Normals) && x < len(h.Normals); x++ {
				d.v3(fmt.Sprintf("%s normal %d", q, x), f.Normals[x], h.Normals[x], tolN23)
			}
		}
		if (a.InternalTransform == nil) != (b.InternalTransform == nil) {
			d.add("%s internal transform: want %v got %v", p, a.InternalTransform, b.InternalTransform)
		} else if a.InternalTransform != nil {
			d.m4(p+" internal transform", m4geom(a.InternalTransform), b.InternalTransform, tol23)
		}
	}
	gw := world23(g.objs)
	for i := range worlds {
		if i < len(gw) && !skipWorld[i] && !worlds[i].near(gw[i], wtol23(worlds[i])) {
			d.add("world transform of object %d: want %v got %v", i, worlds[i], gw[i])
		}
	}
	d.eq("number of materials", len(s.mats), len(g.mats))
	for i := 0; i < len(s.mats) && i < len(g.mats); i++ {
		diffMaterial(d, fmt.Sprint("material ", i), &s.mats[i], &g.mats[i])
	}
	d.eq("number of bones", len(s.bones), len(g.bones))
	for i := 0; i < len(s.bones) && i < len(g.bones); i++ {
		a, b := s.bones[i], g.bones[i]
		p := "bone " + a.name
		d.eq(p, fmt.Sprint(a.id, a.parent, a.name, a.lists), fmt.Sprint(b.id, b.parent, b.name, b.lists))
		d.v3(p+" position", &a.pos, &b.pos, tol23)
		d.v3(p+" rotation offset", &a.off, &b.off, tol23)
		for _, k := range sortedKeys(a.w) {
			d.f32(p+" weight "+k, a.w[k], b.w[k], 1e-5)
		}
		d.eq(p+" number of weights", len(a.w), len(b.w))
	}
	d.eq("morphs", strings.Join(s.morphs, ";"), strings.Join(g.morphs, ";"))
	d.eq("number of bodies", len(s.bodies), len(g.bodies))
	for i := 0; i < len(s.bodies) && i < len(g.bodies); i++ {
		a, b := s.bodies[i], g.bodies[i]
		for k := 0; k < len(a.Shapes) && k < len(b.Shapes); k++ {
			p := fmt.Sprintf("body %d shape %d", i, k)
			d.v3(p+" position", a.Shapes[k].Position.Vec3(), b.Shapes[k].Position.Vec3(), tol23)
			d.v3(p+" size", a.Shapes[k].Size.Vec3(), b.Shapes[k].Size.Vec3(), tol23)
			if checkRot {
				ra, rb := rot23(a.Shapes[k]), rot23(b.Shapes[k])
				if !ra.near(rb, 3e-3) {
					d.add("%s rotation: want %v got %v", p, ra, rb)
				}
			}
		}
		d.eq("body", fmt.Sprint(a.Name, a.Mass, a.Kinematic, a.TargetBoneID, a.TargetObjID, len(a.Shapes)), fmt.Sprint(b.Name, b.Mass, b.Kinematic, b.TargetBoneID, b.TargetObjID, len(b.Shapes)))
	}
	d.eq("number of constraints", len(s.joints), len(g.joints))
	for i := 0; i < len(s.joints) && i < len(g.joints); i++ {
		d.v3(fmt.Sprintf("constraint %d position", i), s.joints[i].Position.Vec3(), g.joints[i].Position.Vec3(), tol23)
		d.eq("constraint", fmt.Sprint(s.joints[i].Name, s.joints[i].Body1, s.joints[i].Body2), fmt.Sprint(g.joints[i].Name, g.joints[i].Body1, g.joints[i].Body2))
	}
	return d
}

func rot23(s *mqo.PhysicsShape) m4 {
	r := s.Rotation
	return c21Rot(0, [3]float64{float64(r.X) * 180 / math.Pi, float64(r.Y) * 180 / math.Pi, float64(r.Z) * 180 / math.Pi})
}

// ---- initial documents

func gen23Doc(c *Chooser) *mqo.Document {
	doc := mqo.NewDocument()
	names := FreePickQ(c, "names", []string{"a", "b", "c"}, []string{"a", "a", "a_2"}, []string{"x", "x", "x"})
	uids := Pick(c, "uids", []int{0, 0, 0, 0, 0, 0, 0, 0}, []int{11, 12, 13, 14, 15, 16, 17, 18}, []int{0, 1, 0, 0, 0, 0, 0, 0}, []int{3, 0, 0, 5, 0, 4, 0, 0}, []int{0, 0, 0, 8, 0, 7, 0, 0})
	depth := Pick(c, "depths", []int{0, 1, 2, 0, 1, 1, 1, 1}, []int{0, 1, 1, 1, 2, 0, 0, 1}, []int{0, 2, 1, 0, 1, 1, 0, 0}, []int{1, 0, 1, 0, 0, 0, 0, 0}, []int{0, 5, 3, 3, 4, 0, 2, 1}, []int{0, 1, 2, 3, 4, 5, 6, 7}, []int{2, 4, 3, 1, 0, 7, 6, 6})
	nm := c.Choose("normals", 4)
	for i := 0; i < 3; i++ {
		o := mqo.NewObject(names[i])
		for k, v := range [][3]float32{{0, 0, 0}, {100, 0, 0}, {100, 100, 10}, {0, 100, 0}, {50, 50, 80}} {
			o.Vertexes = append(o.Vertexes, pv3(v[0]+float32(300*i), v[1], v[2]+float32(k*i)))
		}
		f := &mqo.Face{Verts: []int{3, 2, 1, 0}, Material: 0, UVs: []geom.Vector2{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 1}}}
		g := &mqo.Face{Verts: []int{4, 0, 1}, Material: 1}
		if nm > 0 {
			f.Normals = []*geom.Vector3{pv3(0, 0, 1), pv3(0, 0.6, 0.8), pv3(0.6, 0, 0.8), pv3(0, 0, 1)}
		}
		if nm == 2 {
			f.Normals[1] = nil
		}
		if nm == 3 {
			g.Normals = []*geom.Vector3{nil, nil, pv3(1, 0, 0)}
		}
		o.Faces = []*mqo.Face{f, g}
		doc.Objects = append(doc.Objects, o)
	}
	// morph base and targets
	for i, n := range []string{"base", "A", "B", "C", "D"} {
		o := mqo.NewObject(n)
		for k, v := range [][3]float32{{0, 0, 0}, {10, 0, 0}, {0, 10, 0}} {
			o.Vertexes = append(o.Vertexes, pv3(v[0]+float32(i*k), v[1]-float32(i*2), v[2]+float32(i*(k+1))))
		}
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Material: 0}}
		o.Visible = i == 0
		doc.Objects = append(doc.Objects, o)
	}
	for i, o := range doc.Objects {
		o.UID, o.Depth = uids[i], depth[i]
		if c23ids := i == 0 && c.Flag("vertexids"); c23ids {
			o.VertexByUID = map[int]int{1: 4, 9: 0, 5: 1, 2: 2, 3: 3}
		}
	}
	if k := c.Choose("locals", 3); k > 0 {
		o := doc.Objects[0]
		o.Translation, o.Rotation, o.Scale = pv3(10, 20, -30), pv3(30, 40, 50), pv3(2, 2, 2)
		doc.Objects[1].Rotation = pv3(-20, 90, 10)
		doc.Objects[1].Translation = pv3(1, 0, 0)
		if k == 2 {
			o.Scale = pv3(1, 3, -1)
			doc.Objects[2].Rotation = pv3(90, 45, -15)
		}
	}
	if c.Flag("colors") {
		for i, o := range doc.Objects {
			o.Color = pv3(float32(i)*0.125, 0.5, 1)
		}
	}
	if c.Flag("internal") {
		doc.Objects[1].InternalTransform = m4t(v3d{1, 2, 3}).mul(m4r(1, 30)).geom()
	}
	for i, n := range []string{"m0", "m1", "$MORPH:A:m0", "$MORPH:A:gone"} {
		m := &mqo.Material{Name: n, Color: geomV4(float32(i)*0.25, 0.5, 1, 1)}
		if i == 3 && !c.Flag("ghostmat") {
			continue
		}
		doc.Materials = append(doc.Materials, m)
	}
	if c.Flag("matnames") {
		for _, n := range []string{"dup", "dup", "dup_2", "dup", "dup_3"} {
			doc.Materials = append(doc.Materials, &mqo.Material{Name: n, Color: geomV4(1, 0, 1, 1)})
		}
	}
	// skeleton
	bp := mqo.GetBonePlugin(doc)
	b := []*mqo.Bone{
		{ID: 1, Name: "root", Pos: mqo.Vector3Attr{Vector3: v3(0, 0, 0)}},
		{ID: 2, Name: "arm", Parent: 1, Pos: mqo.Vector3Attr{Vector3: v3(100, 50, 0)}},
		{ID: 3, Name: "hand", Parent: 2, Pos: mqo.Vector3Attr{Vector3: v3(200, 120, 30)}},
		{ID: 4, Name: "other", Pos: mqo.Vector3Attr{Vector3: v3(-50, 0, 7)}},
	}
	ids := Pick(c, "boneids", []int{1, 2, 3, 4}, []int{4, 3, 2, 1}, []int{7, 2, 30, 1}, []int{2, 3, 1, 9})
	for i, x := range b {
		x.ID = ids[i]
		if x.Parent > 0 {
			x.Parent = ids[x.Parent-1]
		}
	}
	if k := c.Choose("pose", 7); k > 0 {
		b[2].Pos.Vector3 = []geom.Vector3{v3(200, 20, 30), v3(0, 120, 0), v3(-20, 10, 5), v3(0, -90, 5), v3(95, 50, -400), v3(250, 0, -40)}[k-1]
	}
	if c.Flag("twohands") {
		b[3].Parent = ids[1]
	}
	order := Pick(c, "boneorder", []int{0, 1, 2, 3}, []int{2, 1, 0, 3}, []int{3, 2, 0, 1})
	for _, i := range order {
		bp.AddBone(b[i])
	}
	if c.Flag("lostparent") {
		b[3].Parent = 99
	}
	id := func(i int) int {
		if uids[i] > 0 {
			return uids[i]
		}
		return i + 1
	}
	w := c.Choose("weights", 3)
	collide := uids[0] == 0 && uids[1] == 1
	vid := func(k int) int { return vertexID(doc.Objects[0], k) }
	if !collide {
		b[1].SetVertexWeight(id(0), vid(0), 50)
		b[2].SetVertexWeight(id(0), vid(0), 25)
		b[3].SetVertexWeight(id(0), vid(0), 25)
		b[2].SetVertexWeight(id(0), vid(1), 100)
	}
	b[3].SetVertexWeight(id(1), 2, 100)
	b[1].SetVertexWeight(id(3), 1, 60)
	b[2].SetVertexWeight(id(3), 3, 100)
	if w == 1 {
		b[2].SetVertexWeight(id(1), 77, 100)
		b[2].SetVertexWeight(id(1), 0, 100)
	} else if w == 2 {
		b[2].SetVertexWeight(555, 1, 100)
	}
	mp := mqo.GetMorphPlugin(doc)
	l := &mqo.MorphTargetList{Base: "base", Target: []*mqo.MorphTarget{{Name: "A"}, {Name: "B"}, {Name: "C"}, {Name: "D"}}}
	switch k := c.Choose("morphs", 6); k {
	case 4, 5: // the same target for two bases
		l.Target = l.Target[:2]
		l2 := &mqo.MorphTargetList{Base: "C", Target: []*mqo.MorphTarget{{Name: "A"}, {Name: "D"}}}
		if k == 4 {
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, l2)
		} else {
			defer func() { mp.MorphSet.Targets = append(mp.MorphSet.Targets, l2) }()
		}
	case 1:
		l.Target = append(l.Target, &mqo.MorphTarget{Name: "nothing"})
	case 2: // other vertex count
		l.Target = append(l.Target, &mqo.MorphTarget{Name: names[0]})
	case 3:
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, &mqo.MorphTargetList{Base: "gone", Target: []*mqo.MorphTarget{{Name: "A"}}})
	}
	mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
	pp := mqo.GetPhysicsPlugin(doc)
	sh := func(x float32) *mqo.PhysicsShape {
		return &mqo.PhysicsShape{Type: "BOX", Size: mqo.Vector3XmlAttr{X: 1, Y: 2, Z: 3}, Position: mqo.Vector3XmlAttr{X: x, Y: 5, Z: -7}, Rotation: mqo.Vector3XmlAttr{X: 0.3, Y: -0.2, Z: 1}}
	}
	pp.Bodies = []*mqo.PhysicsBody{{Name: "p0", Mass: 1, TargetBoneID: ids[1], Shapes: []*mqo.PhysicsShape{sh(100), sh(150)}}, {Name: "p1", Shapes: []*mqo.PhysicsShape{sh(-4)}}, {Name: "p2", TargetObjID: id(1), Shapes: []*mqo.PhysicsShape{sh(31), sh(32), sh(33)}}, {Name: "p3", TargetBoneID: ids[2], Kinematic: true, Shapes: []*mqo.PhysicsShape{sh(40)}}}
	pp.Constraints = []*mqo.PhysicsJointConstraint{{Name: "j", Body1: 1, Body2: 2, Position: mqo.Vector3XmlAttr{X: 9, Y: 8, Z: 7}}, {Name: "j2", Body1: 2, Body2: 3, Position: mqo.Vector3XmlAttr{X: -9, Y: 18, Z: 27}}, {Name: "j3", Body1: 3, Body2: 4, Position: mqo.Vector3XmlAttr{X: 19, Y: 1, Z: 2}}, {Name: "j4", Body1: 4, Body2: 1, Position: mqo.Vector3XmlAttr{X: 6, Y: 5, Z: 4}}}
	return doc
}

// FreePickQ is Pick (kept separate so that names stay a cheap deviation).
func FreePickQ[V any](c *Chooser, label string, vs ...V) V { return Pick(c, label, vs...) }

// ---- operations

type op23 struct {
	name string
	run  func(t *T, doc *mqo.Document, s *state23) (skipWorld map[int]bool, checkRot bool)
	// run applies the operation to doc and the reference semantics to s
}

func ortho(m m4) bool {
	col := func(j int) v3d { return v3d{m[0][j], m[1][j], m[2][j]} }
	for i := 0; i < 3; i++ {
		for j := i + 1; j < 3; j++ {
			if math.Abs(col(i).dot(col(j))) > 1e-6*col(i).len()*col(j).len() {
				return false
			}
		}
	}
	return true
}

var worlds23 []m4 // expected world transforms of the running operation (set by opTransform/opLocal)

func opTransform(name string, M m4) op23 {
	return op23{"transform " + name, func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		skip := map[int]bool{}
		w := world23(s.objs)
		ps := parents23(s.objs)
		for i := range w {
			r := i
			for ps[r] >= 0 {
				r = ps[r]
			}
			if !ortho(M.mul(local23(s.objs[r]))) {
				skip[i] = true
			}
			w[i] = M.mul(w[i])
		}
		inv, _ := M.inv()
		nt := inv.transposed()
		for _, o := range s.objs {
			for k, v := range o.Vertexes {
				o.Vertexes[k] = M.apply(v3g(v)).geom()
			}
			for _, f := range o.Faces {
				for k, n := range f.Normals {
					if n != nil {
						f.Normals[k] = nt.dir(v3g(n)).unit().geom()
					}
				}
			}
			if o.InternalTransform != nil {
				o.InternalTransform = M.mul(m4geom(o.InternalTransform)).geom()
			}
		}
		for _, b := range s.bones {
			b.pos = *M.apply(v3g(&b.pos)).geom()
		}
		sc := [3]float64{}
		for j := range sc {
			sc[j] = v3d{M[0][j], M[1][j], M[2][j]}.len()
		}
		for _, b := range s.bodies {
			for _, sh := range b.Shapes {
				*sh.Position.Vec3() = *M.apply(v3g(sh.Position.Vec3())).geom()
				z := v3g(sh.Size.Vec3())
				*sh.Size.Vec3() = *v3d{math.Abs(z[0]) * sc[0], math.Abs(z[1]) * sc[1], math.Abs(z[2]) * sc[2]}.geom()
			}
		}
		for _, j := range s.joints {
			*j.Position.Vec3() = *M.apply(v3g(j.Position.Vec3())).geom()
		}
		worlds23 = w
		doc.ApplyTransform(M.geom())
		return skip, false
	}}
}

func (s *state23) obj(name string) *mqo.Object {
	var r *mqo.Object
	for _, o := range s.objs {
		if o.Name == name {
			r = o
		}
	}
	return r
}

func opMorph(name string, val float32) op23 {
	return op23{fmt.Sprintf("morph %s %v", name, val), func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		v := float64(val)
		for _, m := range mqo.GetMorphPlugin(doc).Morphs() {
			base := s.obj(m.Base)
			for ti, tg := range m.Target {
				target := s.obj(tg.Name)
				if tg.Name != name || base == nil || target == nil || len(base.Vertexes) != len(target.Vertexes) {
					continue
				}
				delta := make([]v3d, len(base.Vertexes))
				for k := range delta {
					delta[k] = v3g(target.Vertexes[k]).sub(v3g(base.Vertexes[k])).mul(v)
				}
				move := []*mqo.Object{base}
				for tj, o := range m.Target {
					if ob := s.obj(o.Name); tj != ti && ob != nil && len(ob.Vertexes) == len(delta) {
						move = append(move, ob)
					}
				}
				for _, o := range move {
					for k := range delta {
						o.Vertexes[k] = v3g(o.Vertexes[k]).add(delta[k]).geom()
					}
				}
			}
		}
		for i := range s.mats {
			pre := "$MORPH:" + name + ":"
			if strings.HasPrefix(s.mats[i].Name, pre) {
				for j := range s.mats {
					if s.mats[j].Name == s.mats[i].Name[len(pre):] {
						a, b := &s.mats[j].Color, s.mats[i].Color
						l := func(x, y float32) float32 { return x*(1-val) + y*val }
						*a = geom.Vector4{X: l(a.X, b.X), Y: l(a.Y, b.Y), Z: l(a.Z, b.Z), W: l(a.W, b.W)}
					}
				}
			}
		}
		mqo.GetMorphPlugin(doc).Apply(doc, name, val)
		return nil, true
	}}
}

var opNames = op23{"fix names", func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
	doc.FixNames()
	seen, all := map[string]bool{}, map[string]bool{}
	for i, o := range s.objs {
		n := doc.Objects[i].Name
		t.Expect(!all[n], "names-unique", "name %q twice after FixNames (was %q)", n, o.Name)
		all[n] = true
		if !seen[o.Name] {
			t.Expect(n == o.Name, "names-kept", "object %d: unique name %q became %q", i, o.Name, n)
		} else {
			t.Expect(strings.HasPrefix(n, o.Name), "names-kept", "object %d: %q became %q", i, o.Name, n)
		}
		seen[o.Name] = true
		o.Name = n
	}
	seen, all = map[string]bool{}, map[string]bool{}
	for i := range s.mats {
		n, was := doc.Materials[i].Name, s.mats[i].Name
		t.Expect(!all[n], "names-unique", "material name %q twice after FixNames (was %q)", n, was)
		all[n] = true
		if !seen[was] {
			t.Expect(n == was, "names-kept", "material %d: unique name %q became %q", i, was, n)
		} else {
			t.Expect(strings.HasPrefix(n, was), "names-kept", "material %d: %q became %q", i, was, n)
		}
		seen[was] = true
		s.mats[i].Name = n
	}
	return nil, true
}}

func fixIDs23(t *T, doc *mqo.Document, s *state23) {
	used, all := map[int]bool{}, map[int]bool{}
	for _, o := range s.objs {
		used[o.UID] = true
	}
	for i, o := range s.objs {
		n := doc.Objects[i].UID
		t.Expect(n > 0 && !all[n], "ids-unique", "identifier %d of object %d is not unique", n, i)
		all[n] = true
		if o.UID != 0 {
			t.Expect(n == o.UID, "ids-kept", "identifier %d of object %d became %d", o.UID, i, n)
		} else if !used[i+1] {
			t.Expect(n == i+1, "ids-implicit", "object %d without identifier got %d, companion data knows it as %d", i, n, i+1)
		}
		o.UID = n
		t.Expect(doc.GetObjectByID(n) == doc.Objects[i], "ids-lookup", "identifier %d does not find its object", n)
	}
}

var opIDs = op23{"fix ids", func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
	doc.FixObjectID()
	fixIDs23(t, doc, s)
	return nil, true
}}

var opTri = op23{"triangulate", func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
	doc.Objects[0].Triangulate()
	o, g := s.objs[0], doc.Objects[0]
	n := 0
	for _, f := range o.Faces {
		n += len(f.Verts) - 2
	}
	t.Expect(len(g.Faces) == n, "triangulate-count", "%d triangles, want %d", len(g.Faces), n)
	for _, f := range g.Faces {
		t.Must(len(f.Verts) == 3, "triangulate", "face with %d corners", len(f.Verts))
	}
	d := &diffs{}
	coverage(d, "triangulated", mqoFaces(o), vals(mqoFaces(g)), false, s.tol())
	t.Expect(d.empty(), "triangulate-faces", "%s", d)
	o.Faces = cpObj(g).Faces
	return nil, true
}}

func smooth23(o *mqo.Object) []v3d {
	r := make([]v3d, len(o.Vertexes))
	for _, f := range o.Faces {
		n := len(f.Verts)
		var ps []v3d
		for _, v := range f.Verts {
			ps = append(ps, v3g(o.Vertexes[v]))
		}
		area := areaOf(ps...)
		for i, v := range f.Verts {
			if len(f.Normals) > i && f.Normals[i] != nil {
				r[v] = r[v].add(v3g(f.Normals[i]))
				continue
			}
			p := v3g(o.Vertexes[v])
			a, b := v3g(o.Vertexes[f.Verts[(i+n-1)%n]]).sub(p), v3g(o.Vertexes[f.Verts[(i+1)%n]]).sub(p)
			x := a.cross(b).unit()
			if x.dot(area) > 0 {
				x = x.mul(-1)
			}
			r[v] = r[v].add(x)
		}
	}
	for i := range r {
		if r[i].len() < 1e-3 {
			r[i] = v3d{} // the normals around this vertex cancel out: no direction
			continue
		}
		r[i] = r[i].unit()
	}
	return r
}

func opNormals(k int) op23 {
	return op23{fmt.Sprint("normals ", k), func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		o := s.objs[k]
		sm := smooth23(o)
		var free []*geom.Vector3
		var at [][2]int
		for fi, f := range o.Faces {
			if len(f.Normals) != len(f.Verts) {
				f.Normals = make([]*geom.Vector3, len(f.Verts))
			}
			for i, v := range f.Verts {
				if f.Normals[i] == nil {
					f.Normals[i] = sm[v].geom()
					if sm[v] == (v3d{}) {
						free, at = append(free, f.Normals[i]), append(at, [2]int{fi, i})
					}
				}
			}
		}
		doc.Objects[k].FixhNormals()
		for j, p := range free {
			if f := doc.Objects[k].Faces[at[j][0]]; len(f.Normals) > at[j][1] && f.Normals[at[j][1]] != nil {
				*p = *f.Normals[at[j][1]]
			}
		}
		return nil, true
	}}
}

var opFlip = op23{"flip", func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
	for oi := range s.objs {
		for fi, f := range s.objs[oi].Faces {
			n := len(f.Verts)
			g := *f
			g.Verts, g.UVs, g.Normals = make([]int, n), make([]geom.Vector2, len(f.UVs)), make([]*geom.Vector3, len(f.Normals))
			for k := 0; k < n; k++ {
				g.Verts[k] = f.Verts[n-1-k]
			}
			for k := range g.UVs {
				g.UVs[k] = f.UVs[len(f.UVs)-1-k]
			}
			for k := range g.Normals {
				g.Normals[k] = f.Normals[len(f.Normals)-1-k]
			}
			s.objs[oi].Faces[fi] = &g
			doc.Objects[oi].Faces[fi].Flip()
		}
	}
	return nil, true
}}

// cloning, then changing everything of the clone
func opClone(k int) op23 {
	return op23{fmt.Sprint("clone ", k), func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		o := doc.Objects[k]
		o.Extra["k"] = "v"
		c := o.Clone()
		one := func(x *mqo.Object) *state23 { return &state23{objs: []*mqo.Object{cpObj(x)}} }
		w := one(s.objs[k])
		d := w.diff(one(c), world23(w.objs), nil, true)
		t.Expect(d.empty(), "clone-equal", "the clone differs: %s", d)
		t.Expect(c.Extra["k"] == "v", "clone-equal", "extra data lost")
		for i := range c.Vertexes {
			c.Vertexes[i].X += 1000
			c.Vertexes[i] = pv3(1, 1, 1)
		}
		for _, f := range c.Faces {
			f.Material = 77
			for i := range f.Verts {
				f.Verts[i] = 0
			}
			for i := range f.UVs {
				f.UVs[i].X = 55
			}
			for i := range f.Normals {
				if f.Normals[i] != nil {
					f.Normals[i].Y = 44
				}
				f.Normals[i] = nil
			}
		}
		if len(c.Faces) > 0 {
			c.Faces = append(c.Faces[:0], c.Faces[1:]...)
		}
		c.VertexByUID[1234] = 1
		c.Extra["k"] = "w"
		c.Rotation.X, c.Scale.X, c.Translation.X = 11, 12, 13
		if c.InternalTransform != nil {
			c.InternalTransform[3] = 9
		}
		c.ApplyTransform(geom.NewScaleMatrix4(2, 2, 2))
		t.Expect(o.Extra["k"] == "v", "clone-shares", "extra data of the original changed with the clone")
		return nil, true
	}}
}

func opWeight(bone string, oi, vi int) op23 {
	return op23{fmt.Sprintf("weight %s %d %d", bone, oi, vi), func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		id := doc.Objects[oi].UID
		if id == 0 {
			id = oi + 1
		}
		for i, b := range mqo.GetBonePlugin(doc).Bones() {
			if b.Name == bone {
				b.SetVertexWeight(id, vi, 12.5)
				s.bones[i].w[fmt.Sprint(id, "/", vi)] += 12.5
				s.bones[i].lists[id] = 1
			}
		}
		return nil, true
	}}
}

func opBone(bone string, axis int, deg float64, adjust bool) op23 {
	n := fmt.Sprintf("rotate bone %s axis %d by %v", bone, axis, deg)
	if adjust {
		n = "align bone " + bone
	}
	return op23{n, func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		var base *mqo.Bone
		in := map[int]bool{}
		bi := -1
		for i, b := range mqo.GetBonePlugin(doc).Bones() {
			if b.Name == bone {
				base, bi = b, i
			}
		}
		in[base.ID] = true
		for range s.bones {
			for _, b := range s.bones {
				if b.parent > 0 && in[b.parent] {
					in[b.id] = true
				}
			}
		}
		p := v3g(&s.bones[bi].pos)
		R := m4r(axis, deg)
		if adjust {
			var far v3d
			for _, b := range s.bones {
				if b.parent == base.ID {
					if v := v3g(&b.pos).sub(p); v.len() > far.len() {
						far = v
					}
				}
			}
			if far.len() == 0 {
				doc.BoneAdjustX(base)
				return nil, true
			}
			a := math.Atan2(far[1], far[0]) * 180 / math.Pi
			if math.Abs(a) < 90 {
				deg = -a
			} else {
				deg = 180 - a
			}
			R = m4r(2, deg)
		}
		M := m4t(p).mul(R).mul(m4t(p.mul(-1)))
		calls := map[int]int{}
		if adjust {
			doc.BoneAdjustX(base)
			for _, b := range s.bones {
				if in[b.id] {
					b.off.X += float32(deg * math.Pi / 180)
				}
			}
		} else {
			q := c21Euler(0, [3]float64{map[bool]float64{true: deg}[axis == 0], map[bool]float64{true: deg}[axis == 1], map[bool]float64{true: deg}[axis == 2]}).ToQuaternion()
			doc.BoneTransform(base, q, func(b *mqo.Bone) { calls[b.ID]++ })
			for _, b := range s.bones {
				want := 0
				if in[b.id] {
					want = 1
				}
				t.Expect(calls[b.id] == want, "bone-callback", "bone %s reported %d times, want %d", b.name, calls[b.id], want)
			}
		}
		fixIDs23(t, doc, s)
		// total weight per vertex
		byID := map[int]*mqo.Object{}
		for _, o := range s.objs {
			byID[o.UID] = o
		}
		total := map[*geom.Vector3]float64{}
		for _, b := range s.bones {
			if !in[b.id] {
				continue
			}
			for _, k := range sortedKeys(b.w) {
				var oid, vid int
				fmt.Sscanf(k, "%d/%d", &oid, &vid)
				o := byID[oid]
				if o == nil {
					continue
				}
				objs := []*mqo.Object{o}
				for _, m := range mqo.GetMorphPlugin(doc).Morphs() {
					if m.Base == o.Name && s.obj(o.Name) == o {
						for _, tg := range m.Target {
							if x := s.obj(tg.Name); x != nil {
								objs = append(objs, x)
							}
						}
					}
				}
				for _, x := range objs {
					idx := -1
					if i, ok := x.VertexByUID[vid]; ok {
						idx = i
					} else if vid >= 1 && vid <= len(x.Vertexes) {
						idx = vid - 1
					}
					if idx >= 0 {
						total[x.Vertexes[idx]] += float64(b.w[k]) / 100
					}
				}
			}
		}
		for v, w := range total {
			*v = *M.apply(v3g(v)).mul(w).add(v3g(v).mul(1 - w)).geom()
		}
		for _, b := range s.bones {
			if in[b.id] {
				b.pos = *M.apply(v3g(&b.pos)).geom()
			}
		}
		for _, b := range s.bodies {
			if in[b.TargetBoneID] {
				for _, sh := range b.Shapes {
					*sh.Position.Vec3() = *M.apply(v3g(sh.Position.Vec3())).geom()
					e := geom.NewEulerFromMatrix4(R.mul(rot23(sh)).geom(), geom.RotationOrderXYZ)
					*sh.Rotation.Vec3() = e.Vector3
				}
			}
		}
		return nil, true
	}}
}

func opLocal(k int, M m4) op23 {
	return op23{fmt.Sprint("set local transform of ", k), func(t *T, doc *mqo.Document, s *state23) (map[int]bool, bool) {
		o := doc.Objects[k]
		o.SetLocalTransform(M.geom())
		t.Expect(M.near(m4geom(o.GetLocalTransform()), wtol23(M)), "local-transform", "set %v, got %v", M, *o.GetLocalTransform())
		w := make([]m4, len(s.objs))
		for i, p := range parents23(s.objs) {
			w[i] = local23(s.objs[i])
			if i == k {
				w[i] = M
			}
			if p >= 0 {
				w[i] = w[p].mul(w[i])
			}
		}
		worlds23 = w
		return nil, true
	}}
}

var ops23 = []op23{
	opTransform("scale 80", m4s(v3d{80, 80, 80})),
	opTransform("rot180", m4s(v3d{-2, 2, -2})),
	opTransform("mirror", m4s(v3d{-1, 1, 1})),
	opTransform("stretch", m4s(v3d{1, 2, 0.5})),
	opTransform("move+turn", m4t(v3d{10, -20, 30}).mul(m4r(1, 90)).mul(m4r(0, 30))),
	opMorph("A", 1), opMorph("A", 0.25), opMorph("B", -0.5), opMorph("D", 0.5), opMorph("nothing", 1),
	opNames, opIDs, opTri, opNormals(0), opNormals(2), opFlip, opClone(0), opClone(1), opClone(3),
	opWeight("hand", 0, 3), opWeight("other", 1, 1), opWeight("root", 2, 4),
	opBone("root", 2, 30, false), opBone("arm", 1, 90, false), opBone("hand", 0, 180, false), opBone("arm", 0, 0, true), opBone("hand", 0, 0, true),
	opLocal(0, m4t(v3d{1, 2, 3}).mul(m4r(1, 30)).mul(m4r(0, 40)).mul(m4r(2, 50)).mul(m4s(v3d{2, 3, 4}))),
	opLocal(1, m4r(2, 100).mul(m4r(1, -70)).mul(m4r(0, 20)).mul(m4s(v3d{1, 1, 1}))),
	opLocal(2, m4t(v3d{0, 0, 5}).mul(m4r(0, 90)).mul(m4r(1, 45))),
}

type case23 struct {
	mk    func() *mqo.Document
	load  bool
	steps []int
	ops   []op23
	what  string
}

func (c *case23) Describe() string {
	var n []string
	for _, s := range c.steps {
		n = append(n, c.ops[s].name)
	}
	return fmt.Sprintf("%sloaded=%v, operations: %s", c.what, c.load, strings.Join(n, ", "))
}

func gen23(depth int) func(c *Chooser) any {
	return func(c *Chooser) any {
		r := &case23{load: c.Flag("loaded"), ops: ops23}
		r.mk = frozen(c, gen23Doc)
		n := 1 + c.Free("steps", depth)
		for i := 0; i < n; i++ {
			r.steps = append(r.steps, c.Free("op", len(ops23)))
		}
		return r
	}
}

// one section with n elements, every operation that applies to it
var sizeOps23 = []op23{
	opTransform("scale 2", m4s(v3d{2, 2, 2})), opTransform("mirror", m4s(v3d{-1, 1, 1})), opTransform("move+turn", m4t(v3d{10, -20, 30}).mul(m4r(1, 90)).mul(m4r(0, 30))),
	opNames, opIDs, opTri, opNormals(0), opFlip, opClone(0), opLocal(0, m4t(v3d{1, 2, 3}).mul(m4r(1, 30))),
	opMorph("t", 0.5), opMorph("t0", 1), opMorph("t1", 0.5),
	opWeight("bone1", 0, 2), opBone("bone0", 2, 30, false), opBone("bone1", 1, 90, false), opBone("bone1", 0, 0, true),
}

func gen23Sizes(c *Chooser) any {
	what, mk := sizeCase(c, 1030)
	r := &case23{what: what + " ", ops: sizeOps23}
	k := c.Free("op", len(sizeOps23)+1)
	if k == len(sizeOps23) { // everything has the same name
		r.what += "same names "
		r.mk = func() *mqo.Document {
			doc := mk()
			for _, o := range doc.Objects {
				o.Name = "x"
			}
			for _, m := range doc.Materials {
				m.Name = "x"
			}
			return doc
		}
		k = 3
	} else {
		r.mk = mk
		op := strings.Fields(r.ops[k].name)
		doc := mk()
		switch op[0] {
		case "weight", "rotate", "align":
			found := false
			for _, b := range mqo.GetBonePlugin(doc).Bones() {
				found = found || op[0] == "weight" && b.Name == op[1] || b.Name == op[len(op)-1] || op[0] == "rotate" && b.Name == op[2]
			}
			if !found {
				return nil
			}
		case "morph":
			if len(mqo.GetMorphPlugin(doc).Morphs()) == 0 {
				return nil
			}
		}
	}
	r.steps = []int{k}
	return r
}

func c23Check(t *T, v any) {
	c := v.(*case23)
	doc := c.mk()
	if c.load {
		p := t.Path("d.mqo")
		names := map[string]bool{}
		for _, o := range doc.Objects {
			if names[o.Name] {
				return // saving renames; identity of references is not defined
			}
			names[o.Name] = true
		}
		if err := mqo.Save(doc, p); err != nil {
			t.Fatal("save", "%v", err)
		}
		d, err := mqo.Load(p)
		if err != nil {
			t.Fatal("load", "%v", err)
		}
		doc = d
	}
	for _, k := range c.steps {
		s := snap23(doc)
		op := c.ops[k]
		before := world23(s.objs)
		worlds23 = before
		skip, rot := op.run(t, doc, s)
		g := snap23(doc)
		d := s.diff(g, worlds23, skip, rot)
		t.Expect(d.empty(), "after "+strings.SplitN(op.name, " ", 2)[0], "after %s: %s", op.name, d)
		// the library's own view of the hierarchy
		gw := world23(g.objs)
		wt := doc.GetWorldTransforms()
		for i, o := range doc.Objects {
			m := wt[o]
			t.Expect(m != nil && gw[i].near(m4geom(m), wtol23(gw[i])), "world-transforms", "GetWorldTransforms of object %d: want %v got %v", i, gw[i], m)
		}
		if len(t.Fails) > 0 {
			return
		}
	}
	g := snap23(doc)
	t.State(fmt.Sprintf("%v", g.bones), len(g.objs), fmt.Sprint(c.steps), fmt.Sprint(c.Describe()))
}

func init() {
	Register(&Property{ID: "C23", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "documents", Quick: 2, Thorough: 3, Gen: gen23(1), Check: c23Check, What: "every initial document within the deviation bound x every single operation (29 operations)"},
		{Name: "sizes", Gen: gen23Sizes, Check: c23Check, What: "sections with n elements, n around every power of two up to 1030, x every operation"},
		{Name: "sequences", Quick: 0, Thorough: 1, Gen: gen23(3), Check: c23Check, What: "every sequence of up to 3 operations from initial documents within the deviation bound"},
		{Name: "pairs", Quick: 1, Thorough: 2, Gen: gen23(2), Check: c23Check, What: "every sequence of up to 2 operations from initial documents within the deviation bound"},
	}})
}
