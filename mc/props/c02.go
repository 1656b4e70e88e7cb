package props

import (
	"fmt"
	"path/filepath"
	"sort"

	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// ---- comparison of companion data

func bonePlugin(doc *mqo.Document) *mqo.BonePlugin {
	for _, p := range doc.Plugins {
		if b, ok := p.(*mqo.BonePlugin); ok {
			return b
		}
	}
	return &mqo.BonePlugin{}
}

func morphPlugin(doc *mqo.Document) *mqo.MorphPlugin {
	for _, p := range doc.Plugins {
		if b, ok := p.(*mqo.MorphPlugin); ok {
			return b
		}
	}
	return &mqo.MorphPlugin{}
}

func physicsPlugin(doc *mqo.Document) *mqo.PhysicsPlugin {
	for _, p := range doc.Plugins {
		if b, ok := p.(*mqo.PhysicsPlugin); ok {
			return b
		}
	}
	return &mqo.PhysicsPlugin{}
}

// weightTable is the vertices of a bone's weights by what the identifiers resolve to.
func weightTable(doc *mqo.Document, b *mqo.Bone) (r []string) {
	for _, w := range b.Weights {
		oi := w.ObjectID - 1
		for i, o := range doc.Objects {
			if o.UID == w.ObjectID {
				oi = i
				break
			}
		}
		for _, v := range w.Vertexes {
			vi := -1
			if oi >= 0 && oi < len(doc.Objects) {
				vi = doc.Objects[oi].GetVertexIndexByID(v.VertexID)
			}
			r = append(r, fmt.Sprintf("object #%d vertex #%d = %v", oi, vi, v.Weight))
		}
	}
	return r
}

func weightList(b *mqo.Bone) (r []string) {
	for _, w := range b.Weights {
		for _, v := range w.Vertexes {
			r = append(r, fmt.Sprintf("obj %d vert %d = %v", w.ObjectID, v.VertexID, v.Weight))
		}
	}
	return r
}

func diffCompanion(a, b *mqo.Document) *diffs {
	d := &diffs{}
	pa, pb := bonePlugin(a), bonePlugin(b)
	d.eq("bone limit", pa.BoneSet2.Limit, pb.BoneSet2.Limit)
	ba, bb := pa.Bones(), pb.Bones()
	d.eq("number of bones", len(ba), len(bb))
	for i := 0; i < len(ba) && i < len(bb); i++ {
		s, t := ba[i], bb[i]
		p := fmt.Sprintf("bone[%d]", i)
		d.eq(p+".id", s.ID, t.ID)
		d.eq(p+".name", s.Name, t.Name)
		d.eq(p+".group", s.Group, t.Group)
		d.eq(p+".parent", s.Parent, t.Parent)
		d.v3(p+".pos", &s.Pos.Vector3, &t.Pos.Vector3, 0)
		d.eq(p+".movable", s.Movable, t.Movable)
		d.eq(p+".hide", s.Hide, t.Hide)
		d.eq(p+".dummy", s.Dummy, t.Dummy)
		d.eq(p+".color", s.Color, t.Color)
		for k, pr := range [][2]*mqo.Vector3Attr{{s.UpVector, t.UpVector}, {s.Rotate, t.Rotate}} {
			n := p + []string{".up", ".rotate"}[k]
			if (pr[0] == nil) != (pr[1] == nil) {
				d.add("%s presence: want %v got %v", n, pr[0], pr[1])
			} else if pr[0] != nil {
				d.v3(n, &pr[0].Vector3, &pr[1].Vector3, 0)
			}
		}
		if (s.IK == nil) != (t.IK == nil) {
			d.add("%s.ik presence", p)
		} else if s.IK != nil {
			d.eq(p+".ik", *s.IK, *t.IK)
		}
		d.eq(p+".weights", fmt.Sprint(weightList(s)), fmt.Sprint(weightList(t)))
		d.eq(p+".weighted vertices", fmt.Sprint(weightTable(a, s)), fmt.Sprint(weightTable(b, t)))
	}
	d.eq("number of old bones", len(pa.BoneSet.Bone), len(pb.BoneSet.Bone))
	for i := 0; i < len(pa.BoneSet.Bone) && i < len(pb.BoneSet.Bone); i++ {
		d.eq("old bone", oldBone(pa.BoneSet.Bone[i]), oldBone(pb.BoneSet.Bone[i]))
	}
	d.eq("number of poses", len(pa.PoseSet.BonePoses), len(pb.PoseSet.BonePoses))
	for i := 0; i < len(pa.PoseSet.BonePoses) && i < len(pb.PoseSet.BonePoses); i++ {
		d.eq("pose", *pa.PoseSet.BonePoses[i], *pb.PoseSet.BonePoses[i])
	}
	ma, mb := morphPlugin(a).Morphs(), morphPlugin(b).Morphs()
	d.eq("number of morph lists", len(ma), len(mb))
	for i := 0; i < len(ma) && i < len(mb); i++ {
		d.eq(fmt.Sprintf("morph[%d]", i), morphStr(ma[i]), morphStr(mb[i]))
	}
	fa, fb := physicsPlugin(a), physicsPlugin(b)
	d.eq("number of bodies", len(fa.Bodies), len(fb.Bodies))
	for i := 0; i < len(fa.Bodies) && i < len(fb.Bodies); i++ {
		d.eq(fmt.Sprintf("body[%d]", i), bodyStr(fa.Bodies[i]), bodyStr(fb.Bodies[i]))
	}
	d.eq("number of constraints", len(fa.Constraints), len(fb.Constraints))
	for i := 0; i < len(fa.Constraints) && i < len(fb.Constraints); i++ {
		d.eq(fmt.Sprintf("constraint[%d]", i), *fa.Constraints[i], *fb.Constraints[i])
	}
	return d
}

func oldBone(b *mqo.BoneOld) string {
	c := *b
	s := ""
	for _, k := range c.Children {
		s += fmt.Sprint(" ", k.ID)
	}
	for _, w := range c.Weights {
		s += fmt.Sprintf(" %v", *w)
	}
	c.Children, c.Weights = nil, nil
	return fmt.Sprintf("%+v%s", c, s)
}

func morphStr(m *mqo.MorphTargetList) string {
	s := m.Base + ":"
	for _, t := range m.Target {
		s += fmt.Sprintf(" (%s %d)", t.Name, t.Param)
	}
	return s
}

func bodyStr(b *mqo.PhysicsBody) string {
	c := *b
	c.Shapes = nil
	s := fmt.Sprintf("%+v", c)
	for _, x := range b.Shapes {
		s += fmt.Sprintf(" %+v", *x)
	}
	return s
}

// objRefs is the plugin's list of weighted objects.
func objRefs(doc *mqo.Document) (r []int) {
	for _, o := range bonePlugin(doc).Obj {
		r = append(r, o.ID)
	}
	sort.Ints(r)
	return
}

func wantObjRefs(doc *mqo.Document) (r []int) {
	used := map[int]bool{}
	for _, b := range bonePlugin(doc).Bones() {
		for _, w := range b.Weights {
			used[w.ObjectID] = true
		}
	}
	for _, b := range bonePlugin(doc).BoneSet.Bone {
		for _, w := range b.Weights {
			used[w.ObjectID] = true
		}
	}
	for i, o := range doc.Objects {
		id := o.UID
		if id <= 0 {
			id = i + 1
		}
		if used[id] {
			r = append(r, id)
		}
	}
	sort.Ints(r)
	return
}

// ---- generators

type c02Case struct {
	build func() *mqo.Document
	file  string
	ops   []int
}

func (c *c02Case) Describe() string {
	d := c.build()
	s := fmt.Sprintf("%s ops=%v objects=%d", c.file, c.ops, len(d.Objects))
	for _, b := range bonePlugin(d).Bones() {
		s += fmt.Sprintf(" bone{%d %q parent %d %v %v}", b.ID, b.Name, b.Parent, b.Pos.Vector3, weightList(b))
	}
	for _, m := range morphPlugin(d).Morphs() {
		s += " morph{" + morphStr(m) + "}"
	}
	for _, b := range physicsPlugin(d).Bodies {
		s += " body{" + bodyStr(b) + "}"
	}
	return s
}

// frozen runs a generator once for the choices and makes a rebuilder from the
// recorded decisions, so a case can be constructed several times.
func frozen(c *Chooser, g func(*Chooser) *mqo.Document) func() *mqo.Document {
	sub := &recorder{}
	d := g2(c, sub, g)
	_ = d
	return func() *mqo.Document { return g(Replay(sub.vec)) }
}

type recorder struct{ vec []int }

func g2(c *Chooser, r *recorder, g func(*Chooser) *mqo.Document) *mqo.Document {
	before := len(c.Vec())
	d := g(c)
	r.vec = append(r.vec, c.Vec()[before:]...)
	return d
}

func baseObjects(doc *mqo.Document, c *Chooser) {
	uids := Pick(c, "uids", [2]int{1, 2}, [2]int{20, 19}, [2]int{2, 1}, [2]int{0, 0}, [2]int{7, 1}, [2]int{0, 5})
	for i := 0; i < 2; i++ {
		o := simpleObject(fmt.Sprintf("obj%d", i), 4)
		o.UID = uids[i]
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2, 3}}}
		switch c.Choose(fmt.Sprintf("o%d.uids", i), 7) {
		case 1:
			for k := 0; k < 4; k++ {
				o.VertexByUID[k+1] = k
			}
		case 2:
			for k := 0; k < 4; k++ {
				o.VertexByUID[4-k] = k
			}
		case 3:
			for k := 0; k < 4; k++ {
				o.VertexByUID[10*k+5] = k
			}
		case 4:
			o.VertexByUID[3] = 1
			o.VertexByUID[9] = 2
		case 5: // identifiers that later vertices have by their position
			o.VertexByUID[2] = 0
			o.VertexByUID[4] = 1
		case 6:
			o.VertexByUID[4] = 0
			o.VertexByUID[8] = 1
		}
		doc.Objects = append(doc.Objects, o)
	}
}

// vertexID is an identifier that resolves to vertex idx, or 0.
func vertexID(o *mqo.Object, idx int) int {
	for id, i := range o.VertexByUID {
		if i == idx {
			return id
		}
	}
	if _, taken := o.VertexByUID[idx+1]; taken {
		return 0
	}
	return idx + 1
}

var xmlNames = []string{"センター", "a b", "<&\">'", "", "右腕捩", "tab\tx", "emoji😀", "x,y", "#", "]]>"}

func c02Bones(c *Chooser) *mqo.Document {
	doc := mqo.NewDocument()
	baseObjects(doc, c)
	n := Pick(c, "nb", 2, 1, 3, 0)
	bp := mqo.GetBonePlugin(doc)
	if c.Flag("limit") {
		bp.BoneSet2.Limit = 4
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("b%d.", i)
		b := &mqo.Bone{ID: i + 1, Name: fmt.Sprintf("bone%d", i), Parent: i}
		b.Parent = Pick(c, l+"parent", i, 0, n)
		b.ID = Pick(c, l+"id", i+1, i+100)
		b.Name = Pick(c, l+"name", append([]string{b.Name}, xmlNames...)...)
		b.Group = Pick(c, l+"group", 0, 3)
		b.Pos.Vector3 = v3(pickFloat(c, l+"x", float32(i)), pickFloat(c, l+"y", 1), pickFloat(c, l+"z", 0))
		b.Movable = Pick(c, l+"mov", 0, 1)
		b.Hide = Pick(c, l+"hide", 0, 1)
		b.Dummy = Pick(c, l+"dummy", 0, 1)
		b.Color = Pick(c, l+"color", "", "#ff0000", "1,0,0")
		if k := c.Choose(l+"up", 3); k > 0 {
			b.UpVector = &mqo.Vector3Attr{Vector3: []mqo.Vector3{v3(0, 0, 0), v3(0.5, -1e-7, 1e7)}[k-1]}
		}
		if k := c.Choose(l+"rot", 3); k > 0 {
			b.Rotate = &mqo.Vector3Attr{Vector3: []mqo.Vector3{v3(0, 0, 0), v3(90, -45.5, 1e-3)}[k-1]}
		}
		if k := c.Choose(l+"ik", 3); k > 0 {
			b.IK = []*mqo.BoneIK{{ChainCount: 2}, {ChainCount: 3, Name: "IK <x>", TipName: "先"}}[k-1]
		}
		for oi, o := range doc.Objects {
			for vi := 0; vi < 3; vi++ {
				def := 0
				if oi == 0 && vi == i {
					def = 1
				}
				k := c.Choose(fmt.Sprintf("%sw%d.%d", l, oi, vi), 4)
				if k == 0 {
					k = def
				}
				w := []float32{0, 100, 33.333332, 1e-3}[k]
				if w > 0 {
					if id := vertexID(o, vi); id != 0 {
						uid := o.UID
						if uid == 0 {
							uid = oi + 1
						}
						b.SetVertexWeight(uid, id, w)
					}
				}
			}
		}
		bp.AddBone(b)
	}
	return doc
}

func c02Other(c *Chooser) *mqo.Document {
	doc := mqo.NewDocument()
	baseObjects(doc, c)
	if !c.Flag("nomorph") {
		mp := mqo.GetMorphPlugin(doc)
		n := Pick(c, "lists", 1, 2, 0)
		for i := 0; i < n; i++ {
			m := &mqo.MorphTargetList{Base: Pick(c, fmt.Sprintf("l%d.base", i), append([]string{fmt.Sprintf("obj%d", i)}, xmlNames...)...)}
			k := Pick(c, fmt.Sprintf("l%d.n", i), 1, 2, 3, 0)
			for j := 0; j < k; j++ {
				m.Target = append(m.Target, &mqo.MorphTarget{
					Name:  Pick(c, fmt.Sprintf("l%d.t%d", i, j), append([]string{fmt.Sprintf("t%d", j)}, xmlNames...)...),
					Param: Pick(c, fmt.Sprintf("l%d.p%d", i, j), 0, 50, 100, -5)})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, m)
		}
	}
	if !c.Flag("nophysics") {
		pp := mqo.GetPhysicsPlugin(doc)
		n := Pick(c, "bodies", 1, 2, 0)
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("y%d.", i)
			b := &mqo.PhysicsBody{Mass: 1}
			b.Mass = pickFloat(c, l+"mass", 1)
			b.Kinematic = c.Flag(l + "kin")
			b.CollisionGroup = Pick(c, l+"grp", 0, 5, 15)
			b.CollisionMask = Pick(c, l+"mask", 0, 0xffff, 1)
			b.Restitution = Pick[float32](c, l+"rest", 0, 0.5)
			b.Friction = Pick[float32](c, l+"fric", 0, 0.25)
			b.LinearDamping = Pick[float32](c, l+"ld", 0, 0.99)
			b.AngularDamping = Pick[float32](c, l+"ad", 0, 0.01)
			b.Name = Pick(c, l+"name", append([]string{""}, xmlNames...)...)
			b.TargetBoneID = Pick(c, l+"bone", 0, 1, 7)
			b.TargetObjID = Pick(c, l+"obj", 0, 1, 7)
			ns := Pick(c, l+"shapes", 1, 2, 3, 0)
			for j := 0; j < ns; j++ {
				ll := fmt.Sprintf("%ss%d.", l, j)
				s := &mqo.PhysicsShape{Type: Pick(c, ll+"type", "BOX", "SPHERE", "CAPSULE", "")}
				s.Size = mqo.Vector3XmlAttr(v3(pickFloat(c, ll+"sx", 1), 2, 3))
				s.Position = mqo.Vector3XmlAttr(v3(0, pickFloat(c, ll+"py", 1), 0.5))
				s.Rotation = mqo.Vector3XmlAttr(v3(0.1, 0.2, pickFloat(c, ll+"rz", 1)))
				b.Shapes = append(b.Shapes, s)
			}
			pp.Bodies = append(pp.Bodies, b)
		}
		k := Pick(c, "joints", 1, 2, 0)
		for i := 0; i < k; i++ {
			l := fmt.Sprintf("j%d.", i)
			pp.Constraints = append(pp.Constraints, &mqo.PhysicsJointConstraint{
				Type: Pick(c, l+"type", "SPRING", ""), Body1: Pick(c, l+"b1", 1, 0, 9), Body2: Pick(c, l+"b2", 2, 0, 9),
				Name:     Pick(c, l+"name", append([]string{""}, xmlNames...)...),
				Position: mqo.Vector3XmlAttr(v3(1, pickFloat(c, l+"py", 2), 3)), Rotation: mqo.Vector3XmlAttr(v3(0.5, 0, pickFloat(c, l+"rz", -1))),
				LinerSpring: mqo.Vector3XmlAttr(v3(pickFloat(c, l+"ls", 0), 0, 1)), AngulerSpring: mqo.Vector3XmlAttr(v3(0, pickFloat(c, l+"as", 0), 1)),
			})
		}
	}
	if c.Flag("old bones") {
		bp := mqo.GetBonePlugin(doc)
		bp.BoneSet.Bone = []*mqo.BoneOld{
			{ID: 1, Name: "root", Sc: 1, MaxAngB: 90, Weights: []*mqo.BoneWeight{{ObjectID: 1, VertexID: 2, Weight: 0.5}}},
			{ID: 2, Name: "子", RtX: 1.5, TpY: -2, MvZ: 3, RotH: 0.25, Parent: mqo.BoneRef{ID: 1}, MinAngP: -45}}
		mqo.UpdateBoneRef(bp.BoneSet.Bone)
	}
	if c.Flag("poses") {
		bp := mqo.GetBonePlugin(doc)
		bp.PoseSet.BonePoses = []*mqo.BonePose{{ID: 1, Name: "p", MvX: 1, RotH: -0.5, ScP: 1}, {ID: 2}}
	}
	return doc
}

var c02Files = []string{"x.mqo", "x.mqoz", "a b.mqo", "model.v1.mqo", "モデル.mqoz", "a.b.mqoz"}

func c02Docs(g func(*Chooser) *mqo.Document) func(c *Chooser) any {
	return func(c *Chooser) any {
		return &c02Case{build: frozen(c, g), file: c02Files[c.Choose("file", len(c02Files))]}
	}
}

// operations on the history scenario
const (
	opSaveA = iota // save current document as a.mqo
	opSaveB        // save current document as b.mqoz
	opLoadA
	opLoadB
	opSaveC // a second .mqo in the same directory
	opLoadC
	opEdit // add a bone with weights
	nOps02
)

func c02History(depth int) func(c *Chooser) any {
	return func(c *Chooser) any {
		kind := c.Free("base", 3)
		ops := make([]int, depth)
		have := map[int]bool{}
		for i := range ops {
			ops[i] = c.Free(fmt.Sprintf("op%d", i), nOps02)
			switch ops[i] {
			case opSaveA, opSaveB, opSaveC:
				have[ops[i]] = true
			case opLoadA:
				if !have[opSaveA] {
					return nil
				}
			case opLoadB:
				if !have[opSaveB] {
					return nil
				}
			case opLoadC:
				if !have[opSaveC] {
					return nil
				}
			}
		}
		return &c02Case{build: func() *mqo.Document {
			switch kind {
			case 0:
				return c02Bones(Replay(nil))
			case 1:
				return c02Other(Replay(nil))
			}
			d := c02Bones(Replay([]int{0, 3}))
			d.Plugins = append(d.Plugins, c02Other(Replay(nil)).Plugins...)
			return d
		}, file: "history", ops: ops}
	}
}

func c02CheckDoc(t *T, v any) {
	cs := v.(*c02Case)
	ref, doc := cs.build(), cs.build()
	path := filepath.Join(t.Dir(), cs.file)
	for round := 0; round < 3; round++ {
		if err := mqo.Save(doc, path); err != nil {
			t.Fatal("save", "save %d: %v", round, err)
		}
		d := diffCompanion(ref, doc)
		t.Must(d.empty(), "save-changes-document", "round %d: saving changed the document: %s", round, d)
		t.Must(fmt.Sprint(objRefs(doc)) == fmt.Sprint(wantObjRefs(ref)), "object-list", "round %d: weighted object list %v, want %v", round, objRefs(doc), wantObjRefs(ref))
		got, err := mqo.Load(path)
		t.Must(err == nil, "load", "load %d: %v", round, err)
		d = diffCompanion(ref, got)
		t.Must(d.empty(), "roundtrip", "round %d: %s", round, d)
		d = diffMQO(ref, got)
		t.Must(d.empty(), "roundtrip-mesh", "round %d: %s", round, d)
		t.Must(fmt.Sprint(objRefs(got)) == fmt.Sprint(wantObjRefs(ref)), "object-list", "round %d: weighted object list %v, want %v", round, objRefs(got), wantObjRefs(ref))
		if round == 1 {
			doc = got
		}
		t.Extra(2)
	}
}

func c02CheckHistory(t *T, v any) {
	cs := v.(*c02Case)
	ref, doc := cs.build(), cs.build()
	dir := t.Dir()
	paths := map[int]string{opSaveA: "m.a.mqo", opSaveB: "m.mqoz", opSaveC: "m.b.mqo", opLoadA: "m.a.mqo", opLoadB: "m.mqoz", opLoadC: "m.b.mqo"}
	files := map[string]int{} // number of edits at the time of saving
	edits := 0
	edit := func(d *mqo.Document, k int) {
		b := &mqo.Bone{ID: 50 + k, Name: fmt.Sprintf("new%d", k), Parent: 1}
		b.SetVertexWeight(d.Objects[1].UID, 4, 10)
		mqo.GetBonePlugin(d).AddBone(b)
	}
	model := func(k int) *mqo.Document {
		r := cs.build()
		for i := 0; i < k; i++ {
			edit(r, i)
		}
		return r
	}
	for i, op := range cs.ops {
		switch op {
		case opSaveA, opSaveB, opSaveC:
			if err := mqo.Save(doc, filepath.Join(dir, paths[op])); err != nil {
				t.Fatal("save", "step %d: %v", i, err)
			}
			files[paths[op]] = edits
		case opLoadA, opLoadB, opLoadC:
			got, err := mqo.Load(filepath.Join(dir, paths[op]))
			t.Must(err == nil, "load", "step %d: %v", i, err)
			doc, edits = got, files[paths[op]]
		case opEdit:
			edit(doc, edits)
			edits++
		}
		ref = model(edits)
		d := diffCompanion(ref, doc)
		t.Must(d.empty(), "history", "after step %d of %v: %s", i, cs.ops, d)
		d = diffMQO(ref, doc)
		t.Must(d.empty(), "history-mesh", "after step %d of %v: %s", i, cs.ops, d)
	}
	t.State(cs.ops, cs.Describe())
}

func init() {
	h := func(depth int, q, th int) *Scenario {
		return &Scenario{Name: fmt.Sprintf("history%d", depth), Gen: c02History(depth), Check: c02CheckHistory, Quick: q, Thorough: th,
			What: fmt.Sprintf("all sequences of %d save/load/edit operations on three base documents", depth)}
	}
	Register(&Property{
		ID:    "C02",
		Level: "model_checking",
		Rule:  "documents within B edits of a base document, saved and loaded three times over; all operation sequences (save as .mqo/.mqoz, load, edit) of the stated length, against a reference document",
		Scenarios: []*Scenario{
			{Name: "bones", Gen: c02Docs(c02Bones), Check: c02CheckDoc, Quick: 2, Thorough: 3, What: "bones, attributes, IK, weights x vertex identifier layouts x file names"},
			{Name: "morphs-physics", Gen: c02Docs(c02Other), Check: c02CheckDoc, Quick: 2, Thorough: 3, What: "morph lists, bodies, shapes, joints, old bones, poses x file names"},
			{Name: "sizes", Gen: gen02Sizes(0), Check: c02CheckDoc, Quick: 0, Thorough: 0, What: "bones, weights, morph targets, bodies with n elements, n around every power of two up to 66000"},
			h(5, 0, 0),
			{Name: "history6", Gen: c02History(6), Check: c02CheckHistory, Quick: -1, Thorough: 0, What: "all sequences of 6 operations"},
		},
	})
}
