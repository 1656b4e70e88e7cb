package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// C25: a motion added to a glTF document.
//
// Oracle: for a motion sample (t, q) of a bone, the glTF node has at time frame/30 the local
// rotation and translation derived here from first principles: the model was mirrored in Z and
// scaled by 0.08 (MMD units to metres), optionally turned by 180 degrees around Y (R) and
// optionally had the rest pose of a bone b and its descendants turned by A(b) around Z. The
// world rotation W of the original bone satisfies W = W(parent) q, the rotation W' of the
// converted one has to satisfy W' A = R W R', hence
//   local' = A(parent) R q R' A(b)',   translation' = rest' + A(parent) R t.

type case25 struct {
	name     string
	order    int // order of the bones in the document
	parentC  int
	idBase   int
	turned   bool // rotated 180 degrees
	tpose    string
	anim     *mmd.Animation
	hasBones bool
	// morphs
	shareMesh, js bool
	extraTarget   bool
}

func (c *case25) Describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "bones %v (order %d, parent of C %d, ids from %d), turned %v, tpose %q, shared mesh %v, loaded %v\n", c.hasBones, c.order, c.parentC, c.idBase, c.turned, c.tpose, c.shareMesh, c.js)
	if n := len(c.anim.Bone) + len(c.anim.Morph); n > 100 {
		return fmt.Sprint(sb.String(), n, " samples")
	}
	for _, s := range c.anim.Bone {
		fmt.Fprintf(&sb, "  bone %q frame %d position %v rotation %v\n", s.Target, s.Frame, s.Position, s.Rotation)
	}
	for _, s := range c.anim.Morph {
		fmt.Fprintf(&sb, "  morph %q frame %d weight %v\n", s.Target, s.Frame, s.Value)
	}
	return sb.String()
}

var bones25 = []string{"全ての親", "左腕", "左ひじ"}

// original rest positions in mm
var rest25 = []v3d{{10, 800, -30}, {130, 1200, 20}, {250, 1100, 50}}

func (c *case25) parents() []int { return []int{-1, 0, []int{1, 0, -1}[c.parentC]} }

func (c *case25) doc() *mqo.Document {
	doc := mqo.NewDocument()
	doc.Materials = append(doc.Materials, &mqo.Material{Name: "m", Color: geomV4(1, 1, 1, 1)})
	o := mqo.NewObject("体")
	for _, p := range rest25 {
		o.Vertexes = append(o.Vertexes, p.geom())
	}
	o.Faces = append(o.Faces, &mqo.Face{Verts: []int{0, 1, 2}, Material: 0})
	doc.Objects = append(doc.Objects, o)
	doc.FixObjectID()
	if !c.hasBones {
		return doc
	}
	var bs []*mqo.Bone
	for i, n := range bones25 {
		b := &mqo.Bone{ID: c.idBase + i, Name: n}
		if p := c.parents()[i]; p >= 0 {
			b.Parent = c.idBase + p
		}
		b.Pos.Vector3 = *rest25[i].geom()
		b.SetVertexWeight(o.UID, i+1, 1)
		bs = append(bs, b)
	}
	pl := mqo.GetBonePlugin(doc)
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[c.order] {
		pl.AddBone(bs[i])
	}
	return doc
}

var rots25 = []mmd.Quaternion{
	{W: 1},
	{Z: 0.6, W: 0.8},
	{X: 0.6, W: 0.8},
	{Y: -0.6, W: 0.8},
	{X: 0.1, Y: 0.5, Z: -0.7, W: 0.5},
	{X: 1},
}

var poss25 = []mmd.Vector3{{}, {X: 1, Y: 2, Z: 3}, {X: -0.5}, {Z: 4}}

func gen25Bones(c *Chooser) any {
	k := &case25{name: "bones", hasBones: true, anim: &mmd.Animation{Name: "motion"}}
	switch c.Free("mode", 4) {
	case 1:
		k.turned = true
	case 2:
		k.tpose = bones25[c.Free("which", 2)]
	case 3:
		k.turned = true
		k.tpose = bones25[c.Free("which", 2)]
	}
	k.order = c.Choose("order", 3)
	k.parentC = c.Choose("parent", 3)
	k.idBase = Pick(c, "ids", 1, 5)
	names := append(append([]string{}, bones25...), "センター2")
	for i, n := range names {
		cnt := c.Choose("samples of "+n, 4)
		if i == 1 {
			cnt = []int{2, 1, 3, 0}[cnt]
		}
		for s := 0; s < cnt; s++ {
			l := fmt.Sprint(n, s)
			x := &mmd.AnimationBoneSample{Target: n}
			x.Frame = Pick2(c.Choose("frame "+l, 4), [][]int{{0, 30, 1, 15}, {30, 15, 100000, 0}, {15, 30, 31, 0}}[s]...)
			x.Rotation = rots25[(c.Choose("rot "+l, len(rots25))+s)%len(rots25)]
			x.Position = poss25[(c.Choose("pos "+l, len(poss25))+s)%len(poss25)]
			k.anim.Bone = append(k.anim.Bone, x)
		}
	}
	b := k.anim.Bone
	switch c.Choose("file order", 3) {
	case 1: // reversed
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	case 2: // by time
		sort.SliceStable(b, func(i, j int) bool { return b[i].Frame < b[j].Frame })
	}
	return k
}

func gen25Morphs(c *Chooser) any {
	k := &case25{name: "morphs", anim: &mmd.Animation{Name: "motion"}}
	k.js = c.FreeFlag("loaded from a file")
	k.shareMesh = c.Flag("two nodes share a mesh")
	k.hasBones = c.Flag("bones")
	if k.hasBones {
		k.idBase = 1
		for _, f := range []int{0, 30} {
			k.anim.Bone = append(k.anim.Bone, &mmd.AnimationBoneSample{Target: bones25[0], Frame: f, Rotation: rots25[1+f/30]})
		}
	}
	for i, n := range []string{"smile", "あ", "blink", "unknown"} {
		cnt := c.Choose("samples of "+n, 4)
		if i == 0 {
			cnt = []int{2, 1, 3, 0}[cnt]
		}
		for s := 0; s < cnt; s++ {
			l := fmt.Sprint(n, s)
			x := &mmd.AnimationMorphSample{Target: n}
			x.Frame = Pick2(c.Choose("frame "+l, 4), [][]int{{0, 30, 1, 15}, {30, 15, 100000, 0}, {15, 30, 31, 0}}[s]...)
			x.Value = Pick2(c.Choose("value "+l, 5), [][]float32{{0, 0.25, 1, 1.5, -0.5}, {1, 0, 0.3, -1, 2}, {0.5, 0, 1, 0.7, -0.25}}[s]...)
			k.anim.Morph = append(k.anim.Morph, x)
		}
	}
	b := k.anim.Morph
	switch c.Choose("file order", 3) {
	case 1:
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	case 2:
		sort.SliceStable(b, func(i, j int) bool { return b[i].Frame < b[j].Frame })
	}
	return k
}

// gen25Sizes makes motions with n keyframes in several file orders.
func gen25Sizes(c *Chooser) any {
	k := &case25{hasBones: true, idBase: 1, anim: &mmd.Animation{Name: "motion"}}
	morphs := c.FreeFlag("morphs")
	n := sizesAll[c.Free("size", len(sizesAll))]
	step := []int{1, 7}[c.Free("step", 2)]
	order := c.Free("file order", 4)
	for i := 0; i < n; i++ {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2: // odd ones after even ones
			if j = 2 * i; j >= n {
				j = 2*(i-(n+1)/2) + 1
			}
		case 3: // halves swapped
			j = (i + n/2) % n
		}
		if morphs {
			for m, name := range []string{"smile", "あ"} {
				k.anim.Morph = append(k.anim.Morph, &mmd.AnimationMorphSample{Target: name, Frame: j*step + m, Value: float32(j%97) / 97})
			}
		} else {
			for b, name := range bones25[:2] {
				a := float64(1+j) * 0.01
				k.anim.Bone = append(k.anim.Bone, &mmd.AnimationBoneSample{Target: name, Frame: j * step, Position: mmd.Vector3{X: float32(j + 1), Y: float32(b)},
					Rotation: mmd.Quaternion{Y: float32(math.Sin(a)), W: float32(math.Cos(a))}})
			}
		}
	}
	k.name = "bones"
	if morphs {
		k.name, k.hasBones = "morphs", false
	}
	return k
}

func c25Sizes(t *T, v any) {
	if v.(*case25).name == "bones" {
		c25Bones(t, v)
	} else {
		c25Morphs(t, v)
	}
}

// curve25 is what a sampler contains.
type curve25 struct {
	times  []float64
	values [][]float64
}

// curves25 reads the animation by node and path, checking its structure.
func curves25(t *T, g gl, a *gltf.Animation) map[string]*curve25 {
	r := map[string]*curve25{}
	for i, ch := range a.Channels {
		if ch.Target.Node == nil || int(*ch.Target.Node) >= len(g.Nodes) {
			t.Fatal("structure", "channel %d has no node", i)
		}
		if ch.Sampler == nil || int(*ch.Sampler) >= len(a.Samplers) {
			t.Fatal("structure", "channel %d has no sampler", i)
		}
		key := fmt.Sprintf("%d/%v", *ch.Target.Node, ch.Target.Path)
		if r[key] != nil {
			t.Fail("structure", "two channels for %s", key)
		}
		s := a.Samplers[*ch.Sampler]
		if s.Input == nil || s.Output == nil || int(*s.Input) >= len(g.Accessors) || int(*s.Output) >= len(g.Accessors) {
			t.Fatal("structure", "sampler of %s has no data", key)
		}
		for _, x := range []uint32{*s.Input, *s.Output} {
			if m := g.fit(int(x)); m != "" {
				t.Fatal("structure", "sampler of %s: %s", key, m)
			}
		}
		in, out := g.Accessors[*s.Input], g.Accessors[*s.Output]
		t.Must(in.Type == gltf.AccessorScalar && in.ComponentType == gltf.ComponentFloat, "structure", "times of %s are %v %v", key, in.Type, in.ComponentType)
		c := &curve25{values: g.read(int(*s.Output))}
		for _, v := range g.read(int(*s.Input)) {
			c.times = append(c.times, v[0])
		}
		t.Must(len(c.times) > 0, "structure", "%s has no keyframes", key)
		for k := 1; k < len(c.times); k++ {
			t.Expect(c.times[k] > c.times[k-1], "increasing", "keyframe times of %s do not increase: %v", key, c.times)
		}
		t.Expect(len(in.Min) == 1 && len(in.Max) == 1, "bounds", "times of %s lack min/max", key)
		if len(in.Min) == 1 && len(in.Max) == 1 {
			t.Expect(float64(in.Min[0]) == c.times[0] && float64(in.Max[0]) == c.times[len(c.times)-1], "bounds", "times of %s: %v but bounds %v %v", key, c.times, in.Min, in.Max)
		}
		n := len(c.times)
		switch ch.Target.Path {
		case gltf.TRSRotation:
			t.Must(out.Type == gltf.AccessorVec4 && len(c.values) == n, "structure", "%s: %d values of type %v for %d times", key, len(c.values), out.Type, n)
		case gltf.TRSTranslation:
			t.Must(out.Type == gltf.AccessorVec3 && len(c.values) == n, "structure", "%s: %d values of type %v for %d times", key, len(c.values), out.Type, n)
		case gltf.TRSWeights:
			nd := g.Nodes[*ch.Target.Node]
			t.Must(nd.Mesh != nil, "structure", "weights of node %d without a mesh", *ch.Target.Node)
			targets := len(g.Meshes[*nd.Mesh].Primitives[0].Targets)
			t.Must(out.Type == gltf.AccessorScalar && len(c.values) == n*targets, "structure", "%s: %d values of type %v for %d times and %d targets", key, len(c.values), out.Type, n, targets)
		default:
			t.Fatal("structure", "unexpected path %v", ch.Target.Path)
		}
		if out.ComponentType != gltf.ComponentFloat {
			t.Must(out.Normalized, "structure", "%s: integer values are not normalized", key)
		}
		t.Expect(s.Interpolation == gltf.InterpolationLinear, "interpolation", "%s is not interpolated linearly", key)
		r[key] = c
	}
	return r
}

func (c *curve25) at(frame int) int {
	for i, x := range c.times {
		if math.Abs(x-float64(frame)/30) < 1e-4*math.Max(1, x) {
			return i
		}
	}
	return -1
}

func frames25[S any](l []S, name string, f func(S) (string, int)) (r []int) {
	seen := map[int]bool{}
	for _, s := range l {
		if n, fr := f(s); n == name && !seen[fr] {
			seen[fr] = true
			r = append(r, fr)
		}
	}
	sort.Ints(r)
	return
}

func boneKey(s *mmd.AnimationBoneSample) (string, int)   { return s.Target, s.Frame }
func morphKey(s *mmd.AnimationMorphSample) (string, int) { return s.Target, s.Frame }

func (c *case25) clone() *mmd.Animation {
	a := &mmd.Animation{Name: c.anim.Name}
	for _, s := range c.anim.Bone {
		x := *s
		a.Bone = append(a.Bone, &x)
	}
	for _, s := range c.anim.Morph {
		x := *s
		a.Morph = append(a.Morph, &x)
	}
	return a
}

func c25Bones(t *T, v any) {
	c := v.(*case25)
	doc := c.doc()
	if c.turned {
		doc.ApplyTransform(geom.NewScaleMatrix4(-1, 1, -1))
		for _, b := range mqo.GetBonePlugin(doc).Bones() {
			b.RotationOffset.Y = math.Pi
		}
	}
	R := m4id()
	if c.turned {
		R = m4s(v3d{-1, 1, -1})
	}
	bones := map[string]*mqo.Bone{}
	for _, b := range mqo.GetBonePlugin(doc).Bones() {
		bones[b.Name] = b
	}
	// turned rest poses, measured from the moved child bones
	A := []m4{m4id(), m4id(), m4id()}
	if c.tpose != "" {
		i := 0
		for bones25[i] != c.tpose {
			i++
		}
		doc.BoneAdjustX(bones[c.tpose])
		child := -1
		for j, p := range c.parents() {
			if p == i && (child < 0 || rest25[j].sub(rest25[i]).len() > rest25[child].sub(rest25[i]).len()) {
				child = j
			}
		}
		if child >= 0 {
			d := R.dir(rest25[child].sub(rest25[i]))
			an := math.Atan2(d[1], d[0])
			rot := -an
			if math.Abs(an) >= math.Pi/2 {
				rot = math.Pi - an
			}
			for j := range A {
				for k := j; k >= 0; k = c.parents()[k] {
					if k == i {
						A[j] = m4r(2, rot*180/math.Pi)
					}
				}
			}
		}
	}
	conv := converter.NewMQOToGLTFConverter(nil)
	out, err := conv.Convert(doc, ".")
	t.Must(err == nil, "convert", "conversion failed: %v", err)
	before := renderable25(out)
	anim := c.clone()
	converter.AddAnimationTpGlb(out, anim, conv.JointNodeToBone, true)
	g := gl{out}
	for _, m := range g.valid() {
		t.Fail("valid", "%s", m)
	}
	t.Expect(reflect.DeepEqual(before, renderable25(out)), "rest", "nodes, meshes or skins were changed")
	var curves map[string]*curve25
	if len(out.Animations) > 0 {
		t.Must(len(out.Animations) == 1, "one", "%d animations", len(out.Animations))
		t.Expect(out.Animations[0].Name == "motion", "name", "animation is called %q", out.Animations[0].Name)
		curves = curves25(t, g, out.Animations[0])
	}
	for i, n := range bones25 {
		node := findNode(out, n)
		t.Must(node >= 0, "node", "no node %q", n)
		p := c.parents()[i]
		Ap := m4id()
		if p >= 0 {
			Ap = A[p]
		}
		Ai, _ := A[i].inv()
		Ri, _ := R.inv()
		rest := g.local(node)
		fr := frames25(c.anim.Bone, n, boneKey)
		check := func(path gltf.TRSProperty, samples func(s *mmd.AnimationBoneSample, v []float64) bool, rests bool) {
			key := fmt.Sprintf("%d/%v", node, path)
			cu := curves[key]
			delete(curves, key)
			if cu == nil {
				t.Expect(rests, "missing", "bone %q has no %v channel", n, path)
				return
			}
			if !t.Expect(len(cu.times) == len(fr), "times", "%v of %q: times %v for frames %v", path, n, cu.times, fr) {
				return
			}
			for _, f := range fr {
				k := cu.at(f)
				if !t.Expect(k >= 0, "times", "%v of %q: times %v for frames %v", path, n, cu.times, fr) {
					return
				}
				ok := false
				for _, s := range c.anim.Bone {
					if s.Target == n && s.Frame == f && samples(s, cu.values[k]) {
						ok = true
					}
				}
				t.Expect(ok, fmt.Sprint(path), "%v of %q at frame %d is %v", path, n, f, cu.values[k])
			}
		}
		wantRot := func(s *mmd.AnimationBoneSample) m4 {
			q := s.Rotation
			return Ap.mul(R).mul(m4q(-float64(q.X), -float64(q.Y), float64(q.Z), float64(q.W))).mul(Ri).mul(Ai)
		}
		wantPos := func(s *mmd.AnimationBoneSample) v3d {
			p := v3d{float64(s.Position.X), float64(s.Position.Y), -float64(s.Position.Z)}.mul(0.08)
			return rest.apply(v3d{}).add(Ap.mul(R).apply(p))
		}
		// a channel may be absent when every frame has a sample that is the rest pose
		restRot, restPos := true, true
		for _, f := range fr {
			anyRot, anyPos := false, false
			for _, s := range c.anim.Bone {
				if s.Target == n && s.Frame == f {
					anyRot = anyRot || wantRot(s).near(m4id(), 1e-4)
					anyPos = anyPos || wantPos(s).near(rest.apply(v3d{}), 1e-5)
				}
			}
			restRot, restPos = restRot && anyRot, restPos && anyPos
		}
		check(gltf.TRSRotation, func(s *mmd.AnimationBoneSample, v []float64) bool {
			l := math.Sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3])
			return math.Abs(l-1) < 1e-3 && m4q(v[0]/l, v[1]/l, v[2]/l, v[3]/l).near(wantRot(s), 1e-3)
		}, restRot)
		check(gltf.TRSTranslation, func(s *mmd.AnimationBoneSample, v []float64) bool {
			return v3d{v[0], v[1], v[2]}.near(wantPos(s), 1e-4)
		}, restPos)
	}
	for k := range curves {
		t.Fail("extra", "unexpected channel %s", k)
	}
	// the same input gives the same result
	doc2 := func() []byte {
		conv := converter.NewMQOToGLTFConverter(nil)
		o, err := conv.Convert(doc, ".")
		t.Must(err == nil, "convert", "second conversion failed: %v", err)
		converter.AddAnimationTpGlb(o, c.clone(), conv.JointNodeToBone, true)
		_, b, err := glb(o)
		t.Must(err == nil, "encode", "can not be written: %v", err)
		return b
	}
	b := doc2()
	for i := 0; i < 3; i++ {
		t.Expect(reflect.DeepEqual(b, doc2()), "deterministic", "the result varies between runs")
	}
	back, _, err := glb(out)
	t.Must(err == nil, "encode", "can not be written: %v", err)
	if d := sameGLTF(out, back); !d.empty() {
		t.Fail("encode", "%s", d)
	}
	t.State(c.turned, c.tpose, len(out.Animations), len(c.anim.Bone))
}

func renderable25(d *gltf.Document) string {
	return jsonText(d.Nodes) + jsonText(d.Meshes) + jsonText(d.Skins) + jsonText(d.Scenes) + jsonText(d.Materials)
}

// doc25 has two meshes with morph targets: names by mesh
var targets25 = [][]string{{"blink", "smile", "other"}, {"smile", "あ"}}

func (c *case25) morphDoc() (*gltf.Document, map[uint32]*mqo.Bone) {
	g := &gbuild{doc: newGLTF()}
	d := g.doc
	for mi, targets := range targets25 {
		m := &gltf.Mesh{Name: fmt.Sprint("mesh", mi), Extras: map[string]interface{}{"targetNames": targets}}
		pos := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: [][]float64{{0, 0, 0}, {1, 0, 0}, {0, 1, float64(mi)}}, minmax: true, target: gltf.TargetArrayBuffer}
		p := &gltf.Primitive{Attributes: map[string]uint32{"POSITION": g.put(true, pos)[0]}}
		for range targets {
			p.Targets = append(p.Targets, gltf.Attribute{"POSITION": g.put(true, pos)[0]})
		}
		m.Primitives = append(m.Primitives, p)
		d.Meshes = append(d.Meshes, m)
	}
	add := func(n *gltf.Node) uint32 {
		n.Matrix, n.Rotation, n.Scale = gltf.DefaultMatrix, gltf.DefaultRotation, gltf.DefaultScale
		d.Nodes = append(d.Nodes, n)
		d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, uint32(len(d.Nodes)-1))
		return uint32(len(d.Nodes) - 1)
	}
	bones := map[uint32]*mqo.Bone{}
	if c.hasBones {
		b := &mqo.Bone{ID: 1, Name: bones25[0]}
		bones[add(&gltf.Node{Name: b.Name})] = b
	}
	add(&gltf.Node{Name: "n0", Mesh: gltf.Index(0)})
	add(&gltf.Node{Name: "none"})
	add(&gltf.Node{Name: "n1", Mesh: gltf.Index(1)})
	if c.shareMesh {
		add(&gltf.Node{Name: "n2", Mesh: gltf.Index(1)})
	}
	d = g.done()
	if c.js {
		d = loaded(d)
	}
	return d, bones
}

func c25Morphs(t *T, v any) {
	c := v.(*case25)
	out, bones := c.morphDoc()
	before := renderable25(out)
	converter.AddAnimationTpGlb(out, c.clone(), bones, true)
	g := gl{out}
	for _, m := range g.valid() {
		t.Fail("valid", "%s", m)
	}
	t.Expect(before == renderable25(out), "rest", "nodes or meshes were changed")
	var curves map[string]*curve25
	if len(out.Animations) > 0 {
		t.Must(len(out.Animations) == 1, "one", "%d animations", len(out.Animations))
		curves = curves25(t, g, out.Animations[0])
	}
	for ni, n := range out.Nodes {
		if n.Mesh == nil {
			continue
		}
		names := targets25[*n.Mesh]
		key := fmt.Sprintf("%d/%v", ni, gltf.TRSWeights)
		cu := curves[key]
		delete(curves, key)
		union := map[int]bool{}
		moves := false
		for _, s := range c.anim.Morph {
			if contains(names, s.Target) {
				union[s.Frame] = true
				moves = moves || s.Value != 0
			}
		}
		if cu == nil {
			t.Expect(!moves, "missing", "node %q has no weights", n.Name)
			continue
		}
		t.Expect(len(cu.times) == len(union), "times", "times %v of node %q for frames %v", cu.times, n.Name, union)
		for ti, name := range names {
			fr := frames25(c.anim.Morph, name, morphKey)
			for f := range union {
				k := cu.at(f)
				if !t.Expect(k >= 0, "times", "times %v of node %q lack frame %d", cu.times, n.Name, f) {
					continue
				}
				got := cu.values[k*len(names)+ti][0]
				lo, hi := math.Inf(1), math.Inf(-1)
				val := func(f int) (a, b float64) {
					a, b = math.Inf(1), math.Inf(-1)
					for _, s := range c.anim.Morph {
						if s.Target == name && s.Frame == f {
							a, b = math.Min(a, float64(s.Value)), math.Max(b, float64(s.Value))
						}
					}
					return
				}
				i := sort.SearchInts(fr, f)
				dup := false
				switch {
				case len(fr) == 0:
					lo, hi = 0, 0
				case i < len(fr) && fr[i] == f:
					lo, hi = val(f)
					dup = true
				case i == 0:
					lo, hi = val(fr[0])
				case i == len(fr):
					lo, hi = val(fr[i-1])
				default:
					a0, a1 := val(fr[i-1])
					b0, b1 := val(fr[i])
					w := float64(f-fr[i-1]) / float64(fr[i]-fr[i-1])
					lo, hi = a0+(b0-a0)*w, a1+(b1-a1)*w
				}
				ok := got >= lo-1e-4 && got <= hi+1e-4
				if dup && ok { // one of the samples
					ok = false
					for _, s := range c.anim.Morph {
						ok = ok || s.Target == name && s.Frame == f && near(got, float64(s.Value), 1e-4)
					}
				}
				t.Expect(ok, "weights", "weight of %q on node %q at frame %d is %v, not %v", name, n.Name, f, got, lo)
			}
		}
	}
	for k := range curves {
		if !strings.HasSuffix(k, fmt.Sprint("/", gltf.TRSRotation)) || !c.hasBones {
			t.Fail("extra", "unexpected channel %s", k)
		}
	}
	enc := func() []byte {
		o, b := c.morphDoc()
		converter.AddAnimationTpGlb(o, c.clone(), b, true)
		return jsonOf(o)
	}
	b := enc()
	for i := 0; i < 3; i++ {
		t.Expect(reflect.DeepEqual(b, enc()), "deterministic", "the result varies between runs")
	}
	t.State(c.js, c.shareMesh, len(out.Animations), len(c.anim.Morph))
}

func init() {
	Register(&Property{ID: "C25", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "bones", Quick: 3, Thorough: 4, Gen: gen25Bones, Check: c25Bones, What: "skeletons x bone samples x rest pose changes"},
		{Name: "sizes", Gen: gen25Sizes, Check: c25Sizes, What: "motions of n keyframes, n around every power of two up to 1030, in four file orders"},
		{Name: "morphs", Quick: 3, Thorough: 5, Gen: gen25Morphs, Check: c25Morphs, What: "morph samples x meshes"},
	}})
}
