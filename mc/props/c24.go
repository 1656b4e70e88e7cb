package props

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"image"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// C24: the command line tool. The tool is built from the tree and run as a process, as a user
// without rights outside the scratch directory.

func setup24(dir string) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "modelconv"), "github.com/binzume/modelconv/cmd/modelconv")
	cmd.Dir = filepath.Join(os.Getenv("MC_VERIF"), "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the tool: %v\n%s", err, out)
	}
	return nil
}

type result24 struct {
	code    int
	out     string
	timeout bool
}

func (r *result24) String() string {
	o := r.out
	if len(o) > 600 {
		o = o[:600] + "..."
	}
	return fmt.Sprintf("exit status %d, output %q", r.code, o)
}

// tool runs the tool and checks what holds for every run.
func tool(t *T, dir string, args ...string) *result24 {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(SharedDir(), "modelconv"), args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := &result24{out: b.String(), timeout: ctx.Err() != nil}
	if e, ok := err.(*exec.ExitError); ok {
		r.code = e.ExitCode()
	} else if err != nil && !r.timeout {
		panic("engine: " + err.Error())
	}
	t.Must(!r.timeout, "hang", "%q did not end within 30 s", args)
	crashed := r.code < 0 || strings.Contains(r.out, "goroutine 1 [") || strings.Contains(r.out, "fatal error:")
	t.Must(!crashed, "crash", "%q crashed: %s", args, r)
	if r.code != 0 {
		t.Must(strings.TrimSpace(r.out) != "", "silent", "%q: exit status %d without a message", args, r.code)
	}
	return r
}

// ---- the document the options are applied to

var objNames24 = []string{"body", "a/b", "child", "m[1]", "base", "tA", "tB", "体"}

func doc24() *mqo.Document {
	doc := mqo.NewDocument()
	mat := func(name string, shader int, w float32) *mqo.Material {
		m := &mqo.Material{Name: name, Color: geomV4(0.5, 0.25, 0.75, w), Diffuse: 0.8, Ambient: 0.5, Specular: 0.25, Power: 5, Shader: shader}
		doc.Materials = append(doc.Materials, m)
		return m
	}
	mat("mat1", 3, 1)
	m2 := mat("mat2", 3, 1)
	m2.Ex2 = mqo.NewMaterialEx2("glTF")
	m2.Ex2.ShaderType = "hlsl"
	m2.Ex2.ShaderParams = map[string]interface{}{"AlphaMode": 2, "AlphaCutOff": 0.25, "Metallic": 0.75, "Roughness": 0.5}
	mat("a/b", 0, 0.5)
	mat("m[1]", 1, 1)
	mat("$MORPH:tA:mat1", 3, 0.5).Color = geomV4(1, 0.75, 0.25, 0.5)
	mat("色", 3, 1)
	for i, n := range objNames24 {
		o := mqo.NewObject(n)
		o.UID = i + 1
		o.Depth = []int{0, 1, 2, 0, 1, 0, 0, 1}[i]
		o.Visible = n != "tA" && n != "tB"
		x := float32(i) * 100
		if n == "tA" || n == "tB" {
			x = 400
		}
		o.Vertexes = []*geom.Vector3{pv3(x, 0, 8), pv3(x, 40, 8), pv3(x+40, 0, 8), pv3(x+40, 40, 16)}
		if n == "tA" {
			o.Vertexes[0], o.Vertexes[3] = pv3(x+8, 16, 24), pv3(x+40, 80, 0)
		} else if n == "tB" {
			o.Vertexes[0], o.Vertexes[1] = pv3(x-16, 0, 8), pv3(x, 40, 48)
		}
		a, b := i%4, (i+1)%4
		if i >= 4 {
			a, b = 5, 0
		}
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Material: a, UVs: []geom.Vector2{{X: 0, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 0}}}, {Verts: []int{1, 3, 2}, Material: b}}
		doc.Objects = append(doc.Objects, o)
	}
	bp := mqo.GetBonePlugin(doc)
	for i, n := range []string{"root", "up", "arm", "手"} {
		b := &mqo.Bone{ID: i + 1, Name: n, Parent: []int{0, 1, 2, 2}[i], Pos: mqo.Vector3Attr{Vector3: v3(float32(i)*8, float32(i)*32, 4)}}
		bp.AddBone(b)
		b.SetVertexWeight(1, i+1, 100)
	}
	mp := mqo.GetMorphPlugin(doc)
	mp.MorphSet.Targets = []*mqo.MorphTargetList{{Base: "base", Target: []*mqo.MorphTarget{{Name: "tA"}, {Name: "tB"}}}}
	return doc
}

// opts24 are the options and what they are expected to do.
type opts24 struct {
	hide, hidemat, unlit, alpha, morph, chparent string
	scale, sx, sy, sz                            string
	rot                                          bool
	in, out                                      string // extensions
	style                                        int    // how the output is named
	before                                       string // objects that are hidden in the input
}

func (o *opts24) Describe() string {
	return fmt.Sprintf("%q %s%s -> %s", o.args(), o.in, o.before, o.out)
}

func (o *opts24) args() (r []string) {
	for _, x := range [][2]string{{"hide", o.hide}, {"hidemat", o.hidemat}, {"unlit", o.unlit}, {"alpha", o.alpha}, {"morph", o.morph}, {"chparent", o.chparent}, {"scale", o.scale}, {"scaleX", o.sx}, {"scaleY", o.sy}, {"scaleZ", o.sz}} {
		if x[1] != "" {
			r = append(r, "-"+x[0], x[1])
		}
	}
	if o.rot {
		r = append(r, "-rot180")
	}
	return
}

func wild(pattern, name string) bool {
	if p, rest, ok := strings.Cut(pattern, "*"); ok {
		if !strings.HasPrefix(name, p) {
			return false
		}
		for i := len(p); i <= len(name); i++ {
			if wild(rest, name[i:]) {
				return true
			}
		}
		return false
	}
	return pattern == name
}

func wildAny(list, name string) bool {
	if list == "" {
		return false
	}
	for _, p := range strings.Split(list, ",") {
		if wild(p, name) {
			return true
		}
	}
	return false
}

func num24(s string) float64 {
	if s == "" {
		return 1
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return f
}

func (o *opts24) scaling() v3d {
	s := num24(o.scale)
	if s == 0 {
		s = 1
	}
	r := v3d{s * num24(o.sx), s * num24(o.sy), s * num24(o.sz)}
	if o.rot {
		r[0], r[2] = -r[0], -r[2]
	}
	return r
}

// expected outcome
type want24 struct {
	fail, either bool
	hidden       map[string]bool // objects
	gone         map[string]bool // materials
	unlit        map[string]bool
	mode         map[string]string
	alpha        map[string]float32
	color        map[string]geom.Vector4
	verts        map[string][]v3d
	parent       map[string]string
}

func (o *opts24) want(doc *mqo.Document) *want24 {
	w := &want24{hidden: map[string]bool{}, gone: map[string]bool{}, unlit: map[string]bool{}, mode: map[string]string{}, alpha: map[string]float32{}, color: map[string]geom.Vector4{}, verts: map[string][]v3d{}, parent: map[string]string{}}
	mats := map[string]*mqo.Material{}
	for _, m := range doc.Materials {
		mats[m.Name] = m
		w.color[m.Name] = m.Color
	}
	objs := map[string]*mqo.Object{}
	for i, b := range doc.Objects {
		objs[b.Name] = b
		if !b.Visible {
			w.hidden[b.Name] = true
		}
		if wildAny(o.hide, b.Name) {
			w.hidden[b.Name] = true
			for _, c := range doc.Objects[i+1:] {
				if c.Depth <= b.Depth {
					break
				}
				w.hidden[c.Name] = true
			}
		}
		for _, v := range b.Vertexes {
			w.verts[b.Name] = append(w.verts[b.Name], v3g(v))
		}
	}
	// morphs
	if o.morph != "" {
		for _, e := range strings.Split(o.morph, ",") {
			n, v, ok := strings.Cut(e, ":")
			f, err := strconv.ParseFloat(v, 64)
			if !ok || err != nil {
				w.fail = true
				return w
			}
			if n == "tA" || n == "tB" {
				var d []v3d
				for i, b := range w.verts["base"] {
					d = append(d, w.verts[n][i].sub(b).mul(f))
				}
				other := map[string]string{"tA": "tB", "tB": "tA"}[n]
				for i := range d {
					w.verts["base"][i] = w.verts["base"][i].add(d[i])
					w.verts[other][i] = w.verts[other][i].add(d[i])
				}
			}
			if n == "tA" {
				c, m := w.color["mat1"], w.color["$MORPH:tA:mat1"]
				g := float32(f)
				w.color["mat1"] = geomV4(c.X+(m.X-c.X)*g, c.Y+(m.Y-c.Y)*g, c.Z+(m.Z-c.Z)*g, c.W+(m.W-c.W)*g)
			}
		}
	}
	sc := o.scaling()
	for _, l := range w.verts {
		for i := range l {
			l[i] = l[i].had(sc)
		}
	}
	// materials
	for _, m := range doc.Materials {
		w.gone[m.Name] = wildAny(o.hidemat, m.Name)
		w.unlit[m.Name] = wildAny(o.unlit, m.Name)
		if o.alpha != "" {
			for _, e := range strings.Split(o.alpha, ",") {
				n, v, ok := strings.Cut(e, ":")
				f, err := strconv.ParseFloat(v, 32)
				if !ok || err != nil && v != "opaque" && v != "mask" && v != "blend" {
					w.fail = true
					return w
				}
				if !wild(n, m.Name) || w.gone[m.Name] {
					continue
				}
				c := w.color[m.Name]
				switch {
				case v == "opaque":
					c.W = 1
					w.mode[m.Name] = v
				case v == "mask" || v == "blend":
					w.mode[m.Name] = v
				case v == "0":
					w.gone[m.Name] = true
				default:
					c.W = float32(f)
					w.mode[m.Name] = "blend"
				}
				w.color[m.Name] = c
			}
		}
	}
	// bones
	for _, b := range mqo.GetBonePlugin(doc).Bones() {
		for _, p := range mqo.GetBonePlugin(doc).Bones() {
			if p.ID == b.Parent {
				w.parent[b.Name] = p.Name
			}
		}
		if b.Parent == 0 {
			w.parent[b.Name] = ""
		}
	}
	if o.chparent != "" {
		for _, e := range strings.Split(o.chparent, ",") {
			l := strings.Split(e, ":")
			if len(l) != 2 {
				w.fail = true
				return w
			}
			if _, ok := w.parent[l[0]]; !ok {
				if _, ok := w.parent[l[1]]; !ok {
					w.either = true
				}
				continue
			}
			if _, ok := w.parent[l[1]]; !ok {
				w.fail = true
				return w
			}
			w.parent[l[0]] = l[1]
		}
		for b := range w.parent {
			p := w.parent[b]
			for i := 0; p != "" && i < 9; i++ {
				p = w.parent[p]
			}
			if p != "" {
				w.either = true // bones in a circle: refused, or written as asked
			}
		}
	}
	return w
}

func gen24Options(out string) func(c *Chooser) any {
	return func(c *Chooser) any {
		o := &opts24{out: out}
		o.in = Pick(c, "input", "mqo", "mqoz")
		o.style = c.Choose("naming", 3)
		o.hide = Pick(c, "hide", "", "body", "b*", "*", "a/b", "child,m[1]", "nobody", "体", "*d*", "m*,ch*ld", "tA", "?")
		if o.hide == "?" {
			o.hide = "a/b,*1]"
		}
		o.hidemat = Pick(c, "hidemat", "", "mat1", "mat*", "*", "a/b", "m[1]", "色,mat2", "nomat", "*]")
		o.unlit = Pick(c, "unlit", "", "*", "mat1", "mat2", "a/*,m[1]", "色", "nomat", "*2")
		o.alpha = Pick(c, "alpha", "", "mat1:0.5", "mat2:0.5", "mat1:blend", "mat2:blend", "mat1:opaque,mat2:opaque", "mat1:mask", "mat2:mask", "*:opaque", "a/b:opaque", "m[1]:0.25", "m[1]:mask", "mat2:0", "色:0.75,mat1:0", "mat1:1", "mat1:bogus", "nomat:0.5", "色:", "*:mask", "m*:blend", "色:0.5,色:opaque", "mat1", "nomat:bogus")
		o.morph = Pick(c, "morph", "", "tA:1", "tB:0.5", "tA:0.5,tB:0.5", "tB:1,tA:0.25", "tA:0", "nomorph:1", "tA", "tA:x", "tB:-1", "tB:2", "tA:", "base:1", "tA:1,tA:0.5")
		o.chparent = Pick(c, "chparent", "", "arm:root", "arm:手", "手:root,arm:root", "nobone:root", "arm:nobone", "arm", "arm:root:x", "root:arm", "arm:arm", "up:arm,arm:root", "nobone:nobone")
		o.scale = Pick(c, "scale", "", "2", "0.5", "1", "0", "100")
		o.sx = Pick(c, "scaleX", "", "1.5", "0.25")
		o.sy = Pick(c, "scaleY", "", "2")
		o.sz = Pick(c, "scaleZ", "", "0.5")
		o.rot = c.Flag("rot180")
		o.before = Pick(c, "hidden before", "", " body", " a/b", " child", " body a/b", " m[1]")
		return o
	}
}

// prepare writes the input; returns its name and the document as the library reads it.
func (o *opts24) prepare(t *T, dir string) (string, *mqo.Document) {
	in := filepath.Join(dir, "in."+o.in)
	src := doc24()
	for _, b := range src.Objects {
		for _, n := range strings.Fields(o.before) {
			b.Visible = b.Visible && b.Name != n
		}
	}
	if err := mqo.Save(src, in); err != nil {
		t.Fatal("prepare", "saving the input: %v", err)
	}
	doc, err := mqo.Load(in)
	t.Must(err == nil, "prepare", "loading the input: %v", err)
	return in, doc
}

// run converts with one of the ways to name the output.
func (o *opts24) run(t *T, dir, in string) (*result24, string) {
	args := o.args()
	out := filepath.Join(dir, "out."+o.out)
	switch o.style {
	case 0:
		return tool(t, dir, append(args, in, out)...), out
	case 1: // relative names
		return tool(t, dir, append(args, filepath.Base(in), filepath.Base(out))...), out
	}
	// named after the input
	out = filepath.Join(dir, "in."+o.out)
	if out == in {
		out = filepath.Join(dir, "OUT."+strings.ToUpper(o.out))
		return tool(t, dir, append(args, in, out)...), out
	}
	return tool(t, dir, append(append(args, "-format", o.out), in)...), out
}

func files24(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r[p] = string(b)
		}
		return nil
	})
	return r
}

// untouched checks that all files that existed are as they were.
func untouched(t *T, before map[string]string, dir string, outs ...string) {
	after := files24(dir)
	for _, p := range sortedKeys(before) {
		skip := false
		for _, o := range outs {
			skip = skip || p == o
		}
		if after[p] != before[p] && !skip {
			t.Fail("input", "the tool changed %s", filepath.Base(p))
		}
	}
}

// the outcome of a run is the expected one; true when there is an output to look at.
func (w *want24) outcome(t *T, r *result24, out string) bool {
	if w.fail {
		t.Expect(r.code != 0, "accepted", "an error is expected: %s", r)
		return false
	}
	if w.either && r.code != 0 {
		t.OK()
		return false
	}
	if !t.Expect(r.code == 0, "refused", "failed: %s", r) {
		return false
	}
	_, err := os.Stat(out)
	return t.Expect(err == nil, "no output", "exit status 0 without an output: %s", r)
}

func c24MQO(t *T, v any) {
	o := v.(*opts24)
	dir := t.Dir()
	in, doc := o.prepare(t, dir)
	before := files24(dir)
	w := o.want(doc)
	r, out := o.run(t, dir, in)
	mqx := strings.TrimSuffix(out, filepath.Ext(out)) + ".mqx"
	if strings.TrimSuffix(in, filepath.Ext(in)) == strings.TrimSuffix(out, filepath.Ext(out)) {
		untouched(t, before, dir, out, mqx)
	} else {
		untouched(t, before, dir)
	}
	if !w.outcome(t, r, out) {
		t.State(r.code)
		return
	}
	got, err := mqo.Load(out)
	t.Must(err == nil, "load", "the output does not load: %v", err)
	ref := doc
	d := &diffs{}
	for i, m := range ref.Materials {
		n := m.Name
		m.Color = w.color[n]
		if i >= len(got.Materials) {
			break
		}
		g := got.Materials[i]
		if w.gone[n] {
			if !strings.HasPrefix(g.Name, n) || !strings.Contains(g.Name, "$IGNORE") {
				d.add("hidden material %q is now %q", n, g.Name)
			}
			if o.alpha == "" {
				d.f32("alpha of hidden material "+n, 0, g.Color.W, 1e-3)
			}
			ref.Materials[i] = g // other options on a hidden material: unspecified
			continue
		}
		if w.unlit[n] {
			unl := g.GetShaderName() == "Constant" || g.GetShaderName() == "glTF" && g.Ex2.BoolParam("Extensions.Unlit")
			d.eq("unlit "+n, true, unl)
			m.Shader, m.Ex2 = g.Shader, g.Ex2
		}
		if w.mode[n] != "" {
			m.Shader, m.Ex2 = g.Shader, g.Ex2
			if g.GetShaderName() == "glTF" {
				d.eq("alpha mode of "+n, map[string]int{"opaque": mqo.AlphaModeOpaque, "mask": mqo.AlphaModeMask, "blend": mqo.AlphaModeBlend}[w.mode[n]], g.Ex2.IntParam("AlphaMode"))
			}
		}
	}
	scaled := o.scaling() != v3d{1, 1, 1}
	for i, b := range ref.Objects {
		b.Visible = !w.hidden[b.Name]
		if i >= len(got.Objects) {
			break
		}
		g := got.Objects[i]
		if len(g.Vertexes) == len(b.Vertexes) {
			for k, v := range w.verts[b.Name] {
				d.v3d(fmt.Sprintf("%s vertex %d", b.Name, k), v, g.Vertexes[k], 1e-4)
				b.Vertexes[k] = g.Vertexes[k]
			}
		}
		if scaled { // relative to the object: another property
			b.Translation, b.Rotation, b.Scale = g.Translation, g.Rotation, g.Scale
		}
	}
	names := map[int]string{}
	gb := mqo.GetBonePlugin(got).Bones()
	for _, b := range gb {
		names[b.ID] = b.Name
	}
	rb := mqo.GetBonePlugin(ref).Bones()
	d.eq("bones", len(rb), len(gb))
	sc := o.scaling()
	for i := 0; i < len(rb) && i < len(gb); i++ {
		b := rb[i]
		d.eq("bone name", b.Name, gb[i].Name)
		d.eq("parent of bone "+b.Name, w.parent[b.Name], names[gb[i].Parent])
		d.v3d("position of bone "+b.Name, v3g(&b.Pos.Vector3).had(sc), &gb[i].Pos.Vector3, 1e-4)
		d.eq("weights of bone "+b.Name, fmt.Sprint(weightList(b)), fmt.Sprint(weightList(gb[i])))
	}
	d.eq("morphs", morphStr(mqo.GetMorphPlugin(ref).Morphs()[0]), func() string {
		l := mqo.GetMorphPlugin(got).Morphs()
		if len(l) != 1 {
			return fmt.Sprint(len(l), " lists")
		}
		return morphStr(l[0])
	}())
	d.list = append(d.list, diffMQO(ref, got).list...)
	t.Expect(d.empty(), "options", "%v", d)
	isZip := bytes.HasPrefix(readFile(out), []byte("PK"))
	t.Expect(isZip == (o.out == "mqoz"), "format", "the output is an archive: %v", isZip)
	t.State(o.args(), len(got.Objects))
}

// openGLTF reads the output with its external files.
func openGLTF(t *T, out string) gl {
	d, err := gltf.Open(out)
	t.Must(err == nil, "load", "the output does not load: %v", err)
	g := gl{d}
	if l := g.valid(); len(l) > 0 {
		t.Fatal("valid", "the output is not valid: %s", l[0])
	}
	return g
}

func isUnlit(m *gltf.Material) bool {
	_, ok := m.Extensions["KHR_materials_unlit"]
	return ok
}

// samePoints compares sets of points.
func samePoints(a, b []v3d) string {
	in := func(p v3d, l []v3d) bool {
		for _, q := range l {
			if p.sub(q).len() <= 1e-5*(1+p.len()) {
				return true
			}
		}
		return false
	}
	for _, p := range a {
		if !in(p, b) {
			return fmt.Sprintf("no vertex at %v", p)
		}
	}
	for _, p := range b {
		if !in(p, a) {
			return fmt.Sprintf("unexpected vertex at %v", p)
		}
	}
	return ""
}

func c24GLTF(t *T, v any) {
	o := v.(*opts24)
	dir := t.Dir()
	in, doc := o.prepare(t, dir)
	before := files24(dir)
	w := o.want(doc)
	base, err := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{TextureResolutionLimit: 4096}).Convert(func() *mqo.Document { d, _ := mqo.Load(in); return d }(), dir)
	t.Must(err == nil, "prepare", "conversion without options: %v", err)
	r, out := o.run(t, dir, in)
	untouched(t, before, dir)
	if !w.outcome(t, r, out) {
		t.State(r.code)
		return
	}
	g := openGLTF(t, out)
	d := &diffs{}
	// geometry by material
	want := map[string][]v3d{}
	for _, b := range doc.Objects {
		if w.hidden[b.Name] {
			continue
		}
		for _, f := range b.Faces {
			n := doc.Materials[f.Material].Name
			if w.gone[n] {
				continue
			}
			for _, k := range f.Verts {
				want[n] = append(want[n], w.verts[b.Name][k])
			}
		}
	}
	got := map[string][]v3d{}
	worlds := g.worlds()
	for i, n := range g.Nodes {
		if n.Mesh == nil {
			continue
		}
		for _, p := range g.Meshes[*n.Mesh].Primitives {
			name := "?"
			if p.Material != nil {
				name = g.Materials[*p.Material].Name
			}
			pos := g.rendered(i, worlds, p, nil)
			for _, tr := range g.tris(p) {
				for _, k := range tr {
					got[name] = append(got[name], pos[k].mul(1000))
				}
			}
		}
	}
	for n := range got {
		if want[n] == nil {
			d.add("faces of material %q are in the output", n)
		}
	}
	for _, n := range sortedKeys(want) {
		if e := samePoints(want[n], got[n]); e != "" {
			d.add("material %s: %s", n, e)
		}
	}
	find := func(l []*gltf.Material, n string) *gltf.Material {
		for _, m := range l {
			if m.Name == n {
				return m
			}
		}
		return nil
	}
	for _, n := range sortedKeys(want) {
		m, b := find(g.Materials, n), find(base.Materials, n)
		if m == nil || b == nil {
			d.add("material %q is missing", n)
			continue
		}
		d.eq("unlit "+n, w.unlit[n] || isUnlit(b), isUnlit(m))
		c := w.color[n]
		mc := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
		for k, x := range []float32{c.X, c.Y, c.Z, c.W} {
			d.f32(fmt.Sprintf("color %d of %s", k, n), x, mc[k], 2e-3)
		}
		mode := w.mode[n]
		if mode == "" {
			mode = []string{"opaque", "mask", "blend"}[b.AlphaMode]
			if find(base.Materials, n).AlphaMode == gltf.AlphaOpaque && c.W < 0.99 {
				mode = "blend" // the colour became transparent
			}
		}
		gm := []string{"opaque", "mask", "blend"}[m.AlphaMode]
		if mode == "blend" && c.W >= 0.99 && strings.Contains(o.alpha, ":1") {
			gm = mode // fully opaque
		}
		if b.AlphaMode == gltf.AlphaBlend && w.mode[n] == "" && c.W >= 0.99 {
			gm = mode
		}
		d.eq("alpha mode of "+n, mode, gm)
		if m.AlphaMode == gltf.AlphaMask {
			d.f32("cutoff of "+n, b.AlphaCutoffOrDefault(), m.AlphaCutoffOrDefault(), 1e-6)
		}
		if !w.unlit[n] {
			d.f32("metallic of "+n, b.PBRMetallicRoughness.MetallicFactorOrDefault(), m.PBRMetallicRoughness.MetallicFactorOrDefault(), 1e-6)
			d.f32("roughness of "+n, b.PBRMetallicRoughness.RoughnessFactorOrDefault(), m.PBRMetallicRoughness.RoughnessFactorOrDefault(), 1e-6)
		}
	}
	// joints
	parents := g.parents()
	sc := o.scaling()
	for _, b := range mqo.GetBonePlugin(doc).Bones() {
		if w.hidden["body"] {
			break
		}
		i := findNode(g.Document, b.Name)
		if i < 0 {
			d.add("bone %q is missing", b.Name)
			continue
		}
		p := v3d{worlds[i][0][3], worlds[i][1][3], worlds[i][2][3]}.mul(1000)
		if q := v3g(&b.Pos.Vector3).had(sc); !q.near(p, 1e-3) {
			d.add("bone %s is at %v, want %v", b.Name, p, q)
		}
		if pn := w.parent[b.Name]; pn != "" && !w.either {
			if parents[i] < 0 || g.Nodes[parents[i]].Name != pn {
				d.add("bone %s is not a child of %s", b.Name, pn)
			}
		}
	}
	if o.out == "vrm" {
		_, ok := g.Extensions["VRM"]
		d.eq("VRM extension", true, ok)
	}
	t.Expect(d.empty(), "options", "%v", d)
	t.State(o.args(), len(g.Nodes))
}

// ---- format pairs

type pair24 struct {
	in, out     int
	style       int
	scale       float64
	upper       bool
	tex         int
	vmd, conf   int
	cwd         int
	physics, hi bool
}

var ins24 = []string{"mqo", "mqoz", "pmx", "pmd", "fbx", "fbx ascii", "unity project", "unity package", "package without a scene name", "glb", "gltf", "gltf embedded", "vrm", "gltf in parts"}
var outs24 = []string{"mqo", "mqoz", "pmx", "glb", "gltf", "vrm", "fbx"}

func (p *pair24) Describe() string {
	return fmt.Sprintf("%s -> %s naming %d scale %v upper %v texture %d motion %d config %d run in %d", ins24[p.in], outs24[p.out], p.style, p.scale, p.upper, p.tex, p.vmd, p.conf, p.cwd)
}

func (p *pair24) isGLTF() bool { return p.in >= 9 }
func (p *pair24) isMMD() bool  { return p.in == 2 || p.in == 3 }

func gen24Pairs(c *Chooser) any {
	p := &pair24{}
	p.in = c.Free("input", len(ins24))
	p.out = c.Free("output", len(outs24))
	if p.out == 6 && p.in != 4 && p.in != 5 {
		return nil
	}
	p.style = c.Choose("naming", 5)
	p.upper = c.Flag("upper case")
	p.scale = Pick(c, "scale", 0, 2, 0.5, 80)
	p.tex = c.Choose("texture", 4)
	p.vmd = c.Choose("motion", 6)
	p.conf = c.Choose("config", 8)
	p.cwd = c.Choose("run in", 4)
	p.physics = c.Flag("physics")
	return p
}

func pmx24(tex string) *mmd.Document {
	doc := mmd.NewDocument()
	doc.Name = "model"
	for i, q := range [][3]float32{{0, 0, 1}, {2, 0, 1}, {2, 4, 1}, {0, 4, 3}} {
		doc.Vertexes = append(doc.Vertexes, &mmd.Vertex{Pos: v3(q[0], q[1], q[2]), Normal: v3(0, 0, -1), UV: mmd.Vector2{X: float32(i % 2), Y: float32(i / 2)}, EdgeScale: 1, Bones: []int{0, 1}, BoneWeights: []float32{0.5, 0.5}})
	}
	doc.Faces = []*mmd.Face{{Verts: [3]int{0, 1, 2}}, {Verts: [3]int{0, 2, 3}}}
	m := &mmd.Material{Name: "mat", Color: geomV4(1, 0.5, 0.25, 1), Count: 6, TextureID: -1, EnvID: -1}
	if tex != "" {
		doc.Textures = []string{tex}
		m.TextureID = 0
	}
	doc.Materials = []*mmd.Material{m}
	doc.Bones = []*mmd.Bone{{Name: "センター", ParentID: -1, Pos: v3(0, 1, 0), TailID: -1, InheritParentID: -1}, {Name: "右腕", ParentID: 0, Pos: v3(1, 3, 0), TailID: -1, InheritParentID: -1}}
	return doc
}

func fbx24() *fscene {
	return &fscene{
		models: []*fsModel{{id: 101, name: "plate", kind: "Mesh", parent: -1, geom: 0, mats: []int{0}}},
		geoms:  []*fsGeom{{id: 201, name: "g", verts: []v3d{{0, 0, 1}, {2, 0, 1}, {2, 4, 1}, {0, 4, 3}}, polys: [][]int{{0, 1, 2}, {0, 2, 3}}, mat: &fsLayer{mapping: "AllSame", ref: "IndexToDirect", ints: []int32{0}}}},
		mats:   []*fsMat{{id: 301, name: "mat"}},
	}
}

func gltf24(tex string) *gltf.Document {
	d := newGLTF()
	b := &gbuild{doc: d}
	pos := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, minmax: true, data: rows3([]v3d{{0, 0, 1}, {2, 0, 1}, {2, 4, 1}, {0, 4, 3}})}
	idx := &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUshort, data: [][]float64{{0}, {1}, {2}, {0}, {2}, {3}}}
	p := b.put(true, pos)
	x := b.put(false, idx)
	d.Materials = []*gltf.Material{{Name: "mat", PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}}}
	if tex != "" {
		d.Images = []*gltf.Image{{URI: tex}}
		d.Textures = []*gltf.Texture{{Source: gltf.Index(0)}}
		d.Materials[0].PBRMetallicRoughness.BaseColorTexture = &gltf.TextureInfo{}
	}
	d.Meshes = []*gltf.Mesh{{Name: "mesh", Primitives: []*gltf.Primitive{{Attributes: map[string]uint32{"POSITION": p[0]}, Indices: gltf.Index(x[0]), Material: gltf.Index(0)}}}}
	d.Nodes = []*gltf.Node{{Name: "node", Mesh: gltf.Index(0)}}
	d.Scenes[0].Nodes = []uint32{0}
	return b.done()
}

func packageOf(root string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	w := tar.NewWriter(z)
	put := func(name string, body []byte) {
		w.WriteHeader(&tar.Header{Name: name, Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(body))})
		w.Write(body)
	}
	files := files24(root)
	for _, p := range sortedKeys(files) {
		if strings.HasSuffix(p, ".meta") {
			continue
		}
		meta := files[p+".meta"]
		_, guid, _ := strings.Cut(meta, "guid: ")
		guid = guid[:32]
		rel, _ := filepath.Rel(root, p)
		put(guid+"/asset", []byte(files[p]))
		put(guid+"/asset.meta", []byte(meta))
		put(guid+"/pathname", []byte(filepath.ToSlash(rel)))
	}
	w.Close()
	z.Close()
	return b.Bytes()
}

const sceneGUID24 = "0123456789abcdef0123456789abcdef"

// unity24 is a scene of a cube of 2 x 4 x 1 metres with a material.
func unity24(tex bool) map[string]string {
	s := intro19 + `--- !u!1 &100
GameObject:
  m_ObjectHideFlags: 0
  m_Component:
  - component: {fileID: 101}
  - component: {fileID: 102}
  - component: {fileID: 103}
  m_Layer: 0
  m_Name: cube
  m_TagString: Untagged
  m_IsActive: 1
--- !u!4 &101
Transform:
  m_GameObject: {fileID: 100}
  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}
  m_LocalPosition: {x: 0, y: 2, z: 0}
  m_LocalScale: {x: 2, y: 4, z: 1}
  m_Children: []
  m_Father: {fileID: 0}
  m_RootOrder: 0
  m_LocalEulerAnglesHint: {x: 0, y: 0, z: 0}
--- !u!33 &102
MeshFilter:
  m_GameObject: {fileID: 100}
  m_Mesh: {fileID: 10202, guid: 0000000000000000e000000000000000, type: 0}
--- !u!23 &103
MeshRenderer:
  m_GameObject: {fileID: 100}
  m_Enabled: 1
  m_Materials:
  - {fileID: 2100000, guid: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa, type: 2}
`
	m := &mat19{name: "mat", guid: strings.Repeat("a", 32), color: [4]float64{1, 0.5, 0.25, 1}, scale: [2]float64{1, 1}}
	r := map[string]string{"Assets/Scenes/main.unity": s, "Assets/Scenes/main.unity.meta": "fileFormatVersion: 2\nguid: " + sceneGUID24 + "\nDefaultImporter:\n  externalObjects: {}\n"}
	if tex {
		m.tex = strings.Repeat("b", 32)
		r["Assets/tex.png"] = string(encodePNG(texImage(false)))
		r["Assets/tex.png.meta"] = "fileFormatVersion: 2\nguid: " + m.tex + "\nTextureImporter:\n  mipmaps: {a: 1}\n"
	}
	r["Assets/mat.mat"] = m.text()
	r["Assets/mat.mat.meta"] = "fileFormatVersion: 2\nguid: " + m.guid + "\nNativeFormatImporter:\n  mainObjectFileID: 2100000\n"
	return r
}

// input writes the source; returns its argument, and the document in millimetres.
func (p *pair24) input(t *T, dir string) (string, *mqo.Document) {
	tex := ""
	if p.tex > 0 {
		tex = []string{"", "opaque.png", "sub/skin.png", "gone.png"}[p.tex]
		writeTextures(dir)
	}
	ext := strings.Fields(ins24[p.in])[0]
	if p.upper {
		ext = strings.ToUpper(ext)
	}
	name := filepath.Join(dir, "model.v1."+ext) // a name with a dot
	var doc *mqo.Document
	var err error
	fail := func(err error) { t.Must(err == nil, "prepare", "preparing the input: %v", err) }
	switch p.in {
	case 0, 1:
		doc = mqo.NewDocument()
		doc.Materials = []*mqo.Material{{Name: "mat", Color: geomV4(1, 0.5, 0.25, 1), Texture: tex}}
		o := mqo.NewObject("plate")
		o.Vertexes = []*geom.Vector3{pv3(0, 0, 1000), pv3(2000, 0, 1000), pv3(2000, 4000, 1000), pv3(0, 4000, 3000)}
		o.Faces = []*mqo.Face{{Verts: []int{2, 1, 0}, UVs: []geom.Vector2{{}, {X: 1}, {Y: 1}}}, {Verts: []int{3, 2, 0}, UVs: []geom.Vector2{{}, {X: 1}, {Y: 1}}}}
		doc.Objects = []*mqo.Object{o}
		b := &mqo.Bone{ID: 1, Name: "センター", Pos: mqo.Vector3Attr{Vector3: v3(0, 80, 0)}}
		mqo.GetBonePlugin(doc).AddBone(b)
		for k := 1; k <= 4; k++ {
			b.SetVertexWeight(1, k, 100)
		}
		if p.in == 1 {
			fail(mqo.SaveMQOZ(doc, name))
		} else {
			lower := filepath.Join(dir, "model.v1.mqo")
			fail(mqo.Save(doc, lower))
			if lower != name {
				fail(os.Rename(lower, name))
			}
		}
		return name, doc
	case 2, 3:
		m := pmx24(tex)
		if p.in == 2 {
			writeFile(name, encodePMX(m, []byte{0, 0, 4, 4, 4, 4, 4, 4}, pmxExtra{}))
		} else {
			writeFile(name, encodePMD(m, nil, nil, 0))
		}
		mm, err := mmd.Load(name)
		fail(err)
		doc = converter.NewMMDToMQOConverter(&converter.MMDToMQOOption{InheritParentThreshold: 0.4}).Convert(mm)
	case 4, 5:
		s := fbx24()
		if p.in == 4 {
			writeFile(name, encodeFBX(s.nodes(), binOpt{version: 7400}))
		} else {
			writeFile(name, encodeASCII(s.nodes(), asciiStyle{}))
		}
		f, err := fbx.Load(name)
		fail(err)
		doc, err = converter.NewFBXToMQOConverter(nil).Convert(f)
		fail(err)
	case 6, 7, 8:
		root := filepath.Join(dir, "MyAssets", "Proj")
		for n, s := range unity24(p.tex > 0) {
			q := filepath.Join(root, n)
			os.MkdirAll(filepath.Dir(q), 0o755)
			writeFile(q, []byte(s))
		}
		a, err := unity.OpenAssets(filepath.Join(root, "Assets"))
		fail(err)
		sc, err := unity.LoadScene(a, "Assets/Scenes/main.unity")
		fail(err)
		doc, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{}).Convert(sc)
		fail(err)
		a.Close()
		if p.in == 6 {
			return filepath.Join(root, "Assets", "Scenes", "main.unity"), doc
		}
		ext := ".unitypackage"
		if p.upper {
			ext = ".UnityPackage"
		}
		pkg := filepath.Join(dir, "proj"+ext)
		writeFile(pkg, packageOf(root))
		os.RemoveAll(filepath.Join(dir, "MyAssets"))
		if p.in == 7 {
			return pkg + "#Assets/Scenes/main.unity", doc
		}
		return pkg, doc
	default:
		d := gltf24(tex)
		switch ins24[p.in] {
		case "glb", "vrm":
			if ins24[p.in] == "vrm" {
				d.Extensions = gltf.Extensions{"VRM": map[string]any{"meta": map[string]any{"title": "t"}, "humanoid": map[string]any{"humanBones": []any{}}, "materialProperties": []any{}}}
				d.ExtensionsUsed = []string{"VRM"}
			}
			fail(gltf.SaveBinary(d, name))
		case "gltf":
			d.Buffers[0].URI = "model.bin"
			fail(gltf.Save(d, name))
		case "gltf in parts": // the indices are in a file of their own
			v := d.BufferViews[1]
			d.Buffers = append(d.Buffers, &gltf.Buffer{URI: "index.bin", ByteLength: v.ByteLength, Data: append([]byte{}, d.Buffers[0].Data[v.ByteOffset:v.ByteOffset+v.ByteLength]...)})
			v.Buffer, v.ByteOffset = 1, 0
			d.Buffers[0].URI = "model.bin"
			fail(gltf.Save(d, name))
		case "gltf embedded":
			d.Buffers[0].EmbeddedResource()
			fail(gltf.Save(d, name))
		}
		f, err := gltf.Open(name)
		fail(err)
		doc, err = converter.NewGLTFToMQOConverter(nil).Convert(f)
		fail(err)
	}
	_ = err
	return name, doc
}

type box24 struct{ lo, hi v3d }

func boxOf(l []v3d) (b box24) {
	b.lo, b.hi = v3d{1e9, 1e9, 1e9}, v3d{-1e9, -1e9, -1e9}
	for _, v := range l {
		for a := range v {
			b.lo[a], b.hi[a] = math.Min(b.lo[a], v[a]), math.Max(b.hi[a], v[a])
		}
	}
	return
}

func points24(doc *mqo.Document) (l []v3d) {
	for _, o := range doc.Objects {
		if !o.Visible {
			continue
		}
		for _, f := range o.Faces {
			for _, v := range f.Verts {
				l = append(l, v3g(o.Vertexes[v]))
			}
		}
	}
	return
}

func c24Pairs(t *T, v any) {
	p := v.(*pair24)
	dir := t.Dir()
	in, doc := p.input(t, dir)
	outName := outs24[p.out]
	src := in
	if f, _, ok := strings.Cut(in, "#"); ok {
		src = f
	}
	// how the output is named
	ext := outName
	if p.upper {
		ext = strings.ToUpper(ext)
	}
	var args []string
	if p.physics {
		args = append(args, "-physics")
	}
	if p.scale != 0 {
		args = append(args, "-scale", fmt.Sprint(p.scale))
	}
	switch p.conf {
	case 1:
		writeFile(filepath.Join(dir, "c.json"), []byte(`{"meta":{"title":"T1"},"boneMappings":[{"bone":"hips","nodeNames":["センター"]}]}`))
		args = append(args, "-vrmconfig", filepath.Join(dir, "c.json"))
	case 2: // next to the input
		c := strings.TrimSuffix(in, filepath.Ext(in)) + ".vrmconfig.json"
		if strings.Contains(in, "#") {
			return
		}
		writeFile(c, []byte(`{"meta":{"title":"T1"},"boneMappings":[{"bone":"hips","nodeNames":["センター"]}]}`))
	case 3:
		args = append(args, "-vrmconfig", "mmd")
	case 4: // the option counts, not the file next to the input
		writeFile(strings.TrimSuffix(src, filepath.Ext(src))+".vrmconfig.json", []byte(`{"meta":{"title":"T2"}}`))
		writeFile(filepath.Join(dir, "c.json"), []byte(`{"meta":{"title":"T1"},"boneMappings":[{"bone":"hips","nodeNames":["センター"]}]}`))
		args = append(args, "-vrmconfig", filepath.Join(dir, "c.json"))
	case 5:
		args = append(args, "-vrmconfig", filepath.Join(dir, "missing.json"))
	case 6:
		writeFile(filepath.Join(dir, "c.json"), []byte(`{"meta":{"title":`))
		args = append(args, "-vrmconfig", filepath.Join(dir, "c.json"))
	case 7:
		writeFile(filepath.Join(dir, "c.json"), []byte(`{"preset":"nothing"}`))
		args = append(args, "-vrmconfig", filepath.Join(dir, "c.json"))
	}
	gltfOut := outName == "glb" || outName == "gltf" || outName == "vrm"
	// settings and motions that cannot be read
	bad := outName == "vrm" && p.conf >= 5 || gltfOut && !p.isGLTF() && p.vmd >= 4
	either := p.conf >= 5 || p.vmd >= 4 || p.tex == 3 // not used, missing image
	motions := []int{0, 1, 2, 1, 0, 0}[p.vmd]
	args = append(args, in)
	if p.vmd > 0 {
		m := filepath.Join(dir, "m.vmd")
		if p.vmd == 3 {
			m = filepath.Join(dir, "Mo.tion.VMD")
		}
		a := &mmd.Animation{Name: "model"}
		a.Bone = []*mmd.AnimationBoneSample{{Target: "センター", Frame: 0, Rotation: geomV4(0, 0, 0, 1)}, {Target: "センター", Frame: 30, Position: v3(0, 1, 0), Rotation: geomV4(0, 0, 0, 1)}}
		if b := encodeVMD(a, 0, 0); p.vmd == 4 {
			writeFile(m, b[:len(b)/2])
		} else if p.vmd != 5 { // missing
			writeFile(m, b)
		}
		args = append(args, m)
		if p.vmd == 2 {
			args = append(args, m)
		}
	}
	var out string
	switch p.style {
	case 0:
		out = filepath.Join(dir, "out."+ext)
		args = append(args, out)
	case 1: // the format option decides
		out = filepath.Join(dir, "out.data")
		args = append([]string{"-format", outName}, append(args, out)...)
	case 2: // named after the input
		if p.vmd > 0 {
			return
		}
		out = strings.TrimSuffix(in, filepath.Ext(in)) + "." + outName
		args = append([]string{"-format", outName}, args...)
		if strings.Contains(in, "#") {
			return // the name of a scene in a package
		}
		if out == src {
			return
		}
	case 3: // the default format
		if p.vmd > 0 || strings.Contains(in, "#") {
			return
		}
		def := "mqo"
		if p.in <= 1 {
			def = "glb"
		}
		if def != outName {
			return
		}
		out = strings.TrimSuffix(in, filepath.Ext(in)) + "." + outName
		if out == src {
			return
		}
	case 4: // another directory
		os.MkdirAll(filepath.Join(dir, "o ut"), 0o755)
		out = filepath.Join(dir, "o ut", "x.y."+ext)
		args = append(args, out)
	}
	cwd := dir
	switch {
	case p.cwd == 1: // absolute names, other files around
		cwd = filepath.Join(dir, "elsewhere")
		os.MkdirAll(cwd, 0o755)
		writeTextures(cwd)
		for _, n := range []string{"opaque.png", "sub/skin.png", "model.bin", "index.bin"} {
			writeFile(filepath.Join(cwd, n), []byte("another file"))
		}
	case p.cwd == 3 && p.in == 6: // in the project
		cwd = filepath.Join(dir, "MyAssets", "Proj")
		fallthrough
	case p.cwd >= 2: // names relative to the directory
		for i, a := range args {
			args[i] = strings.TrimPrefix(a, cwd+"/")
			if p.cwd == 3 && p.in != 6 && args[i] != a {
				args[i] = "./" + args[i]
			}
		}
	}
	before := files24(dir)
	_, existed := before[out]
	r := tool(t, cwd, args...)
	if bad {
		untouched(t, before, dir)
		t.Expect(r.code != 0, "accepted", "%s: %q: exit status 0: %s", p.Describe(), args, r)
		t.State(p.Describe(), r.code)
		return
	}
	if either && r.code != 0 {
		t.OK()
		return
	}
	mqx := strings.TrimSuffix(out, filepath.Ext(out)) + ".mqx"
	untouched(t, before, dir, out, mqx)
	t.Must(r.code == 0, "refused", "%q failed: %s", args, r)
	_, err := os.Stat(out)
	t.Must(err == nil && !existed, "no output", "%q: exit status 0 without an output %s: %s", args, filepath.Base(out), r)

	sc := p.scale
	if sc == 0 {
		sc = 1
		if p.isMMD() {
			sc = 80
		}
	}
	want := boxOf(points24(doc))
	var got []v3d
	unit := 1.0
	head := readFile(out)
	if len(head) > 4 {
		head = head[:4]
	}
	d := &diffs{}
	switch outName {
	case "mqo", "mqoz":
		f := out
		d.eq("an archive", outName == "mqoz", string(head) == "PK\x03\x04")
		if p.style == 1 {
			f = filepath.Join(dir, "copy."+outName)
			writeFile(f, readFile(out))
		}
		g, err := mqo.Load(f)
		t.Must(err == nil, "load", "the output does not load: %v", err)
		got = points24(g)
	case "pmx":
		g, err := mmd.Load(out)
		t.Must(err == nil, "load", "the output does not load: %v", err)
		d.eq("signature", "PMX ", string(head))
		for _, f := range g.Faces {
			for _, v := range f.Verts {
				got = append(got, v3g(&g.Vertexes[v].Pos))
			}
		}
		unit = 1. / 80
	case "fbx":
		g, err := fbx.Load(out)
		t.Must(err == nil, "load", "the output does not load: %v", err)
		q, err := converter.NewFBXToMQOConverter(nil).Convert(g)
		t.Must(err == nil, "load", "the output does not convert: %v", err)
		got = points24(q)
		sc = 1 // FBX to FBX keeps the document
	default:
		g := openGLTF(t, out)
		isGLB := string(head) == "glTF"
		d.eq("binary", outName != "gltf", isGLB)
		worlds := g.worlds()
		for i, n := range g.Nodes {
			if n.Mesh != nil {
				for _, q := range g.Meshes[*n.Mesh].Primitives {
					l := g.rendered(i, worlds, q, nil)
					for _, tr := range g.tris(q) {
						for _, k := range tr {
							got = append(got, l[k])
						}
					}
				}
			}
		}
		if !p.isGLTF() { // a glTF document keeps its numbers on the way to MQO
			unit = 0.001
		}
		if outName == "vrm" {
			x, ok := g.Extensions["VRM"]
			d.eq("VRM extension", true, ok)
			if p.conf == 1 || p.conf == 2 || p.conf == 4 {
				d.eq("title of the config file", true, strings.Contains(jsonText(x), `"title":"T1"`))
			}
			if p.isMMD() {
				want.lo[0], want.hi[0] = -want.hi[0], -want.lo[0]
				want.lo[2], want.hi[2] = -want.hi[2], -want.lo[2]
			}
			if (p.isMMD() || p.in <= 1) && p.conf > 0 || p.isMMD() {
				d.eq("a humanoid bone", true, strings.Contains(jsonText(x), `"bone":"hips"`) || p.isMMD() && p.conf != 1 && p.conf != 2 && p.conf != 4)
			}
		}
		if !p.isGLTF() && p.vmd > 0 && (p.isMMD() || p.in <= 1) {
			d.eq("animations", motions, len(g.Animations))
		}
		if p.tex > 0 && p.tex != 3 && !(p.in == 4 || p.in == 5) {
			// the image is in the file, or a file that exists next to the output
			if len(g.Images) != 1 {
				d.add("%d images", len(g.Images))
			} else if im := g.Images[0]; im.BufferView == nil && !strings.HasPrefix(im.URI, "data:") && p.style != 4 {
				if _, err := os.Stat(filepath.Join(filepath.Dir(out), im.URI)); err != nil {
					d.add("image %q: %v", im.URI, err)
				}
			} else if isGLB && im.BufferView == nil {
				d.add("image %q is not part of the file", im.URI)
			}
		}
	}
	b := boxOf(got)
	if outName == "vrm" && p.isMMD() || outName == "pmx" {
		// turned or mirrored: sizes
		if !b.hi.sub(b.lo).near(want.hi.sub(want.lo).mul(sc*unit), 1e-4) {
			d.add("size %v, want %v", b.hi.sub(b.lo), want.hi.sub(want.lo).mul(sc*unit))
		}
	} else if !b.lo.near(want.lo.mul(sc*unit), 1e-4) || !b.hi.near(want.hi.mul(sc*unit), 1e-4) {
		d.add("bounding box %v, want %v .. %v", b, want.lo.mul(sc*unit), want.hi.mul(sc*unit))
	}
	t.Expect(d.empty(), "output", "%q: %v", args, d)
	t.State(p.in, p.out, p.style, b)
}

// ---- failures

type fail24 struct {
	in, kind int
	cut      int
	out      int
	block    int
}

var kinds24 = []string{"missing", "empty", "text", "cut", "directory", "unknown type", "unwritable"}
var blocks24 = []string{"missing directory", "a directory", "read only", "full device", "full companion", "unknown type", "no type"}

func (f *fail24) Describe() string {
	s := fmt.Sprintf("%s -> %s: %s", ins24[f.in], outs24[f.out], kinds24[f.kind])
	switch kinds24[f.kind] {
	case "unwritable":
		s += ", " + blocks24[f.block]
	case "cut":
		s += fmt.Sprintf(" %d/16", f.cut)
	}
	return s
}

func gen24Failures(c *Chooser) any {
	f := &fail24{}
	f.in = c.Free("input", len(ins24))
	f.out = c.Free("output", len(outs24))
	if f.out == 6 && f.in != 4 && f.in != 5 {
		return nil
	}
	f.kind = c.Free("failure", len(kinds24))
	switch kinds24[f.kind] {
	case "cut":
		f.cut = c.Free("cut", 16)
	case "unwritable":
		f.block = c.Free("cause", len(blocks24))
	}
	return f
}

func c24Failures(t *T, v any) {
	f := v.(*fail24)
	dir := t.Dir()
	in, _ := (&pair24{in: f.in}).input(t, dir)
	src, rest, _ := strings.Cut(in, "#")
	if rest != "" {
		rest = "#" + rest
	}
	od := filepath.Join(dir, "o")
	os.MkdirAll(od, 0o755)
	out := filepath.Join(od, "out."+outs24[f.out])
	data := readFile(src)
	either := false
	switch kinds24[f.kind] {
	case "missing":
		os.Remove(src)
	case "empty":
		writeFile(src, nil)
	case "text":
		writeFile(src, []byte("this is not a model, {\"or\": is it}\n"))
		either = f.in == 6 // not a scene: nothing in it
	case "cut":
		writeFile(src, data[:len(data)*f.cut/16])
		// text without an end mark, archives whose missing part is not needed
		either = f.in == 5 || f.in == 6 || f.in == 7 || f.in == 8
	case "directory":
		os.Remove(src)
		os.MkdirAll(src, 0o755)
		if f.in == 7 || f.in == 8 {
			either = true // a directory instead of a package: an extracted one
		}
	case "unknown type":
		os.Rename(src, src+".xyz")
		src, rest = src+".xyz", ""
	case "unwritable":
		switch blocks24[f.block] {
		case "missing directory":
			out = filepath.Join(dir, "nodir", "out."+outs24[f.out])
		case "a directory":
			os.MkdirAll(out, 0o755)
		case "read only":
			os.Chmod(od, 0o555)
			t.Cleanups = append(t.Cleanups, func() { os.Chmod(od, 0o755) })
		case "full device":
			os.Symlink("/dev/full", out)
		case "full companion":
			switch outs24[f.out] {
			case "mqo":
				os.Symlink("/dev/full", filepath.Join(od, "out.mqx"))
				either = f.in >= 4 // no bones
			case "gltf":
				os.Symlink("/dev/full", filepath.Join(od, "out0.bin"))
				either = true // the name is not fixed
			default:
				return
			}
		case "unknown type":
			out = filepath.Join(od, "out.xyz")
		case "no type":
			out = filepath.Join(od, "out")
		}
	}
	if kinds24[f.kind] == "empty" && (f.in == 6) {
		either = true
	}
	before := files24(dir)
	r := tool(t, dir, src+rest, out)
	untouched(t, before, dir)
	t.Must(r.code != 0 || either, "accepted", "%s: exit status 0: %s", f.Describe(), r)
	if r.code == 0 {
		fi, err := os.Stat(out)
		t.Must(err == nil && fi.Size() > 0, "no output", "%s: exit status 0 without an output", f.Describe())
	}
	if !either && kinds24[f.kind] != "unwritable" {
		_, err := os.Stat(out)
		t.Expect(err != nil, "left", "%s: there is an output although the tool failed", f.Describe())
	}
	t.State(f.Describe(), r.code)
}

// ---- flags of the conversions

type flags24 struct {
	src                                      int // 0 MQO, 1 MMD, 2 Unity
	vrm                                      bool
	recomp, reuse, flat, alpha, lights, phys bool
	all                                      bool
	limit                                    int
	scale                                    float64
	bytes                                    int64
	thr                                      float64
	tpose                                    string
}

func (f *flags24) Describe() string { return fmt.Sprintf("%+v %q", *f, f.args()) }

func (f *flags24) args() (r []string) {
	for _, x := range []struct {
		n string
		v bool
	}{{"texReCompress", f.recomp}, {"reuseGeometry", f.reuse}, {"ignoreHierarchy", f.flat}, {"detectAlphaTexture", f.alpha}, {"gltfExportLight", f.lights}, {"physics", f.phys}, {"vrmExportAllMorph", f.all}} {
		if x.v {
			r = append(r, "-"+x.n)
		}
	}
	if f.limit != 4096 {
		r = append(r, "-texResolutionLimit", fmt.Sprint(f.limit))
	}
	if f.scale != 1 {
		r = append(r, "-texResizeScale", fmt.Sprint(f.scale))
	}
	if f.bytes != 0 {
		r = append(r, "-texBytesThreshold", fmt.Sprint(f.bytes))
	}
	if f.thr != 0.4 {
		r = append(r, "-mmdFixInheritParentThreshold", fmt.Sprint(f.thr))
	}
	if f.tpose != "" {
		r = append(r, "-autotpose", f.tpose)
	}
	return
}

func gen24Flags(c *Chooser) any {
	f := &flags24{src: c.Free("source", 3), vrm: c.FreeFlag("vrm")}
	f.recomp = c.Flag("recompress")
	f.reuse = c.Flag("reuse")
	f.flat = c.Flag("ignore hierarchy")
	f.alpha = c.Flag("detect alpha")
	f.lights = c.Flag("lights")
	f.phys = c.Flag("physics")
	f.all = c.Flag("all morphs")
	f.limit = Pick(c, "limit", 4096, 8, 4)
	f.scale = Pick(c, "texture scale", 1, 0.5)
	f.bytes = Pick[int64](c, "bytes", 0, 10, 1000000)
	f.thr = Pick(c, "threshold", 0.4, 0.9, 0)
	f.tpose = Pick(c, "autotpose", "", "右*", "右腕,左腕", "nobone")
	return f
}

// summary of a document by names: independent of the order of elements.
func (g gl) summary() string {
	var l []string
	parents := g.parents()
	worlds := g.worlds()
	for i, n := range g.Nodes {
		p := ""
		if parents[i] >= 0 {
			p = g.Nodes[parents[i]].Name
		}
		w := worlds[i]
		s := fmt.Sprintf("node %q below %q at %.3f %.3f %.3f", n.Name, p, w[0][3]+1e-6, w[1][3]+1e-6, w[2][3]+1e-6)
		for _, e := range sortedKeys(n.Extensions) {
			s += " " + e + jsonText(n.Extensions[e])
		}
		if n.Mesh != nil {
			m := g.Meshes[*n.Mesh]
			s += fmt.Sprintf(" mesh %q", m.Name)
			for _, q := range m.Primitives {
				b := boxOf(g.rendered(i, worlds, q, nil))
				s += fmt.Sprintf(" (%d triangles of %d vertices, %d targets, size %.2f)", len(g.tris(q)), len(g.read(int(q.Attributes["POSITION"]))), len(q.Targets), b.hi.sub(b.lo).len())
			}
		}
		l = append(l, s)
	}
	for _, m := range g.Materials {
		l = append(l, fmt.Sprintf("material %q mode %v", m.Name, m.AlphaMode))
	}
	for _, m := range g.Images {
		s := fmt.Sprintf("image %q %s", m.Name, m.MimeType)
		if m.BufferView != nil {
			v := g.BufferViews[*m.BufferView]
			b := g.bufferData(int(v.Buffer))[v.ByteOffset : v.ByteOffset+v.ByteLength]
			if c, k, err := image.DecodeConfig(bytes.NewReader(b)); err == nil {
				s += fmt.Sprintf(" %s %dx%d %d bytes", k, c.Width, c.Height, len(b))
			}
		}
		l = append(l, s)
	}
	if x, ok := g.Extensions["VRM"]; ok {
		var v struct {
			BlendShapeMaster struct {
				BlendShapeGroups []struct{ Name string }
			}
			SecondaryAnimation struct {
				BoneGroups     []any
				ColliderGroups []any
			}
		}
		json.Unmarshal([]byte(jsonText(x)), &v)
		for _, b := range v.BlendShapeMaster.BlendShapeGroups {
			l = append(l, "blend shape "+b.Name)
		}
		l = append(l, fmt.Sprintf("%d spring bone groups, %d collider groups", len(v.SecondaryAnimation.BoneGroups), len(v.SecondaryAnimation.ColliderGroups)))
	}
	used := append([]string{}, g.ExtensionsUsed...)
	sort.Strings(used)
	l = append(l, fmt.Sprint("accessors ", len(g.Accessors), " views ", len(g.BufferViews), " extensions ", used))
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func c24Flags(t *T, v any) {
	f := v.(*flags24)
	dir := t.Dir()
	writeTextures(dir)
	var in string
	var doc *mqo.Document
	vrmconf := ""
	src := dir
	fail := func(err error) { t.Must(err == nil, "prepare", "preparing: %v", err) }
	switch f.src {
	case 0:
		in = filepath.Join(dir, "in.mqo")
		d := doc24()
		d.Materials[0].Texture = "opaque.png"
		d.Materials[2].Texture, d.Materials[2].Color.W = "alpha.png", 1
		d.Materials[2].Name = "leaf"
		pp := mqo.GetPhysicsPlugin(d)
		pp.Bodies = append(pp.Bodies, &mqo.PhysicsBody{Name: "b", TargetBoneID: 2, Kinematic: true, Shapes: []*mqo.PhysicsShape{{Type: "SPHERE", Size: mqo.Vector3XmlAttr{X: 10, Y: 10, Z: 10}}}})
		fail(mqo.Save(d, in))
	case 1:
		in = filepath.Join(dir, "in.pmx")
		m := pmx24("opaque.png")
		m.Bones = append(m.Bones, &mmd.Bone{Name: "付与", ParentID: -1, Pos: v3(1, 3, 0), TailID: -1, InheritParentID: 0, InheritParentInfluence: 0.5, Flags: mmd.BoneFlagInheritRotation})
		m.Morphs = []*mmd.Morph{{Name: "変形", MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: 0, Offset: v3(1, 0, 0)}}}}
		writeFile(in, encodePMX(m, []byte{0, 0, 4, 4, 4, 4, 4, 4}, pmxExtra{}))
	case 2:
		for n, s := range unity24(true) {
			q := filepath.Join(dir, n)
			os.MkdirAll(filepath.Dir(q), 0o755)
			s = strings.Replace(s, "  - component: {fileID: 103}\n", "  - component: {fileID: 103}\n  - component: {fileID: 104}\n", 1)
			if strings.HasSuffix(n, ".unity") {
				s += "--- !u!108 &104\nLight:\n  m_GameObject: {fileID: 100}\n  m_Enabled: 1\n  serializedVersion: 8\n  m_Type: 1\n  m_Color: {r: 1, g: 0.5, b: 0.25, a: 1}\n  m_Intensity: 2.5\n  m_Range: 12\n  m_SpotAngle: 30\n"
			}
			writeFile(q, []byte(s))
		}
		in = filepath.Join(dir, "Assets", "Scenes", "main.unity")
	}
	if f.src == 1 && f.vrm {
		vrmconf = "mmd"
	}
	// the library
	switch f.src {
	case 0:
		var err error
		doc, err = mqo.Load(in)
		fail(err)
	case 1:
		m, err := mmd.Load(in)
		fail(err)
		opt := &converter.MMDToMQOOption{InheritParentThreshold: float32(f.thr)}
		if vrmconf != "" {
			c, err := converter.LoadVRMConfig(vrmconf)
			fail(err)
			for _, b := range c.BoneMappings {
				opt.KnownBoneNames = append(opt.KnownBoneNames, b.NodeNames...)
			}
		}
		doc = converter.NewMMDToMQOConverter(opt).Convert(m)
		s := geom.NewScaleMatrix4(80, 80, 80)
		if f.vrm {
			s = geom.NewScaleMatrix4(-80, 80, -80)
		}
		doc.ApplyTransform(s)
	case 2:
		a, err := unity.OpenAssets(filepath.Join(dir, "Assets"))
		fail(err)
		sc, err := unity.LoadScene(a, "Assets/Scenes/main.unity")
		fail(err)
		doc, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: f.phys, SaveTexrure: true}).Convert(sc)
		fail(err)
		a.Close()
		os.RemoveAll(filepath.Join(dir, "saved_textures_ref"))
	}
	tpose := f.tpose
	if tpose == "" && f.src == 1 && f.vrm {
		tpose = "右腕,左腕"
	}
	if f.src == 1 && f.vrm {
		for _, b := range mqo.GetBonePlugin(doc).Bones() {
			b.RotationOffset.Y = math.Pi
		}
	}
	reuse := f.reuse
	for _, b := range mqo.GetBonePlugin(doc).Bones() {
		if wildAny(tpose, b.Name) {
			reuse = false
			doc.BoneAdjustX(b)
		}
	}
	opt := &converter.MQOToGLTFOption{TextureReCompress: f.recomp, TextureBytesThreshold: f.bytes, TextureResolutionLimit: f.limit, TextureScale: float32(f.scale),
		ReuseGeometry: reuse, IgnoreObjectHierarchy: f.flat, ConvertPhysics: f.phys, DetectAlphaTexture: f.alpha, ExportLights: f.lights}
	ref, err := converter.NewMQOToGLTFConverter(opt).Convert(doc, src)
	fail(err)
	ext := "glb"
	if f.vrm {
		ext = "vrm"
		conf := &converter.Config{}
		if vrmconf != "" {
			conf, err = converter.LoadVRMConfig(vrmconf)
			fail(err)
		}
		if f.phys {
			conf.AnimationBoneFromPhysics, conf.ConvertPhysicsCollider = true, true
		}
		if f.all {
			conf.ExportAllMorph = true
		}
		_, err := converter.ApplyVRMConfig(ref, "out.vrm", src, conf)
		fail(err)
	}
	want := gl{loaded(ref)}.summary()
	out := filepath.Join(dir, "out."+ext)
	r := tool(t, dir, append(f.args(), in, out)...)
	t.Must(r.code == 0, "refused", "failed: %s", r)
	got := openGLTF(t, out).summary()
	if want != got {
		a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
		for i := 0; i < len(a) || i < len(b); i++ {
			if i >= len(a) || i >= len(b) || a[i] != b[i] {
				x, y := "", ""
				if i < len(a) {
					x = a[i]
				}
				if i < len(b) {
					y = b[i]
				}
				t.Fatal("flags", "%q: want %s, got %s", f.args(), x, y)
			}
		}
	}
	t.OK()
	t.State(got)
}

func init() {
	Register(&Property{ID: "C24", Level: "model_checking", Setup: setup24, Unprivileged: true, Scenarios: []*Scenario{
		{Name: "options-mqo", Gen: gen24Options("mqo"), Check: c24MQO, Quick: 2, Thorough: 3, What: "options on MQO documents: combinations"},
		{Name: "options-mqoz", Gen: gen24Options("mqoz"), Check: c24MQO, Quick: 1, Thorough: 2, What: "options, compressed output"},
		{Name: "options-glb", Gen: gen24Options("glb"), Check: c24GLTF, Quick: 2, Thorough: 3, What: "options on the way to glTF binary"},
		{Name: "options-gltf", Gen: gen24Options("gltf"), Check: c24GLTF, Quick: 1, Thorough: 2, What: "options on the way to glTF"},
		{Name: "options-vrm", Gen: gen24Options("vrm"), Check: c24GLTF, Quick: 1, Thorough: 2, What: "options on the way to VRM"},
		{Name: "pairs", Gen: gen24Pairs, Check: c24Pairs, Quick: 2, Thorough: 3, What: "all format pairs, ways to name the output, textures, motions, settings"},
		{Name: "flags", Gen: gen24Flags, Check: c24Flags, Quick: 2, Thorough: 4, What: "flags that select how models are converted, against the same conversion by the library"},
		{Name: "failures", Gen: gen24Failures, Check: c24Failures, Quick: 0, Thorough: 0, What: "missing, damaged and foreign inputs, outputs that cannot be written"},
	}})
}
