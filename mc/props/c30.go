//go:build maporder

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"runtime"
	_ "unsafe" // for linkname

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// C30: the output depends on the input and the options only. The checker is built with a runtime
// whose map iterations start where mapStart says instead of at a random element (see run.sh).

//go:linkname mapStart internal/runtime/maps.MCStart
var mapStart func(used uint64) uint64

type case30 struct {
	*case29
	scene *case19
}

func (c *case30) Describe() string {
	if c.scene != nil {
		return c.scene.Describe()
	}
	return c.case29.Describe()
}

func gen30(format string) func(c *Chooser) any {
	g := gen29(format, true)
	return func(c *Chooser) any {
		r, _ := g(c).(*case29)
		if r == nil {
			return nil
		}
		return &case30{case29: r}
	}
}

func gen30Scene(g func(c *Chooser) any) func(c *Chooser) any {
	return func(c *Chooser) any {
		s, ok := g(c).(*case19)
		if !ok || s == nil {
			return nil
		}
		return &case30{scene: s}
	}
}

type out30 struct {
	name string
	data []byte
}

// run converts the input in one of the ways of the command.
func (c *case30) run(dir string) (r []out30) {
	add := func(name string, f func(b *bytes.Buffer) error) {
		var b bytes.Buffer
		if err := f(&b); err != nil {
			fmt.Fprint(&b, "error: ", err)
		}
		r = append(r, out30{name, b.Bytes()})
	}
	addGLTF := func(name string, g *gltf.Document) {
		add(name, func(b *bytes.Buffer) error {
			e := gltf.NewEncoder(b)
			e.AsBinary = true
			return e.Encode(g)
		})
	}
	fail := func(err error) bool {
		if err != nil {
			r = append(r, out30{"error", []byte(err.Error())})
		}
		return err != nil
	}
	var doc *mqo.Document
	var err error
	switch {
	case c.scene != nil:
		a, err := unity.OpenAssets(filepath.Join(dir, "Assets"))
		if fail(err) {
			return r
		}
		defer a.Close()
		s, err := unity.LoadScene(a, c.scene.files[len(c.scene.files)-1].path)
		if fail(err) {
			return r
		}
		doc, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: true}).Convert(s)
		if fail(err) {
			return r
		}
	case c.format == "mqo":
		doc, err = mqo.Load(filepath.Join(dir, "x.mqo"))
	case c.format == "pmx" || c.format == "pmd":
		m, err := mmd.Parse(bytes.NewReader(c.data))
		if fail(err) {
			return r
		}
		add("pmx", func(b *bytes.Buffer) error { return mmd.WritePMX(m, b) })
		doc = converter.NewMMDToMQOConverter(nil).Convert(m)
	case c.format == "fbx":
		f, err := fbx.Parse(bytes.NewReader(c.data))
		if fail(err) {
			return r
		}
		add("fbx", func(b *bytes.Buffer) error { return fbx.Write(b, f) })
		doc, err = converter.NewFBXToMQOConverter(nil).Convert(f)
		if fail(err) {
			return r
		}
	case c.format == "vmd":
		a, err := mmd.NewVMDParser(bytes.NewReader(c.data)).Parse()
		if fail(err) {
			return r
		}
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{})
		g, err := conv.Convert(doc24(), dir)
		if fail(err) {
			return r
		}
		converter.AddAnimationTpGlb(g, a, conv.JointNodeToBone, c.opt != 1)
		addGLTF("glb", g)
		return r
	case c.format == "gltf":
		g, err := gltfutil.Load(filepath.Join(dir, "x.glb"))
		if fail(err) {
			return r
		}
		switch c.opt {
		case 1:
			if !plain29(g) {
				return nil
			}
			gltfutil.ApplyTransform(g, geom.NewScaleMatrix4(2, 2, 2))
			if fail(gltfutil.ToSingleFile(g, dir)) {
				return r
			}
			addGLTF("glb", g)
			return r
		case 2:
			c.vrm(g, dir, fail)
			addGLTF("vrm", g)
			return r
		}
		doc, err = converter.NewGLTFToMQOConverter(nil).Convert(g)
	}
	if fail(err) {
		return r
	}
	opt := 0
	if c.case29 != nil {
		opt = c.opt
	}
	switch opt {
	case 0:
		add("mqo", func(b *bytes.Buffer) error { return mqo.NewWriter("").WriteMQO(doc, b) })
		add("mqx", func(b *bytes.Buffer) error { return mqo.WriteMQX(doc, b, "x.mqo") })
		g, err := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{}).Convert(doc, dir)
		if fail(err) {
			return r
		}
		addGLTF("glb", g)
	case 1:
		p, err := converter.NewMQOToMMDConverter(nil).Convert(doc)
		if fail(err) {
			return r
		}
		add("pmx", func(b *bytes.Buffer) error { return mmd.WritePMX(p, b) })
	case 3:
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{})
		g, err := conv.Convert(doc, dir)
		if fail(err) {
			return r
		}
		converter.AddAnimationTpGlb(g, motion30(doc), conv.JointNodeToBone, true)
		addGLTF("animated glb", g)
	case 2:
		doc.ApplyTransform(geom.NewScaleMatrix4(2, 2, 2))
		add("mqo", func(b *bytes.Buffer) error { return mqo.NewWriter("").WriteMQO(doc, b) })
		add("mqx", func(b *bytes.Buffer) error { return mqo.WriteMQX(doc, b, "x.mqo") })
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{ReuseGeometry: true, IgnoreObjectHierarchy: true, ConvertPhysics: true, ExportLights: true})
		g, err := conv.Convert(doc, dir)
		if fail(err) {
			return r
		}
		c.vrm(g, dir, fail)
		addGLTF("vrm", g)
	}
	return r
}

func (c *case30) vrm(g *gltf.Document, dir string, fail func(error) bool) {
	conf := &converter.Config{}
	json.Unmarshal([]byte(`{"preset":"mmd","boneMappings":[{"bone":"hips","nodeNames":["*"]}],"animationBoneGroups":[{"nodeNames":["*"],"stiffiness":1},{"nodeNames":["b*","?o*"],"stiffiness":2}],"colliderGroups":[{"nodeName":"bone0","colliders":[{"radius":1}]}],"morphMappings":[{"name":"a","nodeName":"*","targetName":"t0"},{"name":"b","targetName":"t1"}],"materialSettings":{"*":{"forceUnlit":true},"m":{"forceUnlit":false}}}`), conf)
	conf.ConvertPhysicsCollider, conf.ExportAllMorph, conf.AnimationBoneFromPhysics = true, true, true
	d, err := converter.ApplyVRMConfig(g, filepath.Join(dir, "o.vrm"), dir, conf)
	if !fail(err) {
		fail(d.ValidateBones())
	}
}

// motion30 moves everything that has a name.
func motion30(doc *mqo.Document) *mmd.Animation {
	a := &mmd.Animation{}
	move := func(name string) {
		for f := 0; f < 2; f++ {
			x := float32(len(a.Bone) + 1)
			a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: name, Frame: f * 10, Position: geom.Vector3{X: x, Y: 1, Z: -x}, Rotation: geom.Quaternion{X: 0.6, W: 0.8}})
		}
	}
	for _, b := range mqo.GetBonePlugin(doc).Bones() {
		move(b.Name)
	}
	for i, o := range doc.Objects {
		a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: o.Name, Frame: i, Value: 0.5}, &mmd.AnimationMorphSample{Target: o.Name, Frame: i + 7, Value: 1})
	}
	return a
}

const max30 = 400 // iterations of one run that are varied one by one

func c30Check(t *T, v any) {
	c := v.(*case30)
	dir := t.Dir()
	if c.scene != nil {
		c.scene.write(dir)
	} else {
		switch c.format {
		case "mqo":
			writeFile(filepath.Join(dir, "x.mqo"), c.data)
			writeFile(filepath.Join(dir, "x.mqx"), c.other)
		case "gltf":
			writeFile(filepath.Join(dir, "x.glb"), glbBytes29(c.data, c.bin))
		}
	}
	runtime.LockOSThread()
	defer func() {
		mapStart = nil
		runtime.UnlockOSThread()
	}()
	n := 0
	// runWith starts iteration i at the element at(i, size)
	runWith := func(at func(i int, used uint64) uint64) (out []out30, sizes []uint64) {
		n++
		mapStart = func(used uint64) uint64 {
			sizes = append(sizes, used)
			return at(len(sizes)-1, used)
		}
		out = c.run(dir)
		mapStart = nil
		return
	}
	same := func(a, b []out30) string {
		if len(a) != len(b) {
			return fmt.Sprintf("%d outputs instead of %d", len(b), len(a))
		}
		for i := range a {
			if a[i].name != b[i].name {
				return fmt.Sprintf("%s instead of %s", b[i].name, a[i].name)
			}
			if !bytes.Equal(a[i].data, b[i].data) {
				k := 0
				for k < len(a[i].data) && k < len(b[i].data) && a[i].data[k] == b[i].data[k] {
					k++
				}
				lo := max(0, k-60)
				return fmt.Sprintf("%s differs at byte %d: %q instead of %q", a[i].name, k, b[i].data[lo:min(len(b[i].data), k+60)], a[i].data[lo:min(len(a[i].data), k+60)])
			}
		}
		return ""
	}
	base, sizes := runWith(func(i int, used uint64) uint64 { return 0 })
	t.State(fmt.Sprint(len(sizes)), fmt.Sprint(base))
	again, _ := runWith(func(i int, used uint64) uint64 { return 0 })
	d := same(base, again)
	t.Must(d == "", "again", "two runs with the same order of iterations: %s", d)
	for k := uint64(1); k < 8; k++ {
		got, _ := runWith(func(i int, used uint64) uint64 { return k })
		d := same(base, got)
		t.Must(d == "", "order", "all map iterations started at element %d: %s", k, d)
	}
	// each iteration of the first run starts somewhere else
	by := map[uint64]int{}
	for i, used := range sizes {
		if i >= max30 {
			break
		}
		by[used]++
		for k := uint64(1); k < min(used, 8); k++ {
			got, _ := runWith(func(j int, used uint64) uint64 {
				if j == i {
					return k
				}
				return 0
			})
			d := same(base, got)
			t.Must(d == "", "one", "iteration %d of %d (over %d elements) started at element %d: %s", i, len(sizes), used, k, d)
		}
	}
	t.Extra(n)
}

func init() {
	var l []*Scenario
	for _, f := range []string{"mqo", "pmx", "pmd", "fbx", "gltf", "vmd"} {
		l = append(l, &Scenario{Name: f, Gen: gen30(f), Check: c30Check, Quick: 1, Thorough: 2, What: "files x conversions x starting elements of map iterations"})
	}
	l = append(l,
		&Scenario{Name: "scenes", Gen: gen30Scene(genHier19(3)), Check: c30Check, Quick: 1, Thorough: 2, What: "Unity scenes x starting elements of map iterations"},
		&Scenario{Name: "prefabs", Gen: gen30Scene(genPrefab19), Check: c30Check, Quick: 0, Thorough: 1, What: "Unity prefabs x starting elements of map iterations"},
		&Scenario{Name: "models", Gen: gen30Scene(genFBX19), Check: c30Check, Quick: 0, Thorough: 1, What: "FBX files in Unity scenes x starting elements of map iterations"})
	Register(&Property{ID: "C30", Level: "model_checking",
		Rule:      "the same conversion under every order in which the runtime may iterate each map (all iterations alike, and each iteration by itself)",
		Scenarios: l})
}
