package props

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// doc18 is a small model: a skeleton, two meshes with morph targets, three materials.
// order permutes the nodes, js makes it come from a file.
func doc18(order int, js bool, variant, grow, size int) *gltf.Document {
	names := []string{"root", "hips", "spine", "頭", "hair1", "hair2", "hair3", "hairB", "skirt", "body", "face", "neck"}
	parent := []int{-1, 0, 1, 2, 3, 4, 5, 3, 1, 0, 0, 2}
	if grow == 0 {
		for i := 0; i < size; i++ {
			names, parent = append(names, fmt.Sprint("x", i)), append(parent, 2)
		}
	}
	n := len(names)
	at := make([]uint32, n)
	for i := range at {
		switch order {
		case 0:
			at[i] = uint32(i)
		case 1:
			at[i] = uint32(n - 1 - i)
		case 2:
			at[i] = uint32((i*5 + 7) % n)
			if n%5 == 0 {
				at[i] = uint32((i + 7) % n)
			}
		}
	}
	g := &gbuild{doc: newGLTF()}
	d := g.doc
	d.Nodes = make([]*gltf.Node, n)
	for i, nm := range names {
		d.Nodes[at[i]] = &gltf.Node{Name: nm, Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Translation: [3]float32{0, float32(i), 0}}
	}
	d.Scenes[0].Nodes = []uint32{at[0]}
	for i, p := range parent {
		if p >= 0 {
			d.Nodes[at[p]].Children = append(d.Nodes[at[p]].Children, at[i])
		}
	}
	d.Materials = []*gltf.Material{
		{Name: "skin", PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float32{0.5, 0.25, 1, 0.75}}},
		{Name: "cloth", PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}, AlphaMode: gltf.AlphaMask},
		{Name: "metal"},
	}
	if variant == 1 {
		d.Materials[2].Extensions = gltf.Extensions{"KHR_materials_ior": map[string]interface{}{"ior": 1.25}}
		d.Materials[0].Extensions = gltf.Extensions{"KHR_materials_ior": map[string]interface{}{"ior": 1.5}}
		d.ExtensionsUsed = append(d.ExtensionsUsed, "KHR_materials_ior")
	}
	lists := [][]string{{"smile", "angry", "あ"}, {"blink", "smile"}}
	if variant == 2 {
		lists = [][]string{{"", "smile", "angry", "あ"}, {"blink", "", "smile"}}
	}
	for i := 0; i < size; i++ {
		switch grow {
		case 1:
			d.Materials = append(d.Materials, &gltf.Material{Name: fmt.Sprint("mat", i), PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}})
		case 2:
			lists[0] = append(lists[0], fmt.Sprint("target", i))
		}
	}
	for mi, targets := range lists {
		m := &gltf.Mesh{Name: fmt.Sprint("mesh", mi)}
		for k := 0; k < 2; k++ {
			pos := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: [][]float64{{0, 0, 0}, {1, 0, 0}, {0, 1, float64(mi)}}, minmax: true, target: gltf.TargetArrayBuffer}
			p := &gltf.Primitive{Attributes: map[string]uint32{"POSITION": g.put(true, pos)[0]}, Material: gltf.Index(uint32(mi + k))}
			for range targets {
				p.Targets = append(p.Targets, gltf.Attribute{"POSITION": g.put(true, pos)[0]})
			}
			m.Primitives = append(m.Primitives, p)
		}
		m.Extras = map[string]interface{}{"targetNames": targets}
		d.Meshes = append(d.Meshes, m)
		d.Nodes[at[9+mi]].Mesh = gltf.Index(uint32(mi))
	}
	d = g.done()
	if js {
		return loaded(d)
	}
	return d
}

type conf18 struct {
	conf    *converter.Config
	preset  *converter.Config
	file    bool // read the configuration from a file
	order   int
	js      bool
	grow, n int // a section of n elements
	variant int // 1: a material with another extension, 2: targets without names
	old     int // 0 no VRM data in the document, 1 bones and metadata, 2 spring bones too
	physics int
	what    string
}

func (c *conf18) Describe() string {
	a, _ := json.Marshal(c.conf)
	b, _ := json.Marshal(c.preset)
	return c.what + "\nconfig " + string(a) + "\npreset " + string(b)
}

var v3min, v3max = &vrm.BoneVector{-1, -2, -3}, &vrm.BoneVector{1, 2, 3}

func genConf18(c *Chooser, l, focus string, deep bool) *converter.Config {
	has := func(s string) bool { return strings.Contains(focus, s) }
	r := &converter.Config{}
	if has("b") {
		nb := Pick(c, l+"bones", 2, 0, 1, 3)
		for i := 0; i < nb; i++ {
			q := fmt.Sprintf("%sbone%d.", l, i)
			b := &converter.BoneMapping{}
			b.Bone.Bone = []string{"hips", "spine", "head", "jaw"}[(c.Choose(q+"bone", 4)+i)%4]
			switch c.Choose(q+"nodes", 8) {
			case 0:
				b.NodeNames = []string{[]string{"hips", "spine", "頭", "neck"}[i%4]}
			case 1:
				b.NodeNames = []string{"missing"}
			case 2:
				b.NodeNames = []string{"missing", "root", "hips"}
			case 3:
				b.NodeNames = []string{}
			case 4:
				b.NodeNames = []string{"body", "spine"} // body is a mesh
			case 5:
				b.NodeName = "頭"
			case 6:
				b.NodeName = "root"
				b.NodeNames = []string{"missing", "skirt"}
			case 7:
				b.NodeNames = []string{"face"}
			}
			switch c.Choose(q+"limits", 5) {
			case 1:
				b.Min, b.Max = v3min, v3max
			case 2:
				b.Center, b.UseDefaultValues, b.AxisLength = v3max, true, 0.5
			case 3:
				b.Center = v3max
			case 4:
				b.Max, b.AxisLength = v3max, 0.25
			}
			r.BoneMappings = append(r.BoneMappings, b)
		}
	}
	if has("m") {
		for _, nm := range []string{"skin", "cloth", "metal", "*", "unknown"} {
			k := c.Choose(l+"material."+nm, 6)
			if k == 0 {
				continue
			}
			if r.MaterialSettings == nil {
				r.MaterialSettings = map[string]*converter.MaterialSetting{}
			}
			r.MaterialSettings[nm] = []*converter.MaterialSetting{nil, {ForceUnlit: true}, {AlphaMode: "blend", Alpha: 0.5}, {AlphaMode: "opaque"}, {AlphaMode: "mask", ForceUnlit: true}, {}}[k]
		}
	}
	if has("s") {
		ng := Pick(c, l+"springs", 1, 0, 2)
		for i := 0; i < ng; i++ {
			q := fmt.Sprintf("%sspring%d.", l, i)
			b := &converter.AnimationBoneGroupSettings{}
			b.Comment, b.Stiffiness, b.DragForce, b.Center = fmt.Sprint(l, "group", i), 1.5, 0.25, -1
			b.NodeNames = [][]string{{"hair1"}, {"hair*"}, {"skirt", "hair?"}, {"missing", "hairB"}, {"hair2", "hair1"}, {"body", "skirt"}, {"none*"}, {"*"}}[(c.Choose(q+"nodes", 8)+2*i)%8]
			if k := c.Choose(q+"colliders", 4); k > 0 {
				b.ColliderGroups = [][]int{nil, {0}, {1, 0}, {2}}[k]
			}
			r.AnimationBoneGroups = append(r.AnimationBoneGroups, b)
		}
		nc := Pick(c, l+"colliders", 2, 0, 3)
		for i := 0; i < nc; i++ {
			q := fmt.Sprintf("%scollider%d.", l, i)
			g := &converter.ColliderGroupSettings{NodeName: []string{"頭", "spine", "missing", "body"}[(c.Choose(q+"node", 4)+i)%4]}
			g.Colliders = []*vrm.SecondaryAnimationCollider{{Radius: 0.25*float64(i+1) + float64(len(l)), Offset: map[string]float64{"x": 1, "y": 2, "z": float64(i)}}}
			r.ColliderGroups = append(r.ColliderGroups, g)
		}
		for _, b := range r.AnimationBoneGroups {
			for _, k := range b.ColliderGroups {
				if k >= nc {
					return nil // refers to a collider group that is not configured
				}
			}
		}
	}
	if has("o") {
		nm := Pick(c, l+"morphs", 2, 0, 1)
		for i := 0; i < nm; i++ {
			q := fmt.Sprintf("%smorph%d.", l, i)
			m := &converter.MorphMapping{Name: []string{"Joy", "Blink"}[i]}
			switch c.Choose(q+"target", 9) {
			case 0:
				m.TargetName = []string{"angry", "blink"}[i]
			case 1:
				m.TargetName = "missing"
			case 2:
				m.TargetName = "smile"
			case 3:
				m.NodeName, m.TargetIndex = "body", 2
			case 4:
				m.NodeName, m.TargetIndex = "face", 1
			case 5:
				m.NodeName, m.TargetIndex = "face", 2 // no such target
			case 6:
				m.NodeName, m.TargetIndex = "hips", 0 // no mesh
			case 7:
				m.NodeName, m.TargetIndex = "missing", 0
			case 8:
				m.NodeName, m.TargetIndex = "body", -1
			}
			if c.Flag(q + "values") {
				m.MaterialValues = []*vrm.BlendShapeMaterialValue{{MaterialName: "skin", PropertyName: "_Color", TargetValue: []float64{1, 0, 0, 1}}}
			}
			r.MorphMappings = append(r.MorphMappings, m)
		}
		r.ExportAllMorph = c.Flag(l + "all")
	}
	if has("d") {
		r.Metadata = Pick(c, l+"meta", vrm.Metadata{}, vrm.Metadata{Title: "title", Author: "作者", LicenseName: "CC0"}, vrm.Metadata{Author: "only an author"}, vrm.Metadata{LicenseName: "CC_BY"})
	}
	return r
}

func gen18(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		build := func(c *Chooser) *conf18 {
			r := &conf18{}
			r.order = c.Choose("order", 3)
			r.js = c.Flag("json")
			r.variant = c.Choose("variant", 3)
			r.file = c.Flag("config file")
			if r.conf = genConf18(c, "", focus, false); r.conf == nil {
				return nil
			}
			switch c.Choose("preset", 3) {
			case 1:
				if r.preset = genConf18(c, "preset.", focus, false); r.preset == nil {
					return nil
				}
			case 2:
				r.conf.Preset = "mmd"
			}
			if strings.Contains(focus, "d") {
				r.old = c.Choose("vrm", 4)
			}
			if strings.Contains(focus, "p") {
				r.physics = c.Free("physics", 4)
				r.conf.AnimationBoneFromPhysics = c.FreeFlag("detect springs")
				r.conf.ConvertPhysicsCollider = c.FreeFlag("convert colliders")
				if r.physics == 0 && !r.conf.AnimationBoneFromPhysics {
					return nil
				}
			}
			return r
		}
		before := len(c.Vec())
		if build(c) == nil {
			return nil
		}
		vec := append([]int{}, c.Vec()[before:]...)
		what := c.Trace()
		return &lazy18{mk: func() *conf18 { r := build(Replay(vec)); r.what = what; return r }}
	}
}

var grow18 = []string{"nodes", "materials", "targets", "bone mappings", "spring bone groups", "collider groups", "morph mappings"}

func genSizes18(c *Chooser) any {
	k := c.Free("section", len(grow18))
	n := FreePick(c, "n", sizesAll...)
	if n > 300 {
		return nil
	}
	r := &conf18{grow: k, n: n, what: fmt.Sprint(n, " ", grow18[k]), order: c.Free("order", 3), js: n%2 == 0, file: n%3 == 0}
	mk := func() *conf18 {
		x := *r
		cf := &converter.Config{ExportAllMorph: true}
		x.conf = cf
		last := fmt.Sprint("x", n-1)
		if k != 0 {
			last = "neck"
		}
		cf.BoneMappings = []*converter.BoneMapping{{Bone: vrm.Bone{Bone: "neck"}, NodeNames: []string{last}}}
		cf.MaterialSettings = map[string]*converter.MaterialSetting{fmt.Sprint("mat", n-1): {AlphaMode: "blend", Alpha: 0.5}, "*": {ForceUnlit: true}}
		sp := &converter.AnimationBoneGroupSettings{NodeNames: []string{"x*"}}
		sp.Comment, sp.Center = "all", -1
		cf.AnimationBoneGroups = []*converter.AnimationBoneGroupSettings{sp}
		cf.MorphMappings = []*converter.MorphMapping{{Name: "Joy", TargetName: fmt.Sprint("target", n-1)}, {Name: "A", NodeName: "body", TargetIndex: n}}
		for i := 0; i < n; i++ {
			switch k {
			case 3:
				cf.BoneMappings = append(cf.BoneMappings, &converter.BoneMapping{Bone: vrm.Bone{Bone: fmt.Sprint("bone", i)}, NodeNames: []string{"none", []string{"hips", "spine", "頭", "skirt"}[i%4]}})
			case 4:
				g := &converter.AnimationBoneGroupSettings{NodeNames: []string{[]string{"hair2", "none", "hairB", "skirt"}[i%4]}}
				g.Comment, g.Center = fmt.Sprint("g", i), -1
				cf.AnimationBoneGroups = append(cf.AnimationBoneGroups, g)
			case 5:
				g := &converter.ColliderGroupSettings{NodeName: []string{"頭", "spine", "missing"}[i%3]}
				g.Colliders = []*vrm.SecondaryAnimationCollider{{Radius: float64(i), Offset: map[string]float64{"x": 1, "y": 2, "z": float64(i)}}}
				cf.ColliderGroups = append(cf.ColliderGroups, g)
				sp.NodeNames = []string{"hair1"}
				sp.ColliderGroups = append(sp.ColliderGroups, n-1-i)
			case 6:
				cf.MorphMappings = append(cf.MorphMappings, &converter.MorphMapping{Name: fmt.Sprint("m", i), TargetName: []string{"smile", "none", "angry"}[i%3]})
			}
		}
		return &x
	}
	return &lazy18{mk: mk}
}

type lazy18 struct{ mk func() *conf18 }

func (l *lazy18) Describe() string { return l.mk().Describe() }

// ---- the reference

type exp18 struct {
	bones     map[string]*vrm.Bone
	groups    []*expGroup
	colliders []*vrm.SecondaryAnimationColliderGroup
	shapes    []*vrm.BlendShapeGroup
}

type expGroup struct {
	comment   string
	bones     []string
	colliders []string // node names
}

func (c *conf18) merged() *converter.Config {
	a := *c.conf
	p := c.preset
	if a.Preset != "" && p == nil {
		p = &converter.Config{}
		if err := json.Unmarshal(presetJSON(a.Preset), p); err != nil {
			panic("engine: " + err.Error())
		}
	}
	if p == nil {
		return &a
	}
	a.BoneMappings = append(append([]*converter.BoneMapping{}, a.BoneMappings...), p.BoneMappings...)
	a.MorphMappings = append(append([]*converter.MorphMapping{}, a.MorphMappings...), p.MorphMappings...)
	ms := map[string]*converter.MaterialSetting{}
	for k, v := range p.MaterialSettings {
		ms[k] = v
	}
	for k, v := range a.MaterialSettings {
		ms[k] = v
	}
	a.MaterialSettings = ms
	return &a
}

func presetJSON(name string) []byte {
	return readFile(filepath.Join("/repo/converter/vrmconfig_presets", name+".json"))
}

func subtree(d *gltf.Document, i uint32, f func(uint32)) {
	f(i)
	for _, c := range d.Nodes[i].Children {
		subtree(d, c, f)
	}
}

func (c *conf18) springs(d *gltf.Document, lists []*converter.Config) (groups []*expGroup) {
	g := gl{d}
	par := g.parents()
	depth := func(i int) int {
		n := 0
		for ; par[i] >= 0; i = par[i] {
			n++
		}
		return n
	}
	used := map[uint32]bool{}
	for _, cf := range lists {
		for _, s := range cf.AnimationBoneGroups {
			e := &expGroup{comment: s.Comment}
			for _, pat := range s.NodeNames {
				var ids []int
				for i, n := range d.Nodes {
					ok := n.Name == pat
					if strings.ContainsAny(pat, "*?") {
						ok, _ = path.Match(pat, n.Name)
					}
					if ok && n.Mesh == nil {
						ids = append(ids, i)
					}
				}
				sort.SliceStable(ids, func(a, b int) bool { return depth(ids[a]) < depth(ids[b]) })
				for _, i := range ids {
					clash := false
					subtree(d, uint32(i), func(k uint32) { clash = clash || used[k] })
					if clash {
						continue
					}
					subtree(d, uint32(i), func(k uint32) { used[k] = true })
					e.bones = append(e.bones, d.Nodes[i].Name)
				}
			}
			sort.Strings(e.bones)
			for _, k := range s.ColliderGroups {
				if n := cf.ColliderGroups[k].NodeName; findNode(d, n) >= 0 {
					e.colliders = append(e.colliders, fmt.Sprint(n, cf.ColliderGroups[k].Colliders[0].Radius))
				}
			}
			if len(e.bones) > 0 {
				groups = append(groups, e)
			}
		}
	}
	return
}

func findNode(d *gltf.Document, name string) int {
	for i, n := range d.Nodes {
		if n.Name == name {
			return i
		}
	}
	return -1
}

func old18(d *gltf.Document, k int) {
	if k == 0 {
		return
	}
	id := func(n string) int { return findNode(d, n) }
	x := vrm.NewVRM()
	x.Meta = vrm.Metadata{Title: "old", Author: "before", LicenseName: "Other"}
	x.Humanoid.Bones = []*vrm.Bone{{Bone: "hips", Node: id("root"), UseDefaultValues: true}, {Bone: "chest", Node: id("neck"), Min: v3min, Max: v3max}}
	x.BlendShapeMaster.BlendShapeGroups = []*vrm.BlendShapeGroup{{Name: "Old", PresetName: "old", Binds: []*vrm.BlendShapeBind{{Mesh: 1, Index: 0, Weight: 50}}}}
	if k == 1 { // of another model
		x.MaterialProperties = []*vrm.MaterialProperty{vrm.NewMaterialProperty("stale")}
	}
	if k >= 2 {
		x.SecondaryAnimation = &vrm.SecondaryAnimation{
			BoneGroups:     []*vrm.SecondaryAnimationBoneGroup{{Comment: "old", Bones: []int{id("skirt")}, Center: -1, ColliderGroups: []int{0}}},
			ColliderGroups: []*vrm.SecondaryAnimationColliderGroup{{Node: uint32(id("root")), Colliders: []*vrm.SecondaryAnimationCollider{{Radius: 9, Offset: map[string]float64{"x": 0, "y": 0, "z": 0}}}}},
		}
	}
	if k == 3 { // colliders only
		x.SecondaryAnimation.BoneGroups = nil
	}
	d.Extensions = gltf.Extensions{vrm.ExtensionName: x}
	d.ExtensionsUsed = append(d.ExtensionsUsed, vrm.ExtensionName)
}

// physics18 gives nodes rigid bodies: 1 the hair chain, 2 also the skirt and a static head, 3 a chain with a static end.
func physics18(d *gltf.Document, k int) {
	body := func(n string, static bool, shape string, r float32) {
		nd := d.Nodes[findNode(d, n)]
		nd.Extensions = gltf.Extensions{converter.BlenderPhysicsName: &converter.BlenderPhysicsBody{Mass: 1, Static: static,
			Shapes: []map[string]interface{}{{"shapeType": shape, "offsetScale": [3]float32{r, 2, 3}, "offsetTranslation": [3]float32{1, 2, 3}}}}}
		if !contains(d.ExtensionsUsed, converter.BlenderPhysicsName) {
			d.ExtensionsUsed = append(d.ExtensionsUsed, converter.BlenderPhysicsName)
		}
	}
	switch k {
	case 1:
		body("hair1", false, "SPHERE", 1)
		body("hair2", false, "BOX", 1)
	case 2:
		body("hair1", false, "SPHERE", 1)
		body("hair2", false, "SPHERE", 1)
		body("hair3", false, "SPHERE", 1)
		body("skirt", false, "CAPSULE", 1)
		body("頭", true, "SPHERE", 0.5)
		body("hips", true, "CAPSULE", 0.25)
		body("spine", true, "BOX", 0.25)
	case 3:
		body("hair1", false, "SPHERE", 1)
		body("hair2", false, "SPHERE", 1)
		body("hair3", true, "SPHERE", 1)
		body("hairB", false, "SPHERE", 1)
	}
}

var springs18 = [][]string{nil, {"hair1"}, {"hair1", "skirt"}, {"hairB"}}

func c18Check(t *T, v any) {
	l := v.(*lazy18)
	c, ref := l.mk(), l.mk()
	dir := t.Dir()
	if c.preset != nil {
		b, _ := json.Marshal(c.preset)
		writeFile(filepath.Join(dir, "preset.json"), b)
		c.conf.Preset = filepath.Join(dir, "preset.json")
		if c.order == 1 { // another notation of the path
			c.conf.Preset = dir + "/./preset.json"
		}
	}
	conf := c.conf
	if c.file {
		b, _ := json.Marshal(c.conf)
		p := filepath.Join(dir, "a.vrmconfig.json")
		writeFile(p, b)
		var err error
		conf, err = converter.LoadVRMConfig(p)
		t.Must(err == nil, "config", "%v", err)
	}
	mk := func() *gltf.Document {
		d := doc18(c.order, c.js, c.variant, c.grow, c.n)
		old18(d, c.old)
		physics18(d, c.physics)
		return d
	}
	doc, orig := mk(), mk()
	t.State(c.Describe())
	out, err := converter.ApplyVRMConfig(doc, filepath.Join(dir, "out.vrm"), dir, conf)
	t.Must(err == nil && out != nil, "error", "%v", err)

	// the written file
	back, _, err := glb((*gltf.Document)(out))
	t.Must(err == nil, "write", "%v", err)
	g := gl{back}
	bad := g.valid()
	t.Must(len(bad) == 0, "valid", "%v", bad)
	x, ok := back.Extensions[vrm.ExtensionName].(*vrm.VRM)
	t.Must(ok && contains(back.ExtensionsUsed, vrm.ExtensionName), "extension", "no VRM extension in %v", back.ExtensionsUsed)
	d := sameRest(gl{orig}, g, true)
	if len(ref.merged().MaterialSettings) > 0 { // compared below
		k := d.list
		d.list = nil
		for _, s := range k {
			if !strings.HasPrefix(s, "material") {
				d.list = append(d.list, s)
			}
		}
	}
	renderings(d, gl{orig}, g, 1, "")
	t.Expect(d.empty(), "kept", "%s", d)

	m := ref.merged()
	// humanoid bones
	want := map[string]*vrm.Bone{}
	off := map[string]bool{}
	for _, b := range m.BoneMappings {
		n := b.Bone.Bone
		if want[n] != nil || off[n] {
			continue
		}
		names := append([]string{}, b.NodeNames...)
		if b.NodeName != "" {
			names = append(names, b.NodeName)
		}
		if len(names) == 0 {
			off[n] = true
		}
		for _, nm := range names {
			if i := findNode(orig, nm); i >= 0 && orig.Nodes[i].Mesh == nil {
				w := b.Bone
				w.Node = i
				w.UseDefaultValues = w.UseDefaultValues || w.Min == nil && w.Max == nil && w.Center == nil
				want[n] = &w
				break
			}
		}
	}
	if o, ok := orig.Extensions[vrm.ExtensionName].(*vrm.VRM); ok {
		for _, b := range o.Humanoid.Bones {
			if want[b.Bone] == nil && !off[b.Bone] {
				want[b.Bone] = b
			}
		}
	}
	for _, n := range vrm.RequiredBones {
		if i := findNode(orig, n); i >= 0 && want[n] == nil && !off[n] {
			want[n] = &vrm.Bone{Bone: n, Node: i, UseDefaultValues: true}
		}
	}
	got := map[string]*vrm.Bone{}
	for _, b := range x.Humanoid.Bones {
		t.Expect(got[b.Bone] == nil, "bone", "bone %q twice", b.Bone)
		t.Expect(b.Node >= 0 && b.Node < len(back.Nodes), "bone", "bone %q: node %d", b.Bone, b.Node)
		got[b.Bone] = b
	}
	wj, gj := jsonText(want), jsonText(got)
	t.Expect(wj == gj, "bones", "bones %s, want %s", gj, wj)
	var missing []string
	for _, n := range vrm.RequiredBones {
		if want[n] == nil {
			missing = append(missing, n)
		}
	}
	err = out.ValidateBones()
	t.Expect((err == nil) == (len(missing) == 0), "validate", "missing %v, reported %v", missing, err)
	for _, n := range missing {
		t.Expect(err != nil && strings.Contains(err.Error(), n), "validate", "missing %v, reported %v", n, err)
	}
	if fp := x.FirstPerson; fp != nil {
		t.Expect(fp.FirstPersonBone >= 0 && fp.FirstPersonBone < len(back.Nodes), "first person", "bone %d", fp.FirstPersonBone)
	}

	// metadata
	wm := ref.conf.Metadata
	if c.old > 0 && wm == (vrm.Metadata{}) {
		wm = orig.Extensions[vrm.ExtensionName].(*vrm.VRM).Meta
	}
	t.Expect(x.Meta == wm, "meta", "metadata %+v, want %+v", x.Meta, wm)

	// materials
	t.Expect(len(x.MaterialProperties) == len(back.Materials), "materials", "%d material properties", len(x.MaterialProperties))
	for i, mat := range orig.Materials {
		s := m.MaterialSettings[mat.Name]
		if s == nil {
			s = m.MaterialSettings["*"]
		}
		if s == nil {
			s = &converter.MaterialSetting{}
		}
		b := back.Materials[i]
		am := mat.AlphaMode
		switch s.AlphaMode {
		case "blend":
			am = gltf.AlphaBlend
		case "mask":
			am = gltf.AlphaMask
		case "opaque":
			am = gltf.AlphaOpaque
		}
		_, unlit := b.Extensions["KHR_materials_unlit"]
		t.Expect(b.Name == mat.Name && b.AlphaMode == am && unlit == s.ForceUnlit, "material", "material %q: alpha mode %v (want %v), unlit %v", b.Name, b.AlphaMode, am, unlit)
		if i < len(x.MaterialProperties) {
			t.Expect(x.MaterialProperties[i].Name == mat.Name, "material", "properties of %q for %q", x.MaterialProperties[i].Name, mat.Name)
		}
		col := [4]float32{1, 1, 1, 1}
		if mat.PBRMetallicRoughness != nil && mat.PBRMetallicRoughness.BaseColorFactor != nil {
			col = *mat.PBRMetallicRoughness.BaseColorFactor
		}
		bc := [4]float32{1, 1, 1, 1}
		if b.PBRMetallicRoughness != nil && b.PBRMetallicRoughness.BaseColorFactor != nil {
			bc = *b.PBRMetallicRoughness.BaseColorFactor
		}
		if s.Alpha > 0 && mat.PBRMetallicRoughness != nil {
			col[3] = s.Alpha
		}
		if mat.PBRMetallicRoughness != nil {
			t.Expect(col == bc, "material", "material %q: colour %v, want %v", b.Name, bc, col)
		}
	}

	// blend shapes
	var shapes []*vrm.BlendShapeGroup
	if o, ok := orig.Extensions[vrm.ExtensionName].(*vrm.VRM); ok {
		shapes = append(shapes, o.BlendShapeMaster.BlendShapeGroups...)
	}
	mapped := map[[2]int]bool{}
	for _, mm := range m.MorphMappings {
		var binds []*vrm.BlendShapeBind
		if mm.TargetName != "" {
			for mi, ms := range orig.Meshes {
				for k, n := range anyStrings(ms.Extras.(map[string]interface{})["targetNames"]) {
					if n == mm.TargetName {
						binds = append(binds, &vrm.BlendShapeBind{Mesh: uint32(mi), Index: k, Weight: 100})
					}
				}
			}
		} else if i := findNode(orig, mm.NodeName); i >= 0 && orig.Nodes[i].Mesh != nil {
			mi := *orig.Nodes[i].Mesh
			if mm.TargetIndex >= 0 && mm.TargetIndex < len(orig.Meshes[mi].Primitives[0].Targets) {
				binds = append(binds, &vrm.BlendShapeBind{Mesh: mi, Index: mm.TargetIndex, Weight: 100})
			}
		}
		for _, b := range binds {
			mapped[[2]int{int(b.Mesh), b.Index}] = true
		}
		if len(binds) > 0 || len(mm.MaterialValues) > 0 && mm.TargetName != "" {
			shapes = append(shapes, &vrm.BlendShapeGroup{Name: mm.Name, PresetName: mm.Name, Binds: binds, MaterialValues: mm.MaterialValues})
		}
	}
	// mappings with material values that name a node are kept with or without binding
	loose := map[string]bool{}
	for _, mm := range m.MorphMappings {
		if len(mm.MaterialValues) > 0 && mm.TargetName == "" {
			loose[mm.Name] = true
		}
	}
	var rest []*vrm.BlendShapeGroup
	gs := x.BlendShapeMaster.BlendShapeGroups
	for _, s := range gs {
		for _, b := range s.Binds {
			ok := int(b.Mesh) < len(back.Meshes) && b.Index >= 0 && b.Index < len(back.Meshes[b.Mesh].Primitives[0].Targets)
			t.Expect(ok, "bind", "group %q binds target %d of mesh %d", s.Name, b.Index, b.Mesh)
		}
	}
	k := 0
	for _, s := range shapes {
		for k < len(gs) && len(gs[k].Binds) == 0 && loose[gs[k].Name] && shapeText(gs[k]) != shapeText(s) {
			k++
		}
		if k >= len(gs) {
			t.Fail("blend shape", "group %s is missing", shapeText(s))
			break
		}
		t.Expect(shapeText(gs[k]) == shapeText(s), "blend shape", "group %s, want %s", shapeText(gs[k]), shapeText(s))
		k++
	}
	for ; k < len(gs); k++ {
		if len(gs[k].Binds) > 0 || !loose[gs[k].Name] {
			rest = append(rest, gs[k])
		}
	}
	if !ref.conf.ExportAllMorph {
		t.Expect(len(rest) == 0, "blend shape", "%d groups too many, the first is %v", len(rest), len(rest) > 0 && rest[0] != nil)
	} else { // every other target is in exactly one group
		n := map[[2]int]int{}
		for _, s := range rest {
			for _, b := range s.Binds {
				if int(b.Mesh) >= len(orig.Meshes) {
					continue
				}
				names := anyStrings(orig.Meshes[b.Mesh].Extras.(map[string]interface{})["targetNames"])
				if b.Index < len(names) && b.Index >= 0 {
					t.Expect(b.Weight == 100 && s.Name == names[b.Index], "blend shape", "group %q binds target %q", s.Name, names[b.Index])
				}
				n[[2]int{int(b.Mesh), b.Index}]++
			}
		}
		for mi, ms := range orig.Meshes {
			for i, nm := range anyStrings(ms.Extras.(map[string]interface{})["targetNames"]) {
				w := 1
				if mapped[[2]int{mi, i}] {
					w = 0
				}
				t.Expect(n[[2]int{mi, i}] == w, "all morphs", "target %q of mesh %d is in %d additional groups, want %d", nm, mi, n[[2]int{mi, i}], w)
			}
		}
	}

	// spring bones and colliders
	lists := []*converter.Config{ref.conf}
	if ref.conf.AnimationBoneFromPhysics && len(springs18[c.physics]) > 0 {
		auto := &converter.Config{AnimationBoneGroups: []*converter.AnimationBoneGroupSettings{{NodeNames: springs18[c.physics]}}}
		auto.AnimationBoneGroups[0].Comment = "auto generated"
		lists = append(lists, auto)
	}
	if ref.preset != nil {
		lists = append(lists, ref.preset)
	}
	groups := c.springs(orig, lists)
	var cols []string
	if c.old == 3 {
		cols = append(cols, "root9")
	}
	if c.old == 2 {
		groups = append([]*expGroup{{comment: "old", bones: []string{"skirt"}, colliders: []string{"root9"}}}, groups...)
		cols = append(cols, "root9")
	}
	for _, cf := range lists {
		for _, cg := range cf.ColliderGroups {
			if findNode(orig, cg.NodeName) >= 0 {
				cols = append(cols, fmt.Sprint(cg.NodeName, cg.Colliders[0].Radius))
			}
		}
	}
	if ref.conf.ConvertPhysicsCollider {
		if c.physics == 2 {
			cols = append(cols, "頭0.5", "hips0.25")
		} else if c.physics == 3 {
			cols = append(cols, "hair31")
		}
	}
	sort.Strings(cols)
	sa := x.SecondaryAnimation
	if sa == nil {
		sa = &vrm.SecondaryAnimation{}
	}
	var gotCols []string
	name := func(i int) string {
		if i >= 0 && i < len(back.Nodes) {
			return back.Nodes[i].Name
		}
		t.Fail("node", "node %d does not exist", i)
		return "?"
	}
	colName := func(i int) string {
		if i < 0 || i >= len(sa.ColliderGroups) {
			t.Fail("collider", "collider group %d of %d", i, len(sa.ColliderGroups))
			return "?"
		}
		return fmt.Sprint(name(int(sa.ColliderGroups[i].Node)), sa.ColliderGroups[i].Colliders[0].Radius)
	}
	for i, cg := range sa.ColliderGroups {
		gotCols = append(gotCols, colName(i))
		o := cg.Colliders[0].Offset
		t.Expect(len(cg.Colliders) == 1 && len(o) == 3, "collider", "collider group %d: %v", i, o)
	}
	sort.Strings(gotCols)
	t.Expect(reflect.DeepEqual(cols, gotCols), "colliders", "collider groups %v, want %v", gotCols, cols)
	t.Expect(len(groups) == len(sa.BoneGroups), "springs", "%d spring bone groups, want %d", len(sa.BoneGroups), len(groups))
	for i, e := range groups {
		if i >= len(sa.BoneGroups) {
			break
		}
		b := sa.BoneGroups[i]
		var bones, cg []string
		for _, k := range b.Bones {
			bones = append(bones, name(k))
		}
		for _, k := range b.ColliderGroups {
			cg = append(cg, colName(k))
		}
		sort.Strings(bones)
		t.Expect(b.Comment == e.comment && b.Center == -1 && reflect.DeepEqual(bones, e.bones) && fmt.Sprint(cg) == fmt.Sprint(e.colliders), "spring", "group %q: bones %v colliders %v, want %q %v %v", b.Comment, bones, cg, e.comment, e.bones, e.colliders)
	}
	for i, n := range back.Nodes {
		_, ok := n.Extensions[converter.BlenderPhysicsName]
		t.Expect(!ok, "physics", "node %d still has physics data", i)
	}
}

func jsonText(v any) string { b, _ := json.Marshal(v); return string(b) }

func shapeText(s *vrm.BlendShapeGroup) string {
	x := *s
	x.Binds = append([]*vrm.BlendShapeBind{}, s.Binds...)
	sort.Slice(x.Binds, func(a, b int) bool {
		p, q := x.Binds[a], x.Binds[b]
		return p.Mesh < q.Mesh || p.Mesh == q.Mesh && p.Index < q.Index
	})
	if len(x.MaterialValues) == 0 {
		x.MaterialValues = nil
	}
	return jsonText(x)
}

func init() {
	Register(&Property{ID: "C18", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "bones", Quick: 3, Thorough: 4, Gen: gen18("bd"), Check: c18Check, What: "bone mappings x presets x documents with and without VRM data"},
		{Name: "materials", Quick: 3, Thorough: 4, Gen: gen18("m"), Check: c18Check, What: "material settings x presets"},
		{Name: "springs", Quick: 3, Thorough: 4, Gen: gen18("sd"), Check: c18Check, What: "spring bone and collider groups x presets x existing ones"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: genSizes18, Check: c18Check, What: "documents and configurations with one section of n elements, n around every power of two up to 300"},
		{Name: "physics", Quick: 2, Thorough: 3, Gen: gen18("sp"), Check: c18Check, What: "spring bones and colliders from physics data"},
		{Name: "morphs", Quick: 3, Thorough: 4, Gen: gen18("od"), Check: c18Check, What: "morph mappings x presets"},
		{Name: "all", Quick: 2, Thorough: 3, Gen: gen18("bmsod"), Check: c18Check, What: "all settings together"},
	}})
}
