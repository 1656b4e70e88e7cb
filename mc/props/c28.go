package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// C28: the VRM data of VRM files. The files are made from JSON trees that follow the VRM 0.0
// specification, without the types of the library.

type tree = map[string]any

type field28 struct {
	path string
	vals []any // the first one is the usual value; nil: the key is missing
	get  func(v *vrm.VRM) any
}

func xyz(x, y, z float64) tree { return tree{"x": x, "y": y, "z": z} }

var texts28 = []any{"", "x", "日本 \"q\" \\ <&>\u2028", nil}

func txt28(path, usual string, get func(v *vrm.VRM) any) field28 {
	return field28{path, append([]any{usual}, texts28...), get}
}

func num28(path string, get func(v *vrm.VRM) any, vals ...any) field28 {
	return field28{path, vals, get}
}

func vec28(v *vrm.BoneVector) any {
	if v == nil {
		return nil
	}
	return xyz(float64(v[0]), float64(v[1]), float64(v[2]))
}

func fields28() []field28 {
	f := []field28{
		txt28("exporterVersion", "UniVRM-0.50", func(v *vrm.VRM) any { return v.ExporterVersion }),
		txt28("specVersion", "0.0", func(v *vrm.VRM) any { return v.SpecVersion }),
		txt28("meta.title", "the title", func(v *vrm.VRM) any { return v.Title() }),
		txt28("meta.version", "v1", func(v *vrm.VRM) any { return v.Meta.Version }),
		txt28("meta.author", "author", func(v *vrm.VRM) any { return v.Author() }),
		txt28("meta.contactInformation", "mail", func(v *vrm.VRM) any { return v.Meta.Contact }),
		txt28("meta.reference", "ref", func(v *vrm.VRM) any { return v.Meta.Reference }),
		num28("meta.texture", func(v *vrm.VRM) any { return v.Meta.Texture }, 1, 0, -1, nil),
		txt28("meta.allowedUserName", "OnlyAuthor", func(v *vrm.VRM) any { return v.Meta.AllowedUserName }),
		txt28("meta.violentUssageName", "Disallow", func(v *vrm.VRM) any { return v.Meta.ViolentUssageName }),
		txt28("meta.sexualUssageName", "Allow", func(v *vrm.VRM) any { return v.Meta.SexualUssageName }),
		txt28("meta.commercialUssageName", "Never", func(v *vrm.VRM) any { return v.Meta.CommercialUssageName }),
		txt28("meta.otherPermissionUrl", "http://p", func(v *vrm.VRM) any { return v.Meta.OtherPermissionURL }),
		txt28("meta.licenseName", "CC0", func(v *vrm.VRM) any { return v.Meta.LicenseName }),
		txt28("meta.otherLicenseUrl", "http://l", func(v *vrm.VRM) any { return v.Meta.OtherLicenseURL }),
		num28("humanoid.armStretch", func(v *vrm.VRM) any { return v.Humanoid.ArmStretch }, 0.05, 0.0, nil),
		num28("humanoid.legStretch", func(v *vrm.VRM) any { return v.Humanoid.LegStretch }, 0.06, 0.0, nil),
		num28("humanoid.upperArmTwist", func(v *vrm.VRM) any { return v.Humanoid.UpperArmTwist }, 0.5, 0.0, nil),
		num28("humanoid.lowerArmTwist", func(v *vrm.VRM) any { return v.Humanoid.LowerArmTwist }, 0.25, 0.0, nil),
		num28("humanoid.upperLegTwist", func(v *vrm.VRM) any { return v.Humanoid.UpperLegTwist }, 0.75, 0.0, nil),
		num28("humanoid.lowerLegTwist", func(v *vrm.VRM) any { return v.Humanoid.LowerLegTwist }, 0.125, 0.0, nil),
		num28("humanoid.feetSpacing", func(v *vrm.VRM) any { return v.Humanoid.FeetSpacing }, 0.375, 0.0, nil),
		num28("humanoid.hasTranslationDoF", func(v *vrm.VRM) any { return v.Humanoid.HasTranslationDoF }, true, false, nil),
		num28("firstPerson.firstPersonBone", func(v *vrm.VRM) any { return v.FirstPerson.FirstPersonBone }, 2, -1, 1, 0, nil),
		num28("firstPerson.firstPersonBoneOffset", func(v *vrm.VRM) any { return v.FirstPerson.FirstPersonBoneOffset }, xyz(1, 0, -0.5), xyz(0, 0, 0), nil),
		num28("firstPerson.meshAnnotations", func(v *vrm.VRM) any { return v.FirstPerson.MeshAnnotations }, []any{tree{"mesh": 0, "firstPersonFlag": "Auto"}, tree{"mesh": 1, "firstPersonFlag": "Both"}}, []any{}, nil),
		txt28("firstPerson.lookAtTypeName", "Bone", func(v *vrm.VRM) any { return v.FirstPerson.LookAtTypeName }),
		num28("firstPerson.lookAtHorizontalInner", func(v *vrm.VRM) any { return v.FirstPerson.LookAtHorizontalInner }, tree{"curve": []any{0, 0, 0, 1, 1, 1, 1, 0}, "xRange": 90, "yRange": 10}, tree{}, nil),
		num28("firstPerson.lookAtHorizontalOuter", func(v *vrm.VRM) any { return v.FirstPerson.LookAtHorizontalOuter }, tree{"xRange": 91, "yRange": 11}, tree{}, nil),
		num28("firstPerson.lookAtVerticalDown", func(v *vrm.VRM) any { return v.FirstPerson.LookAtVerticalDown }, tree{"xRange": 92, "yRange": 12}, tree{}, nil),
		num28("firstPerson.lookAtVerticalUp", func(v *vrm.VRM) any { return v.FirstPerson.LookAtVerticalUp }, tree{"xRange": 93, "yRange": 13.5}, tree{}, nil),
	}
	for i := 0; i < 2; i++ {
		i := i
		b := func(v *vrm.VRM) *vrm.Bone { return v.Humanoid.Bones[i] }
		p := fmt.Sprintf("humanoid.humanBones.%d.", i)
		k := float64(i)
		f = append(f,
			txt28(p+"bone", []string{"hips", "spine"}[i], func(v *vrm.VRM) any { return b(v).Bone }),
			num28(p+"node", func(v *vrm.VRM) any { return b(v).Node }, 1-i, 2, 0),
			num28(p+"useDefaultValues", func(v *vrm.VRM) any { return b(v).UseDefaultValues }, i == 0, i != 0, nil),
			num28(p+"min", func(v *vrm.VRM) any { return vec28(b(v).Min) }, nil, xyz(-1, -2-k, -3), xyz(0, 0, 0), xyz(1, 0, 0)),
			num28(p+"max", func(v *vrm.VRM) any { return vec28(b(v).Max) }, nil, xyz(1, 2, 3+k), xyz(0, 0, 0), xyz(0, 1, 0)),
			num28(p+"center", func(v *vrm.VRM) any { return vec28(b(v).Center) }, nil, xyz(4, 5, 6), xyz(0, 0, 0), xyz(0, 0, 1)),
			num28(p+"axisLength", func(v *vrm.VRM) any { return b(v).AxisLength }, nil, 0.5, 0.0))
		g := func(v *vrm.VRM) *vrm.BlendShapeGroup { return v.BlendShapeMaster.BlendShapeGroups[i] }
		p = fmt.Sprintf("blendShapeMaster.blendShapeGroups.%d.", i)
		f = append(f,
			txt28(p+"name", []string{"Joy", "まばたき"}[i], func(v *vrm.VRM) any { return g(v).Name }),
			txt28(p+"presetName", []string{"joy", "blink"}[i], func(v *vrm.VRM) any { return g(v).PresetName }),
			num28(p+"isBinary", func(v *vrm.VRM) any { return g(v).IsBinary }, i == 1, i == 0, nil),
			num28(p+"binds.0.mesh", func(v *vrm.VRM) any { return g(v).Binds[0].Mesh }, i, 1-i),
			num28(p+"binds.0.index", func(v *vrm.VRM) any { return g(v).Binds[0].Index }, 1, 0, 7),
			num28(p+"binds.0.weight", func(v *vrm.VRM) any { return g(v).Binds[0].Weight }, 100, 0, 12.5),
			txt28(p+"materialValues.0.materialName", "skin", func(v *vrm.VRM) any { return g(v).MaterialValues[0].MaterialName }),
			txt28(p+"materialValues.0.propertyName", "_Color", func(v *vrm.VRM) any { return g(v).MaterialValues[0].PropertyName }),
			num28(p+"materialValues.0.targetValue", func(v *vrm.VRM) any { return g(v).MaterialValues[0].TargetValue }, []any{1, 0.5, 0, 1}, []any{}, []any{0.25}))
		s := func(v *vrm.VRM) *vrm.SecondaryAnimationBoneGroup { return v.SecondaryAnimation.BoneGroups[i] }
		p = fmt.Sprintf("secondaryAnimation.boneGroups.%d.", i)
		f = append(f,
			txt28(p+"comment", []string{"hair", "skirt"}[i], func(v *vrm.VRM) any { return s(v).Comment }),
			num28(p+"stiffiness", func(v *vrm.VRM) any { return s(v).Stiffiness }, 1.5, 0, nil),
			num28(p+"gravityPower", func(v *vrm.VRM) any { return s(v).GravityPower }, 0.25, 0, nil),
			num28(p+"gravityDir", func(v *vrm.VRM) any { return s(v).GravityDir }, xyz(0, -1, 0.5), xyz(0, 0, 0), nil),
			num28(p+"dragForce", func(v *vrm.VRM) any { return s(v).DragForce }, 0.375, 0, nil),
			num28(p+"hitRadius", func(v *vrm.VRM) any { return s(v).HitRadius }, 0.02, 0, nil),
			num28(p+"center", func(v *vrm.VRM) any { return s(v).Center }, -1, 0, 2, nil),
			num28(p+"bones", func(v *vrm.VRM) any { return s(v).Bones }, []any{2, 1}, []any{}, []any{0}),
			num28(p+"colliderGroups", func(v *vrm.VRM) any { return s(v).ColliderGroups }, []any{0, 1}, []any{}, []any{1}, nil))
		c := func(v *vrm.VRM) *vrm.SecondaryAnimationColliderGroup { return v.SecondaryAnimation.ColliderGroups[i] }
		p = fmt.Sprintf("secondaryAnimation.colliderGroups.%d.", i)
		f = append(f,
			num28(p+"node", func(v *vrm.VRM) any { return c(v).Node }, 2, 0, 1),
			num28(p+"colliders.0.radius", func(v *vrm.VRM) any { return c(v).Colliders[0].Radius }, 0.5, 0, 2),
			num28(p+"colliders.0.offset", func(v *vrm.VRM) any { return c(v).Colliders[0].Offset }, xyz(0, 0.25, k), xyz(0, 0, 0)))
		m := func(v *vrm.VRM) *vrm.MaterialProperty { return v.MaterialProperties[i] }
		p = fmt.Sprintf("materialProperties.%d.", i)
		f = append(f,
			txt28(p+"name", []string{"skin", "服"}[i], func(v *vrm.VRM) any { return m(v).Name }),
			txt28(p+"shader", "VRM/MToon", func(v *vrm.VRM) any { return m(v).Shader }),
			num28(p+"renderQueue", func(v *vrm.VRM) any { return m(v).RenderQueue }, 2450, -1, 0),
			num28(p+"floatProperties", func(v *vrm.VRM) any { return m(v).FloatProperties }, tree{"_Cutoff": 0.5, "_Mode": 1}, tree{}, tree{"_Zero": 0}),
			num28(p+"vectorProperties", func(v *vrm.VRM) any { return m(v).VectorProperties }, tree{"_Color": []any{1, 0.5, 0.25, 1}}, tree{}, tree{"_MainTex": []any{0, 0, 1, 1}, "_E": []any{}}),
			num28(p+"textureProperties", func(v *vrm.VRM) any { return m(v).TextureProperties }, tree{"_MainTex": 0, "_BumpMap": 3}, tree{}),
			num28(p+"keywordMap", func(v *vrm.VRM) any { return m(v).KeywordMap }, tree{"_ALPHABLEND_ON": true, "X": false}, tree{}),
			num28(p+"tagMap", func(v *vrm.VRM) any { return m(v).TagMap }, tree{"RenderType": "Opaque", "空": ""}, tree{}))
	}
	return f
}

// put sets the value at a path of a tree; numbers in the path are positions in lists.
func put28(t any, path []string, v any) any {
	if len(path) == 0 {
		return v
	}
	if n, err := strconv.Atoi(path[0]); err == nil {
		l, _ := t.([]any)
		for len(l) <= n {
			l = append(l, tree{})
		}
		l[n] = put28(l[n], path[1:], v)
		return l
	}
	m, _ := t.(tree)
	if m == nil {
		m = tree{}
	}
	if v == nil && len(path) == 1 {
		return m // missing
	}
	m[path[0]] = put28(m[path[0]], path[1:], v)
	return m
}

type case28 struct {
	vrm    tree
	fields []field28
	want   []any
	nodes  int
	inner  bool // below a byte order of keys that is reversed
}

func (c *case28) Describe() string {
	b, _ := json.Marshal(c.vrm)
	if len(b) > 3000 {
		b = append(b[:3000], "..."...)
	}
	return string(b)
}

func gen28(c *Chooser) any {
	r := &case28{fields: fields28(), nodes: 3}
	drop := c.Choose("without", 8)
	var t any
	var fs []field28
	for _, f := range r.fields {
		gone := []string{"-", "firstPerson", "secondaryAnimation", "blendShapeMaster", "materialProperties", "humanoid", "meta", "secondaryAnimation.colliderGroups"}[drop]
		if strings.HasPrefix(f.path, gone) {
			continue
		}
		v := f.vals[c.Choose(f.path, len(f.vals))]
		t = put28(t, strings.Split(f.path, "."), v)
		fs = append(fs, f)
		r.want = append(r.want, v)
	}
	r.vrm, r.fields = t.(tree), fs
	return r
}

var lists28 = []string{"humanoid.humanBones", "blendShapeMaster.blendShapeGroups", "blendShapeMaster.blendShapeGroups.0.binds", "blendShapeMaster.blendShapeGroups.0.materialValues", "secondaryAnimation.boneGroups", "secondaryAnimation.boneGroups.0.bones", "secondaryAnimation.colliderGroups", "secondaryAnimation.colliderGroups.0.colliders", "materialProperties", "blendShapeMaster.blendShapeGroups.0.materialValues.0.targetValue", "materialProperties.0.floatProperties"}

// gen28Sizes: one list of n elements.
func gen28Sizes(c *Chooser) any {
	k := c.Free("list", len(lists28))
	n := append([]int{1, 0}, append(append([]int{}, sizesAll...), 2000, 5000)...)[c.Free("size", len(sizesAll)+4)]
	r := &case28{nodes: n + 3}
	var t any
	for _, f := range fields28() {
		t = put28(t, strings.Split(f.path, "."), f.vals[0])
	}
	var l []any
	for i := 0; i < n; i++ {
		l = append(l, []any{
			tree{"bone": fmt.Sprint("b", i), "node": i, "useDefaultValues": i%2 == 0},
			tree{"name": fmt.Sprint("n", i), "presetName": "unknown", "binds": []any{tree{"mesh": i, "index": 0, "weight": 100}}},
			tree{"mesh": i, "index": i + 1, "weight": i % 101},
			tree{"materialName": fmt.Sprint("n", i), "propertyName": "p", "targetValue": []any{i}},
			tree{"comment": fmt.Sprint("n", i), "bones": []any{i}},
			i,
			tree{"node": i, "colliders": []any{tree{"radius": i, "offset": xyz(0, 0, 0)}}},
			tree{"radius": i, "offset": xyz(float64(i), 0, 0)},
			tree{"name": fmt.Sprint("n", i), "renderQueue": i},
			float64(i) / 4,
			i,
		}[k])
	}
	if k == 10 {
		m := tree{}
		for i, x := range l {
			m[fmt.Sprint("_P", i)] = x
		}
		t = put28(t, strings.Split(lists28[k], "."), m)
	} else {
		if l == nil {
			l = []any{}
		}
		t = put28(t, strings.Split(lists28[k], "."), l)
	}
	r.vrm = t.(tree)
	return r
}

// glb28 makes a binary glTF file.
func glb28(doc any) []byte {
	js, _ := json.Marshal(doc)
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	bin := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	var b bytes.Buffer
	le := func(v uint32) { binary.Write(&b, binary.LittleEndian, v) }
	b.WriteString("glTF")
	le(2)
	le(uint32(12 + 8 + len(js) + 8 + len(bin)))
	le(uint32(len(js)))
	b.WriteString("JSON")
	b.Write(js)
	le(uint32(len(bin)))
	b.WriteString("BIN\x00")
	b.Write(bin)
	return b.Bytes()
}

// unglb28 takes a binary glTF file apart.
func unglb28(b []byte) (tree, []byte, error) {
	if len(b) < 20 || string(b[:4]) != "glTF" || string(b[16:20]) != "JSON" {
		return nil, nil, fmt.Errorf("not a binary glTF file")
	}
	if int(binary.LittleEndian.Uint32(b[8:])) != len(b) {
		return nil, nil, fmt.Errorf("length %d in the header, file has %d", binary.LittleEndian.Uint32(b[8:]), len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[12:]))
	if n > len(b)-20 {
		return nil, nil, fmt.Errorf("JSON chunk of %d bytes", n)
	}
	var t tree
	if err := json.Unmarshal(b[20:20+n], &t); err != nil {
		return nil, nil, err
	}
	b = b[20+n:]
	if len(b) > 8 {
		return t, b[8:], nil
	}
	return t, nil, nil
}

func plain(v any) any {
	b, _ := json.Marshal(v)
	var r any
	json.Unmarshal(b, &r)
	return r
}

// nothing28: values that stand for no data.
func nothing28(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case float64:
		return x == 0
	case string:
		return x == ""
	case bool:
		return !x
	case []any:
		return len(x) == 0
	case tree:
		for _, y := range x {
			if !nothing28(y) {
				return false
			}
		}
		return true
	}
	return false
}

// isIndex28: fields that refer to something else by its number: zero is not the same as nothing.
func isIndex28(path string) bool {
	for _, x := range []string{"meta.texture", "firstPersonBone", ".node", ".mesh", ".index"} {
		if strings.HasSuffix(path, x) {
			return true
		}
	}
	return isNone28(path)
}

// isNone28: fields that are -1 or missing when they refer to nothing.
func isNone28(path string) bool {
	return strings.HasSuffix(path, "firstPersonBone") || strings.Contains(path, "boneGroups") && strings.HasSuffix(path, ".center")
}

// cmp28 compares trees; what stands for no data may be left out. Single precision is enough.
func cmp28(d *diffs, path string, want, got any) {
	if w, ok := want.(tree); ok {
		g, ok := got.(tree)
		if !ok && !(got == nil && nothing28(want)) {
			d.add("%s: want %v, got %v", path, want, got)
			return
		}
		for _, k := range sortedKeys(w) {
			if _, ok := g[k]; !ok && isIndex28(path+"."+k) && w[k] != -1.0 {
				d.add("%s.%s is gone, was %v", path, k, w[k])
			}
			if _, ok := g[k]; !ok && w[k] == -1.0 && isNone28(path+"."+k) {
				continue
			}
			cmp28(d, path+"."+k, w[k], g[k])
		}
		for k, x := range g {
			if _, ok := w[k]; !ok && isNone28(path+"."+k) && (x == nil || x == -1.0) {
				continue
			}
			if _, ok := w[k]; !ok && (!nothing28(x) || isIndex28(path+"."+k)) {
				d.add("%s.%s is new: %v", path, k, x)
			}
		}
		return
	}
	if w, ok := want.([]any); ok && len(w) > 0 {
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			d.add("%s: want %d elements, got %v", path, len(w), got)
			return
		}
		for i := range w {
			cmp28(d, fmt.Sprint(path, ".", i), w[i], g[i])
		}
		return
	}
	if w, ok := want.(float64); ok {
		if g, ok := got.(float64); ok && float32(g) == float32(w) {
			return
		}
	}
	if nothing28(want) && nothing28(got) {
		return
	}
	if !reflect.DeepEqual(want, got) {
		d.add("%s: want %v, got %v", path, want, got)
	}
}

func c28Check(t *T, v any) {
	c := v.(*case28)
	nodes, roots, mats := []any{}, []any{}, []any{}
	for i := 0; i < c.nodes; i++ {
		nodes = append(nodes, tree{"name": fmt.Sprint("node", i)})
		roots = append(roots, i)
	}
	if l, ok := c.vrm["materialProperties"].([]any); ok {
		for _, m := range l {
			mats = append(mats, tree{"name": m.(tree)["name"]})
		}
	}
	doc := tree{"asset": tree{"version": "2.0"}, "scene": 0, "scenes": []any{tree{"nodes": roots}}, "nodes": nodes,
		"extensionsUsed": []any{"VRM"}, "extensions": tree{"VRM": c.vrm}, "buffers": []any{tree{"byteLength": 8}}}
	if len(mats) > 0 {
		doc["materials"] = mats
	}
	want := plain(c.vrm).(tree)
	data := glb28(doc)
	t.State(data)
	parse := func(b []byte) *vrm.Document {
		d, err := vrm.Parse(bytes.NewReader(b), "")
		t.Must(err == nil && d != nil, "parse", "the file is not read: %v", err)
		return d
	}
	values := func(what string, x *vrm.VRM) {
		d := &diffs{}
		for i, f := range c.fields {
			got := plain(f.get(x))
			if (got == nil) != (c.want[i] == nil) && f.path == "meta.texture" {
				d.add("%s: want %v, got %v", f.path, c.want[i], got)
			}
			w := plain(c.want[i])
			if w == nil && isNone28(f.path) {
				w = -1.0
			}
			cmp28(d, f.path, w, got)
		}
		t.Expect(d.empty(), "values", "%s: %s", what, d)
		missing := []string{}
		have := map[any]bool{}
		if h, ok := want["humanoid"].(tree); ok {
			l, _ := h["humanBones"].([]any)
			for _, b := range l {
				have[b.(tree)["bone"]] = true
			}
		}
		for _, n := range required28 {
			if !have[n] {
				missing = append(missing, n)
			}
		}
		got := append([]string{}, x.CheckRequiredBones()...)
		sort.Strings(got)
		sort.Strings(missing)
		t.Expect(fmt.Sprint(got) == fmt.Sprint(missing), "required", "%s: missing bones %v, want %v", what, got, missing)
	}
	written := func(what string, b []byte, ignore ...string) {
		g, bin, err := unglb28(b)
		t.Must(err == nil, "write", "%s: %v", what, err)
		d := &diffs{}
		ext, _ := g["extensions"].(tree)
		gv, _ := ext["VRM"].(tree)
		for _, k := range ignore {
			if gv != nil {
				gv[k] = want[k]
			}
		}
		cmp28(d, "VRM", want, gv)
		cmp28(d, "extensionsUsed", []any{"VRM"}, g["extensionsUsed"])
		cmp28(d, "nodes", plain(nodes), stripNodes28(g["nodes"]))
		t.Expect(bytes.HasPrefix(bin, []byte{1, 2, 3, 4, 5, 6, 7, 8}), "buffer", "%s: buffer %v", what, bin)
		t.Expect(d.empty(), "written", "%s: %s", what, d)
	}
	// read, write, read
	d1 := parse(data)
	values("read", d1.VRM())
	t.Expect(d1.VRM() == d1.VRM() && d1.IsExtentionUsed("VRM") && !d1.IsExtentionUsed("VR"), "extension", "VRM data")
	var b bytes.Buffer
	t.Must(vrm.Write(d1, &b, "") == nil, "write", "cannot write")
	written("written", b.Bytes())
	d2 := parse(b.Bytes())
	values("read again", d2.VRM())
	var b2 bytes.Buffer
	t.Must(vrm.Write(d2, &b2, "") == nil, "write", "cannot write")
	written("written again", b2.Bytes())
	err := d1.ValidateBones()
	t.Expect((err == nil) == (len(d1.VRM().CheckRequiredBones()) == 0), "validate", "%v", err)
	bones := map[string]bool{}
	for _, b := range d1.VRM().Humanoid.Bones {
		if bones[b.Bone] {
			return // not valid: one of them may be dropped
		}
		bones[b.Bone] = true
	}
	if c.nodes > 300 {
		return
	}
	// the way of the command line tool, with settings that set nothing
	dir := t.Dir()
	in := filepath.Join(dir, "in.vrm")
	writeFile(in, data)
	g, err := gltfutil.Load(in)
	t.Must(err == nil, "load", "%v", err)
	_, err = converter.ApplyVRMConfig(g, filepath.Join(dir, "out.vrm"), dir, &converter.Config{})
	t.Must(err == nil, "settings", "%v", err)
	out := filepath.Join(dir, "out.vrm")
	t.Must(gltf.SaveBinary(g, out) == nil, "save", "cannot save")
	ignore := []string{"exporterVersion"}
	if want["firstPerson"] == nil {
		ignore = append(ignore, "firstPerson") // is set to the head
	}
	written("converted", readFile(out), ignore...)
}

// stripNodes28: only the names of the nodes.
func stripNodes28(v any) any {
	l, _ := v.([]any)
	r := []any{}
	for _, n := range l {
		m, _ := n.(tree)
		r = append(r, tree{"name": m["name"]})
	}
	return r
}

var required28 = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand", "leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot"}

// required bones: every subset that lacks up to the bound

func gen28Required(c *Chooser) any {
	var l []any
	extra := c.Choose("extra", 3)
	for i, n := range required28 {
		if c.Choose(n, 2) == 0 {
			l = append(l, tree{"bone": n, "node": i})
		}
	}
	switch extra {
	case 1:
		l = append([]any{tree{"bone": "jaw", "node": 3}, tree{"bone": "Hips", "node": 4}}, l...)
	case 2:
		l = append(l, tree{"bone": "leftThumbProximal", "node": 0})
	}
	if l == nil {
		l = []any{}
	}
	return &case28{vrm: tree{"humanoid": tree{"humanBones": l}}, nodes: 20}
}

func init() {
	Register(&Property{ID: "C28", Level: "model_checking",
		Rule: "VRM 0.0 data as JSON trees in binary glTF files made without the library, read with vrm.Parse and gltfutil.Load, written with vrm.Write and gltf.SaveBinary and taken apart again",
		Scenarios: []*Scenario{
			{Name: "fields", Gen: gen28, Check: c28Check, Quick: 2, Thorough: 3, What: "every field of the specification: usual, default, unusual value or missing, up to B deviations"},
			{Name: "sizes", Gen: gen28Sizes, Check: c28Check, Quick: 0, Thorough: 0, What: "every list with n elements"},
			{Name: "required", Gen: gen28Required, Check: c28Check, Quick: 3, Thorough: 5, What: "humanoids that lack up to B of the required bones"},
		}})
}
