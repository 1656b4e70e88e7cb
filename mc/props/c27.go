package props

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/mqo"
	"golang.org/x/text/encoding/japanese"

	. "modelconvmc/engine"
)

// C27: MQO and MQX files as Metasequoia and other tools write them. The encoder here is
// independent of the library's writer; style27 is how it lays out a document.

type style27 struct {
	nl, ind, sep, trail  string
	sjis, bom, rev       bool
	num                  int
	top, scene, mat      int // unknown parts
	obj, face, ex        int
	blank, thumb, omit   bool
	backslash, objsFirst bool
	include              string
}

func plain27() *style27 { return &style27{nl: "\r\n", ind: "\t", sep: " "} }

func (s *style27) f(x float32) string {
	switch s.num {
	case 1:
		return strconv.FormatFloat(float64(x), 'e', -1, 32)
	case 2:
		r := strconv.FormatFloat(float64(x), 'f', -1, 32)
		if !strings.Contains(r, ".") {
			r += "."
		}
		return r + "0000"
	case 3:
		r := strconv.FormatFloat(float64(x), 'f', -1, 32)
		if strings.HasPrefix(r, "0.") {
			r = r[1:]
		} else if strings.HasPrefix(r, "-0.") {
			r = "-" + r[2:]
		}
		return r
	case 4:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	case 5:
		return strconv.FormatFloat(float64(x), 'E', -1, 32)
	}
	return strconv.FormatFloat(float64(x), 'f', -1, 32)
}

func (s *style27) fs(x ...float32) string {
	var r []string
	for _, v := range x {
		r = append(r, s.f(v))
	}
	return strings.Join(r, s.sep)
}

func (s *style27) path(p string) string {
	if s.backslash {
		return strings.ReplaceAll(p, "/", "\\")
	}
	return p
}

type out27 struct {
	strings.Builder
	s *style27
}

func (o *out27) line(depth int, parts ...string) {
	if o.s.rev && len(parts) > 1 && strings.HasSuffix(parts[1], ")") { // attribute lists only
		r := []string{parts[0]}
		for i := len(parts) - 1; i > 0; i-- {
			r = append(r, parts[i])
		}
		parts = r
	}
	o.WriteString(strings.Repeat(o.s.ind, depth) + strings.Join(parts, o.s.sep) + o.s.trail + o.s.nl)
	if o.s.blank {
		o.WriteString(o.s.nl)
	}
}

func b01(b bool, v int) string {
	if b {
		return fmt.Sprint(v)
	}
	return "0"
}

func quote27(s string) string { return "\"" + s + "\"" }

func (s *style27) encode(doc *mqo.Document) []byte {
	o := &out27{s: s}
	if s.bom {
		o.WriteString("\ufeff")
	}
	o.line(0, "Metasequoia", "Document")
	o.line(0, "Format", "Text", "Ver", []string{"1.1", "1.0"}[b2i(s.sjis)])
	if !s.sjis {
		o.line(0, "CodePage", "utf8")
	}
	o.WriteString(s.nl)
	if s.include != "" {
		o.line(0, "IncludeXml", quote27(s.include))
	}
	if s.thumb {
		o.line(0, "Thumbnail", "4", "2", "24", "rgb", "raw", "{")
		for _, l := range []string{"0a1b2c3d4e5f60718293a4b5c6d7e8f90e1e2e3e", "0x9z9e+08 1e 099 ffffff", "00000000000000000000"} {
			o.line(1, l)
		}
		o.line(0, "}")
	}
	if s.top&1 != 0 {
		o.line(0, "TrialNoise", "{")
		o.line(0, "}")
	}
	if s.objsFirst {
		s.objects(o, doc)
	}
	if sc := doc.Scene; sc != nil {
		o.line(0, "Scene", "{")
		l := func(parts ...string) { o.line(1, parts...) }
		lights := func() {
			l("dirlights", "2", "{")
			for i := 0; i < 2; i++ {
				o.line(2, "light", "{")
				o.line(3, "dir", s.fs(0.408, -0.408, 0.816))
				o.line(3, "color", s.fs(1, 0.5, 0.25))
				if i == 1 {
					o.line(3, "pos", s.fs(7, 7, 7))
					o.line(3, "amb", s.fs(7, 7, 7))
				}
				o.line(2, "}")
			}
			l("}")
		}
		if s.scene == 1 {
			lights()
		}
		l("pos", s.fs(sc.CameraPos.X, sc.CameraPos.Y, sc.CameraPos.Z))
		l("lookat", s.fs(sc.CameraLookAt.X, sc.CameraLookAt.Y, sc.CameraLookAt.Z))
		l("head", s.f(sc.CameraRot.Y))
		l("pich", s.f(sc.CameraRot.X))
		l("bank", s.f(sc.CameraRot.Z))
		l("ortho", b01(sc.Ortho, 1))
		l("zoom2", s.f(sc.Zoom2))
		if s.scene == 2 {
			l("fov", s.f(0.6))
			l("zoom_type", "1")
		}
		if sc.AmbientLight != nil {
			l("amb", s.fs(sc.AmbientLight.X, sc.AmbientLight.Y, sc.AmbientLight.Z))
		}
		if sc.FrontClip != 0 || !s.omit {
			l("frontclip", s.f(sc.FrontClip))
		}
		if sc.BackClip != 0 || !s.omit {
			l("backclip", s.f(sc.BackClip))
		}
		if s.scene == 3 {
			lights()
		}
		o.line(0, "}")
	}
	if s.top&2 != 0 {
		o.line(0, "BackImage", "{")
		o.line(1, "pers", quote27("bg { image.bmp"), s.fs(0, 0, 1, 1))
		o.line(1, "front", quote27("a.bmp"), s.fs(-1, 0.5, 1, 1))
		o.line(0, "}")
	}
	if len(doc.Materials) > 0 || !s.omit {
		s.materials(o, doc)
	}
	if !s.objsFirst {
		s.objects(o, doc)
	}
	if s.top&4 != 0 {
		o.line(0, "Blob", quote27("blob"), "{")
		o.line(1, "depth", "3")
		o.line(1, "visible", "0")
		o.line(1, "threshold", s.f(0.5))
		o.line(1, quote27("plus"), "{")
		o.line(2, "vertex", "1")
		o.line(1, "}")
		o.line(0, "}")
	}
	o.WriteString("Eof" + s.nl)
	if s.top&8 != 0 {
		o.WriteString("Object \"after the end\" {")
	}
	return []byte(o.String())
}

func (s *style27) materials(o *out27, doc *mqo.Document) {
	o.line(0, "Material", fmt.Sprint(len(doc.Materials)), "{")
	ex := 0
	for _, m := range doc.Materials {
		p := []string{quote27(m.Name)}
		add := func(n, v string) { p = append(p, n+"("+v+")") }
		if m.Shader != 0 || !s.omit {
			add("shader", fmt.Sprint(m.Shader))
		}
		if s.mat == 1 {
			add("vcol", "1")
		}
		if m.DoubleSided || !s.omit {
			add("dbls", b01(m.DoubleSided, 1))
		}
		add("col", s.fs(m.Color.X, m.Color.Y, m.Color.Z, m.Color.W))
		add("dif", s.f(m.Diffuse))
		add("amb", s.f(m.Ambient))
		if m.Emission != 0 || !s.omit {
			add("emi", s.f(m.Emission))
		}
		add("spc", s.f(m.Specular))
		add("power", s.f(m.Power))
		if s.mat == 2 {
			add("reflect", s.f(0.25))
			add("refract", s.f(1.5))
			add("amb_col", s.fs(1, 0.5, 0))
		}
		if m.EmissionColor != nil {
			add("emi_col", s.fs(m.EmissionColor.X, m.EmissionColor.Y, m.EmissionColor.Z))
		}
		if m.UID != 0 {
			add("uid", fmt.Sprint(m.UID))
		}
		if m.Texture != "" {
			add("tex", quote27(s.path(m.Texture)))
		}
		if m.AlphaTexture != "" {
			add("aplane", quote27(s.path(m.AlphaTexture)))
		}
		if m.BumpTexture != "" {
			add("bump", quote27(s.path(m.BumpTexture)))
		}
		switch s.mat {
		case 3:
			add("proj_type", "1")
			add("proj_pos", s.fs(0, 1, -2))
			add("proj_scale", s.fs(100, 100, 100))
			add("proj_angle", s.fs(0, 0, -0.5))
		case 4:
			add("note", quote27("a ) b ( c"))
			add("empty", "")
		}
		o.line(1, p...)
		if m.Ex2 != nil {
			ex++
		}
	}
	o.line(0, "}")
	if ex == 0 {
		return
	}
	o.line(0, "MaterialEx2", fmt.Sprint(ex), "{")
	for i, m := range doc.Materials {
		if m.Ex2 == nil {
			continue
		}
		o.line(1, "material", fmt.Sprint(i), "{")
		if s.ex&1 != 0 {
			o.line(2, "version", "2")
			o.line(2, "extra", "1", "{")
			o.line(3, quote27("shaderparam"), "int", "5")
			o.line(2, "}")
		}
		o.line(2, "shadertype", quote27(m.Ex2.ShaderType))
		o.line(2, "shadername", quote27(m.Ex2.ShaderName))
		params := func(d int, ps map[string]interface{}) {
			for _, k := range sortedKeys(ps) {
				var t, v string
				switch x := ps[k].(type) {
				case int:
					t, v = "int", fmt.Sprint(x)
				case float32:
					t, v = "float", s.f(x)
				case float64:
					t, v = "float", s.f(float32(x))
				case bool:
					t, v = "bool", fmt.Sprint(x)
					if s.ex&2 != 0 {
						v = b01(x, 1)
					}
				case []float32:
					t, v = "color", s.fs(x...)
				case string:
					t, v = "string", quote27(x)
				}
				o.line(d, quote27(k), t, v)
			}
		}
		if len(m.Ex2.ShaderParams) > 0 || !s.omit {
			o.line(2, "shaderparam", fmt.Sprint(len(m.Ex2.ShaderParams)), "{")
			params(3, m.Ex2.ShaderParams)
			o.line(2, "}")
		}
		if len(m.Ex2.ShaderMapping) > 0 || !s.omit {
			o.line(2, "shadermapping", fmt.Sprint(len(m.Ex2.ShaderMapping)), "{")
			for _, k := range sortedKeys(m.Ex2.ShaderMapping) {
				o.line(3, quote27(k), quote27(s.path(m.Ex2.ShaderMapping[k])))
			}
			o.line(2, "}")
		}
		for _, k := range sortedKeys(m.Ex2.ShaderMappingParams) {
			o.line(2, "shadermappingparam", quote27(k), fmt.Sprint(len(m.Ex2.ShaderMappingParams[k])), "{")
			params(3, m.Ex2.ShaderMappingParams[k])
			o.line(2, "}")
		}
		o.line(1, "}")
	}
	o.line(0, "}")
}

func (s *style27) objects(o *out27, doc *mqo.Document) {
	def := mqo.NewObject("")
	for _, x := range doc.Objects {
		o.line(0, "Object", quote27(x.Name), "{")
		var ls [][]string
		l := func(set bool, parts ...string) {
			if set || !s.omit {
				ls = append(ls, parts)
			}
		}
		l(x.UID != 0, "uid", fmt.Sprint(x.UID))
		l(x.Depth != 0, "depth", fmt.Sprint(x.Depth))
		l(x.Folding, "folding", b01(x.Folding, 1))
		if v := x.Scale; v != nil {
			l(true, "scale", s.fs(v.X, v.Y, v.Z))
		}
		if v := x.Rotation; v != nil {
			l(true, "rotation", s.fs(v.Y, v.X, v.Z))
		}
		if v := x.Translation; v != nil {
			l(true, "translation", s.fs(v.X, v.Y, v.Z))
		}
		l(x.Patch != 0, "patch", fmt.Sprint(x.Patch))
		l(x.PatchSegment != def.PatchSegment, "segment", fmt.Sprint(x.PatchSegment))
		l(x.Visible != def.Visible, "visible", b01(x.Visible, 15))
		l(x.Locked, "locking", b01(x.Locked, 1))
		l(x.Shading != def.Shading, "shading", fmt.Sprint(x.Shading))
		l(x.Facet != def.Facet, "facet", s.f(x.Facet))
		if x.Color != nil {
			l(true, "color", s.fs(x.Color.X, x.Color.Y, x.Color.Z))
		}
		l(x.Mirror != 0, "mirror", fmt.Sprint(x.Mirror))
		l(x.MirrorDis != 0, "mirror_dis", s.f(x.MirrorDis))
		switch s.obj {
		case 1:
			ls = append([][]string{{"normal_weight", "1"}, {"patchtri", "0"}}, ls...)
			l(true, "color_type", "0")
			l(true, "mirror_axis", "1")
		case 2:
			l(true, "lathe", "0")
			l(true, "note", quote27("depth 5 } {"))
		case 3:
			l(true, "uvmap", "2", "{", "depth", "7", "face", "{", "visible", "0", "}", "}")
		}
		if s.rev {
			for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
		for _, p := range ls {
			o.line(1, p...)
		}
		o.line(1, "vertex", fmt.Sprint(len(x.Vertexes)), "{")
		for _, v := range x.Vertexes {
			o.line(2, s.fs(v.X, v.Y, v.Z))
		}
		o.line(1, "}")
		if len(x.VertexByUID) > 0 || s.obj == 4 {
			o.line(1, "vertexattr", "{")
			if s.obj == 4 {
				o.line(2, "weit", "{")
				o.line(3, "0", s.f(0.5))
				o.line(2, "}")
				o.line(2, "color", "{")
				o.line(3, "1", "4294967295")
				o.line(2, "}")
			}
			if len(x.VertexByUID) > 0 {
				o.line(2, "uid", "{")
				for i := range x.Vertexes {
					id := i + 1
					for k, v := range x.VertexByUID {
						if v == i {
							id = k
						}
					}
					o.line(3, fmt.Sprint(id))
				}
				o.line(2, "}")
			}
			o.line(1, "}")
		}
		if s.obj == 5 {
			o.line(1, "edge", "1", "{")
			o.line(2, "2", "V(0 1)", "M(3)")
			o.line(1, "}")
		}
		if len(x.Faces) > 0 || !s.omit {
			o.line(1, "face", fmt.Sprint(len(x.Faces)), "{")
			for _, f := range x.Faces {
				p := []string{fmt.Sprint(len(f.Verts))}
				add := func(n string, v ...string) { p = append(p, n+"("+strings.Join(v, s.sep)+")") }
				var vs, uv, nf, nv []string
				for _, v := range f.Verts {
					vs = append(vs, fmt.Sprint(v))
				}
				add("V", vs...)
				if s.face == 1 && len(vs) > 0 {
					var col []string
					for range vs {
						col = append(col, "4294967295")
					}
					add("COL", col...)
				}
				add("M", fmt.Sprint(f.Material))
				for _, u := range f.UVs {
					uv = append(uv, s.fs(u.X, u.Y))
				}
				if len(uv) > 0 {
					add("UV", uv...)
				}
				if s.face == 2 && len(vs) > 0 {
					var crs []string
					for i := range vs {
						crs = append(crs, s.f(float32(i)*0.5-0.5))
					}
					add("CRS", crs...)
				}
				for _, n := range f.Normals {
					if n == nil {
						nf = append(nf, "0")
					} else {
						nf, nv = append(nf, "2"), append(nv, s.fs(n.X, n.Y, n.Z))
					}
				}
				if len(nf) > 0 {
					add("N", append(nf, nv...)...)
				}
				if f.UID != 0 {
					add("UID", fmt.Sprint(f.UID))
				}
				if s.face == 3 {
					add("TAG", quote27("x ) y"), "1", "-2")
				}
				o.line(2, p...)
			}
			o.line(1, "}")
		}
		o.line(0, "}")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type case27 struct {
	doc  *mqo.Document
	data []byte
	how  int // 0 reader, 1 file, 2 zip
	st   style27
	mqx  string
	zip  int
}

func (c *case27) Describe() string {
	s := string(c.data)
	if len(s) > 3000 {
		s = s[:3000] + "…"
	}
	return fmt.Sprintf("%+v read as %d (%d)\n%s\n%s", c.st, c.how, c.zip, s, c.mqx)
}

// done encodes the document, nil if the code page can not.
func (c *case27) done() any {
	c.data = c.st.encode(c.doc)
	if c.st.sjis {
		b, err := japanese.ShiftJIS.NewEncoder().Bytes(c.data)
		if err != nil {
			return nil
		}
		if r, err := japanese.ShiftJIS.NewDecoder().Bytes(b); err != nil || !bytes.Equal(r, c.data) {
			return nil
		}
		c.data = b
	}
	return c
}

// rich27 has something of everything.
func rich27() *mqo.Document {
	doc := mqo.NewDocument()
	doc.Scene = &mqo.Scene{CameraPos: v3(0, -1.5, 1500), CameraLookAt: v3(1, 2, 3.25), CameraRot: v3(0.5, -0.25, 0.125), Zoom2: 5, FrontClip: 225, BackClip: 45000, AmbientLight: pv3(0.25, 0.5, 0.75)}
	m0 := &mqo.Material{Name: "材質 1", UID: 4, Color: geomV4(1, 0.5, 0.25, 0.75), Diffuse: 0.8, Ambient: 0.6, Emission: 0.1, Specular: 0.3, Power: 5, Texture: "dir/tex.png", AlphaTexture: "a/b/alpha.png", BumpTexture: "bump.bmp", EmissionColor: pv3(0.1, 0.2, 0.3), DoubleSided: true, Shader: 3}
	m1 := &mqo.Material{Name: "mat2", Color: geomV4(0, 0, 0, 1), Diffuse: 1, Ambient: 0.5, Power: 0.5, Texture: "new/x.png"}
	m1.Ex2 = mqo.NewMaterialEx2("glTF")
	m1.Ex2.ShaderType = "hlsl"
	m1.Ex2.ShaderParams = map[string]interface{}{"Metallic": float32(0.5), "AlphaMode": 1, "DoubleSided": true, "EmissiveColor": []float32{1, 0.5, 0.25, 1}, "Text": "a b"}
	m1.Ex2.ShaderMapping = map[string]string{"BaseColor": "dir/c.png", "Normal": "n.png"}
	m1.Ex2.ShaderMappingParams = map[string]map[string]interface{}{"BaseColor": {"Repeat": 1, "Scale": float32(2)}}
	doc.Materials = []*mqo.Material{m0, m1, {Name: "", Color: geomV4(1, 1, 1, 1), Diffuse: 0.8, Ambient: 0.6, Power: 5}}
	o := mqo.NewObject("物体 {1}")
	o.UID, o.Facet, o.Color, o.Mirror, o.MirrorDis, o.Patch, o.PatchSegment = 7, 45.5, pv3(0.5, 0.25, 0.125), 1, 0.5, 3, 2
	o.Scale, o.Rotation, o.Translation = pv3(1, 2, 0.5), pv3(10, -20, 30.5), pv3(-100, 0.001, 5)
	o.Folding, o.Locked = true, true
	o.Vertexes = []*mqo.Vector3{pv3(0, 0, 0), pv3(-1.5, 0.25, 1e-5), pv3(100, -0.001, 2500000), pv3(0.5, -0.5, 3), pv3(9, 8, 7)}
	for i := range o.Vertexes {
		o.VertexByUID[10-i] = i
	}
	o.Faces = []*mqo.Face{
		{Verts: []int{0, 1, 2, 3}, Material: 1, UID: 3, UVs: []mqo.Vector2{{X: 0, Y: 1}, {X: -0.5, Y: 0.25}, {X: 1, Y: 1e-6}, {X: 0.5, Y: 0.5}}},
		{Verts: []int{2, 1, 0}, Material: 0, Normals: []*mqo.Vector3{pv3(0, 0, 1), nil, pv3(0.6, -0.8, 0)}},
		{Verts: []int{3, 4}, Material: 2},
		{Verts: []int{4, 3, 2, 1, 0}, Material: -1},
	}
	p := mqo.NewObject("obj2")
	p.Depth, p.Visible, p.Shading = 1, false, 0
	p.Vertexes = []*mqo.Vector3{pv3(1, 2, 3), pv3(4, 5, 6), pv3(7, 8, 10)}
	p.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Material: 2, UVs: []mqo.Vector2{{X: 0.1}, {Y: 0.2}, {X: 0.3, Y: 0.4}}}}
	doc.Objects = []*mqo.Object{o, p, mqo.NewObject("empty")}
	return doc
}

func style27Choices(c *Chooser) style27 {
	return style27{
		nl: Pick(c, "line ends", "\r\n", "\n"), ind: Pick(c, "indent", "\t", "", "    "), sep: Pick(c, "separator", " ", "  ", "\t"),
		trail: Pick(c, "end of line", "", " ", "\t "), sjis: c.Flag("Shift_JIS"), bom: c.Flag("BOM"), rev: c.Flag("reversed"),
		num: c.Choose("numbers", 6), top: Pick(c, "unknown chunks", 0, 1, 2, 4, 8, 15), scene: c.Choose("unknown in scene", 4),
		mat: c.Choose("unknown in material", 5), obj: c.Choose("unknown in object", 6), face: c.Choose("unknown in face", 4), ex: c.Choose("ex2", 4),
		blank: c.Flag("blank lines"), thumb: c.Flag("thumbnail"), omit: c.Flag("omit defaults"), backslash: c.Flag("backslashes"), objsFirst: c.Flag("objects first"),
	}
}

func gen27Layout(c *Chooser) any {
	k := &case27{doc: rich27(), how: c.Choose("how", 3), st: style27Choices(c)}
	if k.st.bom && k.st.sjis {
		return nil
	}
	if c.Flag("no scene") {
		k.doc.Scene = nil
	}
	if c.Flag("no materials") {
		k.doc.Materials = nil
	}
	return k.done()
}

func gen27(g func(c *Chooser) any) func(c *Chooser) any {
	return func(c *Chooser) any {
		x := g(c)
		if x == nil {
			return nil
		}
		cs := x.(*c01Case)
		for _, o := range cs.doc.Objects { // a file lists an id for every vertex or for none
			if len(o.VertexByUID) != 0 && len(o.VertexByUID) != len(o.Vertexes) {
				return nil
			}
		}
		st := *plain27()
		switch c.Free("layout", 4) {
		case 1:
			st.sjis = true
		case 2:
			st.nl, st.num, st.omit = "\n", 2, true
		case 3:
			st.ind, st.num = "  ", 1
		}
		return (&case27{doc: cs.doc, how: cs.kind, st: st}).done()
	}
}

func c27Check(t *T, v any) {
	c := v.(*case27)
	t.State(c.data, c.how, c.mqx, c.zip, c.st.include)
	var got *mqo.Document
	var err error
	dir := t.Dir()
	write := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			panic(err)
		}
	}
	switch c.how {
	case 0:
		got, err = mqo.NewParser(bytes.NewReader(c.data), "").Parse()
	case 1:
		write("m.mqo", c.data)
		if c.mqx != "" {
			write(c.st.include, []byte(c.mqx))
		}
		got, err = mqo.Load(filepath.Join(dir, "m.mqo"))
	case 2:
		var b bytes.Buffer
		z := zip.NewWriter(&b)
		add := func(name string, d []byte) {
			h := &zip.FileHeader{Name: name, Method: []uint16{zip.Deflate, zip.Store}[c.zip%2]}
			w, e := z.CreateHeader(h)
			if e != nil {
				panic(e)
			}
			w.Write(d)
		}
		if c.zip >= 2 {
			add("tex/a.png", []byte("png"))
			if c.mqx != "" {
				add(c.st.include, []byte(c.mqx))
			}
		}
		add("モデル.mqo", c.data)
		if c.zip < 2 && c.mqx != "" {
			add(c.st.include, []byte(c.mqx))
		}
		z.Close()
		write("m.MQOZ", b.Bytes())
		got, err = mqo.Load(filepath.Join(dir, "m.MQOZ"))
	}
	t.Must(err == nil, "error", "can not be read: %v", err)
	d := diffMQO(c.doc, got)
	t.Must(d.empty(), "decode", "%s", d)
	if c.mqx != "" && c.how > 0 {
		d := diffCompanion(c.doc, got)
		t.Must(d.empty(), "companion", "%s", d)
	}
}

// ---- MQX

type xstyle27 struct {
	nl, ind, quote     string
	decl, rev          int
	unknown            int
	comma              string
	omit, self, morder bool
	num                int
}

func gen27MQX(c *Chooser) any {
	k := &case27{how: 1 + c.Choose("container", 2), st: *plain27()}
	k.zip = c.Choose("zip", 4)
	x := &xstyle27{nl: Pick(c, "line ends", "\r\n", "\n", ""), ind: Pick(c, "indent", "\t", "", "  "), quote: Pick(c, "quotes", "\"", "'"),
		decl: c.Choose("declaration", 4), rev: c.Choose("reversed", 2), unknown: c.Choose("unknown", 6), comma: Pick(c, "comma", ",", ", "),
		omit: c.Flag("omit defaults"), self: c.Flag("self closing"), morder: c.Flag("plugins reversed"), num: c.Choose("numbers", 5)}
	k.st.include = Pick(c, "name", "m.mqx", "別の 名前.mqx")
	var doc *mqo.Document
	if c.Free("data", 2) == 0 {
		doc = c02Bones(c)
	} else {
		doc = c02Other(c)
	}
	if doc == nil {
		return nil
	}
	for _, o := range doc.Objects { // a file lists an id for every vertex or for none
		has := map[int]bool{}
		for _, i := range o.VertexByUID {
			has[i] = true
		}
		for i := range o.Vertexes {
			if len(has) > 0 && !has[i] {
				id := i + 1
				for _, used := o.VertexByUID[id]; used; _, used = o.VertexByUID[id] {
					id += len(o.Vertexes)
				}
				o.VertexByUID[id] = i
			}
		}
	}
	k.doc = doc
	k.mqx = x.encode(doc)
	return k.done()
}

type xa [2]string // attribute

func (x *xstyle27) encode(doc *mqo.Document) string {
	var b strings.Builder
	n := &style27{num: x.num, sep: " "}
	esc := func(s string) string {
		r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&apos;", "\t", "&#x9;", "\n", "&#xA;", "\r", "&#xD;")
		return r.Replace(s)
	}
	depth := 0
	line := func(s string) { b.WriteString(strings.Repeat(x.ind, depth) + s + x.nl) }
	elem := func(name string, attrs []xa, body func()) {
		if x.rev == 1 {
			for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
				attrs[i], attrs[j] = attrs[j], attrs[i]
			}
		}
		s := "<" + name
		for _, a := range attrs {
			s += " " + a[0] + "=" + x.quote + esc(a[1]) + x.quote
		}
		if x.unknown == 1 {
			s += " unknown=" + x.quote + "1" + x.quote
		}
		if body == nil {
			if x.self {
				line(s + "/>")
			} else {
				line(s + "></" + name + ">")
			}
			return
		}
		line(s + ">")
		depth++
		if x.unknown == 2 {
			line("<Unknown id=\"9\" name=\"x\"><V v=\"1\" w=\"2\"/>text</Unknown>")
		}
		if x.unknown == 3 {
			line("<!-- <Bone id=\"77\" name=\"no\"/> -->")
		}
		body()
		if x.unknown == 4 {
			line("<Zzz/>")
		}
		depth--
		line("</" + name + ">")
	}
	text := func(name, v string) { line("<" + name + ">" + esc(v) + "</" + name + ">") }
	itoa := func(i int) string { return fmt.Sprint(i) }
	vec := func(v mqo.Vector3) string { return n.f(v.X) + x.comma + n.f(v.Y) + x.comma + n.f(v.Z) }
	switch x.decl {
	case 0:
		line(`<?xml version="1.0" encoding="UTF-8"?>`)
	case 1:
		line(`<?xml version="1.0" encoding="utf-8" standalone="yes" ?>`)
	case 2:
		b.WriteString("\ufeff")
		line(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	var parts []func()
	if len(doc.Plugins) > 0 {
		bp := bonePlugin(doc)
		if hasPlugin[*mqo.BonePlugin](doc) {
			parts = append(parts, func() {
				elem("Plugin.56A31D20.71F282AB", []xa{{"name", "Bone"}}, func() {
					if len(bp.BoneSet.Bone) > 0 {
						elem("BoneSet", nil, func() {
							for _, o := range bp.BoneSet.Bone {
								x.oldBone(elem, n, o)
							}
						})
					}
					elem("BoneSet2", []xa{{"limit", itoa(bp.BoneSet2.Limit)}}, func() {
						for _, o := range bp.Bones() {
							at := []xa{{"id", itoa(o.ID)}, {"name", o.Name}}
							add := func(set bool, k, v string) {
								if set || !x.omit {
									at = append(at, xa{k, v})
								}
							}
							add(o.Group != 0, "group", itoa(o.Group))
							add(o.Parent != 0, "parent", itoa(o.Parent))
							add(o.Pos.Vector3 != mqo.Vector3{}, "pos", vec(o.Pos.Vector3))
							add(o.Movable != 0, "movable", itoa(o.Movable))
							add(o.Hide != 0, "hide", itoa(o.Hide))
							add(o.Dummy != 0, "dummy", itoa(o.Dummy))
							add(o.Color != "", "color", o.Color)
							if o.UpVector != nil {
								add(true, "upVector", vec(o.UpVector.Vector3))
							}
							if o.Rotate != nil {
								add(true, "rotate", vec(o.Rotate.Vector3))
							}
							if o.IK == nil && len(o.Weights) == 0 {
								elem("Bone", at, nil)
								continue
							}
							elem("Bone", at, func() {
								ik := func() {
									if o.IK != nil {
										elem("IK", []xa{{"chain", itoa(o.IK.ChainCount)}, {"name", o.IK.Name}, {"tipName", o.IK.TipName}}, nil)
									}
								}
								if x.rev == 0 {
									ik()
								}
								for _, w := range o.Weights {
									elem("W", []xa{{"obj", itoa(w.ObjectID)}}, func() {
										for _, v := range w.Vertexes {
											elem("V", []xa{{"v", itoa(v.VertexID)}, {"w", n.f(v.Weight)}}, nil)
										}
									})
								}
								if x.rev == 1 {
									ik()
								}
							})
						}
					})
					if len(bp.PoseSet.BonePoses) > 0 {
						elem("Poses", nil, func() {
							for _, p := range bp.PoseSet.BonePoses {
								elem("Pose", []xa{{"id", itoa(p.ID)}, {"name", p.Name}, {"mvX", n.f(p.MvX)}, {"mvY", n.f(p.MvY)}, {"mvZ", n.f(p.MvZ)},
									{"rotB", n.f(p.RotB)}, {"rotH", n.f(p.RotH)}, {"rotP", n.f(p.RotP)}, {"scB", n.f(p.ScB)}, {"scH", n.f(p.ScH)}, {"scP", n.f(p.ScP)}}, nil)
							}
						})
					}
					for i := range doc.Objects {
						elem("Obj", []xa{{"id", itoa(i + 1)}}, nil)
					}
				})
			})
		}
		if hasPlugin[*mqo.MorphPlugin](doc) {
			parts = append(parts, func() {
				elem("Plugin.56A31D20.C452C6DB", []xa{{"name", "Morph"}}, func() {
					elem("MorphSet", nil, func() {
						for _, m := range morphPlugin(doc).Morphs() {
							elem("TargetList", []xa{{"base", m.Base}}, func() {
								for _, t := range m.Target {
									elem("Target", []xa{{"name", t.Name}, {"param", itoa(t.Param)}}, nil)
								}
							})
						}
					})
				})
			})
		}
		if hasPlugin[*mqo.PhysicsPlugin](doc) {
			xyz := func(name string, v mqo.Vector3XmlAttr) {
				elem(name, []xa{{"x", n.f(v.X)}, {"y", n.f(v.Y)}, {"z", n.f(v.Z)}}, nil)
			}
			pp := physicsPlugin(doc)
			parts = append(parts, func() {
				elem("Plugin.7A6E6962.43594850", []xa{{"name", pp.Name}}, func() {
					elem("Bodies", nil, func() {
						for _, o := range pp.Bodies {
							at := []xa{{"mass", n.f(o.Mass)}, {"name", o.Name}, {"targetBone", itoa(o.TargetBoneID)}, {"targetObj", itoa(o.TargetObjID)}}
							if o.Kinematic || !x.omit {
								at = append(at, xa{"kinematic", fmt.Sprint(o.Kinematic)})
							}
							elem("Body", at, func() {
								text("CollisionGroup", itoa(o.CollisionGroup))
								text("CollisionMask", itoa(o.CollisionMask))
								text("Restitution", n.f(o.Restitution))
								text("Friction", n.f(o.Friction))
								text("LinearDamping", n.f(o.LinearDamping))
								text("AngularDamping", n.f(o.AngularDamping))
								elem("Shapes", nil, func() {
									for _, s := range o.Shapes {
										elem("Shape", []xa{{"type", s.Type}}, func() {
											xyz("Size", s.Size)
											xyz("Position", s.Position)
											xyz("Rotation", s.Rotation)
										})
									}
								})
							})
						}
					})
					elem("Constraints", nil, func() {
						for _, o := range pp.Constraints {
							elem("Joint", []xa{{"type", o.Type}, {"body1", itoa(o.Body1)}, {"body2", itoa(o.Body2)}, {"name", o.Name}}, func() {
								xyz("Position", o.Position)
								xyz("Rotation", o.Rotation)
								xyz("LinerSpring", o.LinerSpring)
								xyz("AngulerSpring", o.AngulerSpring)
							})
						}
					})
				})
			})
		}
	}
	if x.unknown == 5 {
		parts = append(parts, func() {
			elem("Plugin.11111111.22222222", []xa{{"name", "Other"}}, func() { elem("BoneSet2", []xa{{"limit", "9"}}, nil) })
		})
	}
	elem("MetasequoiaDocument", nil, func() {
		text("IncludedBy", "m.mqo")
		for i := range parts {
			if x.morder {
				i = len(parts) - 1 - i
			}
			parts[i]()
		}
	})
	return b.String()
}

func (x *xstyle27) oldBone(elem func(string, []xa, func()), n *style27, o *mqo.BoneOld) {
	at := []xa{{"id", fmt.Sprint(o.ID)}, {"name", o.Name}, {"group", fmt.Sprint(o.Group)}, {"isDummy", fmt.Sprint(o.IsDummy)}}
	for _, a := range []struct {
		k string
		v float32
	}{{"rtX", o.RtX}, {"rtY", o.RtY}, {"rtZ", o.RtZ}, {"tpX", o.TpX}, {"tpY", o.TpY}, {"tpZ", o.TpZ}, {"mvX", o.MvX}, {"mvY", o.MvY}, {"mvZ", o.MvZ},
		{"rotB", o.RotB}, {"rotH", o.RotH}, {"rotP", o.RotP}, {"sc", o.Sc}, {"maxAngB", o.MaxAngB}, {"maxAngH", o.MaxAngH}, {"maxAngP", o.MaxAngP},
		{"minAngB", o.MinAngB}, {"minAngH", o.MinAngH}, {"minAngP", o.MinAngP}} {
		at = append(at, xa{a.k, n.f(a.v)})
	}
	elem("Bone", at, func() {
		elem("P", []xa{{"id", fmt.Sprint(o.Parent.ID)}}, nil)
		for _, c := range o.Children {
			elem("C", []xa{{"id", fmt.Sprint(c.ID)}}, nil)
		}
		for _, w := range o.Weights {
			elem("W", []xa{{"oi", fmt.Sprint(w.ObjectID)}, {"vi", fmt.Sprint(w.VertexID)}, {"w", n.f(w.Weight)}}, nil)
		}
	})
}

func hasPlugin[P any](doc *mqo.Document) bool {
	for _, p := range doc.Plugins {
		if _, ok := p.(P); ok {
			return true
		}
	}
	return false
}

func gen27Sizes(c *Chooser) any {
	x := gen01Sizes(0)(c)
	if x == nil {
		return nil
	}
	cs := x.(*c01Case)
	st := *plain27()
	if c.FreeFlag("other layout") {
		st.nl, st.sjis, st.rev, st.num, st.trail = "\n", true, true, 2, " "
	}
	return (&case27{doc: cs.doc, how: cs.kind, st: st}).done()
}

func init() {
	Register(&Property{ID: "C27", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "layout", Gen: gen27Layout, Check: c27Check, Quick: 3, Thorough: 4, What: "a document with every kind of content x layouts (line ends, spaces, code pages, number forms, attribute orders, unknown chunks and attributes)"},
		{Name: "scene", Gen: gen27(c01Scene), Check: c27Check, Quick: 2, Thorough: 3, What: "scene attributes x 4 layouts"},
		{Name: "materials", Gen: gen27(c01Materials), Check: c27Check, Quick: 2, Thorough: 3, What: "material attributes x 4 layouts"},
		{Name: "objects", Gen: gen27(c01Objects), Check: c27Check, Quick: 2, Thorough: 3, What: "object attributes x 4 layouts"},
		{Name: "names", Gen: gen27(c01Names), Check: c27Check, Quick: 2, Thorough: 3, What: "name alphabet x 4 layouts"},
		{Name: "geometry", Gen: gen27(c01Geometry), Check: c27Check, Quick: 2, Thorough: 3, What: "vertices, identifiers, faces x 4 layouts"},
		{Name: "mqx", Gen: gen27MQX, Check: c27Check, Quick: 2, Thorough: 3, What: "companion data x XML layouts x containers"},
		{Name: "sizes", Gen: gen27Sizes, Check: c27Check, What: "sections with n elements x 2 layouts"},
	}})
}
