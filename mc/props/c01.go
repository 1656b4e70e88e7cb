package props

import (
	"bytes"
	"fmt"
	"path/filepath"

	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

var mqoFloats = []float32{0, 1, -1, 0.5, -0.001, 1e6, -1e6, 1.5e7, 1e-7, -2.5e-9, 123.456, 16777216, 3.4028235e38, 1e-40, 0.1, 1234567.9, -40000, 70000, -3e9, 2147483648}

func pickFloat(c *Chooser, label string, def float32) float32 {
	k := c.Choose(label, len(mqoFloats)+1)
	if k == 0 {
		return def
	}
	return mqoFloats[k-1]
}

var mqoNames = []string{"a", "", " ", "a b", "日本語", "ﾊﾝｶｸ", "あ ア 亜", "é", "a'b", "a(1)", ")", "{", "}", "{}", "a}b{", "//x", "/* x */", "a//b", "`", "#1", "1", "-1", "1.5e3", "Object", "Material", "Eof", "a,b", "a:b", "$IGNORE:x", "tab\there", "emoji😀", "a;b", "[x]", "表", "ソ", "<a&b>", "%d%s", "a/b", "col(1)", "髙"}

func pickName(c *Chooser, label, def string) string {
	k := c.Choose(label, len(mqoNames)+1)
	if k == 0 {
		return def
	}
	return mqoNames[k-1]
}

type c01Case struct {
	doc  *mqo.Document
	kind int // 0 writer, 1 .mqo, 2 .mqoz
}

func (c *c01Case) Describe() string {
	var b bytes.Buffer
	(&mqo.Writer{}).WriteMQO(c.doc, &b)
	return fmt.Sprintf("kind=%d ", c.kind) + b.String()
}

func simpleObject(name string, n int) *mqo.Object {
	o := mqo.NewObject(name)
	for i := 0; i < n; i++ {
		o.Vertexes = append(o.Vertexes, pv3(float32(i), float32(i%2), float32(i*i)))
	}
	return o
}

func c01Materials(c *Chooser) any {
	doc := mqo.NewDocument()
	n := 1 + c.Choose("nmat", 3)
	if n == 3 {
		n = 0
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("m%d.", i)
		m := &mqo.Material{Name: fmt.Sprintf("mat%d", i), Color: geomV4(1, 1, 1, 1), Diffuse: 0.8, Ambient: 0.6, Power: 5}
		m.UID = Pick(c, l+"uid", 0, 1, 7, 2147483647)
		colors := []float32{1, 0, 0.5, 0.123, -0.25, 2}
		m.Color.X = Pick(c, l+"r", colors...)
		m.Color.Y = Pick(c, l+"g", colors...)
		m.Color.Z = Pick(c, l+"b", colors...)
		m.Color.W = Pick(c, l+"a", colors...)
		vals := []float32{0, 1, 0.5, 0.123, 0.001, 2}
		m.Diffuse = Pick(c, l+"dif", append([]float32{0.8}, vals...)...)
		m.Ambient = Pick(c, l+"amb", append([]float32{0.6}, vals...)...)
		m.Emission = Pick(c, l+"emi", vals...)
		m.Specular = Pick(c, l+"spc", vals...)
		m.Power = Pick[float32](c, l+"power", 5, 0, 0.01, 100, 12.34)
		tex := []string{"", "tex.png", "dir/tex.png", "日本 語.png", "a(b).png", "x//y.png", "t{1}.bmp"}
		m.Texture = Pick(c, l+"tex", tex...)
		m.AlphaTexture = Pick(c, l+"aplane", tex...)
		m.BumpTexture = Pick(c, l+"bump", tex...)
		if k := c.Choose(l+"emicol", 4); k > 0 {
			m.EmissionColor = [](*mqo.Vector3){pv3(0, 0, 0), pv3(1, 0.5, 0.25), pv3(0.001, 2, 0.999)}[k-1]
		}
		m.DoubleSided = c.Flag(l + "dbls")
		m.Shader = Pick(c, l+"shader", 0, 1, 2, 3, 4, 9)
		if k := c.Choose(l+"ex2", 4); k > 0 {
			ex := mqo.NewMaterialEx2([]string{"glTF", "", "a b"}[k-1])
			ex.ShaderType = Pick(c, l+"ex2.type", mqo.ShaderTypeHLSL, "", "glsl x")
			for j := 0; j < 3; j++ {
				name := []string{"AlphaMode", "MatCap.Order", "P_2"}[j]
				switch c.Choose(fmt.Sprintf("%sex2.p%d", l, j), 12) {
				case 1:
					ex.ShaderParams[name] = 3
				case 2:
					ex.ShaderParams[name] = -2
				case 3:
					ex.ShaderParams[name] = float32(0.25)
				case 4:
					ex.ShaderParams[name] = float32(-1e-7)
				case 5:
					ex.ShaderParams[name] = true
				case 6:
					ex.ShaderParams[name] = false
				case 7:
					ex.ShaderParams[name] = []float32{1, 0.5, 0.25, 0}
				case 8:
					ex.ShaderParams[name] = "text value"
				case 9:
					ex.ShaderParams[name] = ""
				case 10:
					ex.ShaderParams[name] = float64(1.5e+10)
				case 11:
					ex.ShaderParams[name] = float32(2)
				}
			}
			for j := 0; j < 2; j++ {
				name := []string{"Base Color", "Normal"}[j]
				if k := c.Choose(fmt.Sprintf("%sex2.map%d", l, j), 4); k > 0 {
					ex.ShaderMapping[name] = []string{"", "tex.png", "あ b.png"}[k-1]
				}
				if k := c.Choose(fmt.Sprintf("%sex2.mapparam%d", l, j), 5); k > 0 {
					ex.ShaderMappingParams[name] = []map[string]interface{}{{}, {"Repeat": 1}, {"U": float32(0.5), "V": true}, {"c": []float32{0, 1, 0, 1}, "s": "x y"}}[k-1]
				}
			}
			m.Ex2 = ex
		}
		doc.Materials = append(doc.Materials, m)
	}
	if c.Flag("with object") {
		o := simpleObject("o", 3)
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}}}
		doc.Objects = append(doc.Objects, o)
	}
	return &c01Case{doc, c.Choose("container", 3)}
}

func c01Scene(c *Chooser) any {
	doc := mqo.NewDocument()
	if !c.Flag("noscene") {
		s := &mqo.Scene{}
		s.CameraPos = v3(pickFloat(c, "px", 0), pickFloat(c, "py", 0), pickFloat(c, "pz", 1500))
		s.CameraLookAt = v3(pickFloat(c, "lx", 0), pickFloat(c, "ly", 0), pickFloat(c, "lz", 0))
		small := []float32{0, 0.5236, -0.5, 3.1416, 100}
		s.CameraRot = v3(Pick(c, "rx", small...), Pick(c, "ry", small...), Pick(c, "rz", small...))
		s.Zoom2 = Pick[float32](c, "zoom", 5, 0, 0.0001, 1234.5)
		s.Ortho = c.Flag("ortho")
		s.FrontClip = Pick[float32](c, "front", 0, 225, 1e6, 1e-6)
		s.BackClip = Pick[float32](c, "back", 0, 45000, 1e6, 1e-6)
		if k := c.Choose("amb", 4); k > 0 {
			s.AmbientLight = []*mqo.Vector3{pv3(0, 0, 0), pv3(0.25, 0.5, 1), pv3(0.001, 0.999, 2)}[k-1]
		}
		doc.Scene = s
	}
	if c.Flag("with object") {
		doc.Objects = append(doc.Objects, simpleObject("o", 1))
	}
	return &c01Case{doc, c.Choose("container", 3)}
}

func c01Objects(c *Chooser) any {
	doc := mqo.NewDocument()
	n := Pick(c, "nobj", 1, 2, 3, 0)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("o%d.", i)
		o := simpleObject(fmt.Sprintf("obj%d", i), 3)
		o.UID = Pick(c, l+"uid", 0, 1, 5, 100, 2147483647)
		o.Visible = !c.Flag(l + "hidden")
		o.Locked = c.Flag(l + "locked")
		o.Folding = c.Flag(l + "folding")
		o.Depth = Pick(c, l+"depth", 0, 1, 2, 10)
		o.Shading = Pick(c, l+"shading", 1, 0)
		o.Facet = Pick[float32](c, l+"facet", 59.5, 0, 180, 0.001)
		o.Patch = Pick(c, l+"patch", 0, 1, 2, 3, 4)
		if o.Patch != 0 {
			o.PatchSegment = Pick(c, l+"segment", 0, 4, 16)
		}
		o.Mirror = Pick(c, l+"mirror", 0, 1, 2)
		o.MirrorDis = Pick[float32](c, l+"mirrordis", 0, 0.5, 1000, 0.000001)
		o.Translation = pv3(pickFloat(c, l+"tx", 0), pickFloat(c, l+"ty", 0), pickFloat(c, l+"tz", 0))
		o.Rotation = pv3(pickFloat(c, l+"rx", 0), pickFloat(c, l+"ry", 0), pickFloat(c, l+"rz", 0))
		o.Scale = pv3(pickFloat(c, l+"sx", 1), pickFloat(c, l+"sy", 1), pickFloat(c, l+"sz", 1))
		if k := c.Choose(l+"color", 4); k > 0 {
			o.Color = []*mqo.Vector3{pv3(0, 0, 0), pv3(1, 0.5, 0.25), pv3(0.001, 0.999, 0.5)}[k-1]
		}
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}}}
		doc.Objects = append(doc.Objects, o)
	}
	return &c01Case{doc, c.Choose("container", 3)}
}

func c01Names(c *Chooser) any {
	doc := mqo.NewDocument()
	used := map[string]bool{}
	for i := 0; i < 2; i++ {
		m := &mqo.Material{Name: pickName(c, fmt.Sprintf("m%d", i), fmt.Sprintf("mat%d", i)), Color: geomV4(1, 1, 1, 1)}
		if used[m.Name] {
			return nil
		}
		used[m.Name] = true
		m.Texture = Pick(c, fmt.Sprintf("t%d", i), append([]string{""}, mqoNames...)...)
		doc.Materials = append(doc.Materials, m)
	}
	used = map[string]bool{}
	for i := 0; i < 2; i++ {
		o := simpleObject(pickName(c, fmt.Sprintf("o%d", i), fmt.Sprintf("obj%d", i)), 3)
		if used[o.Name] {
			return nil
		}
		used[o.Name] = true
		o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Material: i}}
		doc.Objects = append(doc.Objects, o)
	}
	return &c01Case{doc, c.Choose("container", 3)}
}

func c01Geometry(c *Chooser) any {
	doc := mqo.NewDocument()
	nv := Pick(c, "nv", 4, 0, 1, 5)
	o := mqo.NewObject("obj")
	for i := 0; i < nv; i++ {
		o.Vertexes = append(o.Vertexes, pv3(pickFloat(c, fmt.Sprintf("v%dx", i), float32(i)), pickFloat(c, fmt.Sprintf("v%dy", i), 0), pickFloat(c, fmt.Sprintf("v%dz", i), 1)))
	}
	switch c.Choose("uids", 6) {
	case 1:
		for i := 0; i < nv; i++ {
			o.VertexByUID[i+1] = i
		}
	case 2:
		for i := 0; i < nv; i++ {
			o.VertexByUID[nv-i] = i
		}
	case 3:
		for i := 0; i < nv; i++ {
			o.VertexByUID[100+i*7] = i
		}
	case 4: // partial, no clash with the implicit ones
		if nv > 1 {
			o.VertexByUID[50] = nv - 1
		}
	case 5: // partial, clashing with an implicit one
		if nv > 1 {
			o.VertexByUID[nv] = 0
		}
	}
	nf := 0
	if nv > 0 {
		nf = Pick(c, "nf", 1, 2, 0, 3)
	}
	for i := 0; i < nf; i++ {
		l := fmt.Sprintf("f%d.", i)
		k := Pick(c, l+"arity", 3, 4, 2, 1, 5, 0)
		f := &mqo.Face{}
		for j := 0; j < k; j++ {
			f.Verts = append(f.Verts, (j+i)%nv)
		}
		f.Material = Pick(c, l+"mat", 0, 1, 12, -1)
		f.UID = Pick(c, l+"uid", 0, 1, 99)
		switch c.Choose(l+"uv", 5) {
		case 1:
			for j := 0; j < k; j++ {
				f.UVs = append(f.UVs, mqo.Vector2{X: float32(j) * 0.25, Y: 1 - float32(j)*0.25})
			}
		case 2:
			for j := 0; j < k; j++ {
				f.UVs = append(f.UVs, mqo.Vector2{X: -float32(j) - 0.1, Y: 1e-6 * float32(j)})
			}
		case 3:
			for j := 0; j < k; j++ {
				f.UVs = append(f.UVs, mqo.Vector2{})
			}
		case 4:
			for j := 0; j < k; j++ {
				f.UVs = append(f.UVs, mqo.Vector2{X: 1e7, Y: -1e-10})
			}
		}
		if c.Flag(l + "n") {
			mask := c.Free(l+"nmask", 1<<k)
			for j := 0; j < k; j++ {
				if mask>>j&1 == 1 {
					f.Normals = append(f.Normals, nil)
				} else {
					f.Normals = append(f.Normals, pv3(float32(j)*0.1, -1, 1e-8))
				}
			}
		}
		o.Faces = append(o.Faces, f)
	}
	doc.Objects = append(doc.Objects, o)
	if c.Flag("second") {
		p := simpleObject("second", 3)
		p.Faces = []*mqo.Face{{Verts: []int{2, 1, 0}}}
		doc.Objects = append(doc.Objects, p)
	}
	return &c01Case{doc, c.Choose("container", 3)}
}

func mqoText(t *T, doc *mqo.Document) []byte {
	var b bytes.Buffer
	if err := mqo.NewWriter("").WriteMQO(doc, &b); err != nil {
		t.Fatal("write-error", "WriteMQO: %v", err)
	}
	return b.Bytes()
}

func c01Check(t *T, v any) {
	cs := v.(*c01Case)
	text := mqoText(t, cs.doc)
	t.State(text, cs.kind)
	var got *mqo.Document
	var err error
	switch cs.kind {
	case 0:
		got, err = mqo.NewParser(bytes.NewReader(text), "").Parse()
	default:
		path := filepath.Join(t.Dir(), []string{"", "x.mqo", "x y.mqoz"}[cs.kind])
		if err = mqo.Save(cs.doc, path); err == nil {
			got, err = mqo.Load(path)
		}
	}
	t.Must(err == nil, "error", "written document does not read back: %v\n%s", err, text)
	d := diffMQO(cs.doc, got)
	t.Must(d.empty(), "roundtrip", "%s\n%s", d, text)
	again := mqoText(t, got)
	// identifiers may become explicit; compare what a second trip gives
	got2, err := mqo.NewParser(bytes.NewReader(again), "").Parse()
	t.Must(err == nil, "error2", "second trip: %v", err)
	d = diffMQO(got, got2)
	t.Must(d.empty(), "roundtrip2", "%s", d)
	t.Must(bytes.Equal(again, mqoText(t, got2)), "fixpoint", "text differs after a second trip:\n%s", again)
	if cs.kind == 0 && len(firstUIDs(cs.doc)) == 0 {
		t.Must(bytes.Equal(text, again), "sametext", "text of the re-read document differs:\n%s\n---\n%s", text, again)
	}
}

func firstUIDs(doc *mqo.Document) (r []int) {
	for _, o := range doc.Objects {
		for id := range o.VertexByUID {
			r = append(r, id)
		}
	}
	return
}

func init() {
	Register(&Property{
		ID:    "C01",
		Level: "model_checking",
		Rule:  "states are documents reachable from a base document by at most B attribute edits; each is written and re-read by the real code in each container and compared field by field",
		Scenarios: []*Scenario{
			{Name: "scene", Gen: c01Scene, Check: c01Check, Quick: 3, Thorough: 4, What: "scene attributes x containers"},
			{Name: "materials", Gen: c01Materials, Check: c01Check, Quick: 3, Thorough: 4, What: "0-2 materials x every attribute value x Ex2 parameter kinds x containers"},
			{Name: "objects", Gen: c01Objects, Check: c01Check, Quick: 2, Thorough: 3, What: "0-3 objects x every attribute value x containers"},
			{Name: "names", Gen: c01Names, Check: c01Check, Quick: 2, Thorough: 3, What: "name alphabet on materials, textures and objects"},
			{Name: "geometry", Gen: c01Geometry, Check: c01Check, Quick: 2, Thorough: 3, What: "vertices, identifiers, faces of arity 0-5, UVs, all normal masks"},
			{Name: "sizes", Gen: gen01Sizes(0), Check: c01Check, Quick: 0, Thorough: 0, What: "sections with n elements, n around every power of two up to 66000 x containers"},
		},
	})
}
