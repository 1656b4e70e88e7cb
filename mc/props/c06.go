package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/binzume/modelconv/fbx"

	. "modelconvmc/engine"
)

var binVersions = []uint32{7400, 7500, 7300, 7700, 7100}

func pickBin(c *Chooser) binOpt {
	return binOpt{version: FreePick(c, "version", binVersions...), compress: c.Free("compress", 3), footer: c.Free("footer", 3)}
}

func pickStyle(c *Chooser, free bool) (st asciiStyle) {
	pick := c.Choose
	if free {
		pick = c.Free
	}
	layout := pick("layout", 9)
	st.crlf = pick("crlf", 2) == 1
	st.comment = pick("comment", 2) == 1
	st.nospace = pick("nospace", 2) == 1
	st.wrap = []int{0, 1, 3}[pick("wrap", 3)]
	if layout == 0 || !free {
		st.tabs = pick("tabs", 2) == 1
		st.exp = pick("exp", 5)
	}
	switch layout {
	case 1:
		st.attrs = 1
	case 2:
		st.attrs = 3
	case 3:
		st.attrs, st.lead = 1, true
	case 4:
		st.attrs, st.lead = 3, true
	case 5:
		st.head = 1
	case 6:
		st.head = 2
	case 7:
		st.trail = true
	case 8:
		st.noFinal = true
	}
	return
}

// trees of attribute values in a form both encodings have
func c06Values(c *Chooser) any {
	var vals []any
	for _, v := range fbxScalars {
		if _, ok := v.(int); !ok {
			vals = append(vals, v)
		}
	}
	a := vals[c.Free("a", len(vals))]
	b := vals[c.Choose("b", len(vals))]
	cs := &fbxCase{bin: pickBin(c), src: c.Free("source", 2)}
	cs.top = []*fnode{fn("A", a, b).with(fn("B", b), fn("Empty"), fn("C", "end", a)), fn("D"), fn("E", a)}
	return cs
}

func c06Arrays(c *Chooser) any {
	cs := &fbxCase{bin: pickBin(c), src: c.Free("source", 2)}
	a := fbxArray(c.Free("kind", 7), FreePick(c, "n", 0, 1, 3, 40, 1000), c.Free("seed", 3))
	b := fbxArray(c.Choose("kind2", 7), Pick(c, "n2", 2, 0, 17), 1)
	cs.top = []*fnode{fn("A", "k", a, b).with(fn("B", b).with(fn("C", a))), fn("D", a), fn("E", int64(3))}
	return cs
}

func c06Trees(max int) func(c *Chooser) any {
	g := c05Trees(max)
	return func(c *Chooser) any {
		cs := g(c).(*fbxCase)
		cs.bin, cs.src = pickBin(c), c.Free("source", 2)
		return cs
	}
}

func c06Source(b []byte, src int) io.Reader {
	if src == 1 {
		return onlyReader{bytes.NewReader(b)}
	}
	return bytes.NewReader(b)
}

func c06CheckBin(t *T, v any) {
	cs := v.(*fbxCase)
	b := encodeFBX(cs.top, cs.bin)
	t.State(b, cs.src)
	doc, err := fbx.Parse(c06Source(b, cs.src))
	t.Must(err == nil, "parse", "rejected: %v", err)
	d := &diffs{}
	d.nodes("", cs.top, doc.RawNode.Children, true)
	t.Must(d.empty(), "decode", "%s", d)
}

func c06Styles(c *Chooser) any {
	cs := &fbxCase{st: pickStyle(c, true)}
	switch c.Free("kind", 4) {
	case 3: // lists of values as in version 6 files
		n, first := c.Free("n", 10), c.Free("first", 5)
		var list []any
		for i := 0; i < n; i++ {
			list = append(list, []any{int64(i), float64(i) + 0.5, "s", int64(-i), 1e-5}[(i+first)%5])
		}
		cs.top = []*fnode{fn("A", list...).with(fn("B", list...), fn("C")), fn("D", list...), fn("Last", list...).with(fn("E", "x"))}
	case 0:
		a := fbxScalars[c.Free("a", len(fbxScalars))]
		b := fbxScalars[c.Choose("b", len(fbxScalars))]
		cs.top = []*fnode{fn("A", a, b).with(fn("B", b), fn("Empty"), fn("C", "end", a)), fn("D"), fn("E", a)}
	case 1:
		a := fbxArray(c.Free("kind", 7), FreePick(c, "n", 0, 1, 3, 40), c.Free("seed", 3))
		b := fbxArray(c.Choose("kind2", 7), Pick(c, "n2", 2, 0, 17), 1)
		cs.top = []*fnode{fn("A", "k", a).with(fn("B", b).with(fn("C", a))), fn("D", a), fn("E", int64(3))}
	case 2:
		st := cs.st
		cs = c05Names(c).(*fbxCase)
		cs.top = cs.top[1:]
		cs.st = st
	}
	return cs
}

func c06CheckText(t *T, v any) {
	cs := v.(*fbxCase)
	b := encodeASCII(cs.top, cs.st)
	t.State(b)
	doc, err := fbx.Parse(bytes.NewReader(b))
	t.Must(err == nil, "parse", "rejected: %v\n%s", err, b)
	d := &diffs{}
	d.nodes("", cs.top, doc.RawNode.Children, false)
	t.Must(d.empty(), "decode", "%s\n%s", d, b)
}

type c06Scene struct {
	s  *fscene
	bs []binOpt
	st asciiStyle
}

func (c *c06Scene) Describe() string { return c.s.Describe() }

func c06Scenes(c *Chooser) any {
	return &c06Scene{s: genScene(c), st: pickStyle(c, false)}
}

func c06CheckScene(t *T, v any) {
	cs := v.(*c06Scene)
	top := cs.s.nodes()
	txt := encodeASCII(top, cs.st)
	t.State(txt)
	type form struct {
		name string
		data []byte
		src  int
	}
	forms := []form{{"ASCII", txt, 0}, {"binary 7400", encodeFBX(top, binOpt{7400, 0, 1}), 0}, {"binary 7500 compressed", encodeFBX(top, binOpt{7500, 1, 0}), 1}}
	for _, f := range forms {
		doc, err := fbx.Parse(c06Source(f.data, f.src))
		t.Must(err == nil, "parse", "%s is rejected: %v", f.name, err)
		d := &diffs{}
		d.fbxDoc(cs.s, doc)
		t.Must(d.empty(), "document", "%s: %s", f.name, d)
		// as text and back
		var b bytes.Buffer
		t.Must(fbx.Write(&b, doc) == nil, "write", "cannot write")
		doc2, err := fbx.Parse(bytes.NewReader(b.Bytes()))
		t.Must(err == nil, "reparse", "%s, written as text, is rejected: %v\n%s", f.name, err, b.String())
		d = &diffs{}
		d.fbxDoc(cs.s, doc2)
		t.Must(d.empty(), "rewritten", "%s written as text: %s\n%s", f.name, d, b.String())
	}
	t.Extra(len(forms)*2 - 1)
}

// version 6.1 files: objects and connections by name, numbers as attribute lists
type c06Old struct {
	parents []int
	names   []string
	mesh    fsMesh
	at      int
	mat     bool
	st      asciiStyle
	bin     binOpt
}

func c06Legacy(c *Chooser) any {
	o := &c06Old{}
	n := 1 + c.Free("models", 3)
	for i := 0; i < n; i++ {
		o.parents = append(o.parents, c.Free("parent", i+1)-1)
		o.names = append(o.names, Pick(c, "name", string(rune('a'+i)), string(rune('A'+i))+" b", "日本"+string(rune('a'+i)), "x::"+string(rune('a'+i))))
	}
	o.at = c.Free("mesh.at", n)
	o.mesh = fsMeshes[c.Free("mesh", len(fsMeshes)-1)]
	o.mat = c.FreeFlag("material")
	o.st = pickStyle(c, false)
	o.st.wrap = 0
	o.bin = binOpt{version: 6100, footer: c.Choose("footer", 3)}
	return o
}

func (o *c06Old) nodes() []*fnode {
	objs := fn("Objects")
	conns := fn("Connections")
	for i, nm := range o.names {
		kind := "Null"
		if o.at == i {
			kind = "Mesh"
		}
		m := fn("Model", nm+"\x00\x01Model", kind).with(fn("Version", int32(232)))
		if o.at == i {
			var f, p []any
			for _, x := range flat(o.mesh.verts) {
				f = append(f, x)
			}
			for _, poly := range o.mesh.polys {
				for k, v := range poly {
					if k == len(poly)-1 {
						v = ^v
					}
					p = append(p, int32(v))
				}
			}
			m.with(fn("Vertices", f...), fn("PolygonVertexIndex", p...))
		}
		objs.with(m)
	}
	if o.mat {
		objs.with(fn("Material", "mat\x00\x01Material", "").with(fn("Version", int32(102))))
	}
	for i, nm := range o.names {
		to := "Scene\x00\x01Model"
		if o.parents[i] >= 0 {
			to = o.names[o.parents[i]] + "\x00\x01Model"
		}
		conns.with(fn("Connect", "OO", nm+"\x00\x01Model", to))
		if o.mat && i == o.at {
			conns.with(fn("Connect", "OO", "mat\x00\x01Material", nm+"\x00\x01Model"))
		}
	}
	return []*fnode{fn("FBXHeaderExtension").with(fn("FBXHeaderVersion", int32(1003)), fn("FBXVersion", int32(6100))), objs, conns}
}

func c06CheckLegacy(t *T, v any) {
	o := v.(*c06Old)
	for k, data := range [][]byte{encodeASCII(o.nodes(), o.st), encodeFBX(o.nodes(), o.bin)} {
		t.State(data)
		form := []string{"ASCII", "binary"}[k]
		doc, err := fbx.Parse(bytes.NewReader(data))
		t.Must(err == nil, "parse", "%s is rejected: %v", form, err)
		seen := 0
		var walk func(m *fbx.Model, at int)
		walk = func(m *fbx.Model, at int) {
			var kids []int
			for i, p := range o.parents {
				if p == at {
					kids = append(kids, i)
				}
			}
			got := m.GetChildModels()
			t.Must(len(got) == len(kids), "children", "%s: model %d has %d children, want %d", form, at, len(got), len(kids))
			for j, i := range kids {
				seen++
				g := got[j]
				t.Must(g.Name() == o.names[i]+"::Model", "name", "%s: child is %q, want %q", form, g.Name(), o.names[i])
				t.Must(g.Parent == m, "parent", "%s: wrong parent", form)
				geo := g.GetGeometry()
				t.Must((geo != nil) == (i == o.at), "geometry", "%s: geometry of %q is %v", form, g.Name(), geo)
				if geo != nil {
					d := &diffs{}
					d.eq("vertices", len(o.mesh.verts), len(geo.Vertices))
					for n, v := range geo.Vertices {
						if n < len(o.mesh.verts) {
							d.v3d("vertex", o.mesh.verts[n], v, 1e-6)
						}
					}
					d.eq("polygons", fmt.Sprint(o.mesh.polys), fmt.Sprint(geo.Polygons))
					t.Must(d.empty(), "mesh", "%s: %s", form, d)
					t.Must((len(g.FindRefs("Material")) == 1) == o.mat, "material", "%s: materials of the mesh", form)
				}
				walk(g, i)
			}
		}
		walk(doc.Scene, -1)
		t.Expect(seen == len(o.names), "models", "%s: %d models, want %d", form, seen, len(o.names))
		t.Expect((len(doc.Materials) == 1) == o.mat, "materials", "%s: %d materials", form, len(doc.Materials))
	}
	t.Extra(1)
}

func init() {
	Register(&Property{ID: "C06", Level: "model_checking",
		Rule: "node trees and scenes encoded by independent binary (5 versions x compression x footer) and ASCII (layout styles) encoders, decoded by the real parser from seekable and plain readers, compared with the tree and scene they encode",
		Scenarios: []*Scenario{
			{Name: "bin-values", Gen: c06Values, Check: c06CheckBin, Quick: 1, Thorough: 1, What: "all pairs of attribute values x 5 versions x 3 compression modes x 3 footers x 2 sources"},
			{Name: "bin-arrays", Gen: c06Arrays, Check: c06CheckBin, Quick: 1, Thorough: 2, What: "array kinds x sizes x patterns x versions x compression x footers x sources"},
			{Name: "bin-trees", Gen: c06Trees(4), Check: c06CheckBin, Quick: 1, Thorough: 3, What: "all ordered trees up to 4 nodes x attribute lists (B deviations) x versions x compression x footers x sources"},
			{Name: "text-styles", Gen: c06Styles, Check: c06CheckText, Quick: 0, Thorough: 1, What: "values, arrays, object names x all layout styles"},
			{Name: "bin-sizes", Gen: c06BinSizes, Check: c06CheckBin, What: "arrays, strings, children, depth, attributes of size n, n around every power of two up to 65537 x versions x compression x sources"},
			{Name: "text-sizes", Gen: c06TextSizes, Check: c06CheckText, What: "the same as text x line ends x wrapping"},
			{Name: "scenes", Gen: c06Scenes, Check: c06CheckScene, Quick: 2, Thorough: 3, What: "scenes deviating in up to B features from a one-mesh scene, as ASCII, binary 7400 and compressed 7500, and rewritten as text; everything the API shows compared with the scene"},
			{Name: "legacy", Gen: c06Legacy, Check: c06CheckLegacy, Quick: 1, Thorough: 2, What: "version 6.1 files (objects and connections by name): model trees up to 3 models x meshes x materials, ASCII and binary"},
		}})
}
