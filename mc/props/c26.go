package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"

	. "modelconvmc/engine"
)

// C26: every history of document API calls up to the bound is run on a real document and on the
// reference model below; after the last call (and optionally after every call) the real object
// graph, and the one read back from the written file, must look like the reference.

type obj26 struct {
	typ, name, kind string
	trs             [3]v3d // translation, rotation, scaling
	prerot          v3d
	parent          int // index of the parent model, -1: none
	refs            []int
	props           map[string]string // name -> value
	ptypes          map[string]string
	tex             map[string]int
	geo             int
	uv, mat, nor    int // layer variants, 0: none
}

type op26 struct {
	do      int
	a, b, v int
}

type case26 struct {
	init  int
	watch bool
	ops   []op26
	what  string
}

const (
	opModel = iota
	opGeometry
	opMaterial
	opTexture
	opConnect
	opPropConnect
	opTranslate
	opRotate
	opScale
	opPreRotate
	opProp
	opColor
	opUV
	opMat
	opNormal
	opReload
	opAgain
	opAxis
	nop26
)

var opNames26 = []string{"new model", "new geometry", "new material", "new texture", "connect", "connect property", "translate", "rotate", "scale", "pre-rotate", "set property", "set color", "set UVs", "set materials", "set normals", "write and read", "add again", "set axis"}

func (c *case26) Describe() string {
	if c.what != "" {
		return c.what
	}
	var s []string
	for _, o := range c.ops {
		s = append(s, fmt.Sprintf("%s(%d,%d,%d)", opNames26[o.do], o.a, o.b, o.v))
	}
	return fmt.Sprintf("start %d, observed in between %v: %s", c.init, c.watch, strings.Join(s, "; "))
}

var names26 = []string{"ボーン 1", "a::b", "q\"uote", ""}
var vecs26 = []v3d{{1.5, -2, 300}, {30, 45.25, -90}, {2, 0.5, 1e-7}}

type g26 struct {
	verts []*geom.Vector3
	faces [][]int
}
type u26 struct {
	uv  []*geom.Vector2
	idx []int32
	m   fbx.MappingType
}
type mt26 struct {
	idx []int32
	m   fbx.MappingType
}
type n26 struct {
	n []*geom.Vector3
	m fbx.MappingType
}

// the variants after the listed ones have as many elements as their number says
func geo26(v int) (g g26) {
	if v < len(geos26) {
		return geos26[v]
	}
	for i := 0; i < v; i++ {
		g.verts = append(g.verts, pv3(float32(i%16), float32(i/16)/8, float32(i%7)))
	}
	for i := 0; i < v; i += 3 {
		f := []int{i, (i + 1) % v, v - 1}
		if i%2 == 1 {
			f = append(f, 0, i/2)
		}
		g.faces = append(g.faces, f)
	}
	return
}

func uv26(v int) (u u26) {
	if v < len(uvs26) {
		return uvs26[v]
	}
	u.m = fbx.ByPolygonVertex
	for i := 0; i < v; i++ {
		u.uv = append(u.uv, &geom.Vector2{X: float32(i) / 64, Y: 1 - float32(i%5)})
		u.idx = append(u.idx, int32(v-1-i))
	}
	return
}

func mat26(v int) (m mt26) {
	if v < len(mats26) {
		return mats26[v]
	}
	m.m = fbx.ByPolygon
	for i := 0; i < v; i++ {
		m.idx = append(m.idx, int32(i%3))
	}
	return
}

func nor26(v int) (m n26) {
	if v < len(nors26) {
		return nors26[v]
	}
	m.m = fbx.ByPolygonVertex
	for i := 0; i < v; i++ {
		m.n = append(m.n, pv3(float32(i%4)*0.25, 0.5, -float32(i)))
	}
	return
}

var geos26 = []g26{
	{[]*geom.Vector3{pv3(0, 0, 0), pv3(1, 0.5, 0), pv3(1e-8, 1, 3e20), pv3(-7, 1, 2)}, [][]int{{0, 1, 2}, {3, 2, 1, 0}}},
	{nil, nil},
	{[]*geom.Vector3{pv3(0, 0, 0), pv3(1, 0, 0)}, [][]int{{0, 1}}},
}

var uvs26 = []u26{
	{[]*geom.Vector2{{X: 0, Y: 0.25}, {X: 1, Y: 1e-9}}, []int32{0, 1, 1, 0, 1, 0, 0}, fbx.ByPolygonVertex},
	{nil, nil, fbx.ByControlPoint},
}
var mats26 = []mt26{{[]int32{0}, fbx.AllSame}, {[]int32{1, 0}, fbx.ByPolygon}}
var nors26 = []n26{{[]*geom.Vector3{pv3(0, 0, 1), pv3(0.6, -0.8, 0)}, fbx.ByPolygon}, {nil, fbx.ByPolygonVertex}}

// model26 is the reference.
type model26 struct {
	objs   []*obj26 // 0 is the scene
	upAxis int
}

func new26() *model26 {
	return &model26{objs: []*obj26{{typ: "Scene", parent: -1, trs: [3]v3d{2: {1, 1, 1}}}}, upAxis: 1}
}

func (m *model26) of(typ string) (r []int) {
	for i, o := range m.objs {
		if o.typ == typ {
			r = append(r, i)
		}
	}
	return
}

func (m *model26) below(a, b int) bool { // a is b or an ancestor of b over any connection
	if a == b {
		return true
	}
	for _, r := range m.objs[a].refs {
		if m.below(r, b) {
			return true
		}
	}
	return false
}

func (m *model26) add(typ, name, kind string, geo int) {
	m.objs = append(m.objs, &obj26{typ: typ, name: name, kind: kind, parent: -1, geo: geo, trs: [3]v3d{2: {1, 1, 1}}, props: map[string]string{}, tex: map[string]int{}})
}

func (m *model26) connect(p, c int) {
	m.objs[p].refs = append(m.objs[p].refs, c)
	if isModel26(m.objs[p].typ) && isModel26(m.objs[c].typ) {
		m.objs[c].parent = p
	}
}

func isModel26(t string) bool { return t == "Model" || t == "Scene" }

func (m *model26) apply(o op26) {
	switch o.do {
	case opModel:
		m.add("Model", names26[o.v], []string{"Null", "Mesh", "LimbNode"}[o.v%3], 0)
	case opGeometry:
		m.add("Geometry", names26[o.v%4], "Mesh", o.v)
	case opMaterial:
		m.add("Material", names26[o.v], "", 0)
	case opTexture:
		m.add("Texture", names26[o.v], "", 0)
	case opConnect:
		m.connect(o.a, o.b)
	case opPropConnect:
		m.connect(o.a, o.b)
		n := []string{"DiffuseColor", "Bump"}[o.v]
		if _, ok := m.objs[o.a].tex[n]; !ok {
			m.objs[o.a].tex[n] = o.b
		}
	case opTranslate, opRotate, opScale:
		m.objs[o.a].trs[o.do-opTranslate] = vecs26[o.v]
	case opPreRotate:
		m.objs[o.a].prerot = v3d{90, 0, 10}
	case opProp:
		k, v := prop26(o.v)
		m.objs[o.a].props[k] = v
	case opColor:
		m.objs[o.a].props["DiffuseColor"] = fmt.Sprint(vecs26[o.v])
	case opUV:
		m.objs[o.a].uv = o.v + 1
	case opMat:
		m.objs[o.a].mat = o.v + 1
	case opNormal:
		m.objs[o.a].nor = o.v + 1
	case opAxis:
		m.upAxis = 1 + o.v
	}
}

func prop26(v int) (name, value string) {
	return []string{"Visibility", "userFloat", "userText", "Visibility", "Visibility", "userFloat"}[v], []string{"-3", "0.125", "x \"y\" ; : {1", "2147483648", "-70000", "200"}[v]
}

// ops26 lists the calls that are possible in a state.
func (m *model26) ops(full bool) (r []op26) {
	add := func(do, a, b, v int) { r = append(r, op26{do, a, b, v}) }
	nm := 2
	if full {
		nm = 4
	}
	if len(m.objs) < 6 {
		for v := 0; v < nm; v++ {
			add(opModel, 0, 0, v)
		}
		for v := 0; v < 3; v++ {
			add(opGeometry, 0, 0, v)
		}
		add(opMaterial, 0, 0, len(m.of("Material"))%4)
		add(opTexture, 0, 0, len(m.of("Texture"))%4)
	}
	for a, p := range m.objs {
		for b, c := range m.objs {
			ok := isModel26(p.typ) && (c.typ == "Model" || c.typ == "Geometry" || c.typ == "Material") || p.typ == "Material" && c.typ == "Texture"
			if !ok || m.below(b, a) {
				continue
			}
			dup := false
			for _, x := range p.refs {
				dup = dup || x == b
			}
			if !dup {
				add(opConnect, a, b, 0)
			}
			if p.typ == "Material" {
				add(opPropConnect, a, b, 0)
				add(opPropConnect, a, b, 1)
			}
		}
	}
	for i, o := range m.objs {
		switch o.typ {
		case "Model":
			add(opTranslate, i, 0, 0)
			add(opRotate, i, 0, 1)
			add(opScale, i, 0, 2)
			add(opPreRotate, i, 0, 0)
			for v := 0; v < 6; v++ {
				add(opProp, i, 0, v)
			}
			if full {
				add(opTranslate, i, 0, 1)
				add(opAgain, i, 0, 0)
			}
		case "Material":
			add(opColor, i, 0, 0)
			add(opColor, i, 0, 2)
			add(opProp, i, 0, 1)
			add(opAgain, i, 0, 0)
		case "Geometry":
			for v := 0; v < 2; v++ {
				add(opUV, i, 0, v)
				add(opMat, i, 0, v)
				add(opNormal, i, 0, v)
			}
			add(opAgain, i, 0, 0)
		}
	}
	add(opAxis, 0, 0, 1)
	add(opReload, 0, 0, 0)
	add(opReload, 0, 0, 1)
	return
}

var inits26 = [][]op26{
	nil,
	{{opModel, 0, 0, 0}, {opConnect, 0, 1, 0}, {opGeometry, 0, 0, 0}, {opConnect, 1, 2, 0}, {opMaterial, 0, 0, 1}, {opConnect, 1, 3, 0}},
	{{opModel, 0, 0, 0}, {opConnect, 0, 1, 0}, {opTranslate, 1, 0, 0}, {opModel, 0, 0, 1}, {opConnect, 1, 2, 0}, {opReload, 0, 0, 0}},
	{{opModel, 0, 0, 0}, {opConnect, 0, 1, 0}, {opModel, 0, 0, 1}, {opConnect, 1, 2, 0}, {opMaterial, 0, 0, 1}, {opTranslate, 2, 0, 0}, {opReload, 0, 0, 1}},
	{{opMaterial, 0, 0, 0}, {opTexture, 0, 0, 1}, {opTexture, 0, 0, 2}, {opPropConnect, 1, 2, 1}, {opGeometry, 0, 0, 1}, {opReload, 0, 0, 0}},
}

func gen26(depth int, full bool) func(c *Chooser) any {
	return func(c *Chooser) any {
		k := &case26{init: c.Free("start", len(inits26))}
		k.watch = c.FreeFlag("observe in between")
		m := new26()
		for _, o := range inits26[k.init] {
			m.apply(o)
		}
		k.ops = append(k.ops, inits26[k.init]...)
		n := depth
		if k.init == 0 {
			n++
		}
		for i := 0; i < n; i++ {
			l := m.ops(full)
			x := c.Free(fmt.Sprint("call ", i), len(l)+1)
			if x == 0 {
				break
			}
			m.apply(l[x-1])
			k.ops = append(k.ops, l[x-1])
		}
		return k
	}
}

// gen26Sizes repeats calls n times.
func gen26Sizes(c *Chooser) any {
	sections := []struct {
		name string
		max  int
		mk   func(n int) []op26
	}{
		{"star", 513, func(n int) (l []op26) {
			for i := 1; i <= n; i++ {
				l = append(l, op26{opModel, 0, 0, i % 4}, op26{opConnect, 0, i, 0})
			}
			return
		}},
		{"chain", 130, func(n int) (l []op26) {
			for i := 1; i <= n; i++ {
				l = append(l, op26{opModel, 0, 0, i % 4}, op26{opConnect, i - 1, i, 0}, op26{opTranslate + i%2, i, 0, i % 2})
			}
			return
		}},
		{"backwards", 130, func(n int) (l []op26) {
			for i := 1; i <= n; i++ {
				l = append(l, op26{opModel, 0, 0, i % 4})
			}
			for i := n; i > 1; i-- {
				l = append(l, op26{opConnect, i, i - 1, 0})
			}
			return append(l, op26{opConnect, 0, n, 0})
		}},
		{"materials", 513, func(n int) (l []op26) {
			l = append(l, op26{opModel, 0, 0, 0}, op26{opConnect, 0, 1, 0})
			for i := 2; i < n+2; i++ {
				l = append(l, op26{opMaterial, 0, 0, i % 4}, op26{opConnect, 1, i, 0}, op26{opColor, i, 0, i % 3})
			}
			return
		}},
		{"textures", 513, func(n int) (l []op26) {
			l = append(l, op26{opMaterial, 0, 0, 0})
			for i := 2; i < n+2; i++ {
				l = append(l, op26{opTexture, 0, 0, i % 4}, op26{opPropConnect, 1, i, i % 2})
			}
			return
		}},
		{"geometries", 130, func(n int) (l []op26) {
			l = append(l, op26{opModel, 0, 0, 0}, op26{opConnect, 0, 1, 0})
			for i := 2; i < n+2; i++ {
				l = append(l, op26{opGeometry, 0, 0, i % 3}, op26{opConnect, 1, i, 0}, op26{opUV + i%3, i, 0, i % 2})
			}
			return
		}},
		{"vertices", 66000, func(n int) []op26 {
			return []op26{{opModel, 0, 0, 0}, {opConnect, 0, 1, 0}, {opGeometry, 0, 0, n}, {opConnect, 1, 2, 0}, {opUV, 2, 0, n}, {opMat, 2, 0, n}, {opNormal, 2, 0, n}}
		}},
		{"rewritten", 33, func(n int) (l []op26) {
			l = append(l, inits26[1]...)
			for i := 0; i < n; i++ {
				l = append(l, op26{opReload, 0, 0, 0}, op26{opTranslate + i%3, 1, 0, i % 3}, op26{opProp, 1, 0, i % 4})
			}
			return
		}},
		{"layers", 33, func(n int) (l []op26) { // set again and again
			l = append(l, inits26[1]...)
			for i := 0; i < n; i++ {
				l = append(l, op26{opUV + i%3, 2, 0, i / 3 % 5}, op26{opAgain, 2, 0, 0})
			}
			return
		}},
	}
	s := sections[c.Free("section", len(sections))]
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= s.max {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	return &case26{ops: s.mk(n), what: fmt.Sprint(s.name, " ", n)}
}

// real26 runs the calls.
type real26 struct {
	doc  *fbx.Document
	objs []fbx.Object
}

func obj2obj(o fbx.Object) *fbx.Obj {
	switch x := o.(type) {
	case *fbx.Model:
		return &x.Obj
	case *fbx.Material:
		return &x.Obj
	case *fbx.Geometry:
		return &x.Obj
	case *fbx.Obj:
		return x
	}
	return nil
}

func (r *real26) apply(t *T, o op26) {
	add := func(x fbx.Object) {
		before := len(r.doc.ObjectByID)
		id := r.doc.AddObject(x)
		t.Expect(id != 0 && id == x.ID() && len(r.doc.ObjectByID) == before+1 && r.doc.ObjectByID[id] == x, "add", "AddObject returned %d for object %d (%d objects before, %d after)", id, x.ID(), before, len(r.doc.ObjectByID))
		r.objs = append(r.objs, x)
	}
	switch o.do {
	case opModel:
		add(fbx.NewModel(names26[o.v], []string{"Null", "Mesh", "LimbNode"}[o.v%3]))
	case opGeometry:
		add(fbx.NewGeometry(names26[o.v%4], geo26(o.v).verts, geo26(o.v).faces))
	case opMaterial:
		add(fbx.NewMaterial(names26[o.v]))
	case opTexture:
		// an object with the identifier of another one gets a new identifier
		id := int64(0)
		if len(r.objs) > 2 {
			id = r.objs[1].ID()
		}
		add(&fbx.Obj{Node: fbx.NewNode("Texture", id, names26[o.v]+"\x00\x01Texture", "")})
	case opConnect:
		r.doc.AddConnection(r.objs[o.a], r.objs[o.b])
	case opPropConnect:
		r.doc.AddPropConnection(r.objs[o.a], r.objs[o.b], []string{"DiffuseColor", "Bump"}[o.v])
	case opTranslate:
		r.objs[o.a].(*fbx.Model).SetTranslation(vecs26[o.v].geom())
	case opRotate:
		r.objs[o.a].(*fbx.Model).SetRotation(vecs26[o.v].geom())
	case opScale:
		r.objs[o.a].(*fbx.Model).SetScaling(vecs26[o.v].geom())
	case opPreRotate:
		r.objs[o.a].SetProperty("PreRotation", &fbx.Property{Type: "Vector3D", Label: "Vector", AttributeList: []*fbx.Attribute{{Value: 90.0}, {Value: 0.0}, {Value: float32(10)}}})
	case opProp:
		x := obj2obj(r.objs[o.a])
		switch o.v {
		case 0:
			x.SetIntProperty("Visibility", -3)
		case 1:
			x.SetFloatProperty("userFloat", 0.125)
		case 2:
			x.SetStringProperty("userText", "x \"y\" ; : {1")
		case 3:
			x.SetIntProperty("Visibility", 2147483648)
		case 4: // values of other Go types
			x.SetProperty("Visibility", &fbx.Property{Type: "int", Label: "Integer", AttributeList: []*fbx.Attribute{{Value: int(-70000)}}})
		case 5:
			x.SetProperty("userFloat", &fbx.Property{Type: "Number", Flag: "A", AttributeList: []*fbx.Attribute{{Value: uint8(200)}}})
		}
	case opColor:
		r.objs[o.a].(*fbx.Material).SetColor("DiffuseColor", vecs26[o.v].geom())
	case opUV:
		u := uv26(o.v)
		r.objs[o.a].(*fbx.Geometry).SetLayerElementUVIndexed(u.uv, u.idx, u.m)
	case opMat:
		u := mat26(o.v)
		r.objs[o.a].(*fbx.Geometry).SetLayerElementMaterialIndex(u.idx, u.m)
	case opNormal:
		u := nor26(o.v)
		r.objs[o.a].(*fbx.Geometry).SetLayerElementNormal(u.n, u.m)
	case opAxis:
		r.doc.GlobalSettings.SetProperty("UpAxis", &fbx.Property{Type: "int", Label: "Integer", AttributeList: []*fbx.Attribute{{Value: int64(1 + o.v)}}})
		r.doc.GlobalSettings.SetProperty("FrontAxis", &fbx.Property{Type: "int", Label: "Integer", AttributeList: []*fbx.Attribute{{Value: int64(2 - o.v)}}})
	case opAgain:
		n, id := len(r.doc.ObjectByID), r.objs[o.a].ID()
		got := r.doc.AddObject(r.objs[o.a])
		t.Expect(got == id && r.objs[o.a].ID() == id && len(r.doc.ObjectByID) == n, "again", "adding object %d again returned %d", id, got)
	case opReload:
		if o.v == 1 { // another program writes no empty property lists and some properties without values
			for i, x := range r.objs[1:] {
				n := obj2obj(x).Node
				var kept []*fbx.Node
				for _, c := range n.Children {
					if c.Name == "Properties70" && len(c.Children) == 0 {
						continue
					}
					if c.Name == "Properties70" && i%2 == 0 {
						c.AddChild(fbx.NewNode("P", "userNone", "KString"))
					}
					kept = append(kept, c)
				}
				n.Children = kept
			}
		}
		*r = *r.reload(t)
	}
}

// reload writes the document and reads it back.
func (r *real26) reload(t *T) *real26 {
	var b bytes.Buffer
	err := fbx.Write(&b, r.doc)
	t.Must(err == nil, "write", "can not be written: %v", err)
	doc, err := fbx.Parse(bytes.NewReader(b.Bytes()))
	t.Must(err == nil, "read", "can not be read back: %v\n%s", err, b.String())
	n := &real26{doc: doc, objs: []fbx.Object{doc.Scene}}
	for _, o := range r.objs[1:] {
		x := doc.ObjectByID[o.ID()]
		t.Must(x != nil, "lost", "object %d is not in the file", o.ID())
		n.objs = append(n.objs, x)
	}
	t.Expect(len(doc.ObjectByID) == len(r.objs), "objects", "%d objects read, not %d", len(doc.ObjectByID), len(r.objs))
	return n
}

func (r *real26) compare(d *diffs, m *model26) {
	index := map[fbx.Object]int{}
	for i, o := range r.objs {
		index[o] = i
	}
	at := func(l []fbx.Object) (x []int) {
		for _, o := range l {
			if i, ok := index[o]; ok {
				x = append(x, i)
			} else {
				x = append(x, -1)
			}
		}
		return
	}
	nmat := 0
	coord := [3]v3d{}
	cm := m4geom(r.doc.CoordMatrix())
	for i := range coord {
		var e v3d
		e[i] = 1
		coord[i] = cm.dir(e)
	}
	want := [3]v3d{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	if m.upAxis == 2 {
		want[1], want[2] = want[2], want[1]
	}
	if coord != want {
		d.add("axes %v, not %v", coord, want)
	}
	for i, e := range m.objs {
		o := r.objs[i]
		what := fmt.Sprintf("object %d (%s %q)", i, e.typ, e.name)
		if i > 0 {
			d.eq(what+" type", e.typ, o.NodeName())
			d.eq(what+" name", e.name+"::"+e.typ, o.Name())
			d.eq(what+" kind", e.kind, o.Kind())
		}
		for _, typ := range []string{"Model", "Geometry", "Material", "Texture"} {
			var w []int
			for _, x := range e.refs {
				if m.objs[x].typ == typ {
					w = append(w, x)
				}
			}
			if g := at(o.FindRefs(typ)); !reflect.DeepEqual(g, w) {
				d.add("%s: connected %ss %v, not %v", what, typ, g, w)
			}
		}
		for k, v := range e.props {
			p := o.GetProperty(k)
			switch k {
			case "Visibility":
				d.eq(what+" "+k, v, fmt.Sprint(p.ToInt(12345)))
			case "userFloat":
				d.eq(what+" "+k, v, fmt.Sprint(p.ToFloat32(12345)))
			case "userText":
				d.eq(what+" "+k, v, p.ToString())
			}
		}
		for _, k := range []string{"Visibility", "userFloat", "userText", "userNone"} {
			if _, ok := e.props[k]; !ok && i > 0 && e.typ != "Texture" {
				if p := o.GetProperty(k); len(p.AttributeList) != 0 {
					d.add("%s: unexpected property %s", what, k)
				}
			}
		}
		switch x := o.(type) {
		case *fbx.Model:
			p := -1
			if x.Parent != nil {
				p = index[x.Parent]
			}
			d.eq(what+" parent", e.parent, p)
			var ch []int
			for _, y := range e.refs {
				if isModel26(m.objs[y].typ) {
					ch = append(ch, y)
				}
			}
			var gch []int
			for _, y := range x.GetChildModels() {
				gch = append(gch, index[y])
				if f := x.FindChildModel(strings.TrimSuffix(y.Name(), "::Model")); f == nil || f.Name() != y.Name() {
					d.add("%s: child %q is not found by name", what, y.Name())
				}
			}
			if !reflect.DeepEqual(ch, gch) {
				d.add("%s: children %v, not %v", what, gch, ch)
			}
			geo := -1
			for _, y := range e.refs {
				if m.objs[y].typ == "Geometry" {
					geo = y
					break
				}
			}
			ggeo := -1
			if g := x.GetGeometry(); g != nil {
				ggeo = index[g]
			}
			d.eq(what+" geometry", geo, ggeo)
			if i > 0 {
				d.v3d(what+" translation", e.trs[0], x.GetTranslation(), 1e-6)
				d.v3d(what+" rotation", e.trs[1], x.GetRotation(), 1e-6)
				d.v3d(what+" scaling", e.trs[2], x.GetScaling(), 1e-6)
			}
			d.m4(what+" matrix", e.local(), x.GetMatrix(), 1e-5)
			w := e.local()
			for q := e.parent; q >= 0; q = m.objs[q].parent {
				w = m.objs[q].local().mul(w)
			}
			d.m4(what+" world matrix", w, x.GetWorldMatrix(), 1e-5)
		case *fbx.Material:
			found := false
			for _, y := range r.doc.Materials {
				found = found || y == x
			}
			if !found {
				d.add("%s is not listed in the materials of the document", what)
			}
			nmat++
			c := x.GetColor("DiffuseColor", pv3(9, 8, 7))
			wc := fmt.Sprint(v3d{9, 8, 7})
			if v, ok := e.props["DiffuseColor"]; ok {
				wc = v
			}
			for _, v := range append(vecs26, v3d{9, 8, 7}) {
				if fmt.Sprint(v) == wc {
					d.v3d(what+" color", v, c, 1e-6)
				}
			}
			for _, n := range []string{"DiffuseColor", "Bump"} {
				ti, ok := e.tex[n]
				if !ok {
					continue
				}
				g := -1
				if tx := x.GetTexture(n); tx != nil {
					g = index[tx]
				}
				d.eq(what+" texture of "+n, ti, g)
			}
		case *fbx.Geometry:
			gv := geo26(e.geo)
			for _, vs := range [][]*geom.Vector3{x.Vertices, x.GetVertices()} {
				if len(vs) != len(gv.verts) {
					d.add("%s: %d vertices, not %d", what, len(vs), len(gv.verts))
					continue
				}
				for k := range vs {
					d.v3d(fmt.Sprint(what, " vertex ", k), v3g(gv.verts[k]), vs[k], 1e-6)
				}
			}
			n := 0
			if len(x.Polygons) != len(gv.faces) {
				d.add("%s: polygons %v, not %v", what, x.Polygons, gv.faces)
			} else {
				for k := range gv.faces {
					n += len(gv.faces[k])
					if !reflect.DeepEqual(gv.faces[k], x.Polygons[k]) {
						d.add("%s: polygons %v, not %v", what, x.Polygons, gv.faces)
					}
				}
				d.eq(what+" corners", n, x.PolygonVertexCount)
			}
			uv, mat, nor := x.GetLayerElementUV(), x.GetLayerElementMaterial(), x.GetLayerElementNormal()
			if e.uv > 0 {
				w := uv26(e.uv - 1)
				d.eq(what+" UV mapping", w.m, uv.GetMappingInformationType())
				d.eq(what+" UV reference", "IndexToDirect", uv.GetReferenceInformationType())
				d.eq(what+" UV index", fmt.Sprint(w.idx), fmt.Sprint(uv.GetIndexes()))
				g := uv.Array.GetVec2Array()
				if len(g) != len(w.uv) {
					d.add("%s: %d UVs, not %d", what, len(g), len(w.uv))
				} else {
					for k := range g {
						if *g[k] != *w.uv[k] {
							d.add("%s: UV %v, not %v", what, g[k], w.uv[k])
						}
					}
				}
			} else if uv.Array != nil {
				d.add("%s: unexpected UVs", what)
			}
			if e.mat > 0 {
				w := mat26(e.mat - 1)
				d.eq(what+" material mapping", w.m, mat.GetMappingInformationType())
				d.eq(what+" material index", fmt.Sprint(w.idx), fmt.Sprint(mat.GetIndexes()))
			} else if mat.Array != nil {
				d.add("%s: unexpected materials", what)
			}
			if e.nor > 0 {
				w := nor26(e.nor - 1)
				d.eq(what+" normal mapping", w.m, nor.GetMappingInformationType())
				d.eq(what+" normal reference", "Direct", nor.GetReferenceInformationType())
				g := nor.Array.GetVec3Array()
				if len(g) != len(w.n) {
					d.add("%s: %d normals, not %d", what, len(g), len(w.n))
				} else {
					for k := range g {
						if *g[k] != *w.n[k] {
							d.add("%s: normal %v, not %v", what, g[k], w.n[k])
						}
					}
				}
			} else if nor.Array != nil {
				d.add("%s: unexpected normals", what)
			}
			// the layer lists each kind of element once
			var types []string
			for _, el := range x.FindChild("Layer").GetChildren() {
				types = append(types, el.FindChild("Type").GetString())
			}
			nl := 0
			for k, n := range map[string]int{"LayerElementUV": e.uv, "LayerElementMaterial": e.mat, "LayerElementNormal": e.nor} {
				if n > 0 {
					nl++
					if !contains(types, k) {
						d.add("%s: layer lacks %s", what, k)
					}
				}
			}
			d.eq(what+" layer elements", nl, len(types))
		}
	}
	d.eq("materials", nmat, len(r.doc.Materials))
}

func (e *obj26) local() m4 {
	return m4t(e.trs[0]).mul(euler(e.prerot)).mul(euler(e.trs[1])).mul(m4s(e.trs[2]))
}

func c26Check(t *T, v any) {
	c := v.(*case26)
	doc := fbx.NewDocument()
	r := &real26{doc: doc, objs: []fbx.Object{doc.Scene}}
	m := new26()
	see := func(when string, r *real26) {
		var d diffs
		r.compare(&d, m)
		if !t.Expect(d.empty(), when, "%s: %s", when, d.String()) {
			t.Fatal("stop", "stopped")
		}
	}
	for _, o := range c.ops {
		m.apply(o)
		r.apply(t, o)
		if c.watch {
			see("in memory", r)
		}
	}
	see("in memory", r)
	again := r.reload(t)
	see("after reading back", again)
	see("in memory after writing", r)
	t.State(c.what, len(m.objs), len(c.ops), c.ops[max(0, len(c.ops)-1):])
}

func init() {
	Register(&Property{ID: "C26", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "calls", Quick: 0, Thorough: 0, Gen: gen26(2, true), Check: c26Check, What: "every sequence of API calls"},
		{Name: "calls3", Quick: 0, Thorough: 0, Gen: gen26(3, false), Check: c26Check, What: "every sequence of API calls"},
		{Name: "sizes", Gen: gen26Sizes, Check: c26Check, What: "calls repeated n times, n around every power of two; geometry of up to 66000 vertices"},
		{Name: "deep", Quick: -1, Thorough: 0, Gen: gen26(4, false), Check: c26Check, What: "every sequence of API calls, deeper"},
	}})
}
