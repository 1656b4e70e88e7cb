package props

import (
	"fmt"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"

	. "modelconvmc/engine"
)

// An FBX scene as data: the reference for what the decoders and converters have to see.
type fsModel struct {
	id           int64
	name, kind   string
	parent       int // -1: scene
	t, r, s, pre *v3d
	geom         int // -1: none
	mats         []int
	extra        []*fnode // further properties
}

type fsLayer struct {
	mapping, ref string
	data         []float64
	ints         []int32 // material indices, or index array
}

type fsCluster struct {
	id      int64
	bone    int
	idx     []int32
	w       []float64
	link    *m4
	noLists bool
}

type fsShape struct {
	id, chID int64
	name     string
	idx      []int32
	verts    []v3d
}

type fsGeom struct {
	id            int64
	name          string
	verts         []v3d
	polys         [][]int
	norm, uv, mat *fsLayer
	skinID, bsID  int64
	clusters      []*fsCluster
	shapes        []*fsShape
	inline        bool // shapes inside the geometry
}

type fsMat struct {
	id     int64
	name   string
	props  []*fnode
	texID  int64
	tex    string
	bumpID int64 // a normal map, connected before the texture
}

type fscene struct {
	models  []*fsModel
	geoms   []*fsGeom
	mats    []*fsMat
	globals [][2]any // name, int
	noGlob  bool
	tmplS   *v3d // template Lcl Scaling of models
	tmplD   *v3d // template DiffuseColor of materials
	f32     bool // float32 arrays in binary
	extras  int  // unrelated nodes
	unit    float64
	connRev bool // connections in another order (children order kept)
}

func fprop(name, typ, label, flag string, v ...any) *fnode {
	return fn("P", append([]any{name, typ, label, flag}, v...)...)
}

func (s *fscene) farr(v []float64) any {
	if !s.f32 {
		return append([]float64{}, v...)
	}
	r := make([]float32, len(v))
	for i, x := range v {
		r[i] = float32(x)
	}
	return r
}

func flat(v []v3d) []float64 {
	var r []float64
	for _, x := range v {
		r = append(r, x[0], x[1], x[2])
	}
	return r
}

func (s *fscene) layer(name, arr, idx string, l *fsLayer) *fnode {
	n := fn(name, int32(0)).with(fn("Version", int32(101)), fn("Name", ""), fn("MappingInformationType", l.mapping), fn("ReferenceInformationType", l.ref))
	if arr == idx {
		return n.with(fn(arr, append([]int32{}, l.ints...)))
	}
	n.with(fn(arr, s.farr(l.data)))
	if l.ref != "Direct" {
		n.with(fn(idx, append([]int32{}, l.ints...)))
	}
	return n
}

func (s *fscene) nodes() []*fnode {
	hdr := fn("FBXHeaderExtension").with(fn("FBXHeaderVersion", int32(1003)), fn("FBXVersion", int32(7400)), fn("Creator", "gen"))
	top := []*fnode{hdr, fn("Creator", "the creator"), fn("CreationTime", "2021-01-02 03:04:05:006")}
	if !s.noGlob {
		p := fn("Properties70")
		for _, g := range s.globals {
			p.with(fprop(g[0].(string), "int", "Integer", "", int32(g[1].(int))))
		}
		unit := s.unit
		if unit == 0 {
			unit = 1
		}
		p.with(fprop("UnitScaleFactor", "double", "Number", "", unit))
		top = append(top, fn("GlobalSettings").with(fn("Version", int32(1000)), p))
	}
	defs := fn("Definitions").with(fn("Version", int32(100)), fn("Count", int32(3)))
	mt := fn("ObjectType", "Model").with(fn("Count", int32(1)))
	if s.tmplS != nil {
		mt.with(fn("PropertyTemplate", "FbxNode").with(fn("Properties70").with(fprop("Lcl Scaling", "Lcl Scaling", "", "A", s.tmplS[0], s.tmplS[1], s.tmplS[2]))))
	}
	matt := fn("ObjectType", "Material").with(fn("Count", int32(1)))
	if s.tmplD != nil {
		matt.with(fn("PropertyTemplate", "FbxSurfacePhong").with(fn("Properties70").with(fprop("DiffuseColor", "Color", "", "A", s.tmplD[0], s.tmplD[1], s.tmplD[2]))))
	}
	defs.with(mt, matt)
	objs := fn("Objects")
	var conns []*fnode
	oo := func(a, b int64) { conns = append(conns, fn("C", "OO", a, b)) }
	op := func(a, b int64, p string) { conns = append(conns, fn("C", "OP", a, b, p)) }
	if s.extras > 0 {
		objs.with(fn("NodeAttribute", int64(9001), "attr\x00\x01NodeAttribute", "LimbNode").with(fn("TypeFlags", "Skeleton")))
		objs.with(fn("AnimationStack", int64(9002), "Take 001\x00\x01AnimStack", "").with(fn("Properties70")))
		top = append(top, fn("Takes").with(fn("Current", "")))
	}
	for _, m := range s.models {
		p := fn("Properties70")
		v := func(name, typ string, x *v3d) {
			if x != nil {
				p.with(fprop(name, typ, "", "A", x[0], x[1], x[2]))
			}
		}
		v("Lcl Translation", "Lcl Translation", m.t)
		v("Lcl Rotation", "Lcl Rotation", m.r)
		v("Lcl Scaling", "Lcl Scaling", m.s)
		v("PreRotation", "Vector3D", m.pre)
		p.with(m.extra...)
		objs.with(fn("Model", m.id, m.name+"\x00\x01Model", m.kind).with(fn("Version", int32(232)), p, fn("Culling", "CullingOff")))
	}
	for _, g := range s.geoms {
		var pvi []int32
		for _, f := range g.polys {
			for i, v := range f {
				if i == len(f)-1 {
					v = ^v
				}
				pvi = append(pvi, int32(v))
			}
		}
		gn := fn("Geometry", g.id, g.name+"\x00\x01Geometry", "Mesh").with(fn("Vertices", s.farr(flat(g.verts))), fn("PolygonVertexIndex", pvi), fn("GeometryVersion", int32(124)))
		if g.norm != nil {
			gn.with(s.layer("LayerElementNormal", "Normals", "NormalsIndex", g.norm))
		}
		if g.uv != nil {
			gn.with(s.layer("LayerElementUV", "UV", "UVIndex", g.uv))
		}
		if g.mat != nil {
			gn.with(s.layer("LayerElementMaterial", "Materials", "Materials", g.mat))
		}
		objs.with(gn)
		if len(g.clusters) > 0 {
			objs.with(fn("Deformer", g.skinID, "\x00\x01Deformer", "Skin").with(fn("Version", int32(101))))
			oo(g.skinID, g.id)
			for _, c := range g.clusters {
				cn := fn("Deformer", c.id, "\x00\x01SubDeformer", "Cluster").with(fn("Version", int32(100)))
				if !c.noLists {
					cn.with(fn("Indexes", append([]int32{}, c.idx...)), fn("Weights", s.farr(c.w)))
				}
				if c.link != nil {
					inv, _ := c.link.inv()
					cn.with(fn("Transform", s.farr(inv.cols())), fn("TransformLink", s.farr(c.link.cols())))
				}
				objs.with(cn)
				oo(c.id, g.skinID)
				oo(s.models[c.bone].id, c.id)
			}
		}
		if g.inline {
			for _, sh := range g.shapes {
				gn.with(fn("Shape", sh.name).with(fn("Indexes", append([]int32{}, sh.idx...)), fn("Vertices", s.farr(flat(sh.verts)))))
			}
		} else if len(g.shapes) > 0 {
			objs.with(fn("Deformer", g.bsID, "\x00\x01Deformer", "BlendShape").with(fn("Version", int32(100))))
			oo(g.bsID, g.id)
			for _, sh := range g.shapes {
				objs.with(fn("Geometry", sh.id, sh.name+"\x00\x01Geometry", "Shape").with(fn("Version", int32(100)), fn("Indexes", append([]int32{}, sh.idx...)), fn("Vertices", s.farr(flat(sh.verts)))))
				objs.with(fn("Deformer", sh.chID, sh.name+"\x00\x01SubDeformer", "BlendShapeChannel").with(fn("Version", int32(100)), fn("DeformPercent", 0.0), fn("FullWeights", s.farr([]float64{100}))))
				oo(sh.chID, g.bsID)
				oo(sh.id, sh.chID)
			}
		}
	}
	for _, m := range s.mats {
		objs.with(fn("Material", m.id, m.name+"\x00\x01Material", "").with(fn("Version", int32(102)), fn("ShadingModel", "phong"), fn("Properties70").with(m.props...)))
		if m.bumpID != 0 {
			objs.with(fn("Texture", m.bumpID, "bump\x00\x01Texture", "").with(fn("Type", "TextureVideoClip"), fn("RelativeFilename", "bump.png")))
			op(m.bumpID, m.id, "NormalMap")
		}
		if m.texID != 0 {
			objs.with(fn("Texture", m.texID, "tex\x00\x01Texture", "").with(fn("Type", "TextureVideoClip"), fn("FileName", "C:\\abs\\"+m.tex), fn("RelativeFilename", m.tex)))
			op(m.texID, m.id, "DiffuseColor")
		}
	}
	for _, m := range s.models {
		p := int64(0)
		if m.parent >= 0 {
			p = s.models[m.parent].id
		}
		oo(m.id, p)
		if m.geom >= 0 {
			oo(s.geoms[m.geom].id, m.id)
		}
		for _, k := range m.mats {
			oo(s.mats[k].id, m.id)
		}
	}
	if s.connRev { // stable by parent: the order among the children of one object is what counts
		var a, b []*fnode
		for _, c := range conns {
			if c.at[2].(int64)%2 == 0 {
				a = append(a, c)
			} else {
				b = append(b, c)
			}
		}
		conns = append(b, a...)
	}
	cn := fn("Connections").with(conns...)
	return append(top, defs, objs, cn)
}

func orv(v *v3d, d v3d) v3d {
	if v == nil {
		return d
	}
	return *v
}

func euler(v v3d) m4 { return m4r(2, v[2]).mul(m4r(1, v[1])).mul(m4r(0, v[0])) }

func (s *fscene) scaling(m *fsModel) v3d {
	return orv(m.s, orv(s.tmplS, v3d{1, 1, 1}))
}

func (s *fscene) local(i int) m4 {
	m := s.models[i]
	return m4t(orv(m.t, v3d{})).mul(euler(orv(m.pre, v3d{}))).mul(euler(orv(m.r, v3d{}))).mul(m4s(s.scaling(m)))
}

func (s *fscene) world(i int) m4 {
	if i < 0 {
		return m4id()
	}
	return s.world(s.models[i].parent).mul(s.local(i))
}

func (s *fscene) coord() m4 {
	g := map[string]int{"CoordAxis": 0, "UpAxis": 1, "FrontAxis": 2, "CoordAxisSign": 1, "UpAxisSign": 1, "FrontAxisSign": 1}
	if !s.noGlob {
		for _, kv := range s.globals {
			g[kv[0].(string)] = kv[1].(int)
		}
	}
	// file axis -> x, y, z
	var m m4
	m[3][3] = 1
	m[0][g["CoordAxis"]] = float64(g["CoordAxisSign"])
	m[1][g["UpAxis"]] = float64(g["UpAxisSign"])
	m[2][g["FrontAxis"]] = float64(g["FrontAxisSign"])
	return m
}

func (s *fscene) children(i int) []int {
	var r []int
	for k, m := range s.models {
		if m.parent == i {
			r = append(r, k)
		}
	}
	return r
}

const fbxTol = 2e-5

// doc compares everything the public API shows of a document with the scene.
func (d *diffs) fbxDoc(s *fscene, doc *fbx.Document) {
	d.eq("creator", "the creator", doc.Creator)
	d.eq("creation time", "2021-01-02 03:04:05:006", doc.CreationTime)
	d.m4("coord matrix", s.coord(), doc.CoordMatrix(), fbxTol)
	n := 1 + len(s.models) + len(s.geoms) + len(s.mats)
	if s.extras > 0 {
		n += 2
	}
	model := func(id int64) *fbx.Model {
		m, _ := doc.ObjectByID[id].(*fbx.Model)
		return m
	}
	name := func(o fbx.Object, typ, nm, cls, kind string) {
		if o == nil {
			d.add("object %s %q is missing", typ, nm)
			return
		}
		d.eq("node name", typ, o.NodeName())
		d.eq("name", nm+"::"+cls, o.Name())
		d.eq("kind", kind, o.Kind())
	}
	kids := func(what string, m *fbx.Model, want []int) {
		got := m.GetChildModels()
		if len(got) != len(want) {
			d.add("%s: %d child models, want %d", what, len(got), len(want))
			return
		}
		for i, k := range want {
			if got[i] != model(s.models[k].id) {
				d.add("%s: child %d is not %s", what, i, s.models[k].name)
			}
			if f := m.FindChildModel(s.models[k].name); f == nil || f.Name() != s.models[k].name+"::Model" {
				d.add("%s: FindChildModel(%q) does not find it", what, s.models[k].name)
			}
		}
		if m.FindChildModel("no such model") != nil {
			d.add("%s: FindChildModel finds a model that does not exist", what)
		}
	}
	kids("scene", doc.Scene, s.children(-1))
	for i, m := range s.models {
		g := model(m.id)
		if g == nil {
			d.add("model %s is missing", m.name)
			continue
		}
		name(g, "Model", m.name, "Model", m.kind)
		if m.parent >= 0 && g.Parent != model(s.models[m.parent].id) || m.parent < 0 && g.Parent != doc.Scene {
			d.add("model %s: wrong parent", m.name)
		}
		d.v3d(m.name+" translation", orv(m.t, v3d{}), g.GetTranslation(), fbxTol)
		d.v3d(m.name+" rotation", orv(m.r, v3d{}), g.GetRotation(), fbxTol)
		d.v3d(m.name+" scaling", s.scaling(m), g.GetScaling(), fbxTol)
		d.m4(m.name+" matrix", s.local(i), g.GetMatrix(), fbxTol)
		d.m4(m.name+" world matrix", s.world(i), g.GetWorldMatrix(), 4*fbxTol)
		kids(m.name, g, s.children(i))
		for _, p := range m.extra {
			q := g.GetProperty(p.at[0].(string))
			if q.Type != p.at[1] || q.Label != p.at[2] || q.Flag != p.at[3] || len(q.AttributeList) != len(p.at)-4 {
				d.add("%s property %v: %+v", m.name, p.at, q)
				continue
			}
			for k, v := range p.at[4:] {
				if !sameValue(v, q.AttributeList[k].Value, false) {
					d.add("%s property %v: %v", m.name, p.at, q.AttributeList[k].Value)
				}
			}
		}
		gg := g.GetGeometry()
		if m.geom < 0 {
			if gg != nil {
				d.add("%s has a geometry", m.name)
			}
		} else if og, _ := doc.ObjectByID[s.geoms[m.geom].id].(*fbx.Geometry); gg == nil || gg != og {
			d.add("%s: wrong geometry", m.name)
		}
		refs := g.FindRefs("Material")
		if len(refs) != len(m.mats) {
			d.add("%s: %d materials, want %d", m.name, len(refs), len(m.mats))
		} else {
			for k, r := range refs {
				d.eq(m.name+" material id", s.mats[m.mats[k]].id, r.ID())
			}
		}
	}
	ints := func(what string, want, got []int32) {
		if fmt.Sprint(want) != fmt.Sprint(got) {
			d.add("%s: want %v, got %v", what, want, got)
		}
	}
	for _, g := range s.geoms {
		o, _ := doc.ObjectByID[g.id].(*fbx.Geometry)
		if o == nil {
			d.add("geometry %s is missing", g.name)
			continue
		}
		name(o, "Geometry", g.name, "Geometry", "Mesh")
		if len(o.Vertices) != len(g.verts) {
			d.add("%s: %d vertices, want %d", g.name, len(o.Vertices), len(g.verts))
		} else {
			for i, v := range g.verts {
				d.v3d(fmt.Sprint(g.name, " vertex ", i), v, o.Vertices[i], 1e-6)
			}
		}
		if fmt.Sprint(o.Polygons) != fmt.Sprint(g.polys) {
			d.add("%s: polygons %v, want %v", g.name, o.Polygons, g.polys)
		}
		pc := 0
		for _, f := range g.polys {
			pc += len(f)
		}
		d.eq(g.name+" polygon vertex count", pc, o.PolygonVertexCount)
		lay := func(what string, l *fsLayer, e *fbx.LayerElement, dim int) {
			if l == nil {
				if e.GetMappingInformationType() != "" || e.GetIndexes() != nil {
					d.add("%s %s: unexpected layer", g.name, what)
				}
				return
			}
			d.eq(what+" mapping", fbx.MappingType(l.mapping), e.GetMappingInformationType())
			d.eq(what+" reference", l.ref, e.GetReferenceInformationType())
			if dim == 3 {
				vs := e.Array.GetVec3Array()
				d.eq(what+" count", len(l.data)/3, len(vs))
				for i := range vs {
					if i < len(l.data)/3 {
						d.v3d(what, v3d{l.data[3*i], l.data[3*i+1], l.data[3*i+2]}, vs[i], 1e-6)
					}
				}
			} else if dim == 2 {
				vs := e.Array.GetVec2Array()
				d.eq(what+" count", len(l.data)/2, len(vs))
				for i := range vs {
					if i < len(l.data)/2 && !v2near(geom.Vector2{X: float32(l.data[2*i]), Y: float32(l.data[2*i+1])}, *vs[i], 1e-6) {
						d.add("%s %d: %v", what, i, vs[i])
					}
				}
			}
			if l.ref != "Direct" {
				ints(what+" index", l.ints, e.GetIndexes())
			}
		}
		lay("normal", g.norm, o.GetLayerElementNormal(), 3)
		lay("uv", g.uv, o.GetLayerElementUV(), 2)
		lay("material", g.mat, o.GetLayerElementMaterial(), 0)
		defs := o.GetDeformers()
		if len(defs) != len(g.clusters)+len(g.shapes) {
			d.add("%s: %d deformers, want %d+%d", g.name, len(defs), len(g.clusters), len(g.shapes))
			continue
		}
		for i, c := range g.clusters {
			f := defs[i]
			d.eq("cluster id", c.id, f.ID())
			d.eq("cluster kind", "Cluster", f.Kind())
			if f.GetTarget() != model(s.models[c.bone].id) || f.GetTarget() == nil {
				d.add("cluster %d: wrong bone", i)
			}
			if !c.noLists {
				ints("cluster indexes", c.idx, f.GetIndexes())
				w := f.GetWeights()
				d.eq("weights", len(c.w), len(w))
				for k := range w {
					if k < len(c.w) {
						d.f32("weight", float32(c.w[k]), w[k], 1e-6)
					}
				}
			} else if len(f.GetIndexes()) != 0 || len(f.GetWeights()) != 0 {
				d.add("cluster %d has weights", i)
			}
			link := m4id()
			if c.link != nil {
				link = *c.link
			}
			inv, _ := link.inv()
			d.m4("transform link", link, f.GetTransformLink(), 1e-5)
			d.m4("transform", inv, f.GetTransform(), 1e-5)
		}
		for i, sh := range g.shapes {
			f := defs[len(g.clusters)+i]
			d.eq("channel id", sh.chID, f.ID())
			ss := f.GetShapes()
			if len(ss) != 1 {
				d.add("channel %s: %d shapes", sh.name, len(ss))
				continue
			}
			d.eq("shape name", sh.name+"::Geometry", ss[0].Name())
			ints("shape indexes", sh.idx, ss[0].GetIndexes())
			vs := ss[0].GetVertices()
			d.eq("shape vertices", len(sh.verts), len(vs))
			for k := range vs {
				if k < len(sh.verts) {
					d.v3d("shape vertex", sh.verts[k], vs[k], 1e-6)
				}
			}
		}
	}
	if len(doc.Materials) != len(s.mats) {
		d.add("%d materials, want %d", len(doc.Materials), len(s.mats))
	} else {
		for i, m := range s.mats {
			g := doc.Materials[i]
			name(g, "Material", m.name, "Material", "")
			if doc.ObjectByID[m.id] != fbx.Object(g) {
				d.add("material %s: not the object with its id", m.name)
			}
			for _, p := range m.props {
				q := g.GetProperty(p.at[0].(string))
				for k, v := range p.at[4:] {
					if a := q.AttributeList.Get(k); a == nil || !sameValue(v, a.Value, false) {
						d.add("material %s property %v: %v", m.name, p.at, q)
					}
				}
			}
			if tex := g.GetTexture("DiffuseColor"); (tex != nil) != (m.texID != 0) {
				d.add("material %s: texture %v", m.name, tex)
			} else if tex != nil {
				d.eq("texture", m.tex, tex.FindChild("RelativeFilename").GetString())
				name(tex, "Texture", "tex", "Texture", "")
			}
		}
	}
}

// ---- generation

func pv(x, y, z float64) *v3d { return &v3d{x, y, z} }

var fsAxes = [][][2]any{
	{{"UpAxis", 1}, {"UpAxisSign", 1}, {"FrontAxis", 2}, {"FrontAxisSign", 1}, {"CoordAxis", 0}, {"CoordAxisSign", 1}},
	{{"UpAxis", 2}, {"UpAxisSign", 1}, {"FrontAxis", 1}, {"FrontAxisSign", -1}, {"CoordAxis", 0}, {"CoordAxisSign", 1}},
	{},
	{{"UpAxis", 1}, {"UpAxisSign", 1}, {"FrontAxis", 2}, {"FrontAxisSign", -1}, {"CoordAxis", 0}, {"CoordAxisSign", -1}},
	{{"UpAxis", 0}, {"UpAxisSign", 1}, {"FrontAxis", 2}, {"FrontAxisSign", 1}, {"CoordAxis", 1}, {"CoordAxisSign", -1}},
	{{"UpAxis", 2}, {"UpAxisSign", 1}, {"FrontAxis", 0}, {"FrontAxisSign", 1}, {"CoordAxis", 1}, {"CoordAxisSign", 1}},
}

type fsMesh struct {
	verts []v3d
	polys [][]int
}

var fsMeshes = []fsMesh{
	{[]v3d{{0, 0, 0}, {10, 0, 0}, {10, 20, 0}, {0, 20, 5}}, [][]int{{0, 1, 2, 3}}},
	{[]v3d{{0, 0, 0}, {1, 0, 0}, {0, 1, 0.5}}, [][]int{{0, 1, 2}}},
	{[]v3d{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {1, 3, 0.25}, {-1, -1, -1}}, [][]int{{0, 1, 2}, {0, 2, 4, 3}, {3, 5, 0}}},
	{[]v3d{{0, 0, 0}, {4, 0, 0}, {6, 3, 0}, {2, 6, 0}, {-2, 3, 0}, {0, 0, 4}}, [][]int{{0, 1, 2, 3, 4}, {1, 0, 5}, {2, 1, 5, 3}}},
	{[]v3d{}, [][]int{}},
}

func (m *fsMesh) corners() int {
	n := 0
	for _, f := range m.polys {
		n += len(f)
	}
	return n
}

var fsDirs = []v3d{{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {0.6, 0.8, 0}, {0, 0.6, -0.8}, {-1, 0, 0}}

func fsNormals(m *fsMesh, kind int) *fsLayer {
	n, nv := m.corners(), len(m.verts)
	dirs := func(n, k int) []float64 {
		var r []v3d
		for i := 0; i < n; i++ {
			r = append(r, fsDirs[(i+k)%len(fsDirs)])
		}
		return flat(r)
	}
	switch kind {
	case 1:
		return &fsLayer{"ByPolygonVertex", "Direct", dirs(n, 0), nil}
	case 2:
		return &fsLayer{"ByControlPoint", "Direct", dirs(nv, 1), nil}
	case 3:
		l := &fsLayer{"ByPolygonVertex", "IndexToDirect", dirs(4, 2), nil}
		for i := 0; i < n; i++ {
			l.ints = append(l.ints, int32((3*i+1)%4))
		}
		return l
	case 4:
		return &fsLayer{"ByVertice", "Direct", dirs(nv, 3), nil}
	case 5:
		l := &fsLayer{"ByControlPoint", "IndexToDirect", dirs(3, 2), nil}
		for i := 0; i < nv; i++ {
			l.ints = append(l.ints, int32((i+1)%3))
		}
		return l
	}
	return nil
}

func fsUV(m *fsMesh, kind int) *fsLayer {
	n := m.corners()
	uvs := func(n int) []float64 {
		r := []float64{}
		for i := 0; i < n; i++ {
			r = append(r, float64(i)/8, 1-float64(i*i%7)/16)
		}
		return r
	}
	switch kind {
	case 1:
		l := &fsLayer{"ByPolygonVertex", "IndexToDirect", uvs(4), nil}
		for i := 0; i < n; i++ {
			l.ints = append(l.ints, int32((i*3+2)%4))
		}
		return l
	case 2:
		return &fsLayer{"ByPolygonVertex", "Direct", uvs(n), nil}
	}
	return nil
}

func fsMatLayer(m *fsMesh, kind, nmat int) *fsLayer {
	switch kind {
	case 1:
		return &fsLayer{"AllSame", "IndexToDirect", nil, []int32{0}}
	case 2:
		l := &fsLayer{"ByPolygon", "IndexToDirect", nil, nil}
		for i := range m.polys {
			l.ints = append(l.ints, int32((i+1)%nmat))
		}
		return l
	case 3:
		return &fsLayer{"AllSame", "IndexToDirect", nil, []int32{int32(nmat - 1)}}
	}
	return nil
}

var fsNames = []string{"mesh", "a b", "日本語", "x::y", "q\"q", "", "Bone.001", "n|1"}

var fsTrans = []*v3d{nil, pv(1, 2, 3), pv(0, 0, 0), pv(-10.5, 0, 1e-3)}
var fsRots = []*v3d{nil, pv(90, 0, 0), pv(30, -45, 60), pv(0, 180, -90), pv(-90, 0, 12.5)}
var fsScales = []*v3d{nil, pv(2, 2, 2), pv(1, 0.5, -2), pv(100, 100, 100)}

func fsMaterial(c *Chooser, i int) *fsMat {
	l := fmt.Sprint("mat", i)
	m := &fsMat{id: int64(300 + i), name: Pick(c, l+".name", fmt.Sprint("mat", i), "m \"x\"", "日本::材質")}
	if c.Flag(l + ".color") {
		m.props = append(m.props, fprop("DiffuseColor", "Color", "", "A", 0.25, 0.5, 0.75))
	}
	if c.Flag(l + ".factors") {
		m.props = append(m.props, fprop("Opacity", "double", "Number", "", 0.5), fprop("DiffuseFactor", "Number", "", "A", 0.75),
			fprop("SpecularColor", "Color", "", "A", 0.5, 0.5, 0.5), fprop("SpecularFactor", "Number", "", "A", 0.5),
			fprop("AmbientColor", "Color", "", "A", 0.25, 0.25, 0.25), fprop("AmbientFactor", "Number", "", "A", 1.0),
			fprop("ShininessExponent", "Number", "", "A", 20.0))
	}
	if c.Flag(l + ".emissive") {
		m.props = append(m.props, fprop("EmissiveColor", "Color", "", "A", 0.5, 0.5, 0.5), fprop("EmissiveFactor", "Number", "", "A", 0.5))
	}
	if k := c.Choose(l+".tex", 3); k > 0 {
		m.texID, m.tex = int64(400+i), []string{"", "tex.png", "sub\\dir\\日本.png"}[k]
		if c.Flag(l + ".bump") {
			m.bumpID = int64(420 + i)
		}
	}
	return m
}

// genScene: a mesh model and up to two more models.
func genScene(c *Chooser) *fscene {
	s := &fscene{globals: fsAxes[c.Choose("axes", len(fsAxes))], noGlob: c.Flag("noglobals"), f32: c.Flag("f32"), extras: c.Choose("extras", 2), connRev: c.Flag("connorder")}
	if c.Flag("template.scale") {
		s.tmplS = pv(2, 3, 4)
	}
	if c.Flag("template.diffuse") {
		s.tmplD = pv(0.5, 0.25, 0.125)
	}
	nm := Pick(c, "materials", 1, 0, 2)
	for i := 0; i < nm; i++ {
		s.mats = append(s.mats, fsMaterial(c, i))
	}
	n := Pick(c, "models", 1, 2, 3)
	mesh := fsMeshes[c.Choose("mesh", len(fsMeshes))]
	for i := 0; i < n; i++ {
		l := fmt.Sprint("model", i)
		m := &fsModel{id: int64(100 + i), parent: -1, geom: -1, kind: "Null"}
		if c.Choose(l+".bigid", 2) == 1 {
			m.id += 140000000000
		}
		if i > 0 {
			m.parent = Pick(c, l+".parent", i-1, -1)
			if i == 2 && m.parent == 1 {
				m.parent = Pick(c, l+".parent2", 1, 0)
			}
		}
		m.name = fmt.Sprint("model", i)
		if k := c.Choose(l+".name", len(fsNames)+1); k > 0 {
			m.name = fsNames[k-1]
		}
		m.t = fsTrans[c.Choose(l+".t", len(fsTrans))]
		m.r = fsRots[c.Choose(l+".r", len(fsRots))]
		m.s = fsScales[c.Choose(l+".s", len(fsScales))]
		if c.Flag(l + ".pre") {
			m.pre = pv(-90, 0, 0)
			if c.Flag(l + ".pre2") {
				m.pre = pv(10, 20, -30)
			}
		}
		s.models = append(s.models, m)
	}
	at := n - 1
	if n > 1 {
		at = Pick(c, "mesh.at", n-1, 0)
	}
	mm := s.models[at]
	mm.kind, mm.geom = "Mesh", 0
	g := &fsGeom{id: 200, name: Pick(c, "geom.name", "", "geo", "g::h"), verts: mesh.verts, polys: mesh.polys, skinID: 500, bsID: 510}
	s.geoms = append(s.geoms, g)
	g.norm = fsNormals(&mesh, c.Choose("normals", 6))
	g.uv = fsUV(&mesh, c.Choose("uv", 3))
	if nm > 0 {
		for i := 0; i < nm; i++ {
			mm.mats = append(mm.mats, i)
		}
		if nm == 2 && c.Flag("mats.swapped") {
			mm.mats = []int{1, 0}
		}
		g.mat = fsMatLayer(&mesh, c.Choose("matlayer", 4), nm)
	}
	if n > 1 && len(g.verts) > 0 {
		bone := s.models[0]
		bi := 0
		if at == 0 {
			bone, bi = s.models[n-1], n-1
		}
		if k := c.Choose("skin", 4); k > 0 {
			bone.kind = "LimbNode"
			cl := &fsCluster{id: 501, bone: bi, idx: []int32{0, 2}, w: []float64{1, 0.25}}
			w := s.world(bi)
			cl.link = &w
			if k == 2 {
				cl.idx, cl.w = []int32{1}, []float64{0.5}
				l := m4t(v3d{3, 4, 5}).mul(m4r(0, 90))
				cl.link = &l
			}
			if k == 3 {
				cl.noLists = true
			}
			g.clusters = append(g.clusters, cl)
		}
	}
	if len(g.verts) > 0 {
		for i := 0; i < c.Choose("shapes", 3); i++ {
			sh := &fsShape{id: int64(520 + i), chID: int64(530 + i), name: fmt.Sprint("shape", i), idx: []int32{1, 2}, verts: []v3d{{0, 1, 0}, {0.5, 0, -1}}}
			if i == 1 {
				sh.idx, sh.verts = []int32{0}, []v3d{{1, 1, 1}}
				sh.name = "smile \"x\""
			}
			g.shapes = append(g.shapes, sh)
		}
	}
	if k := c.Choose("extra.props", 3); k > 0 {
		s.models[0].extra = append(s.models[0].extra, fprop("currentUVSet", "KString", "", "U", "map1"), fprop("Show", "bool", "", "", int32(1)))
		if k == 2 {
			s.models[0].extra = append(s.models[0].extra, fprop("Empty", "Compound", "", ""), fprop("vec", "Vector3D", "Vector", "A+", -1e-7, 1e21, 3.0))
		}
	}
	return s
}

func (s *fscene) Describe() string {
	var b strings.Builder
	for _, n := range s.nodes() {
		n.ascii(&b, 0, asciiStyle{})
	}
	return b.String()
}
