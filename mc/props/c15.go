package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// ---- FBX to MQO

type case15 struct {
	s    *fscene
	opt  converter.FBXToMQOOption
	nopt bool
	pre  bool
	txt  bool
}

func (c *case15) Describe() string {
	return fmt.Sprintf("options %+v (nil: %v), into a document with contents: %v\n%s", c.opt, c.nopt, c.pre, c.s.Describe())
}

const (
	m15root = iota
	m15body
	m15hips
	m15spine
	m15hand
	m15head
)

func gen15(focus string) func(c *Chooser) any {
	has := func(g string) bool { return strings.Contains(focus, g) }
	return func(c *Chooser) any {
		ch := func(g, l string, n int) int {
			if has(g) {
				return c.Choose(l, n)
			}
			return 0
		}
		s := &fscene{}
		cs := &case15{s: s}
		if k := ch("t", "axes", len(fsAxes)+1); k < len(fsAxes) {
			s.globals = fsAxes[k]
		} else {
			s.noGlob = true
		}
		s.f32 = ch("t", "f32", 2) == 1
		if ch("t", "template.scale", 2) == 1 {
			s.tmplS = pv(2, 3, 4)
		}
		if ch("m", "template.diffuse", 2) == 1 {
			s.tmplD = pv(0.5, 0.25, 0.125)
		}
		s.extras = ch("t", "extras", 2)
		s.connRev = ch("t", "connorder", 2) == 1
		names := []string{"root", "body", "hips", "spine", "hand", "head"}
		kinds := []string{"Null", "Mesh", "LimbNode", "LimbNode", "LimbNode", "Mesh"}
		// parents
		trees := [][]int{
			{-1, 0, 0, 2, 3, 0},  // meshes beside the skeleton
			{-1, -1, 0, 2, 3, 1}, // head below body
			{-1, 3, 0, 2, 3, 4},  // meshes below bones
			{-1, 0, -1, 2, 3, 2}, // head below a bone at the top
			{-1, 0, 1, 2, 2, 4},  // bones below the mesh
			{-1, -1, -1, -1, -1, -1},
			{-1, 0, 5, 2, 3, 1}, // all in one chain
		}
		tree := trees[ch("h", "tree", len(trees))]
		for i := range names {
			m := &fsModel{id: int64(100 + i), name: names[i], kind: kinds[i], parent: tree[i], geom: -1}
			s.models = append(s.models, m)
		}
		if k := ch("h", "name", len(fsNames)+1); k > 0 {
			s.models[m15body].name = fsNames[k-1]
		}
		s.models[m15hips].t = pv(0, 100, 0)
		s.models[m15spine].t = pv(0, 10, 1)
		s.models[m15hand].t = pv(5, 0, 0)
		for _, i := range []int{m15root, m15body, m15hips, m15head, m15spine} {
			m := s.models[i]
			l := names[i]
			if k := ch("t", l+".t", len(fsTrans)); k > 0 {
				m.t = fsTrans[k]
			}
			m.r = fsRots[ch("t", l+".r", len(fsRots))]
			m.s = fsScales[ch("t", l+".s", len(fsScales))]
			m.pre = []*v3d{nil, pv(-90, 0, 0), pv(10, 20, -30)}[ch("t", l+".pre", 3)]
		}
		// materials
		nm := 2
		if has("m") {
			nm = Pick(c, "materials", 2, 1, 0, 3)
		}
		for i := 0; i < nm; i++ {
			if has("m") {
				s.mats = append(s.mats, fsMaterial(c, i))
				s.mats[i].name += fmt.Sprint(" ", i)
			} else {
				s.mats = append(s.mats, &fsMat{id: int64(300 + i), name: fmt.Sprint("mat", i)})
			}
		}
		// meshes
		meshA := fsMeshes[[]int{2, 0, 1, 3, 4}[ch("p", "mesh", 5)]]
		meshB := fsMeshes[[]int{0, 3, 2, 1}[ch("p", "mesh.head", 4)]]
		for i, m := range []fsMesh{meshA, meshB} {
			g := &fsGeom{id: int64(200 + i), name: fmt.Sprint("geo", i), verts: m.verts, polys: m.polys, skinID: int64(500 + 20*i), bsID: int64(510 + 20*i)}
			s.geoms = append(s.geoms, g)
			l := fmt.Sprint("geo", i)
			g.norm = fsNormals(&m, ch("p", l+".normals", 6))
			k := 0
			if has("p") {
				k = c.Choose(l+".uv", 7)
			}
			g.uv = uv15(&m, k)
			mats := [][]int{{0, 1}, {1, 0}, {1}, {}, {1, 1, 0}}[ch("m", l+".mats", 5)]
			if i == 1 && !has("m") {
				mats = []int{1, 0}
			}
			var use []int
			for _, x := range mats {
				if x < nm {
					use = append(use, x)
				}
			}
			at := s.models[[]int{m15body, m15head}[i]]
			at.geom, at.mats = i, use
			if len(use) > 0 {
				k := 2
				if has("m") {
					k = []int{2, 1, 3, 0, 4, 5}[c.Choose(l+".matlayer", 6)]
				}
				g.mat = mat15(&m, k, len(use))
			}
		}
		if ch("h", "shared", 2) == 1 {
			s.models[m15head].geom = 0
			s.geoms = s.geoms[:1]
		}
		if ch("h", "nohead", 2) == 1 {
			s.models[m15head].geom = -1
			s.models[m15head].kind = "Null"
			s.geoms = s.geoms[:1]
		}
		// skins
		if has("s") {
			id := int64(600)
			add := func(g *fsGeom, bone int, link int, idx []int32, w []float64) {
				cl := &fsCluster{id: id, bone: bone, idx: idx, w: w}
				id++
				m := s.world(bone)
				if link == 1 { // bind pose is not the current pose
					m = m4t(v3d{3, 4, 5}).mul(m4r(0, 90))
					if bone == m15hips {
						m = m4t(v3d{1, 90, 2})
					}
				}
				cl.link = &m
				if idx == nil {
					cl.noLists = true
				}
				g.clusters = append(g.clusters, cl)
			}
			link := c.Choose("bind", 2)
			g := s.geoms[0]
			if len(g.verts) > 0 {
				switch c.Choose("skin", 6) {
				case 0:
					add(g, m15spine, link, []int32{0, 1}, []float64{1, 0.25})
					add(g, m15hips, link, []int32{1, 2}, []float64{0.75, 1})
				case 1:
					add(g, m15hand, link, []int32{0, 1, 2}, []float64{0.5, 0.125, 1})
				case 2: // child before parent, a bone without weights
					add(g, m15hand, link, []int32{2}, []float64{1})
					add(g, m15hips, link, []int32{}, []float64{})
					add(g, m15spine, link, []int32{0, 1}, []float64{1, 1})
				case 3:
					add(g, m15hips, link, nil, nil)
					add(g, m15hand, link, []int32{1}, []float64{0.001})
				case 4: // three bones on one vertex
					add(g, m15hips, link, []int32{1}, []float64{0.5})
					add(g, m15spine, link, []int32{1, 0}, []float64{0.25, 1})
					add(g, m15hand, link, []int32{1}, []float64{0.25})
				}
			}
			if len(s.geoms) > 1 {
				switch c.Choose("skin.head", 3) {
				case 1:
					add(s.geoms[1], m15spine, link, []int32{0, 2}, []float64{1, 0.5})
				case 2:
					add(s.geoms[1], m15hand, link, []int32{1}, []float64{1})
					add(s.geoms[1], m15hips, link, []int32{0}, []float64{0.5})
				}
			}
		}
		// blend shapes
		if has("b") {
			id := int64(700)
			add := func(g *fsGeom, name string, idx []int32, v []v3d) {
				g.shapes = append(g.shapes, &fsShape{id: id, chID: id + 100, name: name, idx: idx, verts: v})
				id++
			}
			g := s.geoms[0]
			if len(g.verts) > 0 {
				switch c.Choose("shapes", 6) {
				case 0:
					add(g, "smile", []int32{1, 2}, []v3d{{0, 1, 0}, {0.5, 0, -1}})
				case 1:
					add(g, "smile", []int32{0}, []v3d{{0, 1, 0}})
					add(g, "笑い \"x\"", []int32{2, 0}, []v3d{{0.5, 0, -1}, {1, 1, 1}})
				case 2:
					add(g, "nothing", []int32{}, nil)
				case 3: // refers to vertices the mesh does not have
					add(g, "smile", []int32{-1, 1, 1000}, []v3d{{9, 9, 9}, {0, 1, 0}, {9, 9, 9}})
				case 4: // named like a model
					add(g, "hips", []int32{1}, []v3d{{0, 1, 0}})
					add(g, "body", []int32{0}, []v3d{{0, 1, 0}})
				}
			}
			if len(s.geoms) > 1 {
				switch c.Choose("shapes.head", 3) {
				case 1:
					add(s.geoms[1], "smile", []int32{1}, []v3d{{0, -2, 0}})
				case 2:
					add(s.geoms[1], "smile_head", []int32{1}, []v3d{{0, -2, 0}})
					add(s.geoms[1], "smile", []int32{2, 0}, []v3d{{0, -2, 1}, {3, 0, 0}})
				}
			}
			if c.Flag("inline") { // as older files have it
				for _, g := range s.geoms {
					g.inline = true
				}
			}
		}
		// options
		switch ch("o", "options", 7) {
		case 0:
			cs.nopt = true
		case 2:
			cs.opt.DisableBlendShape = true
		case 3:
			cs.opt.DisableBone = true
		case 4:
			cs.opt.ConvertWholeNode = true
		case 5:
			cs.opt.ObjectDepth = 2
		case 6:
			cs.opt.TargetModelName = s.models[s.top(m15body)].name
		}
		cs.pre = ch("o", "into", 2) == 1
		cs.txt = ch("o", "text", 2) == 1
		return cs
	}
}

func (s *fscene) top(i int) int {
	for s.models[i].parent >= 0 {
		i = s.models[i].parent
	}
	return i
}

func uv15(m *fsMesh, kind int) *fsLayer {
	n, nv := m.corners(), len(m.verts)
	uvs := func(n int) []float64 {
		r := []float64{}
		for i := 0; i < n; i++ {
			r = append(r, float64(i)/8-0.25, 1.25-float64(i*i%7)/4) // also outside of the unit square
		}
		return r
	}
	idx := func(n int, f func(i int) int32) (r []int32) {
		for i := 0; i < n; i++ {
			r = append(r, f(i))
		}
		return
	}
	switch kind {
	case 0:
		return &fsLayer{"ByPolygonVertex", "IndexToDirect", uvs(4), idx(n, func(i int) int32 { return int32((i*3 + 2) % 4) })}
	case 1:
		return &fsLayer{"ByPolygonVertex", "Direct", uvs(n), nil}
	case 2:
		return nil
	case 3:
		return &fsLayer{"ByControlPoint", "Direct", uvs(nv), nil}
	case 4:
		return &fsLayer{"ByControlPoint", "IndexToDirect", uvs(3), idx(nv, func(i int) int32 { return int32((i + 1) % 3) })}
	case 5:
		return &fsLayer{"ByVertice", "Direct", uvs(nv), nil}
	}
	// a corner without UV
	return &fsLayer{"ByPolygonVertex", "IndexToDirect", uvs(4), idx(n, func(i int) int32 { return int32((i*3+2)%5) - 1 })}
}

func mat15(m *fsMesh, k, n int) *fsLayer {
	switch k {
	case 4: // no material at some polygons
		l := &fsLayer{"ByPolygon", "IndexToDirect", nil, nil}
		for i := range m.polys {
			l.ints = append(l.ints, int32(i%(n+1))-1)
		}
		return l
	case 5: // more materials than the model has
		l := &fsLayer{"ByPolygon", "IndexToDirect", nil, nil}
		for i := range m.polys {
			l.ints = append(l.ints, int32(i%(n+1)))
		}
		return l
	}
	return fsMatLayer(m, k, n)
}

// at is the layer's index for corner n (polygon vertex) at control point v; -1: none
func (l *fsLayer) at(n, v, dim int) int {
	if l == nil {
		return -1
	}
	i := n
	if l.mapping != "ByPolygonVertex" {
		i = v
	}
	if l.ref == "IndexToDirect" {
		if i >= len(l.ints) {
			return -1
		}
		i = int(l.ints[i])
	}
	if i < 0 || i >= len(l.data)/dim {
		return -1
	}
	return i
}

type face15 struct {
	pos  []v3d
	uv   []*[2]float64
	norm []*v3d
	mat  string
	vi   []int
}

// faces15: the faces a model has to become, corners in MQO order.
func (c *case15) faces15(mi int) (r []*face15) {
	m := c.s.models[mi]
	g := c.s.geoms[m.geom]
	w := c.s.coord().mul(c.s.world(mi))
	w3 := w
	w3[0][3], w3[1][3], w3[2][3] = 0, 0, 0
	inv, _ := w3.inv()
	nt := inv.transposed()
	n := 0
	for pi, p := range g.polys {
		f := &face15{}
		mat := 0
		if g.mat != nil {
			if g.mat.mapping == "AllSame" {
				mat = int(g.mat.ints[0])
			} else {
				mat = int(g.mat.ints[pi])
			}
		}
		if mat >= 0 && mat < len(m.mats) {
			f.mat = c.s.mats[m.mats[mat]].name
		}
		for k := len(p) - 1; k >= 0; k-- {
			v := p[k]
			f.vi = append(f.vi, v)
			f.pos = append(f.pos, w.apply(g.verts[v]))
			var uv *[2]float64
			if i := g.uv.at(n+k, v, 2); i >= 0 {
				uv = &[2]float64{g.uv.data[2*i], 1 - g.uv.data[2*i+1]}
			}
			f.uv = append(f.uv, uv)
			var nn *v3d
			if i := g.norm.at(n+k, v, 3); i >= 0 {
				x := nt.dir(v3d{g.norm.data[3*i], g.norm.data[3*i+1], g.norm.data[3*i+2]}).unit()
				nn = &x
			}
			f.norm = append(f.norm, nn)
		}
		n += len(p)
		r = append(r, f)
	}
	return
}

// match says why got is not the face want, or gives the vertex map.
func (f *face15) match(doc *mqo.Document, o *mqo.Object, got *mqo.Face, mirrored bool, tol float64) (map[int]int, string) {
	n := len(f.pos)
	if len(got.Verts) != n {
		return nil, "corners"
	}
	why := "position"
	for dir := 1; dir >= -1; dir -= 2 {
		if dir < 0 && !mirrored {
			break
		}
	rot:
		for k := 0; k < n; k++ {
			vm := map[int]int{}
			at := func(i int) int { return ((k+dir*i)%n + n) % n }
			for i := 0; i < n; i++ {
				j := got.Verts[at(i)]
				if j < 0 || j >= len(o.Vertexes) || f.pos[i].sub(v3g(o.Vertexes[j])).len() > tol {
					continue rot
				}
				vm[f.vi[i]] = j
			}
			for i := 0; i < n; i++ {
				a := at(i)
				if f.uv[i] != nil && (len(got.UVs) != n || math.Abs(float64(got.UVs[a].X)-f.uv[i][0]) > 1e-5 || math.Abs(float64(got.UVs[a].Y)-f.uv[i][1]) > 1e-5) {
					why = fmt.Sprintf("UV of corner %d: want %v, got %v", i, *f.uv[i], got.UVs)
					continue rot
				}
				if f.norm[i] != nil && (len(got.Normals) != n || got.Normals[a] == nil || v3g(got.Normals[a]).sub(*f.norm[i]).len() > 1e-3) {
					why = fmt.Sprintf("normal of corner %d: want %v, got %v", i, *f.norm[i], got.Normals)
					continue rot
				}
			}
			if f.mat != "" && (got.Material < 0 || got.Material >= len(doc.Materials) || doc.Materials[got.Material].Name != f.mat) {
				why = fmt.Sprintf("material: want %q, got %d", f.mat, got.Material)
				continue rot
			}
			return vm, ""
		}
	}
	return nil, why
}

func c15Check(t *T, v any) {
	c := v.(*case15)
	s := c.s
	data := encodeFBX(s.nodes(), binOpt{7400, 0, 1})
	if c.txt {
		data = encodeASCII(s.nodes(), asciiStyle{})
	}
	t.State(data, fmt.Sprint(c.opt, c.pre))
	src, err := fbx.Parse(c06Source(data, 0))
	t.Must(err == nil, "parse", "%v", err)
	dst := mqo.NewDocument()
	first := 0
	if c.pre {
		dst.Materials = append(dst.Materials, &mqo.Material{Name: "old"})
		o := simpleObject("old object", 0)
		o.UID = 1
		dst.Objects = append(dst.Objects, o)
		first = 1
	}
	opt := &c.opt
	if c.nopt {
		opt = nil
	}
	out, err := converter.NewFBXToMQOConverter(opt).ConvertTo(dst, src)
	t.Must(err == nil && out != nil, "convert", "%v", err)
	if c.pre {
		t.Must(out == dst && len(dst.Objects) > 0 && dst.Objects[0].Name == "old object" && len(dst.Materials) > 0 && dst.Materials[0].Name == "old", "kept", "the contents of the document are not kept")
	}

	// materials
	d := &diffs{}
	if len(out.Materials) != len(s.mats)+first {
		d.add("%d materials, want %d", len(out.Materials)-first, len(s.mats))
	} else {
		for i, m := range s.mats {
			d.mat15(s, m, out.Materials[i+first])
		}
	}
	t.Expect(d.empty(), "materials", "%s", d)

	// which models
	in := func(i int) bool {
		if c.opt.TargetModelName != "" {
			return s.models[s.top(i)].name == c.opt.TargetModelName
		}
		return true
	}
	targets := map[string]bool{}
	var lists []*mqo.MorphTargetList
	if mp := morphPlugin(out); mp != nil {
		lists = mp.Morphs()
		for _, l := range lists {
			for _, x := range l.Target {
				targets[x.Name] = true
			}
		}
	}
	uids := map[int]bool{}
	var parents []string // of every object
	var stack []*mqo.Object
	byName := map[string][]*mqo.Object{}
	path := map[*mqo.Object]string{}
	for i, o := range out.Objects {
		t.Expect(o.UID > 0 && !uids[o.UID], "uid", "object %d %q has id %d", i, o.Name, o.UID)
		uids[o.UID] = true
		byName[o.Name] = append(byName[o.Name], o)
		if i < first {
			continue
		}
		depth := o.Depth - c.opt.ObjectDepth
		t.Must(depth >= 0 && depth <= len(stack), "depth", "object %d %q has depth %d", i, o.Name, o.Depth)
		stack = append(stack[:depth], o)
		for _, x := range stack {
			path[o] += "/" + x.Name
		}
		parents = append(parents, path[o])
	}
	objOf := map[int]*mqo.Object{}
	known := map[*mqo.Object]bool{}
	for i, m := range s.models {
		var o *mqo.Object
		want := ""
		for k := i; k >= 0; k = s.models[k].parent {
			want = "/" + s.models[k].name + want
		}
		n := 0
		for _, x := range byName[m.name] {
			if path[x] == want && !targets[x.Name] {
				o = x
				n++
				known[x] = true
			}
		}
		need := in(i) && (c.opt.ConvertWholeNode || m.geom >= 0)
		t.Expect(n <= 1 && (n == 1 || !need), "object", "model %d %q becomes %d objects at %s; objects: %q", i, m.name, n, want, parents)
		if !in(i) {
			t.Expect(n == 0, "target", "model %q is converted, but is not part of %q", m.name, c.opt.TargetModelName)
		}
		objOf[i] = o
		if o != nil && m.geom < 0 {
			t.Expect(len(o.Faces) == 0 && len(o.Vertexes) == 0, "empty", "model %q has no geometry but becomes %d faces", m.name, len(o.Faces))
		}
	}
	for i, o := range out.Objects {
		t.Expect(i < first || known[o] || targets[o.Name], "extra", "object %d %q is no model and no blend shape", i, o.Name)
	}

	// geometry
	vmaps := map[int]map[int]int{}
	for i, m := range s.models {
		o := objOf[i]
		if o == nil || m.geom < 0 {
			continue
		}
		w := s.coord().mul(s.world(i))
		tol := w.tol()
		mirrored := w.det3() < 0
		t.Expect(o.Visible, "visible", "%q is hidden", o.Name)
		want := c.faces15(i)
		vm := map[int]int{}
		used := map[int]bool{}
		d := &diffs{}
		d.eq(o.Name+": faces", len(want), len(o.Faces))
		var ix xindex
		for gi, g := range o.Faces {
			for _, v := range g.Verts {
				if v >= 0 && v < len(o.Vertexes) {
					ix.add(v3g(o.Vertexes[v]), gi)
				}
			}
		}
		ix.sort()
		for k, f := range want {
			found, why := false, "none"
			near := ix.near(v3d{}, -1)
			if len(f.pos) > 0 {
				near = ix.near(f.pos[0], tol)
			}
			for _, gi := range near {
				g := o.Faces[gi]
				if used[gi] {
					continue
				}
				mp, w := f.match(out, o, g, mirrored, tol)
				if mp != nil {
					for a, b := range mp {
						vm[a] = b
					}
					used[gi], found = true, true
					break
				}
				if w != "corners" && w != "position" || why == "none" {
					why = w
				}
			}
			if !found {
				d.add("%s: polygon %d at %v has no face (%s)", o.Name, k, f.pos, why)
			}
		}
		t.Expect(d.empty(), "faces", "%s", d)
		vmaps[i] = vm
	}
	if len(t.Fails) > 0 {
		return
	}

	// bones
	var bones []*mqo.Bone
	if bp := bonePlugin(out); bp != nil {
		bones = bp.Bones()
	}
	if c.opt.TargetModelName == "" {
		c.bones15(t, bones, objOf, vmaps)
	}

	// blend shapes
	n := 0
	for i, m := range s.models {
		o := objOf[i]
		if o == nil || m.geom < 0 {
			continue
		}
		g := s.geoms[m.geom]
		if len(g.shapes) == 0 || c.opt.DisableBlendShape {
			continue
		}
		n++
		var list *mqo.MorphTargetList
		for _, l := range lists {
			if l.Base == o.Name {
				t.Expect(list == nil, "morphs", "%s has two lists", o.Name)
				list = l
			}
		}
		t.Must(list != nil && len(list.Target) == len(g.shapes), "morphs", "%s: targets %v, want %d", o.Name, list, len(g.shapes))
		w := s.coord().mul(s.world(i))
		for k, sh := range g.shapes {
			name := list.Target[k].Name
			t.Expect(strings.HasPrefix(name, sh.name), "morph name", "%s: target %d is %q, want %q", o.Name, k, name, sh.name)
			if alone := c.nameUses(sh.name) == 1; alone {
				t.Expect(name == sh.name, "morph name", "%s: target %d is %q, want %q", o.Name, k, name, sh.name)
			}
			objs := byName[name]
			t.Must(len(objs) == 1, "morph object", "%s: target %q names %d objects", o.Name, name, len(objs))
			x := objs[0]
			t.Expect(!x.Visible, "morph visible", "blend shape %q is visible", name)
			t.Must(len(x.Vertexes) == len(o.Vertexes), "morph vertices", "blend shape %q has %d vertices, its base %d", name, len(x.Vertexes), len(o.Vertexes))
			want := append([]v3d{}, g.verts...)
			for q, ix := range sh.idx {
				if ix >= 0 && int(ix) < len(want) {
					want[ix] = g.verts[ix].add(sh.verts[q])
				}
			}
			for a, b := range vmaps[i] {
				p := w.apply(want[a])
				if p.sub(v3g(x.Vertexes[b])).len() > w.tol() {
					t.Fail("morph position", "blend shape %q of %s: vertex %d is at %v, want %v", name, o.Name, a, x.Vertexes[b], p)
				}
			}
		}
	}
	t.Expect(len(lists) == n, "morphs", "%d morph lists, want %d", len(lists), n)
}

// tol is what single precision may lose in positions of some tens of units.
func (a m4) tol() float64 {
	m := 1.0
	for _, r := range a {
		for _, x := range r {
			m = math.Max(m, math.Abs(x))
		}
	}
	return 3e-5 * m
}

// nameUses counts the objects that would get a name.
func (c *case15) nameUses(n string) int {
	k := 0
	for _, m := range c.s.models {
		if m.name == n {
			k++
		}
		if m.geom >= 0 {
			for _, sh := range c.s.geoms[m.geom].shapes {
				if sh.name == n {
					k++
				}
			}
		}
	}
	return k
}

func (c *case15) bones15(t *T, bones []*mqo.Bone, objOf map[int]*mqo.Object, vmaps map[int]map[int]int) {
	s := c.s
	need := map[int]*fsCluster{}
	type key struct{ model, vert int }
	want := map[key]map[int]float64{} // mesh model, vertex -> bone model -> weight
	all := map[int]bool{}
	for i, m := range s.models {
		if m.geom < 0 || c.opt.DisableBone {
			continue
		}
		for _, cl := range s.geoms[m.geom].clusters {
			need[cl.bone] = cl
			for k := cl.bone; k >= 0; k = s.models[k].parent {
				all[k] = true
			}
			for k, ix := range cl.idx {
				kk := key{i, int(ix)}
				if want[kk] == nil {
					want[kk] = map[int]float64{}
				}
				want[kk][cl.bone] += cl.w[k]
			}
		}
	}
	byName := map[string]*mqo.Bone{}
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		t.Expect(byName[b.Name] == nil && byID[b.ID] == nil && b.ID > 0, "bone", "bone %q id %d: twice", b.Name, b.ID)
		byName[b.Name], byID[b.ID] = b, b
	}
	modelByName := map[string]int{}
	for i, m := range s.models {
		modelByName[m.name] = i
	}
	for i := range all {
		m := s.models[i]
		b := byName[m.name]
		if b == nil {
			t.Fail("bone", "model %q has no bone", m.name)
			continue
		}
		if m.parent >= 0 {
			p := byID[b.Parent]
			t.Expect(p != nil && p.Name == s.models[m.parent].name, "bone parent", "bone %q has parent %d, want %q", b.Name, b.Parent, s.models[m.parent].name)
		} else {
			t.Expect(b.Parent == 0, "bone parent", "bone %q has parent %d", b.Name, b.Parent)
		}
		w := s.world(i)
		if cl := need[i]; cl != nil {
			w = *cl.link
		}
		p := s.coord().mul(w).apply(v3d{})
		t.Expect(p.sub(v3g(&b.Pos.Vector3)).len() < 3e-6*(1+p.len())+w.tol(), "bone position", "bone %q is at %v, want %v", b.Name, b.Pos.Vector3, p)
	}
	for _, b := range bones {
		i, ok := modelByName[b.Name]
		t.Expect(ok && all[i], "bone", "bone %q is no bone of the scene", b.Name)
	}
	got := map[key]map[int]float64{}
	uid := map[int]int{}
	for i, o := range objOf {
		if o != nil {
			uid[o.UID] = i + 1
		}
	}
	for _, b := range bones {
		for _, ow := range b.Weights {
			mi := uid[ow.ObjectID] - 1
			if mi < 0 {
				t.Fail("weights", "bone %q has weights for object %d", b.Name, ow.ObjectID)
				continue
			}
			o := objOf[mi]
			for _, vw := range ow.Vertexes {
				vi := o.GetVertexIndexByID(vw.VertexID)
				if vi < 0 {
					t.Fail("weights", "bone %q has a weight for vertex %d of %q", b.Name, vw.VertexID, o.Name)
				}
				k := key{mi, vi}
				if got[k] == nil {
					got[k] = map[int]float64{}
				}
				got[k][modelByName[b.Name]] += float64(vw.Weight) / 100
			}
		}
	}
	for i, vm := range vmaps {
		for a, b := range vm {
			w, g := want[key{i, a}], got[key{i, b}]
			for bi, x := range w {
				t.Expect(math.Abs(g[bi]-x) < 1e-5, "weight", "vertex %d of %q: bone %q has weight %v, want %v", a, s.models[i].name, s.models[bi].name, g[bi], x)
			}
			for bi, x := range g {
				t.Expect(math.Abs(w[bi]-x) < 1e-5, "weight", "vertex %d of %q: bone %q has weight %v, want %v", a, s.models[i].name, s.models[bi].name, x, w[bi])
			}
		}
	}
}

func (d *diffs) mat15(s *fscene, m *fsMat, g *mqo.Material) {
	num := func(name string, i int, def float64) float64 {
		for _, p := range m.props {
			if p.at[0] == name {
				return p.at[4+i].(float64)
			}
		}
		if name == "DiffuseColor" && s.tmplD != nil {
			return s.tmplD[i]
		}
		return def
	}
	p := "material " + m.name
	d.eq(p+" name", m.name, g.Name)
	col := geom.Vector4{X: float32(num("DiffuseColor", 0, 1)), Y: float32(num("DiffuseColor", 1, 1)), Z: float32(num("DiffuseColor", 2, 1)), W: float32(num("Opacity", 0, 1))}
	for i, x := range []float32{col.X - g.Color.X, col.Y - g.Color.Y, col.Z - g.Color.Z, col.W - g.Color.W} {
		if math.Abs(float64(x)) > 1e-6 {
			d.add("%s colour %d: want %v, got %v", p, i, col, g.Color)
		}
	}
	d.f32(p+" diffuse", float32(num("DiffuseFactor", 0, 1)), g.Diffuse, 1e-6)
	d.f32(p+" specular", float32(num("SpecularColor", 0, 0)*num("SpecularFactor", 0, 0)), g.Specular, 1e-6)
	d.f32(p+" ambient", float32(num("AmbientColor", 0, 0)*num("AmbientFactor", 0, 0)), g.Ambient, 1e-6)
	d.f32(p+" power", float32(num("ShininessExponent", 0, 0)), g.Power, 1e-6)
	d.eq(p+" texture", m.tex, g.Texture)
}

func init() {
	Register(&Property{ID: "C15", Level: "model_checking",
		Rule: "FBX scenes of six models (two meshes, three bones), two geometries and up to three materials, written by an independent encoder, parsed and converted by the real code, compared with the scene in float64 algebra",
		Scenarios: []*Scenario{
			{Name: "meshes", Gen: gen15("p"), Check: c15Check, Quick: 3, Thorough: 5, What: "mesh shapes x normal and UV mapping and reference modes of two geometries, up to B deviations"},
			{Name: "hierarchy", Gen: gen15("ht"), Check: c15Check, Quick: 2, Thorough: 3, What: "model trees x names x translation, rotation, pre-rotation, scaling of five models x axis systems x property templates, up to B deviations"},
			{Name: "materials", Gen: gen15("m"), Check: c15Check, Quick: 3, Thorough: 4, What: "materials, textures, material layers, material lists per model, up to B deviations"},
			{Name: "skin", Gen: gen15("sh"), Check: c15Check, Quick: 3, Thorough: 5, What: "clusters of two geometries x bind poses x model trees, up to B deviations"},
			{Name: "shapes", Gen: gen15("bh"), Check: c15Check, Quick: 3, Thorough: 5, What: "blend shapes of two geometries x model trees, up to B deviations"},
			{Name: "sizes", Gen: gen15Sizes, Check: c15Check, Quick: 0, Thorough: 0, What: "vertices, corners, models, depth, materials, bones, weights, shapes of n elements, n around every power of two up to 66000, binary and text"},
			{Name: "all", Gen: gen15("phtmsbo"), Check: c15Check, Quick: 2, Thorough: 3, What: "all dimensions together with the options and a non-empty target document, up to B deviations"},
		}})
}
