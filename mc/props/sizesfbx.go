package props

import (
	"fmt"
	"math"
	"strings"

	. "modelconvmc/engine"
)

func fbxSizeTree(c *Chooser, big bool) []*fnode {
	kind := c.Free("section", 7)
	l := sizesAll
	if big {
		l = append(append([]int{}, sizesAll...), 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537)
	}
	n := l[c.Free("size", len(l))]
	switch kind {
	case 0, 1, 2:
		a := fbxArray([]int{0, 3, 5}[kind], n, 1)
		return []*fnode{fn("A", a).with(fn("B", int64(1))), fn("C", "end")}
	case 3: // string
		return []*fnode{fn("A", strings.Repeat("x", n), int64(2)), fn("B", strings.Repeat("é ", n/2)+"\""), fn("C", "end")}
	case 4: // children
		p := fn("A")
		for i := 0; i < n; i++ {
			p.with(fn(fmt.Sprint("N", i), int64(i), "s"))
		}
		return []*fnode{p, fn("C", "end")}
	case 5: // depth
		if n > 600 {
			return nil
		}
		top := fn("A", int64(0))
		p := top
		for i := 0; i < n; i++ {
			q := fn(fmt.Sprint("N", i), int64(i))
			p.with(q)
			p = q
		}
		return []*fnode{top, fn("C", "end")}
	}
	// attributes and a long name
	if n > 200 {
		return nil
	}
	p := fn("A" + strings.Repeat("b", n))
	for i := 0; i < n; i++ {
		p.at = append(p.at, []any{int64(i), "v", 0.5}[i%3])
	}
	return []*fnode{p, fn("C", "end")}
}

func c05Sizes(c *Chooser) any {
	if t := fbxSizeTree(c, true); t != nil {
		return &fbxCase{top: t}
	}
	return nil
}

func c06BinSizes(c *Chooser) any {
	t := fbxSizeTree(c, true)
	if t == nil {
		return nil
	}
	return &fbxCase{top: t, bin: binOpt{version: FreePick[uint32](c, "version", 7400, 7500), compress: c.Free("compress", 3)}, src: c.Free("source", 2)}
}

func c06TextSizes(c *Chooser) any {
	t := fbxSizeTree(c, true)
	if t == nil {
		return nil
	}
	var st asciiStyle
	st.crlf, st.wrap = c.FreeFlag("crlf"), FreePick(c, "wrap", 0, 3)
	return &fbxCase{top: t, st: st}
}

// fscene with one section of n elements
func fsSize(kind, n int) *fscene {
	s := &fscene{}
	m := fsMeshes[2]
	strip := func(n int) (r fsMesh) {
		for i := 0; i < n; i++ {
			r.verts = append(r.verts, v3d{float64(i / 2 % 1024), float64(i%2 + 3*(i/2048)), float64(i%5) * 0.125})
		}
		for i := 0; i+2 < n; i++ {
			r.polys = append(r.polys, []int{i, i + 1 + i%2, i + 2 - i%2})
		}
		return
	}
	model := func(name, k string, parent int) *fsModel {
		x := &fsModel{id: int64(100000 + len(s.models)), name: name, kind: k, parent: parent, geom: -1}
		s.models = append(s.models, x)
		return x
	}
	geo := func(m fsMesh) *fsGeom {
		g := &fsGeom{id: int64(200000 + len(s.geoms)), name: fmt.Sprint("geo", len(s.geoms)), verts: m.verts, polys: m.polys, skinID: int64(500000 + len(s.geoms)), bsID: int64(600000 + len(s.geoms))}
		g.norm = fsNormals(&m, 0)
		g.uv = uv15(&m, 0)
		s.geoms = append(s.geoms, g)
		return g
	}
	mats := func(n int) (r []int) {
		for i := 0; i < n; i++ {
			s.mats = append(s.mats, &fsMat{id: int64(300000 + i), name: fmt.Sprint("mat", i)})
			r = append(r, i)
		}
		return
	}
	mesh := func(name string, parent int, g *fsGeom, ms []int) *fsModel {
		x := model(name, "Mesh", parent)
		x.mats = ms
		for i, y := range s.geoms {
			if y == g {
				x.geom = i
			}
		}
		return x
	}
	switch kind {
	case 0: // vertices
		mesh("body", -1, geo(strip(n+2)), mats(1))
	case 1: // corners of one polygon
		if n < 3 {
			n = 3
		}
		var p fsMesh
		var f []int
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			p.verts = append(p.verts, v3d{100 * math.Cos(a), 100 * math.Sin(a), 1})
			f = append(f, i)
		}
		p.polys = [][]int{f, {0, 2, 1}}
		mesh("body", -1, geo(p), mats(1))
	case 2: // models side by side
		ms := mats(1)
		for i := 0; i < n; i++ {
			mesh(fmt.Sprint("o", i), -1, geo(m), ms).t = pv(float64(i), 1, 2)
		}
	case 3: // models below each other
		ms := mats(1)
		for i := 0; i < n; i++ {
			mesh(fmt.Sprint("o", i), i-1, geo(m), ms).t = pv(1, 0, 0.5)
		}
	case 4: // materials
		p := strip(n + 2)
		g := geo(p)
		ms := mats(n)
		g.mat = &fsLayer{mapping: "ByPolygon", ref: "IndexToDirect"}
		for i := range p.polys {
			g.mat.ints = append(g.mat.ints, int32(n-1-i))
		}
		mesh("body", -1, g, ms)
	case 5: // clusters: a chain of bones
		g := geo(strip(n + 2))
		mesh("body", -1, g, mats(1))
		for i := 0; i < n; i++ {
			b := model(fmt.Sprint("bone", i), "LimbNode", -1)
			if i > 0 {
				b.parent = len(s.models) - 2
			}
			b.t = pv(0, 1, 0.25)
			g.clusters = append(g.clusters, &fsCluster{id: int64(700000 + i), bone: len(s.models) - 1, idx: []int32{int32(i), int32(i + 1)}, w: []float64{0.75, 0.25}})
		}
	case 6: // weights of one cluster
		g := geo(strip(n + 2))
		mesh("body", -1, g, mats(1))
		for k := 0; k < 2; k++ {
			model(fmt.Sprint("bone", k), "LimbNode", -1).t = pv(0, float64(k), 1)
			cl := &fsCluster{id: int64(700000 + k), bone: len(s.models) - 1}
			for i := 0; i < n; i++ {
				cl.idx = append(cl.idx, int32(n-i))
				cl.w = append(cl.w, []float64{0.75, 0.25}[k])
			}
			g.clusters = append(g.clusters, cl)
		}
	case 7: // shapes
		g := geo(m)
		mesh("body", -1, g, mats(1))
		for i := 0; i < n; i++ {
			g.shapes = append(g.shapes, &fsShape{id: int64(800000 + i), chID: int64(900000 + i), name: fmt.Sprint("s", i), idx: []int32{int32(i % 6)}, verts: []v3d{{float64(1 + i), 0, 0.5}}})
		}
	case 8: // moved vertices of a shape
		g := geo(strip(n + 2))
		mesh("body", -1, g, mats(1))
		sh := &fsShape{id: 800000, chID: 900000, name: "s"}
		for i := 0; i < n; i++ {
			sh.idx = append(sh.idx, int32(i))
			sh.verts = append(sh.verts, v3d{0, float64(1 + i%10), 0})
		}
		g.shapes = append(g.shapes, sh)
	}
	for _, g := range s.geoms {
		for _, cl := range g.clusters {
			m := s.world(cl.bone)
			cl.link = &m
		}
	}
	return s
}

var fsSizeMax = []int{66000, 300, 513, 300, 513, 513, 4097, 300, 4097}
var fsSizeNames = []string{"vertices", "corners", "models", "depth", "materials", "bones", "weights", "shapes", "moved"}

func gen15Sizes(c *Chooser) any {
	k := c.Free("section", len(fsSizeMax))
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= fsSizeMax[k] {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	return &case15{s: fsSize(k, n), txt: c.FreeFlag("text")}
}
