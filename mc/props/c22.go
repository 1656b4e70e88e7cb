package props

import (
	"fmt"
	"math"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

type p2 [2]int

func orient(a, b, c p2) int { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]) }

func onSeg(a, b, p p2) bool {
	return orient(a, b, p) == 0 && min(a[0], b[0]) <= p[0] && p[0] <= max(a[0], b[0]) && min(a[1], b[1]) <= p[1] && p[1] <= max(a[1], b[1])
}

func sgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

func segsTouch(a, b, c, d p2) bool {
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return true
	}
	return sgn(orient(a, b, c))*sgn(orient(a, b, d)) < 0 && sgn(orient(c, d, a))*sgn(orient(c, d, b)) < 0
}

// closing edge back to the start must also be clean
func edgeClean(pts []p2, a, b p2, skipFirst, skipLast bool) bool {
	for i := 0; i+1 < len(pts); i++ {
		c, d := pts[i], pts[i+1]
		if i == 0 && skipFirst { // shares c with b
			if onSeg(a, b, d) || onSeg(c, d, a) {
				return false
			}
			continue
		}
		if i+2 == len(pts) && skipLast { // shares d with a
			if onSeg(a, b, c) || onSeg(c, d, b) {
				return false
			}
			continue
		}
		if segsTouch(a, b, c, d) {
			return false
		}
	}
	return true
}

func c22Poly(w, h, nmin, nmax int) func(c *Chooser) any {
	return func(c *Chooser) any {
		n := nmin + c.Free("n", nmax-nmin+1)
		var pts []p2
		used := map[p2]bool{}
		for len(pts) < n {
			k := c.Free("p", w*h)
			p := p2{k % w, k / w}
			if used[p] {
				return nil
			}
			if len(pts) > 0 && !edgeClean(pts, pts[len(pts)-1], p, false, true) {
				return nil
			}
			used[p] = true
			pts = append(pts, p)
		}
		if !edgeClean(pts, pts[n-1], pts[0], true, true) {
			return nil
		}
		if n == 3 && orient(pts[0], pts[1], pts[2]) == 0 {
			return nil
		}
		return pts
	}
}

type embed struct {
	name string
	u, v v3d
	o    v3d
}

var c22Embeds = []embed{
	{"xy", v3d{1, 0, 0}, v3d{0, 1, 0}, v3d{}},
	{"yx", v3d{0, 1, 0}, v3d{1, 0, 0}, v3d{}},
	{"zx-large", v3d{0, 0, 100}, v3d{100, 0, 0}, v3d{1000, -500, 0}},
	{"yz-small", v3d{0, 0.01, 0}, v3d{0, 0, 0.01}, v3d{}},
	{"skew", v3d{1, 2, 0.5}, v3d{-2, 1, 3}, v3d{0.5, -4, 2}},
	{"far", v3d{1, 0, 0}, v3d{0, 1, 0}, v3d{5000, 3000, -7000}},
	{"far-large", v3d{0, 100, 0}, v3d{100, 0, 0}, v3d{-20000, 0, 1000}},
	{"stretched", v3d{0, 0, 9}, v3d{1, 0, 0}, v3d{}},
	{"sheared", v3d{1, 0, 0}, v3d{6, 0, 1}, v3d{}},
	{"neg", v3d{-1, 0, 0}, v3d{0, 0, 1}, v3d{-3, 2, 1}},
}

// checks the boundary chain; returns false if it is wrong
func chainOK(tris [][3]int, n int) string {
	sum := map[[2]int]int{}
	add := func(a, b, s int) {
		if a < b {
			sum[[2]int{a, b}] += s
		} else {
			sum[[2]int{b, a}] -= s
		}
	}
	for _, t := range tris {
		for k := 0; k < 3; k++ {
			if t[k] < 0 || t[k] >= n {
				return fmt.Sprintf("corner %d is not a corner of the polygon", t[k])
			}
			if t[k] == t[(k+1)%3] {
				return fmt.Sprintf("triangle %v uses a corner twice", t)
			}
			add(t[k], t[(k+1)%3], 1)
		}
	}
	for i := 0; i < n; i++ {
		add(i, (i+1)%n, -1)
	}
	for e, s := range sum {
		if s != 0 {
			return fmt.Sprintf("edge %v is used %+d times too often", e, s)
		}
	}
	return ""
}

func c22Check(t *T, v any) {
	pts := v.([]p2)
	n := len(pts)
	area := 0
	for i := 1; i+1 < n; i++ {
		area += orient(pts[0], pts[i], pts[i+1])
	}
	for ei, e := range c22Embeds {
		poly := make([]*geom.Vector3, n)
		orig := make([]geom.Vector3, n)
		for i, p := range pts {
			poly[i] = e.o.add(e.u.mul(float64(p[0]))).add(e.v.mul(float64(p[1]))).geom()
			orig[i] = *poly[i]
		}
		tris := geom.Triangulate(poly)
		for i := range orig {
			t.Expect(*poly[i] == orig[i], "polygon-changed", "the polygon was changed")
		}
		what := fmt.Sprintf("polygon %v in plane %s -> %v", pts, e.name, tris)
		t.Expect(len(tris) == n-2, "count", "%s: %d triangles, want %d", what, len(tris), n-2)
		msg := chainOK(tris, n)
		t.Expect(msg == "", "boundary", "%s: %s", what, msg)
		if msg != "" {
			continue
		}
		for _, tr := range tris {
			a := orient(pts[tr[0]], pts[tr[1]], pts[tr[2]])
			t.Expect(sgn(a)*sgn(area) >= 0, "cover", "%s: triangle %v is outside the polygon or turned over", what, tr)
		}
		if ei == 0 {
			c22Object(t, pts, poly, tris)
		}
	}
	t.State(fmt.Sprint(pts))
}

// Object.Triangulate keeps every corner's data
func c22Object(t *T, pts []p2, poly []*geom.Vector3, _ [][3]int) {
	n := len(pts)
	for mode := 0; mode < 4; mode++ {
		o := mqo.NewObject("o")
		o.Vertexes = append(o.Vertexes, pv3(50, 50, 50))
		for i := n - 1; i >= 0; i-- { // vertex of corner i is n-i
			o.Vertexes = append(o.Vertexes, poly[i])
		}
		f := &mqo.Face{Material: 3, UID: 7}
		for i := 0; i < n; i++ {
			f.Verts = append(f.Verts, n-i)
			if mode&1 != 0 {
				f.UVs = append(f.UVs, geom.Vector2{X: float32(i), Y: float32(-i)})
			}
			if mode&2 != 0 {
				f.Normals = append(f.Normals, pv3(float32(i), 1, 0))
			}
		}
		tri := &mqo.Face{Verts: []int{0, 1, 2}, Material: 1, UVs: []geom.Vector2{{X: 1}, {X: 2}, {X: 3}}}
		line := &mqo.Face{Verts: []int{0, 1}, Material: 2}
		o.Faces = []*mqo.Face{tri, f, line, tri}
		o.Triangulate()
		var got [][3]int
		var faces []*mqo.Face
		other := 0
		for i, g := range o.Faces {
			t.Must(len(g.Verts) == 3, "object-face", "face with %d corners after Triangulate", len(g.Verts))
			if g.Material == 1 {
				other++
				t.Expect(fmt.Sprint(g.Verts) == "[0 1 2]" && len(g.UVs) == 3 && g.UVs[2].X == 3, "object-triangle", "triangle was changed: %v", *g)
				t.Expect(i == 0 || i == len(o.Faces)-1, "object-order", "face order changed")
				continue
			}
			t.Expect(g.Material == 3, "object-material", "material %d, want 3", g.Material)
			faces = append(faces, g)
			got = append(got, [3]int{n - g.Verts[0], n - g.Verts[1], n - g.Verts[2]})
		}
		t.Expect(other == 2, "object-triangle", "%d of 2 triangles left", other)
		t.Expect(len(got) == n-2, "object-count", "polygon %v: %d triangles", pts, len(got))
		msg := chainOK(got, n)
		t.Expect(msg == "", "object-boundary", "polygon %v -> %v: %s", pts, got, msg)
		for i, g := range faces {
			if mode&1 != 0 {
				if t.Expect(len(g.UVs) == 3, "object-uv", "%d UVs", len(g.UVs)) {
					for k := 0; k < 3; k++ {
						t.Expect(g.UVs[k].X == float32(got[i][k]) && g.UVs[k].Y == -float32(got[i][k]), "object-uv", "polygon %v: corner %d has UV %v", pts, got[i][k], g.UVs[k])
					}
				}
			} else {
				t.Expect(len(g.UVs) == 0, "object-uv", "UVs appeared")
			}
			if mode&2 != 0 && n > 3 {
				if t.Expect(len(g.Normals) == 3, "object-normal", "%d normals", len(g.Normals)) {
					for k := 0; k < 3; k++ {
						t.Expect(g.Normals[k] != nil && g.Normals[k].X == float32(got[i][k]), "object-normal", "polygon %v: corner %d has normal %v", pts, got[i][k], g.Normals[k])
					}
				}
			}
		}
	}
}

// c22Family makes long simple polygons.
func c22Family(c *Chooser) any {
	kind := c.Free("family", 5)
	n := sizesAll[c.Free("size", len(sizesAll))]
	if n < 4 || n > 130 {
		return nil
	}
	var pts []p2
	switch kind {
	case 0: // convex: a parabola
		for i := 0; i < n; i++ {
			pts = append(pts, p2{i, i * i})
		}
		if n > 100 {
			return nil // the float32 products are no longer exact
		}
	case 1: // comb: teeth between a flat bottom and the tips
		pts = append(pts, p2{n, 0}, p2{0, 0})
		for i := 2; i < n; i++ {
			pts = append(pts, p2{1 + i - 2, []int{9, 1}[i%2]})
		}
	case 2: // stairs: many right angles, points in line
		for i := 0; i+1 < n; i++ {
			pts = append(pts, p2{(i + 1) / 2, i / 2})
		}
		pts = append(pts, p2{n, -1})
	case 3: // rectangular spiral and back
		if n%2 != 0 {
			return nil
		}
		dirs := []p2{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}
		h := n / 2
		// outer corners of the corridor, then the inner ones backwards
		var out, in []p2
		x, y := 0, 0
		for i := 0; i < h; i++ {
			l := 4 * (1 + h - i)
			d := dirs[i%4]
			out = append(out, p2{x, y})
			// the inner corner lies one unit to the left of both edges
			p := dirs[(i+3)%4]
			q := p2{-d[1], d[0]}
			if i == 0 {
				in = append(in, p2{x + q[0], y + q[1]})
			} else {
				in = append(in, p2{x + d[0] - p[0], y + d[1] - p[1]})
			}
			x, y = x+d[0]*l, y+d[1]*l
		}
		pts = append(pts, out...)
		for i := len(in) - 1; i >= 0; i-- {
			pts = append(pts, in[i])
		}
	case 4: // arrow heads: two chains of the same shape
		if n%2 != 0 {
			return nil
		}
		h := n / 2
		for i := 0; i < h; i++ {
			pts = append(pts, p2{3 * i, 5 * (i % 2)})
		}
		for i := h - 1; i >= 0; i-- {
			pts = append(pts, p2{3 * i, 5*(i%2) + 3})
		}
	}
	s := []int{0, n / 3, n / 2, n - 1}[c.Free("start", 4)]
	pts = append(append([]p2{}, pts[s:]...), pts[:s]...)
	if c.FreeFlag("reversed") {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			pts[i], pts[j] = pts[j], pts[i]
		}
	}
	for i := range pts { // the generator must make simple polygons
		for j := i + 1; j < n; j++ {
			a, b, cc, d := pts[i], pts[(i+1)%n], pts[j], pts[(j+1)%n]
			if j == i+1 {
				if onSeg(a, b, d) || onSeg(cc, d, a) {
					panic("not simple")
				}
			} else if (j+1)%n == i {
				if onSeg(a, b, cc) || onSeg(cc, d, b) {
					panic("not simple")
				}
			} else if segsTouch(a, b, cc, d) {
				panic(fmt.Sprint("not simple: ", kind, " ", pts))
			}
		}
	}
	return pts
}

// any closed chain of points, self-intersecting or degenerate: complete, no crash
func c22Any(c *Chooser) any {
	n := c.Free("n", 7)
	pts := make([]p2, n)
	for i := range pts {
		k := c.Free("p", []int{6, 6, 6, 6, 6, 6, 6}[n])
		pts[i] = p2{k % 3, k / 3 * 2}
	}
	return pts
}

func c22AnyCheck(t *T, v any) {
	pts := v.([]p2)
	n := len(pts)
	for bend := 0; bend < 2; bend++ {
		poly := make([]*geom.Vector3, n)
		for i, p := range pts {
			poly[i] = pv3(float32(p[0]), float32(p[1]), float32(bend)*float32(i*i%3))
		}
		tris := geom.Triangulate(poly)
		if n < 3 {
			t.Expect(len(tris) == 0, "any-count", "%d triangles of %d points", len(tris), n)
			continue
		}
		t.Expect(len(tris) == n-2, "any-count", "polygon %v: %d triangles, want %d: %v", pts, len(tris), n-2, tris)
		msg := chainOK(tris, n)
		t.Expect(msg == "", "any-boundary", "polygon %v -> %v: %s", pts, tris, msg)
	}
}

// point-in-triangle over a grid
func c22In(c *Chooser) any {
	var r [3]p2
	for i := range r {
		k := c.Free("p", 16)
		r[i] = p2{k % 4, k / 4}
	}
	if orient(r[0], r[1], r[2]) == 0 {
		return nil
	}
	return r
}

func c22InCheck(t *T, v any) {
	r := v.([3]p2)
	for _, e := range c22Embeds {
		at := func(x, y float64) *geom.Vector3 { return e.o.add(e.u.mul(x)).add(e.v.mul(y)).geom() }
		a, b, c := at(float64(r[0][0]), float64(r[0][1])), at(float64(r[1][0]), float64(r[1][1])), at(float64(r[2][0]), float64(r[2][1]))
		for x := -0.75; x < 4; x += 0.5 {
			for y := -0.625; y < 4; y += 0.5 {
				s := math.Inf(1)
				o := float64(sgn(orient(r[0], r[1], r[2])))
				for k := 0; k < 3; k++ {
					p, q := r[k], r[(k+1)%3]
					d := o * (float64(q[0]-p[0])*(y-float64(p[1])) - float64(q[1]-p[1])*(x-float64(p[0])))
					s = math.Min(s, d)
				}
				if math.Abs(s) < 0.05 {
					continue
				}
				got := geom.IsInTriangle(at(x, y), a, b, c)
				t.Expect(got == (s > 0), "in-triangle", "point (%v,%v) in %v (plane %s): %v", x, y, r, e.name, got)
			}
		}
	}
}

func init() {
	Register(&Property{ID: "C22", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "grid3", Quick: 0, Thorough: 0, Gen: c22Poly(3, 3, 3, 7), Check: c22Check, What: "every simple polygon with 3-7 corners on a 3x3 grid, from every starting corner and in both directions, in 10 planes; object faces with every UV/normal presence"},
		{Name: "grid4", Quick: 0, Thorough: 0, Gen: c22Poly(4, 4, 4, 5), Check: c22Check, What: "every simple polygon with 4-5 corners on a 4x4 grid"},
		{Name: "families", Gen: c22Family, Check: c22Check, What: "convex, comb, stair, spiral and zigzag polygons with up to 130 corners, from 4 starting corners, in both directions"},
		{Name: "any", Quick: 0, Thorough: 0, Gen: c22Any, Check: c22AnyCheck, What: "every closed chain of up to 6 of 6 points (self-intersecting, repeated points, bent)"},
		{Name: "inside", Quick: 0, Thorough: 0, Gen: c22In, Check: c22InCheck, What: "every triangle on a 4x4 grid x 100 points x 10 planes"},
		{Name: "grid3-big", Quick: 0, Thorough: 0, Gen: c22Poly(3, 3, 8, 9), Check: c22Check, What: "every simple polygon with 8-9 corners on a 3x3 grid"},
		{Name: "grid4-big", Quick: 0, Thorough: 0, Gen: c22Poly(4, 4, 6, 6), Check: c22Check, What: "every simple hexagon on a 4x4 grid"},
	}})
}
