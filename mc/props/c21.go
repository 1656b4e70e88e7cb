package props

import (
	"fmt"
	"math"

	"github.com/binzume/modelconv/geom"

	. "modelconvmc/engine"
)

var c21Angles = []float64{0, 30, -45, 90, -90, 180, 120, -150, 89.95, -89.95, 179.5, -180, 0.01}
var c21AnglesT = []float64{0, 30, -45, 90, -90, 180, 120, -150, 89.95, -89.95, 179.5, -180, 0.01, 60, -60, 45, 135, 89.99, -89.99, 89, 1, -0.5, 150, 270, -270, 15, 75}
var c21Scales = []v3d{{1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {-1, 1, 1}, {1, -2, 1}, {1, 1, -0.5}, {-1, -2, -3}, {-1, 1, -1}, {10, 0.1, 1}, {0.001, 0.001, 0.001}, {-0.01, 0.01, 0.01}, {0.125, -0.03, 0.25}, {-100, 100, 80}}
var c21Trans = []v3d{{0, 0, 0}, {1, 2, 3}, {-100, 0.5, 1000}}
var c21Vecs = []v3d{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {-0.25, 100, 7}, {-1, -1, -1}, {1e-3, 2e-3, -5e-4}}

var c21Orders = [][3]int{{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}}

func c21Rot(order int, a [3]float64) m4 {
	m := m4id()
	for _, ax := range c21Orders[order] {
		m = m.mul(m4r(ax, a[ax]))
	}
	return m
}

func rad32(d float64) float32 { return float32(d * math.Pi / 180) }

func c21Euler(order int, a [3]float64) *geom.EulerAngles {
	return geom.NewEuler(rad32(a[0]), rad32(a[1]), rad32(a[2]), geom.RotationOrder(order))
}

// max difference of the rotation parts
func rotDiff(a, b m4) float64 {
	r := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			d := math.Abs(a[i][j] - b[i][j])
			if math.IsNaN(d) {
				return math.Inf(1)
			}
			r = math.Max(r, d)
		}
	}
	return r
}

// difference relative to the size of the columns
func trsDiff(want, got m4) float64 {
	r := 0.0
	for j := 0; j < 4; j++ {
		n := 0.0
		for i := 0; i < 3; i++ {
			n = math.Max(n, math.Abs(want[i][j]))
		}
		if n == 0 {
			n = 1
		}
		for i := 0; i < 4; i++ {
			d := math.Abs(want[i][j]-got[i][j]) / n
			if math.IsNaN(d) {
				return math.Inf(1)
			}
			r = math.Max(r, d)
		}
	}
	return r
}

func ratio(s v3d) float64 {
	a, b, c := math.Abs(s[0]), math.Abs(s[1]), math.Abs(s[2])
	return math.Max(a, math.Max(b, c)) / math.Min(a, math.Min(b, c))
}

func (a m4) absDiff(b m4) float64 {
	r := 0.0
	for i := range a {
		for j := range a[i] {
			d := math.Abs(a[i][j] - b[i][j])
			if math.IsNaN(d) {
				return math.Inf(1)
			}
			r = math.Max(r, d)
		}
	}
	return r
}

type c21rot struct {
	order   int
	a       [3]float64
	thoroug bool
}

func c21Quat(t *T, q *geom.Quaternion, R m4, what string, tol float64) {
	n := math.Sqrt(float64(q.X)*float64(q.X) + float64(q.Y)*float64(q.Y) + float64(q.Z)*float64(q.Z) + float64(q.W)*float64(q.W))
	t.Expect(math.Abs(n-1) < 1e-5, "unit-quaternion", "%s: |q|=%v", what, n)
	t.Expect(rotDiff(m4q(float64(q.X), float64(q.Y), float64(q.Z), float64(q.W)), R) < tol, "quaternion", "%s: quaternion %v is not the rotation %v", what, *q, R)
}

func c21CheckRot(t *T, v any) {
	c := v.(*c21rot)
	R := c21Rot(c.order, c.a)
	e := c21Euler(c.order, c.a)
	q := e.ToQuaternion()
	what := fmt.Sprintf("order %d angles %v", c.order, c.a)
	c21Quat(t, q, R, "ToQuaternion "+what, 2e-6)
	M := geom.NewRotationMatrix4FromQuaternion(q)
	t.Expect(rotDiff(R, m4geom(M)) < 2e-6, "quaternion-matrix", "%s: want %v got %v", what, R, *M)
	for o := 0; o < 4; o++ {
		for k, e2 := range []*geom.EulerAngles{geom.NewEulerFromMatrix4(M, geom.RotationOrder(o)), geom.NewEulerFromQuaternion(q, geom.RotationOrder(o)), geom.NewEulerFromMatrix4(R.geom(), geom.RotationOrder(o))} {
			t.Expect(int(e2.Order) == o, "euler-order", "order %v", e2.Order)
			R2 := c21Rot(o, [3]float64{float64(e2.X) * 180 / math.Pi, float64(e2.Y) * 180 / math.Pi, float64(e2.Z) * 180 / math.Pi})
			t.Expect(rotDiff(R, R2) < 2e-3, "euler", "%s to Euler order %d (way %d): angles %v (rad) are another rotation, difference %v", what, o, k, e2.Vector3, rotDiff(R, R2))
			// away from the singularity the angles are accurate
			s := []float64{R[0][2], R[1][2], R[2][1], R[2][0]}[o]
			if math.Abs(s) < 0.99 {
				t.Expect(rotDiff(R, R2) < 2e-5, "euler", "%s to Euler order %d (way %d): angles %v (rad) are another rotation, difference %v", what, o, k, e2.Vector3, rotDiff(R, R2))
			}
		}
	}
	qi := q.Inverse()
	c21Quat(t, qi, R.transposed(), "inverse of "+what, 2e-6)
	for _, x := range c21Vecs {
		xv := x.geom()
		for k, y := range []*geom.Vector3{q.ApplyTo(xv), M.ApplyTo(xv)} {
			t.Expect(R.apply(x).sub(v3g(y)).len() <= 1e-5*math.Max(1e-3, x.len()), "rotate-vector", "%s way %d: %v -> %v want %v", what, k, x, *y, R.apply(x))
		}
		t.Expect(*xv == *x.geom(), "argument-changed", "ApplyTo changed its argument")
	}
	// composition with every right-angle rotation and a skew one
	for o := 0; o < 4; o++ {
		for _, b := range [][3]float64{{90, 0, 0}, {0, 180, 0}, {0, 0, -90}, {20, -70, 110}, {180, 0, 180}} {
			q2 := c21Euler(o, b).ToQuaternion()
			p := q.Mul(q2)
			c21Quat(t, p, R.mul(c21Rot(o, b)), fmt.Sprintf("%s times order %d %v", what, o, b), 4e-6)
		}
	}
	for _, s := range c21Scales {
		for _, tr := range c21Trans {
			want := m4t(tr).mul(R).mul(m4s(s))
			m := geom.NewTRSMatrix4(tr.geom(), q, s.geom())
			w2 := fmt.Sprintf("%s scale %v translation %v", what, s, tr)
			t.Expect(trsDiff(want, m4geom(m)) < 1e-5, "trs", "%s: TRS matrix %v want %v", w2, *m, want)
			for k, mm := range []*geom.Matrix4{m, want.geom()} {
				t2, r2, s2 := mm.Decompose()
				re := geom.NewTRSMatrix4(t2, r2, s2)
				t.Expect(trsDiff(want, m4geom(re)) < 2e-5, "decompose", "%s (way %d): decomposed into %v %v %v, which is another transform (difference %v)", w2, k, *t2, *r2, *s2, trsDiff(want, m4geom(re)))
				for i, a := range []float32{s2.X, s2.Y, s2.Z} {
					t.Expect(near(math.Abs(float64(a)), math.Abs(s[i]), 1e-5), "decompose-scale", "%s: scale %v", w2, *s2)
				}
			}
			inv := m.Inverse()
			wi, ok := want.inv()
			if ok {
				g := m4geom(inv)
				nt := math.Max(1, math.Max(tr.len(), tr.len()/math.Min(math.Abs(s[0]), math.Min(math.Abs(s[1]), math.Abs(s[2])))))
				t.Expect(g.mul(want).absDiff(m4id()) < 2e-5*ratio(s)*nt && want.mul(g).absDiff(m4id()) < 2e-5*ratio(s)*nt, "inverse", "%s: inverse %v want %v", w2, *inv, wi)
				for _, x := range c21Vecs {
					y := inv.ApplyTo(m.ApplyTo(x.geom()))
					sc := math.Max(1, math.Max(x.len(), tr.len()/math.Min(math.Abs(s[0]), math.Min(math.Abs(s[1]), math.Abs(s[2])))))
					t.Expect(x.sub(v3g(y)).len() < 1e-4*sc, "inverse-apply", "%s: %v -> %v", w2, x, *y)
				}
			}
			d := s[0] * s[1] * s[2]
			t.Expect(math.Abs(float64(m.Det())-d) < 1e-4*math.Abs(d), "det", "%s: det %v want %v", w2, m.Det(), d)
			for _, x := range c21Vecs {
				y := m.ApplyTo(x.geom())
				w := want.apply(x)
				t.Expect(w.sub(v3g(y)).len() <= 1e-5*math.Max(1, tr.len()+x.had(s).len()), "apply", "%s: %v -> %v want %v", w2, x, *y, w)
			}
		}
	}
	t.State(c.order, c.a)
}

// ---- general matrices and vectors

type c21mat struct{ a, b m4 }

func c21Mat(c *Chooser, label string) m4 {
	switch k := c.Free(label, 7); k {
	case 0:
		return m4id()
	case 1:
		return m4t(v3d{1, -2, 3})
	case 2:
		return c21Rot(0, [3]float64{30, 45, 60}).mul(m4s(v3d{1, 2, -3}))
	case 3:
		return m4t(v3d{-5, 0.5, 8}).mul(c21Rot(2, [3]float64{90, 20, -100})).mul(m4s(v3d{2, 2, 2}))
	case 4: // shear
		m := m4id()
		m[0][1], m[1][2], m[2][0] = 0.5, -0.25, 2
		return m.mul(m4t(v3d{1, 1, 1}))
	case 5: // arbitrary, with a projective row
		return m4{{2, 1, 0.5, -3}, {-1, 3, 0.25, 1}, {0.5, -2, 4, 2}, {0.125, 0.25, -0.5, 1}}
	default:
		return m4{{1, 2, 3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}, {13, 14, 15, 17}}
	}
}

func detN(a [][]float64) float64 {
	if len(a) == 1 {
		return a[0][0]
	}
	s, r := 1.0, 0.0
	for j := range a {
		var sub [][]float64
		for i := 1; i < len(a); i++ {
			row := append([]float64{}, a[i][:j]...)
			sub = append(sub, append(row, a[i][j+1:]...))
		}
		r += s * a[0][j] * detN(sub)
		s = -s
	}
	return r
}

func c21CheckMat(t *T, v any) {
	c := v.(*c21mat)
	A, B := c.a.geom(), c.b.geom()
	A0, B0 := *A, *B
	eq := func(what string, want m4, got *geom.Matrix4, tol float64) {
		t.Expect(got != nil && want.near(m4geom(got), tol), "matrix-"+what, "%s of %v and %v: want %v got %v", what, c.a, c.b, want, got)
	}
	ew := func(f func(x, y float64) float64) (r m4) {
		for i := range r {
			for j := range r[i] {
				r[i][j] = f(c.a[i][j], c.b[i][j])
			}
		}
		return
	}
	eq("mul", c.a.mul(c.b), A.Mul(B), 1e-5)
	eq("add", ew(func(x, y float64) float64 { return x + y }), A.Add(B), 1e-6)
	eq("sub", ew(func(x, y float64) float64 { return x - y }), A.Sub(B), 1e-6)
	eq("scale", ew(func(x, y float64) float64 { return x * -2.5 }), A.Scale(-2.5), 1e-6)
	eq("transposed", c.a.transposed(), A.Transposed(), 1e-6)
	eq("clone", c.a, A.Clone(), 1e-6)
	var arr [16]float32
	A.ToArray(arr[:])
	eq("array", c.a, geom.NewMatrix4FromSlice(arr[:]), 1e-6)
	ts := c.a
	for i := 0; i < 3; i++ {
		ts[i][3] *= 0.01
	}
	eq("translationscale", ts, A.TranslationScale(0.01), 1e-6)
	rows := make([][]float64, 4)
	for i := range rows {
		rows[i] = c.a[i][:]
	}
	d := detN(rows)
	t.Expect(near(d, float64(A.Det()), 1e-3), "matrix-det", "det %v want %v", A.Det(), d)
	if wi, ok := c.a.inv(); ok && math.Abs(d) > 1e-3 {
		eq("inverse", wi, A.Inverse(), 2e-3)
	}
	A.Decompose()
	A.ApplyTo(&geom.Vector3{X: 1, Y: 2, Z: 3})
	geom.NewEulerFromMatrix4(A, geom.RotationOrderXYZ)
	cl := A.Clone()
	cl[5] = 99
	arr[3] = 98
	t.Expect(*A == A0 && *B == B0, "matrix-operand-changed", "an operand was changed: %v %v", *A, *B)
	for _, x := range c21Vecs {
		for _, y := range c21Vecs {
			c21Vec(t, x, y)
		}
	}
}

// constructors, arrays, and operations that must leave their operands alone
func c21Misc(t *T, a, b *geom.Vector3) {
	a0, b0 := *a, *b
	arr := [3]float32{a.X, a.Y, a.Z}
	t.Expect(*geom.NewVector3FromArray(arr) == a0 && *geom.NewVector3FromSlice(arr[:]) == a0 && *geom.NewVector3(a.X, a.Y, a.Z) == a0, "vector-array", "vector from array %v", arr)
	out := []float32{9, 9, 9}
	a.ToArray(out)
	t.Expect(out[0] == a.X && out[1] == a.Y && out[2] == a.Z, "vector-toarray", "%v -> %v", a0, out)
	q := geom.NewQuaternionFromArray([4]float32{a.X, a.Y, a.Z, b.X})
	t.Expect(*q == geom.Quaternion{X: a.X, Y: a.Y, Z: a.Z, W: b.X} && *q == *geom.NewQuaternion(a.X, a.Y, a.Z, b.X) && *q == *geom.NewVector4(a.X, a.Y, a.Z, b.X), "quaternion-array", "quaternion from array %v", *q)
	t.Expect(*geom.NewVector2(a.X, a.Y) == geom.Vector2{X: a.X, Y: a.Y}, "vector2-new", "%v", a0)
	q0 := *q
	r := &geom.Quaternion{X: b.X, Y: b.Y, Z: b.Z, W: a.X}
	r0 := *r
	q.Mul(r)
	q.Inverse()
	q.ApplyTo(a)
	geom.NewRotationMatrix4FromQuaternion(q)
	geom.NewTRSMatrix4(a, q, b)
	geom.NewEulerFromQuaternion(q, geom.RotationOrderYXZ)
	e := geom.NewEuler(a.X, a.Y, a.Z, geom.RotationOrderZYX)
	e0 := *e
	e.ToQuaternion()
	t.Expect(*q == q0 && *r == r0 && *a == a0 && *b == b0 && *e == e0, "operand-changed", "an operand of %v %v %v %v was changed", q0, r0, a0, b0)
	for _, v := range [][2]float32{{a.X, b.X}, {a.Y, b.Z}} {
		mn, mx := v[0], v[1]
		if mn > mx {
			mn, mx = mx, mn
		}
		ab := v[0]
		if ab < 0 {
			ab = -ab
		}
		t.Expect(geom.Min(v[0], v[1]) == mn && geom.Max(v[0], v[1]) == mx && geom.Abs(v[0]) == ab, "minmax", "min/max/abs of %v", v)
	}
	if u := (&geom.Vector2{X: a.X, Y: b.Y}); u.X != 0 || u.Y != 0 {
		l := math.Hypot(float64(u.X), float64(u.Y))
		x, y := float64(u.X)/l, float64(u.Y)/l
		n := u.Normalize()
		t.Expect(near(x, float64(n.X), 1e-5) && near(y, float64(n.Y), 1e-5), "normalize2", "(%v %v) -> %v", x*l, y*l, *n)
	}
}

func c21Vec(t *T, x, y v3d) {
	a, b := x.geom(), y.geom()
	a0, b0 := *a, *b
	eq := func(what string, want v3d, got *geom.Vector3) {
		t.Expect(want.near(v3g(got), 1e-5), "vector-"+what, "%s of %v and %v: want %v got %v", what, x, y, want, *got)
	}
	num := func(what string, want float64, got float32) {
		t.Expect(near(want, float64(got), 1e-5), "vector-"+what, "%s of %v and %v: want %v got %v", what, x, y, want, got)
	}
	eq("add", x.add(y), a.Add(b))
	eq("sub", x.sub(y), a.Sub(b))
	eq("cross", x.cross(y), a.Cross(b))
	eq("scale", x.mul(-3), a.Scale(-3))
	num("dot", x.dot(y), a.Dot(b))
	num("len", x.len(), a.Len())
	num("lensqr", x.dot(x), a.LenSqr())
	if *a != a0 || *b != b0 {
		t.Fail("vector-operand-changed", "an operand was changed")
	}
	if x.len() > 0 {
		c := *a
		n := c.Normalize()
		eq("normalize", x.unit(), n)
	}
	c21Misc(t, a, b)
	// four components
	p, q := &geom.Vector4{X: a.X, Y: a.Y, Z: a.Z, W: b.X + 0.5}, &geom.Vector4{X: b.Z, Y: b.Y, Z: b.X, W: a.Y - 1}
	pa, qa := [4]float64{float64(p.X), float64(p.Y), float64(p.Z), float64(p.W)}, [4]float64{float64(q.X), float64(q.Y), float64(q.Z), float64(q.W)}
	e4 := func(what string, f func(x, y float64) float64, got *geom.Vector4) {
		g := [4]float32{got.X, got.Y, got.Z, got.W}
		for i := range g {
			t.Expect(near(f(pa[i], qa[i]), float64(g[i]), 1e-5), "vector4-"+what, "%s of %v and %v: %v", what, pa, qa, g)
		}
	}
	e4("add", func(x, y float64) float64 { return x + y }, p.Add(q))
	e4("sub", func(x, y float64) float64 { return x - y }, p.Sub(q))
	e4("scale", func(x, y float64) float64 { return x * 2 }, p.Scale(2))
	e4("product", func(x, y float64) float64 { return x * y }, p.HadamardProduct(q))
	dot, ln := 0.0, 0.0
	for i := range pa {
		dot += pa[i] * qa[i]
		ln += pa[i] * pa[i]
	}
	num("dot4", dot, p.Dot(q))
	num("len4", math.Sqrt(ln), p.Len())
	num("lensqr4", ln, p.LenSqr())
	if ln > 0 {
		c := *p
		l := math.Sqrt(ln)
		e4("normalize", func(x, y float64) float64 { return x / l }, c.Normalize())
	}
	// two components
	u, w := &geom.Vector2{X: a.X, Y: a.Y}, &geom.Vector2{X: b.Y, Y: b.Z}
	num("cross2", x[0]*y[2]-x[1]*y[1], u.Cross(w))
	num("dot2", x[0]*y[1]+x[1]*y[2], u.Dot(w))
	num("len2", math.Hypot(x[0], x[1]), u.Len())
	num("lensqr2", x[0]*x[0]+x[1]*x[1], u.LenSqr())
	if s := u.Add(w); !near(x[0]+y[1], float64(s.X), 1e-5) || !near(x[1]+y[2], float64(s.Y), 1e-5) {
		t.Fail("vector2-add", "%v + %v = %v", *u, *w, *s)
	}
	if s := u.Sub(w); !near(x[0]-y[1], float64(s.X), 1e-5) || !near(x[1]-y[2], float64(s.Y), 1e-5) {
		t.Fail("vector2-sub", "%v - %v = %v", *u, *w, *s)
	}
	if s := u.Scale(-2); s.X != -2*u.X || s.Y != -2*u.Y {
		t.Fail("vector2-scale", "%v", *s)
	}
}

func init() {
	rot := func(angles []float64) func(c *Chooser) any {
		return func(c *Chooser) any {
			r := &c21rot{order: c.Free("order", 4)}
			for i := range r.a {
				r.a[i] = angles[c.Free(fmt.Sprint("angle", i), len(angles))]
			}
			return r
		}
	}
	Register(&Property{ID: "C21", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "rotations", Quick: 0, Thorough: 0, Gen: rot(c21Angles), Check: c21CheckRot,
			What: "every triple of angles from a grid with gimbal-lock, half-turn, axis-aligned and near-singular values x 4 rotation orders; each re-expressed in every order, composed, inverted, and combined with 10 scales and 3 translations"},
		{Name: "matrices", Quick: 0, Thorough: 0, Gen: func(c *Chooser) any { return &c21mat{c21Mat(c, "a"), c21Mat(c, "b")} }, Check: c21CheckMat,
			What: "all pairs of 7 matrices (incl. shear and projective) and all pairs of 8 vectors, every operation"},
		{Name: "rotations-fine", Quick: 0, Thorough: 0, Gen: rot(c21AnglesT), Check: c21CheckRot,
			What: "the same on a finer grid of angles"},
	}})
}
