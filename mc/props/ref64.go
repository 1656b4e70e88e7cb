package props

import (
	"math"

	"github.com/binzume/modelconv/geom"
)

// Independent linear algebra in float64. m4[row][col], applied to column vectors.
type m4 [4][4]float64
type v3d [3]float64

func m4id() m4 {
	return m4{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}
}

func (a m4) mul(b m4) (r m4) {
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			for k := 0; k < 4; k++ {
				r[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a m4) apply(v v3d) (r v3d) {
	for i := 0; i < 3; i++ {
		r[i] = a[i][0]*v[0] + a[i][1]*v[1] + a[i][2]*v[2] + a[i][3]
	}
	return
}

func (a m4) dir(v v3d) (r v3d) {
	for i := 0; i < 3; i++ {
		r[i] = a[i][0]*v[0] + a[i][1]*v[1] + a[i][2]*v[2]
	}
	return
}

func m4t(t v3d) m4 {
	m := m4id()
	m[0][3], m[1][3], m[2][3] = t[0], t[1], t[2]
	return m
}

func m4s(s v3d) m4 { return m4{{s[0], 0, 0, 0}, {0, s[1], 0, 0}, {0, 0, s[2], 0}, {0, 0, 0, 1}} }

// rotation about axis 0,1,2 by degrees
func m4r(axis int, deg float64) m4 {
	s, c := math.Sincos(deg * math.Pi / 180)
	switch math.Mod(deg, 360) { // exact at right angles
	case 90, -270:
		s, c = 1, 0
	case 180, -180:
		s, c = 0, -1
	case 270, -90:
		s, c = -1, 0
	}
	m := m4id()
	i, j := (axis+1)%3, (axis+2)%3
	m[i][i], m[i][j], m[j][i], m[j][j] = c, -s, s, c
	return m
}

// quaternion to matrix
func m4q(x, y, z, w float64) m4 {
	return m4{
		{1 - 2*(y*y+z*z), 2 * (x*y - z*w), 2 * (x*z + y*w), 0},
		{2 * (x*y + z*w), 1 - 2*(x*x+z*z), 2 * (y*z - x*w), 0},
		{2 * (x*z - y*w), 2 * (y*z + x*w), 1 - 2*(x*x+y*y), 0},
		{0, 0, 0, 1}}
}

func m4cols(f []float64) (m m4) {
	for i, x := range f {
		m[i%4][i/4] = x
	}
	return
}

func m4geom(g *geom.Matrix4) (m m4) {
	for i, x := range g {
		m[i%4][i/4] = float64(x)
	}
	return
}

func (a m4) cols() []float64 {
	r := make([]float64, 16)
	for i := range r {
		r[i] = a[i%4][i/4]
	}
	return r
}

func (a m4) geom() *geom.Matrix4 {
	var g geom.Matrix4
	for i := range g {
		g[i] = float32(a[i%4][i/4])
	}
	return &g
}

func (a m4) det3() float64 {
	return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
}

// inverse by Gauss-Jordan; ok false if singular
func (a m4) inv() (m4, bool) {
	r := m4id()
	for c := 0; c < 4; c++ {
		p := c
		for i := c; i < 4; i++ {
			if math.Abs(a[i][c]) > math.Abs(a[p][c]) {
				p = i
			}
		}
		if math.Abs(a[p][c]) < 1e-12 {
			return r, false
		}
		a[c], a[p] = a[p], a[c]
		r[c], r[p] = r[p], r[c]
		d := a[c][c]
		for j := 0; j < 4; j++ {
			a[c][j] /= d
			r[c][j] /= d
		}
		for i := 0; i < 4; i++ {
			if i != c {
				f := a[i][c]
				for j := 0; j < 4; j++ {
					a[i][j] -= f * a[c][j]
					r[i][j] -= f * r[c][j]
				}
			}
		}
	}
	return r, true
}

func (a m4) transposed() (r m4) {
	for i := range a {
		for j := range a[i] {
			r[j][i] = a[i][j]
		}
	}
	return
}

func (a m4) near(b m4, tol float64) bool {
	for i := range a {
		for j := range a[i] {
			if !near(a[i][j], b[i][j], tol) {
				return false
			}
		}
	}
	return true
}

func (a v3d) add(b v3d) v3d     { return v3d{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a v3d) sub(b v3d) v3d     { return v3d{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a v3d) mul(s float64) v3d { return v3d{a[0] * s, a[1] * s, a[2] * s} }
func (a v3d) had(b v3d) v3d     { return v3d{a[0] * b[0], a[1] * b[1], a[2] * b[2]} }
func (a v3d) dot(b v3d) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a v3d) len() float64      { return math.Sqrt(a.dot(a)) }
func (a v3d) cross(b v3d) v3d {
	return v3d{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a v3d) unit() v3d {
	if l := a.len(); l > 0 {
		return a.mul(1 / l)
	}
	return a
}
func (a v3d) near(b v3d, tol float64) bool {
	return near(a[0], b[0], tol) && near(a[1], b[1], tol) && near(a[2], b[2], tol)
}
func (a v3d) geom() *geom.Vector3 { return pv3(float32(a[0]), float32(a[1]), float32(a[2])) }

func v3g(v *geom.Vector3) v3d { return v3d{float64(v.X), float64(v.Y), float64(v.Z)} }

func (d *diffs) m4(what string, want m4, got *geom.Matrix4, tol float64) {
	if got == nil || !want.near(m4geom(got), tol) {
		d.add("%s: want %v, got %v", what, want, got)
	}
}

func (d *diffs) v3d(what string, want v3d, got *geom.Vector3, tol float64) {
	if got == nil || !want.near(v3g(got), tol) && v3g(got).sub(want).len() > 1e-6*(want.len()+1) {
		d.add("%s: want %v, got %v", what, want, got)
	}
}
