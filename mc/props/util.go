// Package props holds the properties: generators, reference models, checks.
package props

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/binzume/modelconv/geom"
)

func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func near32(a, b float32, tol float64) bool { return near(float64(a), float64(b), tol) }

// abs tolerance
func within(a, b float32, tol float64) bool {
	return a == b || math.Abs(float64(a)-float64(b)) <= tol
}

func v3near(a, b *geom.Vector3, tol float64) bool {
	return near32(a.X, b.X, tol) && near32(a.Y, b.Y, tol) && near32(a.Z, b.Z, tol)
}

func v2near(a, b geom.Vector2, tol float64) bool {
	return near32(a.X, b.X, tol) && near32(a.Y, b.Y, tol)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// diffs collects differences.
type diffs struct{ list []string }

func (d *diffs) add(f string, a ...any) {
	if len(d.list) < 5000 {
		d.list = append(d.list, fmt.Sprintf(f, a...))
	}
}
func (d *diffs) eq(what string, a, b any) {
	if a != b {
		d.add("%s: want %v, got %v", what, a, b)
	}
}
func (d *diffs) f32(what string, a, b float32, tol float64) {
	if !near32(a, b, tol) {
		d.add("%s: want %v, got %v", what, a, b)
	}
}
func (d *diffs) fabs(what string, a, b float32, tol float64) {
	if !within(a, b, tol) {
		d.add("%s: want %v, got %v", what, a, b)
	}
}
func (d *diffs) v3(what string, a, b *geom.Vector3, tol float64) {
	if (a == nil) != (b == nil) {
		d.add("%s: want %v, got %v", what, a, b)
		return
	}
	if a != nil && !v3near(a, b, tol) {
		d.add("%s: want %v, got %v", what, *a, *b)
	}
}
func (d *diffs) empty() bool { return len(d.list) == 0 }
func (d *diffs) String() string {
	if len(d.list) > 6 {
		return strings.Join(d.list[:6], "; ") + fmt.Sprintf("; %d more", len(d.list)-6)
	}
	return strings.Join(d.list, "; ")
}

var errInjected = errors.New("injected write failure")

// budgetWriter accepts budget bytes, then fails.
type budgetWriter struct {
	budget int
	n      int
	fails  int
	calls  int
}

func (w *budgetWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.n+len(p) > w.budget {
		k := w.budget - w.n
		w.n = w.budget
		w.fails++
		return k, errInjected
	}
	w.n += len(p)
	return len(p), nil
}

// onlyReader hides everything but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func v3(x, y, z float32) geom.Vector3   { return geom.Vector3{X: x, Y: y, Z: z} }
func pv3(x, y, z float32) *geom.Vector3 { return &geom.Vector3{X: x, Y: y, Z: z} }

func geomV4(x, y, z, w float32) geom.Vector4 { return geom.Vector4{X: x, Y: y, Z: z, W: w} }

func writeFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic("engine: " + err.Error())
	}
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return b
}
