// Package engine is a stateless, exhaustive, deviation-bounded explorer.
//
// A scenario's generator draws every decision from a Chooser.  Option 0 of a
// decision is the default.  Any other option costs one deviation; Free
// decisions cost nothing.  The explorer runs every path whose total cost is at
// most the bound, in order of increasing cost.
package engine

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

type point struct {
	n     int
	val   int
	free  bool
	label string
}

// Chooser resolves the decisions of one path.
type Chooser struct {
	vec []int
	pts []point
	fn  func(label string, n int) int
}

// Fixed makes a chooser that decides by f.
func Fixed(f func(label string, n int) int) *Chooser { return &Chooser{fn: f} }

// Replay makes a chooser that follows vec, and the defaults after it.
func Replay(vec []int) *Chooser { return &Chooser{vec: vec} }

func (c *Chooser) draw(label string, n int, free bool) int {
	if n <= 0 {
		panic("engine: empty choice " + label)
	}
	v := 0
	if len(c.pts) < len(c.vec) {
		v = c.vec[len(c.pts)]
		if v >= n {
			panic(fmt.Sprintf("engine: replay out of range at %s: %d of %d", label, v, n))
		}
	}
	if c.fn != nil {
		v = c.fn(label, n)
	}
	c.pts = append(c.pts, point{n, v, free, label})
	return v
}

// Choose takes one of n options; all but option 0 cost a deviation.
func (c *Chooser) Choose(label string, n int) int { return c.draw(label, n, false) }

// Free takes one of n options at no cost (all are always explored).
func (c *Chooser) Free(label string, n int) int { return c.draw(label, n, true) }

// Flag is a two-way Choose.
func (c *Chooser) Flag(label string) bool { return c.Choose(label, 2) == 1 }

// FreeFlag is a two-way Free.
func (c *Chooser) FreeFlag(label string) bool { return c.Free(label, 2) == 1 }

// Pick is Choose over values.
func Pick[V any](c *Chooser, label string, vs ...V) V { return vs[c.Choose(label, len(vs))] }

// FreePick is Free over values.
func FreePick[V any](c *Chooser, label string, vs ...V) V { return vs[c.Free(label, len(vs))] }

// Vec returns the decisions taken.
func (c *Chooser) Vec() []int {
	r := make([]int, len(c.pts))
	for i, p := range c.pts {
		r[i] = p.val
	}
	return r
}

// Cost is the number of deviations taken.
func (c *Chooser) Cost() int {
	n := 0
	for _, p := range c.pts {
		if !p.free && p.val != 0 {
			n++
		}
	}
	return n
}

// Trace describes the non-default decisions.
func (c *Chooser) Trace() string {
	var b strings.Builder
	for _, p := range c.pts {
		if p.val != 0 || p.free {
			if b.Len() > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "%s=%d", p.label, p.val)
		}
	}
	if b.Len() == 0 {
		return "(defaults)"
	}
	return b.String()
}

func next(pts []point, bound int) []int {
	pre := make([]int, len(pts)+1)
	for i, p := range pts {
		pre[i+1] = pre[i]
		if !p.free && p.val != 0 {
			pre[i+1]++
		}
	}
	for i := len(pts) - 1; i >= 0; i-- {
		p := pts[i]
		if p.val+1 >= p.n {
			continue
		}
		cost := 1
		if p.free {
			cost = 0
		}
		if pre[i]+cost > bound {
			continue
		}
		vec := make([]int, i+1)
		for j := 0; j < i; j++ {
			vec[j] = pts[j].val
		}
		vec[i] = p.val + 1
		return vec
	}
	return nil
}

// Scenario is one exhaustively explored space.
type Scenario struct {
	Name            string
	Gen             func(c *Chooser) any // nil result: path pruned
	Check           func(t *T, v any)
	Quick, Thorough int
	What            string // what is enumerated, for the evidence
}

// T collects what one execution found.
type T struct {
	dir      string
	made     []string
	Fails    []Failure
	hash     uint64
	hasState bool
	checks   int
	extra    int // sub-executions done inside one case
	Cleanups []func()
}

// beat reports progress to the parent process.
var beat = func() {}

type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

type stop struct{}

// Fail records a violation; key names the observation that was wrong.
func (t *T) Fail(key, format string, args ...any) {
	if len(t.Fails) < 8 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 2000 {
			m = m[:2000] + "..."
		}
		t.Fails = append(t.Fails, Failure{key, m})
	}
}

// Fatal is Fail, then end this execution.
func (t *T) Fatal(key, format string, args ...any) {
	t.Fail(key, format, args...)
	panic(stop{})
}

// OK counts one comparison against the reference that agreed.
func (t *T) OK() { t.checks++; beat() }

// Expect counts a comparison, and fails if it does not hold.
func (t *T) Expect(ok bool, key, format string, args ...any) bool {
	t.checks++
	beat()
	if !ok {
		t.Fail(key, format, args...)
	}
	return ok
}

// Must is Expect that ends the execution on failure.
func (t *T) Must(ok bool, key, format string, args ...any) {
	t.checks++
	beat()
	if !ok {
		t.Fatal(key, format, args...)
	}
}

// Extra counts further executions of the code under test within one case.
func (t *T) Extra(n int) { t.extra += n }

// State sets the fingerprint of the explored state.
func (t *T) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0})
	}
	t.hash, t.hasState = h.Sum64(), true
}

// Dir makes a scratch directory that is removed after the case.
func (t *T) Dir() string {
	d, err := os.MkdirTemp(t.dir, "case")
	if err != nil {
		panic("engine: " + err.Error())
	}
	t.made = append(t.made, d)
	return d
}

// Path is a file path in a fresh scratch directory.
func (t *T) Path(name string) string { return filepath.Join(t.Dir(), name) }

func (t *T) finish() {
	for _, f := range t.Cleanups {
		f()
	}
	for _, d := range t.made {
		os.RemoveAll(d)
	}
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// genPanic stands for a case whose building panicked inside the library under
// check (the generators call its constructors).
type genPanic struct{ What string }

// gen builds one case; a panic in it becomes a case that fails.
func (s *Scenario) gen(c *Chooser) (v any) {
	defer func() {
		if r := recover(); r != nil {
			v = genPanic{fmt.Sprintf("panic while the input was built: %v\n%s", r, trimStack(string(debug.Stack())))}
		}
	}()
	return s.Gen(c)
}

// runCase executes one case, turning panics into failures.
func runCase(s *Scenario, v any, trace string, dir string) (t *T) {
	t = &T{dir: dir}
	defer t.finish()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			st := string(debug.Stack())
			t.Fail("panic", "panic: %v\n%s", r, trimStack(st))
		}
	}()
	t.hash = hashString(s.Name + "|" + trace)
	if g, ok := v.(genPanic); ok {
		t.checks++
		t.Fail("panic", "%s", g.What)
		return t
	}
	s.Check(t, v)
	return t
}

func trimStack(st string) string {
	i := strings.Index(st, "panic(")
	if i >= 0 {
		st = st[i:]
	}
	lines := strings.Split(st, "\n")
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}
