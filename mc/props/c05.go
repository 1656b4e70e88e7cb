package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/fbx"

	. "modelconvmc/engine"
)

var fbxScalars = []any{
	int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int32(math.MinInt32), int16(-300), int8(-128), uint8(200), 7, -42,
	int64(140000001234567),
	float64(0), 1.0, -1.0, 0.1, -0.5, 1e6, 1e-5, -2.5e-7, 1e20, 1e21, 123456789.0, 1e300, 5e-324, math.MaxFloat64, 1.5e-10, 100000.0, 1234567.0,
	float32(0.1), float32(-1e-7), float32(1e10), float32(3.4e38), float32(16777216), float32(2),
	"", "a", "two words", "a\"b", "\"", "\"a\" and \"b\"", "&quot", "a&amp;b", "back\\slash", "C:\\tex\\new.png", "tab\tx", "line\nbreak", "日本語", "comma, colon: brace { } *3 ;semi", "emoji😀", "nul\x00x", "%d %s", "1.5", "a:b", "::", "é\u200b",
	[]byte{1, 2, 3}, []byte{}, []byte{0xfb, 0xff, 0xfe, 0x3e}, []byte{7},
}

var fbxFloats = []any{0.0, 1.0, -1.0, 0.1, 1e6, 1e-5, -2.5e-7, 1e21, 1e300, 5e-324, 100000.0}

func fbxArray(kind, n, seed int) any {
	f64 := func(i int) float64 { return fbxFloats[(i+seed)%len(fbxFloats)].(float64) }
	ints := []int64{0, 1, -1, 127, -128, 5, 100}
	i64 := func(i int) int64 { return ints[(i+seed)%len(ints)] }
	switch kind {
	case 0:
		r := make([]int32, n)
		for i := range r {
			r[i] = int32(i64(i))
			if seed > 3 {
				r[i] = int32(i64(i)) << 24
			}
		}
		return r
	case 1:
		r := make([]float64, n)
		for i := range r {
			r[i] = f64(i)
		}
		return r
	case 2:
		r := make([]float32, n)
		for i := range r {
			r[i] = float32(f64(i))
			if r[i] > 3e38 {
				r[i] = 3.25e38
			}
		}
		return r
	case 3:
		r := make([]int64, n)
		for i := range r {
			r[i] = i64(i)
			if seed%2 == 1 {
				r[i] = i64(i) * 46186158000
			}
			if seed == 2 && i == n-1 {
				r[i] = math.MaxInt64 - 1
			}
		}
		return r
	case 4:
		r := make([]int8, n)
		for i := range r {
			r[i] = int8(i64(i))
		}
		return r
	case 5:
		r := make([]int16, n)
		for i := range r {
			r[i] = int16(i64(i)) << 8
		}
		return r
	case 6: // floats that look like integers
		r := make([]float64, n)
		for i := range r {
			r[i] = float64(i64(i))
		}
		return r
	}
	panic(kind)
}

type fbxCase struct {
	top []*fnode
	bin binOpt
	st  asciiStyle
	src int
}

func (f *fbxCase) Describe() string {
	var b strings.Builder
	for _, n := range f.top {
		n.ascii(&b, 0, asciiStyle{})
	}
	return fmt.Sprintf("%v %v src %d\n%s", f.bin, f.st, f.src, b.String())
}

// all pairs of scalar values, in each position of a small tree
func c05Attrs(c *Chooser) any {
	a := fbxScalars[c.Free("a", len(fbxScalars))]
	b := fbxScalars[c.Free("b", len(fbxScalars))]
	switch c.Free("shape", 4) {
	case 0:
		return &fbxCase{top: []*fnode{fn("A", a, b), fn("B", int64(1))}}
	case 1:
		return &fbxCase{top: []*fnode{fn("A", a).with(fn("B", b), fn("C")), fn("D", "x")}}
	case 2:
		return &fbxCase{top: []*fnode{fn("A").with(fn("P", "n", "t", "", "A", a, b).with(fn("Q", a)), fn("P", b)), fn("D", a)}}
	}
	return &fbxCase{top: []*fnode{fn("A", "first", []int32{1, 2}, a).with(fn("B-2", b)), fn("D_x9", a)}}
}

func c05Arrays(c *Chooser) any {
	mk := func(l string) any {
		return fbxArray(c.Free(l+".kind", 7), FreePick(c, l+".n", 0, 1, 2, 3, 17, 40), c.Free(l+".seed", 5))
	}
	a := mk("a")
	switch c.Free("shape", 3) {
	case 0:
		return &fbxCase{top: []*fnode{fn("A", a), fn("B", int64(1))}}
	case 1:
		b := fbxArray(c.Free("b.kind", 7), FreePick(c, "b.n", 0, 2), 1)
		return &fbxCase{top: []*fnode{fn("A").with(fn("V", a), fn("W", b), fn("E")), fn("B", "s")}}
	}
	if c.Free("deep", 2) == 1 { // below d blocks
		n := fn("V", a)
		for d := c.Free("d", 12); d > 0; d-- {
			n = fn(fmt.Sprint("D", d)).with(n, fn("E", int64(d)))
		}
		return &fbxCase{top: []*fnode{n, fn("B", "s")}}
	}
	return &fbxCase{top: []*fnode{fn("A", "key", a).with(fn("V", int64(3)).with(fn("W", a)))}}
}

// all ordered trees with up to n nodes, each node with one of a few attribute lists
func c05Trees(max int) func(c *Chooser) any {
	return func(c *Chooser) any {
		n := 1 + c.Free("nodes", max)
		kinds := [][]any{{}, {int64(-5)}, {"s p", 0.25}, {[]float64{1.5, 2}}, {[]int32{}}}
		top := &fnode{}
		stack := []*fnode{top}
		for i := 0; i < n; i++ {
			d := 0
			if i > 0 {
				d = c.Free("depth", len(stack))
			}
			nd := fn(fmt.Sprintf("N%d", i), kinds[c.Choose("attrs", len(kinds))]...)
			stack = stack[:d+1]
			stack[d].ch = append(stack[d].ch, nd)
			stack = append(stack, nd)
		}
		return &fbxCase{top: top.ch}
	}
}

func c05Names(c *Chooser) any {
	names := []string{"a\x00\x01Model", "x y\x00\x01Model", "\x00\x01Material", "q\"q\x00\x01Geometry", "a::b\x00\x01Model", "日本\x00\x01Model", "back\\s\x00\x01Texture", "plain", "\"a\" \"b\"\x00\x01Model"}
	a, b := FreePick(c, "a", names...), FreePick(c, "b", names...)
	return &fbxCase{top: []*fnode{
		fn("FileId", []byte{1, 2, 3}), fn("Creator", "me"),
		fn("Objects").with(fn("Model", int64(5), a, "Mesh").with(fn("Version", int64(2)), fn("Note", "k::v")), fn("Material", int64(6), b, "")),
		fn("Connections").with(fn("C", "OO", int64(5), int64(0)), fn("C", "OP", int64(6), int64(5), FreePick(c, "p", "DiffuseColor", "a b", "x\"y"))),
	}}
}

func c05Check(t *T, v any) {
	cs := v.(*fbxCase)
	root := &fbx.Node{Name: "_FBX_ROOT"}
	for _, n := range cs.top {
		root.AddChild(n.build())
	}
	doc, err := fbx.BuildDocument(root)
	t.Must(err == nil, "build", "%v", err)
	var b1, b2 bytes.Buffer
	t.Must(fbx.Write(&b1, doc) == nil, "write", "write failed")
	t.State(b1.Bytes())
	got, err := fbx.Parse(bytes.NewReader(b1.Bytes()))
	t.Must(err == nil, "parse", "the written file is rejected: %v\n%s", err, b1.String())
	want := cs.top
	if want[0].name == "FileId" {
		want = want[1:] // binary files only
	}
	d := &diffs{}
	d.nodes("", want, got.RawNode.Children, false)
	t.Must(d.empty(), "reparse", "%s\n%s", d, b1.String())
	t.Must(fbx.Write(&b2, got) == nil, "write", "second write failed")
	t.Must(bytes.Equal(b1.Bytes(), b2.Bytes()), "fixpoint", "the second write differs:\n%s\n---\n%s", b1.String(), b2.String())
	t.Extra(1)
}

func init() {
	Register(&Property{ID: "C05", Level: "model_checking",
		Rule: "node trees over a value alphabet (all pairs of scalars, all array kinds x sizes, all ordered tree shapes up to the size bound), written and reparsed by the real code, written again",
		Scenarios: []*Scenario{
			{Name: "scalars", Gen: c05Attrs, Check: c05Check, What: "all pairs of scalar attribute values x 4 node shapes"},
			{Name: "arrays", Gen: c05Arrays, Check: c05Check, What: "array kinds x sizes x value patterns x node shapes"},
			{Name: "trees", Gen: c05Trees(6), Check: c05Check, Quick: 3, Thorough: 6, What: "all ordered trees of up to 6 nodes, attribute lists deviating at up to B nodes"},
			{Name: "sizes", Gen: c05Sizes, Check: c05Check, What: "arrays, strings, children, depth, attributes of size n, n around every power of two up to 65537"},
			{Name: "names", Gen: c05Names, Check: c05Check, What: "object names with class suffix, file id, connections"},
		}})
}
