package props

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/fbx"
)

// An FBX node tree as data, independent of the library.  Attribute values are
// int8 uint8 int16 int32 int64 int float32 float64 string []byte and numeric slices.
type fnode struct {
	name string
	at   []any
	ch   []*fnode
}

func fn(name string, at ...any) *fnode { return &fnode{name: name, at: at} }

func (n *fnode) with(ch ...*fnode) *fnode { n.ch = append(n.ch, ch...); return n }

func (n *fnode) find(name string) *fnode {
	for _, c := range n.ch {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (n *fnode) build() *fbx.Node {
	r := fbx.NewNode(n.name, n.at...)
	for _, c := range n.ch {
		r.AddChild(c.build())
	}
	return r
}

func (n *fnode) text() string {
	var b strings.Builder
	n.ascii(&b, 0, asciiStyle{})
	return b.String()
}

// ---- independent binary encoder

type binOpt struct {
	version  uint32
	compress int // 0 none, 1 all, 2 every second array
	footer   int // 0 none, 1 standard, 2 random bytes
}

func (o binOpt) String() string {
	return fmt.Sprintf("version %d compress %d footer %d", o.version, o.compress, o.footer)
}

type binEnc struct {
	opt    binOpt
	arrays int
}

func (e *binEnc) prop(b *bytes.Buffer, v any) {
	le := binary.LittleEndian
	w := func(t byte, x any) { b.WriteByte(t); binary.Write(b, le, x) }
	arr := func(t byte, x any, n int) {
		b.WriteByte(t)
		var raw bytes.Buffer
		binary.Write(&raw, le, x)
		data, enc := raw.Bytes(), uint32(0)
		e.arrays++
		if e.opt.compress == 1 || e.opt.compress == 2 && e.arrays%2 == 1 {
			var z bytes.Buffer
			zw := zlib.NewWriter(&z)
			zw.Write(data)
			zw.Close()
			data, enc = z.Bytes(), 1
		}
		binary.Write(b, le, [3]uint32{uint32(n), enc, uint32(len(data))})
		b.Write(data)
	}
	switch x := v.(type) {
	case int8:
		w('B', x)
	case uint8:
		w('C', x)
	case int16:
		w('Y', x)
	case int32:
		w('I', x)
	case int64:
		w('L', x)
	case float32:
		w('F', x)
	case float64:
		w('D', x)
	case string:
		w('S', uint32(len(x)))
		b.WriteString(x)
	case []byte:
		w('R', uint32(len(x)))
		b.Write(x)
	case []int8:
		arr('b', x, len(x))
	case []int16:
		arr('y', x, len(x))
	case []int32:
		arr('i', x, len(x))
	case []int64:
		arr('l', x, len(x))
	case []float32:
		arr('f', x, len(x))
	case []float64:
		arr('d', x, len(x))
	default:
		panic(fmt.Sprintf("no binary form for %T", v))
	}
}

func (e *binEnc) hdr() int {
	if e.opt.version >= 7500 {
		return 25
	}
	return 13
}

func (e *binEnc) node(n *fnode, off int) []byte {
	var props bytes.Buffer
	for _, a := range n.at {
		e.prop(&props, a)
	}
	var body bytes.Buffer
	at := off + e.hdr() + len(n.name) + props.Len()
	for _, c := range n.ch {
		b := e.node(c, at+body.Len())
		body.Write(b)
	}
	if len(n.ch) > 0 || len(n.at) == 0 {
		body.Write(make([]byte, e.hdr()))
	}
	end := at + body.Len()
	var b bytes.Buffer
	if e.opt.version >= 7500 {
		binary.Write(&b, binary.LittleEndian, [3]uint64{uint64(end), uint64(len(n.at)), uint64(props.Len())})
	} else {
		binary.Write(&b, binary.LittleEndian, [3]uint32{uint32(end), uint32(len(n.at)), uint32(props.Len())})
	}
	b.WriteByte(byte(len(n.name)))
	b.WriteString(n.name)
	b.Write(props.Bytes())
	b.Write(body.Bytes())
	return b.Bytes()
}

func encodeFBX(top []*fnode, opt binOpt) []byte {
	var b bytes.Buffer
	b.WriteString("Kaydara FBX Binary  \x00\x1a\x00")
	binary.Write(&b, binary.LittleEndian, opt.version)
	e := &binEnc{opt: opt}
	for _, n := range top {
		b.Write(e.node(n, b.Len()))
	}
	b.Write(make([]byte, e.hdr()))
	switch opt.footer {
	case 1:
		b.Write([]byte{0xfa, 0xbc, 0xab, 0x09, 0xd0, 0xc8, 0xd4, 0x66, 0xb1, 0x76, 0xfb, 0x83, 0x1c, 0xf7, 0x26, 0x7e})
		b.Write(make([]byte, 4+(16-b.Len()%16)%16))
		binary.Write(&b, binary.LittleEndian, opt.version)
		b.Write(make([]byte, 120))
		b.Write([]byte{0xf8, 0x5a, 0x8c, 0x6a, 0xde, 0xf5, 0xd9, 0x7e, 0xec, 0xe9, 0x0c, 0xe3, 0x75, 0x8f, 0x29, 0x0b})
	case 2:
		for i := 0; i < 64; i++ {
			b.WriteByte(byte(i*37 + 1))
		}
	}
	return b.Bytes()
}

// ---- independent ASCII encoder

type asciiStyle struct {
	crlf    bool
	tabs    bool
	comment bool // comments and blank lines between nodes
	wrap    int  // array elements per line, 0: one line
	nospace bool // no space after colons and commas
	exp     int  // 0 shortest, 1 always exponent, 2 always decimals, 3 upper case exponent, 4 no leading zero of fractions, leading zeros of integers
	noFinal bool // no newline after the last block
	trail   bool // comments after values
	attrs   int  // attributes per line, 0: one line
	lead    bool // continuation lines start with the comma
	head    int  // first comment line: 0 usual, 1 "; FBX", 2 ";"
}

func (s asciiStyle) String() string { type plain asciiStyle; return fmt.Sprintf("%+v", plain(s)) }

func (s asciiStyle) num(v any) string {
	f := func(x float64, bits int) string {
		switch s.exp {
		case 1:
			return strconv.FormatFloat(x, 'e', -1, bits)
		case 2:
			t := strconv.FormatFloat(x, 'f', -1, bits)
			if !strings.Contains(t, ".") {
				t += ".0"
			}
			return t
		case 3:
			return strconv.FormatFloat(x, 'E', -1, bits)
		case 4:
			t := strconv.FormatFloat(x, 'f', -1, bits)
			if !strings.Contains(t, ".") {
				return t + "."
			}
			if strings.HasPrefix(t, "0.") {
				return t[1:]
			}
			return strings.Replace(t, "-0.", "-.", 1)
		}
		return strconv.FormatFloat(x, 'g', -1, bits)
	}
	switch x := v.(type) {
	case float32:
		return f(float64(x), 32)
	case float64:
		return f(x, 64)
	}
	if t := fmt.Sprint(v); s.exp == 4 {
		if strings.HasPrefix(t, "-") {
			return "-0" + t[1:]
		}
		return "0" + t
	}
	return fmt.Sprint(v)
}

func asciiName(s string) string {
	if i := strings.Index(s, "\x00\x01"); i >= 0 {
		s = s[i+2:] + "::" + s[:i]
	}
	return strings.ReplaceAll(s, "\"", "&quot;")
}

func (n *fnode) ascii(b *strings.Builder, d int, st asciiStyle) {
	nl := "\n"
	if st.crlf {
		nl = "\r\n"
	}
	ind := strings.Repeat("    ", d)
	if st.tabs {
		ind = strings.Repeat("\t", d)
	}
	sp := " "
	if st.nospace {
		sp = ""
	}
	if st.comment {
		b.WriteString(ind + "; a comment: with { brackets } and \"quotes\", 1" + nl + nl + "  ;" + nl)
	}
	b.WriteString(ind + n.name + ":")
	for i, a := range n.at {
		if i > 0 {
			brk := st.attrs > 0 && i%st.attrs == 0
			if brk && st.lead {
				b.WriteString(nl + ind)
			}
			b.WriteString(",")
			if brk && !st.lead {
				b.WriteString(nl + ind)
			}
		}
		b.WriteString(sp)
		if s, ok := a.(string); ok {
			b.WriteString("\"" + asciiName(s) + "\"")
			continue
		}
		if s, ok := a.([]byte); ok {
			b.WriteString("\"" + base64.StdEncoding.EncodeToString(s) + "\"")
			continue
		}
		rv := reflect.ValueOf(a)
		if rv.Kind() == reflect.Slice {
			fmt.Fprintf(b, "*%d {%s%s    a:%s", rv.Len(), nl, ind, sp)
			for k := 0; k < rv.Len(); k++ {
				if k > 0 {
					b.WriteString(",")
					if st.wrap > 0 && k%st.wrap == 0 {
						b.WriteString(nl)
					}
				}
				b.WriteString(st.num(rv.Index(k).Interface()))
			}
			b.WriteString(nl + ind + "}")
			continue
		}
		b.WriteString(st.num(a))
	}
	if len(n.ch) > 0 || len(n.at) == 0 {
		b.WriteString(" {" + nl)
		for _, c := range n.ch {
			c.ascii(b, d+1, st)
		}
		b.WriteString(ind + "}")
	}
	if st.trail {
		b.WriteString(" ; a, comment: {")
	}
	b.WriteString(nl)
}

func encodeASCII(top []*fnode, st asciiStyle) []byte {
	var b strings.Builder
	nl := "\n"
	if st.crlf {
		nl = "\r\n"
	}
	b.WriteString([]string{"; FBX 7.4.0 project file" + nl + "; ----", "; FBX", ";"}[st.head] + nl)
	for _, n := range top {
		n.ascii(&b, 0, st)
	}
	if s := b.String(); st.noFinal && strings.HasSuffix(s, "}"+nl) {
		return []byte(strings.TrimSuffix(s, nl))
	}
	return []byte(b.String())
}

// ---- comparison

func asFloat(v any) (float64, bool) {
	switch x := v.(type) {
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	if i, ok := asInt(v); ok {
		return float64(i), true
	}
	return 0, false
}

func asInt(v any) (int64, bool) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int(), true
	case reflect.Uint8:
		return int64(rv.Uint()), true
	}
	return 0, false
}

// sameNumber: want may have been narrowed to its own precision by text.
func sameNumber(want, got any) bool {
	if w, ok := asInt(want); ok {
		g, ok := asInt(got)
		return ok && g == w
	}
	g, ok := asFloat(got)
	if !ok {
		return false
	}
	switch w := want.(type) {
	case float32:
		return float32(g) == w
	case float64:
		return g == w
	}
	return false
}

func isNumSlice(v any) (reflect.Value, bool) {
	if _, raw := v.([]byte); raw {
		return reflect.Value{}, false
	}
	rv := reflect.ValueOf(v)
	return rv, rv.IsValid() && rv.Kind() == reflect.Slice
}

// sameValue compares an attribute with what it was written as. exact: binary, types included.
func sameValue(want, got any, exact bool) bool {
	if exact {
		if rv, ok := isNumSlice(want); ok && rv.Len() == 0 {
			gv, ok := isNumSlice(got)
			return ok && gv.Len() == 0
		}
		if b, ok := want.([]byte); ok {
			g, ok := got.([]byte)
			return ok && bytes.Equal(b, g)
		}
		return reflect.DeepEqual(want, got)
	}
	if wv, ok := isNumSlice(want); ok {
		gv, ok := isNumSlice(got)
		if !ok || gv.Len() != wv.Len() {
			return false
		}
		for i := 0; i < wv.Len(); i++ {
			if !sameNumber(wv.Index(i).Interface(), gv.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	switch w := want.(type) {
	case string:
		return got == any(w)
	case []byte:
		return got == any(base64.StdEncoding.EncodeToString(w))
	}
	return sameNumber(want, got)
}

func (d *diffs) nodes(path string, want []*fnode, got []*fbx.Node, exact bool) {
	if len(want) != len(got) {
		var names []string
		for _, g := range got {
			names = append(names, g.Name)
		}
		d.add("%s: want %d children, got %d %v", path, len(want), len(got), names)
		return
	}
	for i, w := range want {
		g := got[i]
		p := path + "/" + w.name
		if g.Name != w.name {
			d.add("%s: node %d is %q, want %q", path, i, g.Name, w.name)
			return
		}
		if len(g.Attributes) != len(w.at) {
			d.add("%s: %d attributes, want %d", p, len(g.Attributes), len(w.at))
			return
		}
		for k := range w.at {
			if g.Attributes[k] == nil || !sameValue(w.at[k], g.Attributes[k].Value, exact) {
				var gv any
				if g.Attributes[k] != nil {
					gv = g.Attributes[k].Value
				}
				d.add("%s: attribute %d is %T %v, want %T %v", p, k, gv, gv, w.at[k], w.at[k])
			}
		}
		for k := range w.at {
			d.accessors(fmt.Sprintf("%s: attribute %d", p, k), w.at[k], g.Attributes[k])
		}
		d.nodes(p, w.ch, g.Children, exact)
	}
}

// accessors compares what the typed accessors say with the value that was encoded.
func (d *diffs) accessors(p string, want any, got *fbx.Attribute) {
	if got == nil {
		return
	}
	switch w := want.(type) {
	case string:
		if got.ToString() != w {
			d.add("%s: ToString %q, want %q", p, got.ToString(), w)
		}
		return
	case []byte:
		return
	case float32, float64:
		f := reflect.ValueOf(w).Float()
		if x := got.ToFloat64(77); !sameNumber(want, x) {
			d.add("%s: ToFloat64 %v, want %v", p, x, f)
		}
		return
	}
	rv := reflect.ValueOf(want)
	num := func(v reflect.Value) (float64, int64, bool) {
		switch {
		case v.CanInt():
			return float64(v.Int()), v.Int(), true
		case v.CanUint():
			return float64(v.Uint()), int64(v.Uint()), true
		}
		return v.Float(), 0, false
	}
	if rv.Kind() != reflect.Slice {
		f, i, _ := num(rv)
		if x := got.ToInt64(77); x != i {
			d.add("%s: ToInt64 %v, want %v", p, x, i)
		}
		if x := got.ToFloat64(77); x != f {
			d.add("%s: ToFloat64 %v, want %v", p, x, f)
		}
		return
	}
	fs, is := got.ToFloat32Array(), got.ToInt32Array()
	floats, ints := false, true
	switch want.(type) {
	case []float32, []float64:
		floats, ints = true, false
	case []int32, []int64:
		floats = true
	}
	if floats && len(fs) != rv.Len() {
		d.add("%s: ToFloat32Array has %d values, want %d", p, len(fs), rv.Len())
		return
	}
	if ints && len(is) != rv.Len() {
		d.add("%s: ToInt32Array has %d values, want %d", p, len(is), rv.Len())
		return
	}
	for k := 0; k < rv.Len(); k++ {
		f, i, _ := num(rv.Index(k))
		if floats && fs[k] != float32(f) {
			d.add("%s: ToFloat32Array %d is %v, want %v", p, k, fs[k], f)
			return
		}
		if ints && int64(int32(i)) == i && is[k] != int32(i) {
			d.add("%s: ToInt32Array %d is %v, want %v", p, k, is[k], i)
			return
		}
	}
}

var _ = math.MaxInt64
