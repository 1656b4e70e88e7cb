package props

import (
	"bytes"
	"fmt"
	"path/filepath"
	"regexp"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// openAt tells for each prefix of an FBX ASCII file whether it ends inside a block or a string.
func openAt(data []byte) []bool {
	r := make([]bool, len(data)+1)
	depth, str, comment := 0, false, false
	for i, c := range data {
		switch {
		case comment:
			comment = c != '\n'
		case str:
			str = c != '"'
		case c == '"':
			str = true
		case c == ';':
			comment = true
		case c == '{':
			depth++
		case c == '}':
			depth--
		}
		r[i+1] = depth > 0 || str
	}
	return r
}

func c08Truncate(t *T, v any) {
	f := v.(*cfile)
	t.State(f.data)
	whole, err := f.parse(bytes.NewReader(f.data))
	t.Must(err == nil, "parse", "a well-formed %s file is rejected: %v", f.format, err)
	var open []bool
	if f.text {
		open = openAt(f.data)
	}
	for k := 0; k < len(f.data); k++ {
		got, err := f.parse(bytes.NewReader(f.data[:k]))
		if f.text {
			if open[k] {
				t.Must(err != nil, "accepted", "%s cut at byte %d of %d is accepted", f.format, k, len(f.data))
			} else if err == nil && k > 0 {
				// what was read has to be a prefix of the file's nodes
				all, some := whole.(*fbx.Node).Children, got.(*fbx.Node).Children
				t.Must(len(some) <= len(all), "prefix", "cut at byte %d: %d nodes of %d", k, len(some), len(all))
				for i := range some {
					if i < len(some)-1 {
						t.Must(sameDoc(some[i], all[i]), "prefix", "cut at byte %d: node %d differs", k, i)
					}
				}
			}
			t.OK()
		} else if k < f.need {
			t.Must(err != nil, "accepted", "%s cut at byte %d of %d is accepted", f.format, k, len(f.data))
		} else {
			t.Must(err == nil, "rejected", "%s cut at byte %d of %d, after all that is needed, is rejected: %v", f.format, k, len(f.data), err)
		}
	}
	t.Extra(len(f.data))
}

var c08Patterns = [][]byte{
	{0xff}, {0x00}, {0x7f}, {0x80}, {0x04},
	{0xff, 0xff}, {0xff, 0x7f}, {0x00, 0x80},
	{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0x80}, {0, 0, 0, 0}, {0, 0, 0x10, 0},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0, 1, 0, 0, 0},
}

func c08Corrupt(t *T, v any) {
	f := v.(*cfile)
	t.State(f.data)
	n := 0
	buf := make([]byte, len(f.data))
	for k := range f.data {
		for _, p := range c08Patterns {
			if k+len(p) > len(f.data) || bytes.Equal(f.data[k:k+len(p)], p) {
				continue
			}
			copy(buf, f.data)
			copy(buf[k:], p)
			n++
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatal("panic", "%s with % x written at byte %d: panic: %v", f.format, p, k, r)
					}
				}()
				f.parse(bytes.NewReader(buf))
			}()
			t.OK()
		}
	}
	t.Extra(n)
}

var c08Num = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?`)

// damage to text files: numbers, brackets, quotes, line ends
func c08Text(t *T, v any) {
	f := v.(*cfile)
	t.State(f.data)
	n := 0
	try := func(b []byte, what string, k int, wrong bool) {
		n++
		defer func() {
			if r := recover(); r != nil {
				t.Fatal("panic", "%s, %s at byte %d: panic: %v\n%s", f.format, what, k, r, b)
			}
		}()
		_, err := f.parse(bytes.NewReader(b))
		t.Expect(!wrong || err != nil, "accepted", "%s, array length changed, %s at byte %d is accepted\n%s", f.format, what, k, b)
	}
	cat := func(a []byte, s string, b []byte) []byte {
		return append(append(append(make([]byte, 0, len(a)+len(s)+len(b)), a...), s...), b...)
	}
	for _, m := range c08Num.FindAllIndex(f.data, -1) {
		for _, s := range []string{"-1", "0", "2147483647", "99999999999", "-9999999999999999999999", "1e400", "", "x", "1.5", "{", "\"\""} {
			try(cat(f.data[:m[0]], s, f.data[m[1]:]), "number replaced by "+s, m[0], f.text && m[0] > 0 && f.data[m[0]-1] == '*' && s != string(f.data[m[0]:m[1]]))
		}
	}
	for k, c := range f.data {
		switch c {
		case '{', '}', '(', ')', '"', '\n', ':', '*', ',', '<', '>', '/', '=':
			try(cat(f.data[:k], "", f.data[k+1:]), "byte removed", k, false)
			try(cat(f.data[:k], string(c)+string(c), f.data[k+1:]), "byte doubled", k, false)
			try(cat(f.data[:k], " ", f.data[k+1:]), "byte blanked", k, false)
		}
	}
	t.Extra(n)
}

func c08Bin(c *Chooser) any {
	f := corpusFile(c)
	if f == nil || !f.binary {
		return nil
	}
	return f
}

func c08Txt(c *Chooser) any {
	f := corpusFile(c)
	if f == nil || f.binary {
		return nil
	}
	return f
}

func c08Gen(c *Chooser) any {
	if f := corpusFile(c); f != nil {
		return f
	}
	return nil
}

// saved files
type c08File struct {
	name  string
	build func() *mqo.Document
}

func (c *c08File) Describe() string { return c.name }

func c08Saved(c *Chooser) any {
	return &c08File{FreePick(c, "file", "x.mqoz", "x.mqo", "x.fbx", "x.pmx"), frozen(c, []func(*Chooser) *mqo.Document{c02Bones, c02Other}[c.Free("kind", 2)])}
}

func c08CheckSaved(t *T, v any) {
	cs := v.(*c08File)
	dir := t.Dir()
	path := filepath.Join(dir, cs.name)
	load := func() error {
		switch filepath.Ext(cs.name) {
		case ".fbx":
			_, err := fbx.Load(path)
			return err
		case ".pmx":
			_, err := mmd.Load(path)
			return err
		}
		_, err := mqo.Load(path)
		return err
	}
	target := path
	var data []byte
	need := -1
	switch cs.name {
	case "x.mqoz":
		t.Must(mqo.Save(cs.build(), path) == nil, "save", "save failed")
		data = readFile(path)
		need = len(data)
	case "x.mqo": // the companion file is cut
		t.Must(mqo.Save(cs.build(), path) == nil, "save", "save failed")
		target = filepath.Join(dir, "x.mqx")
		data = readFile(target)
		need = bytes.LastIndexByte(data, '>') + 1
	case "x.fbx":
		data = encodeFBX(genScene(Replay(nil)).nodes(), binOpt{7400, 1, 0})
		need = len(data)
	case "x.pmx":
		data = encodePMX(genPMX(Replay(nil), 9), mmd.NewDocument().Header.Info, pmxExtra{})
		need = len(data)
	}
	t.State(cs.name, data)
	writeFile(target, data)
	t.Must(load() == nil, "load", "the complete file is rejected: %v", load())
	for k := 0; k < need; k++ {
		writeFile(target, data[:k])
		t.Must(load() != nil, "accepted", "%s cut at byte %d of %d is accepted", filepath.Base(target), k, len(data))
	}
	t.Extra(need)
}

func init() {
	Register(&Property{ID: "C08", Level: "fault_enumeration",
		Rule: "every truncation point of every corpus file (all formats, files within B deviations), every overwrite of every byte position of the binary files by extreme values of 1-8 bytes, every number and bracket of the text files damaged; an error where the rest is incomplete, and never a panic, exit, hang or 8 GB allocation",
		Scenarios: []*Scenario{
			{Name: "truncate", Gen: c08Gen, Check: c08Truncate, Quick: 1, Thorough: 2, What: "files x every prefix"},
			{Name: "corrupt", Gen: c08Bin, Check: c08Corrupt, Quick: 0, Thorough: 1, What: "binary files x every position x 16 extreme values"},
			{Name: "damage", Gen: c08Txt, Check: c08Text, Quick: 0, Thorough: 1, What: "text files x every number x 11 replacements, every bracket removed, doubled, blanked"},
			{Name: "saved", Gen: c08Saved, Check: c08CheckSaved, Quick: 0, Thorough: 1, What: "saved files and companion files x every prefix, loaded by path"},
		}})
}

var _ = fmt.Sprint
