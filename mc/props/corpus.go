package props

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// A file of one of the formats, how to parse it, and how much of it is needed.
type cfile struct {
	format string
	data   []byte
	need   int // a shorter prefix is incomplete
	binary bool
	parse  func(io.Reader) (any, error)
	text   bool // FBX ASCII: prefixes at the top level may be complete
}

func (f *cfile) Describe() string {
	if f.binary {
		return fmt.Sprintf("%s, %d bytes: %x", f.format, len(f.data), f.data)
	}
	return fmt.Sprintf("%s:\n%s", f.format, f.data)
}

func parseAnyMQO(r io.Reader) (any, error) { return mqo.NewParser(r, "").Parse() }
func parseAnyMQX(r io.Reader) (any, error) { return mqo.ReadMQX(r) }
func parseAnyMMD(r io.Reader) (any, error) { return mmd.Parse(r) }
func parseAnyVMD(r io.Reader) (any, error) { return mmd.NewVMDParser(r).Parse() }
func parseAnyVRM(r io.Reader) (any, error) { return vrm.Parse(r, "") }
func parseAnyFBX(r io.Reader) (any, error) {
	d, err := fbx.Parse(r)
	if err != nil || d == nil {
		return nil, err
	}
	return d.RawNode, nil
}

func mqoBytes(doc *mqo.Document) []byte {
	var b bytes.Buffer
	if err := mqo.NewWriter("").WriteMQO(doc, &b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func mqxBytes(doc *mqo.Document) []byte {
	var b bytes.Buffer
	if err := mqo.WriteMQX(doc, &b, "x.mqo"); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// corpusFormats are the generators of files; each draws its own decisions.
var corpusFormats = []struct {
	name string
	gen  func(c *Chooser) *cfile
}{
	{"mqo-materials", func(c *Chooser) *cfile { return mqoFile(c01Materials(c).(*c01Case).doc) }},
	{"mqo-objects", func(c *Chooser) *cfile { return mqoFile(c01Objects(c).(*c01Case).doc) }},
	{"mqo-geometry", func(c *Chooser) *cfile { return mqoFile(c01Geometry(c).(*c01Case).doc) }},
	{"mqo-foreign", func(c *Chooser) *cfile { return foreignMQO(c) }},
	{"mqx-bones", func(c *Chooser) *cfile { return mqxFile(c02Bones(c)) }},
	{"mqx-other", func(c *Chooser) *cfile { return mqxFile(c02Other(c)) }},
	{"pmx-vertices", pmxFile(0)}, {"pmx-materials", pmxFile(1)}, {"pmx-bones", pmxFile(2)}, {"pmx-morphs", pmxFile(3)}, {"pmx-physics", pmxFile(4)},
	{"pmd", func(c *Chooser) *cfile {
		m := genPMD(c)
		return &cfile{format: "PMD", data: m.data, need: len(m.data), binary: true, parse: parseAnyMMD}
	}},
	{"vmd", func(c *Chooser) *cfile {
		v := genVMD(c)
		return &cfile{format: "VMD", data: v.data, need: len(encodeVMD(v.a, 0, 0)), binary: true, parse: parseAnyVMD}
	}},
	{"fbx-binary", func(c *Chooser) *cfile {
		opt := binOpt{Pick(c, "version", binVersions...), c.Choose("compress", 3), 0}
		s := genScene(c)
		n := len(encodeFBX(s.nodes(), opt))
		opt.footer = c.Choose("footer", 3)
		return &cfile{format: "FBX binary", data: encodeFBX(s.nodes(), opt), need: n, binary: true, parse: parseAnyFBX}
	}},
	{"fbx-values", func(c *Chooser) *cfile {
		a := fbxArray(c.Choose("kind", 7), Pick(c, "n", 3, 0, 17), 1)
		b := Pick[any](c, "scalar", "text", int8(1), uint8(2), int16(3), int32(4), int64(5), float32(6), 7.0, []byte{1, 2}, "")
		top := []*fnode{fn("A", b, a).with(fn("B", b).with(fn("C"))), fn("D", a, b)}
		opt := binOpt{Pick(c, "version", binVersions...), c.Choose("compress", 2), 0}
		d := encodeFBX(top, opt)
		return &cfile{format: "FBX binary", data: d, need: len(d), binary: true, parse: parseAnyFBX}
	}},
	{"fbx-ascii", func(c *Chooser) *cfile {
		s := genScene(c)
		return &cfile{format: "FBX ASCII", data: encodeASCII(s.nodes(), pickStyle(c, false)), text: true, parse: parseAnyFBX}
	}},
	{"glb", func(c *Chooser) *cfile {
		doc := gltf.NewDocument()
		doc.Nodes = []*gltf.Node{{Name: Pick(c, "name", "n", "日本語")}}
		doc.Scenes[0].Nodes = []uint32{0}
		if c.Flag("buffer") {
			doc.Buffers = []*gltf.Buffer{{ByteLength: 8, Data: []byte{1, 2, 3, 4, 5, 6, 7, 8}}}
			doc.BufferViews = []*gltf.BufferView{{ByteLength: 8}}
		}
		var b bytes.Buffer
		e := gltf.NewEncoder(&b)
		e.AsBinary = !c.Flag("json")
		if !e.AsBinary {
			for _, x := range doc.Buffers {
				x.EmbeddedResource()
			}
		}
		if err := e.Encode(doc); err != nil {
			panic(err)
		}
		n := b.Len()
		if !e.AsBinary {
			n = len(bytes.TrimRight(b.Bytes(), "\n"))
		}
		return &cfile{format: "glTF", data: b.Bytes(), need: n, parse: parseAnyVRM, binary: false}
	}},
}

func mqoFile(doc *mqo.Document) *cfile {
	b := mqoBytes(doc)
	return &cfile{format: "MQO", data: b, need: bytes.LastIndex(b, []byte("Eof")) + 3, parse: parseAnyMQO}
}

func mqxFile(doc *mqo.Document) *cfile {
	b := mqxBytes(doc)
	return &cfile{format: "MQX", data: b, need: bytes.LastIndexByte(b, '>') + 1, parse: parseAnyMQX}
}

func pmxFile(part int) func(c *Chooser) *cfile {
	return func(c *Chooser) *cfile {
		m, ok := c04PMX(part)(c).(*mmdCase)
		if !ok {
			return nil
		}
		n := len(m.data)
		for k := 1; k <= 4; k++ { // trailing bytes are not needed
			if n >= 4 && bytes.HasSuffix(m.data, []byte{0, 1, 2, 3}) {
				n -= 4
			}
			break
		}
		return &cfile{format: "PMX", data: m.data, need: n, binary: true, parse: parseAnyMMD}
	}
}

// foreignMQO is text as other programs write it: Shift_JIS, CRLF, chunks that are not supported.
func foreignMQO(c *Chooser) *cfile {
	var b strings.Builder
	w := func(s string, a ...any) { fmt.Fprintf(&b, s+"\r\n", a...) }
	utf8 := c.Flag("utf8")
	w("Metasequoia Document")
	w("Format Text Ver %s", Pick(c, "ver", "1.0", "1.1"))
	if utf8 {
		w("CodePage utf8")
	}
	w("")
	if c.Flag("trialnoise") {
		w("TrialNoise {\r\n}")
	}
	w("Scene {\r\n\tpos 0.0000 0.0000 1500.0000\r\n\tlookat 0.0000 0.0000 0.0000\r\n\thead -0.5236\r\n\tpich 0.5236\r\n\tbank 0.0000\r\n\tortho 0\r\n\tzoom2 5.0000\r\n\tamb 0.250 0.250 0.250")
	if !c.Flag("nodirlights") {
		w("\tdirlights 1 {\r\n\t\tlight {\r\n\t\t\tdir 0.408 0.408 0.816\r\n\t\t\tcolor 1.000 1.000 1.000\r\n\t\t}\r\n\t}")
	}
	w("}")
	if c.Flag("backimage") {
		w("BackImage {\r\n\tpers \"表.bmp\" 0.0 0.0 1.0 1.0\r\n}")
	}
	name := Pick(c, "matname", "表示", "mat1", "ソ能", "ｱｲｳ")
	w("Material 2 {")
	w("\t\"%s\" shader(3) vcol(0) col(1.000 0.500 0.250 0.750) dif(0.800) amb(0.600) emi(0.000) spc(0.000) power(5.00) tex(\"%s\") proj_type(2)", name, Pick(c, "tex", "tex/表.png", "a.bmp"))
	w("\t\"m2\" col(0.000 0.000 0.000 1.000) dif(1.000) amb(0.000) emi(0.000) spc(0.000) power(0.00)")
	w("}")
	w("Object \"%s\" {", Pick(c, "objname", "obj1", "能力", "予定"))
	w("\tdepth 0\r\n\tfolding 0\r\n\tscale 1.000000 1.000000 1.000000\r\n\trotation 10.000000 20.000000 30.000000\r\n\ttranslation 0.000000 0.000000 0.000000\r\n\tvisible 15\r\n\tlocking 0\r\n\tshading 1\r\n\tfacet 59.5\r\n\tcolor 0.898 0.498 0.698\r\n\tcolor_type 0")
	w("\tvertex 4 {\r\n\t\t-10.5000 0.0000 1.0000\r\n\t\t10.0000 0.0000 -1.5000\r\n\t\t10.0000 10.0000 0.0000\r\n\t\t1e-3 5.0 0\r\n\t}")
	if c.Flag("weit") {
		w("\tvertexattr {\r\n\t\tweit {\r\n\t\t\t0 1.5\r\n\t\t}\r\n\t\tcolor {\r\n\t\t\t1 4294967295\r\n\t\t}\r\n\t}")
	}
	w("\tface 2 {\r\n\t\t3 V(0 1 2) M(0) UV(0.00000 0.00000 1.00000 0.00000 1.00000 1.00000) COL(4294967295 4294967295 4294967295)\r\n\t\t4 V(0 1 2 3) M(1) CRS(1.0 2.0 3.0 4.0)\r\n\t}")
	w("}")
	if c.Flag("second") {
		w("Object \"b\" {\r\n\tvertex 0 {\r\n\t}\r\n\tface 0 {\r\n\t}\r\n}")
	}
	b.WriteString("Eof")
	n := b.Len()
	if !c.Flag("nonl") {
		b.WriteString("\r\n")
	}
	d := []byte(b.String())
	if !utf8 {
		tail := len(d) - n
		d = sjis(string(d))
		n = len(d) - tail
	}
	return &cfile{format: "MQO", data: d, need: n, parse: parseAnyMQO}
}

// corpusFile takes one file: a generator's file within the deviation bound, or
// one of the files where every decision is taken differently at once.
func corpusFile(c *Chooser) *cfile {
	k := c.Free("format", len(corpusFormats)-1) // without glTF, which another library reads
	return corpusOf(c, k)
}

func corpusOf(c *Chooser, k int) *cfile {
	f := corpusFormats[k]
	var r *cfile
	switch m := c.Free("rich", 4); m {
	case 0:
		r = f.gen(c)
	default:
		r = f.gen(Fixed(func(label string, n int) int {
			if strings.HasSuffix(label, ".big") {
				return 0
			}
			switch m {
			case 1:
				return n - 1
			case 2:
				return min(1, n-1)
			}
			h := fnv.New32a()
			io.WriteString(h, label)
			return int(h.Sum32()>>3) % n
		}))
	}
	return r
}

func mqozBytes(files map[string][]byte, order []string, store bool) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, n := range order {
		m := zip.Deflate
		if store {
			m = zip.Store
		}
		w, err := z.CreateHeader(&zip.FileHeader{Name: n, Method: m})
		if err != nil {
			panic(err)
		}
		w.Write(files[n])
	}
	z.Close()
	return b.Bytes()
}

func sameDoc(a, b any) bool { return reflect.DeepEqual(a, b) }
