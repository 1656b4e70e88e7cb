package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// C29: damaged files that can still be read are converted or refused.

var formats29 = []string{"mqo", "mqx", "pmx", "pmd", "fbx", "gltf", "vmd"}

const parts29 = 4

type case29 struct {
	format string
	data   []byte   // the file that is damaged
	other  []byte   // the file next to it
	opt    int      // conversion options
	part   int      // which eighth of the positions
	text   [][2]int // numbers of a text file
	bin    []byte   // binary chunk of a glTF file
	rich   bool
}

func (c *case29) Describe() string {
	if c.text != nil {
		return fmt.Sprintf("%s, options %d, part %d:\n%s", c.format, c.opt, c.part, c.data)
	}
	return fmt.Sprintf("%s, options %d, part %d: %x", c.format, c.opt, c.part, c.data)
}

var num29 = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?(e-?[0-9]+)?`)

// gen29: around: the documents of every variant differ by up to B choices, not only those of the first one
func gen29(format string, around bool) func(c *Chooser) any {
	return func(c *Chooser) any {
		r := &case29{format: format}
		if around {
			r.opt = c.Free("options", 4)
		} else {
			r.opt = c.Free("options", 3)
			r.part = c.Free("part", parts29)
		}
		k := c
		if m := c.Free("rich", 4); m > 0 {
			pick := func(label string, n int) int {
				switch m {
				case 1:
					return n - 1
				case 2:
					return min(1, n-1)
				}
				h := fnv.New32a()
				io.WriteString(h, label)
				return int(h.Sum32()>>3) % n
			}
			r.rich = true
			k = Fixed(func(label string, n int) int {
				if strings.HasSuffix(label, ".big") {
					return 0
				}
				if around {
					return (pick(label, n) + c.Choose(label, n)) % n
				}
				return pick(label, n)
			})
		}
		switch format {
		case "mqo", "mqx":
			doc := gen10Doc("gmstocpxr")(k)
			if n := len(doc.Materials); r.rich && n > 0 && doc.Materials[n-1].Ex2 == nil {
				ex := mqo.NewMaterialEx2("glTF")
				ex.ShaderParams["Metallic"], ex.ShaderParams["Extensions.Ior"], ex.ShaderParams["Extensions.SheenColorFactor"] = 0.25, 1.5, []float32{0.5, 0.25, 1}
				ex.ShaderMapping["Clearcoat"], ex.ShaderMapping["Sheen"] = "a.png", "b.png"
				ex.ShaderMappingParams = map[string]map[string]interface{}{"Clearcoat": {"u": 1.5, "v": 2.5}, "Sheen": {"u": 0.5}}
				doc.Materials[n-1].Ex2 = ex
			}
			r.data = mqoBytes(doc)
			r.other = mqxBytes(doc)
			if format == "mqx" {
				r.data, r.other = r.other, r.data
			}
		case "pmx":
			m := gen13Doc("fmwbop", false)(k)
			for _, v := range m.Vertexes {
				if n := len(v.BoneWeights); n != 1 && n != 2 && n != 4 && n != 11 {
					return nil // no such vertex in files
				}
			}
			r.data = encodePMX(m, mmd.NewDocument().Header.Info, pmxExtra{})
		case "pmd":
			r.data = genPMD(k).data
		case "vmd":
			r.data = genVMD(k).data
		case "fbx":
			x, ok := gen15("phtmsb")(k).(*case15)
			if !ok {
				return nil
			}
			r.data = encodeASCII(x.s.nodes(), asciiStyle{})
		case "gltf":
			_, raw, err := glb(genGLTF("pltmskb")(k))
			if err != nil {
				return nil
			}
			n := int(binary.LittleEndian.Uint32(raw[12:]))
			r.data = bytes.TrimSpace(raw[20 : 20+n])
			if len(raw) > 28+n {
				r.bin = raw[28+n:]
			}
		}
		switch format {
		case "mqo", "mqx", "fbx", "gltf":
			r.text = [][2]int{}
			for _, m := range num29.FindAllIndex(r.data, -1) {
				r.text = append(r.text, [2]int{m[0], m[1]})
			}
		}
		return r
	}
}

func glbBytes29(js, bin []byte) []byte {
	js = append([]byte{}, js...)
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	var b bytes.Buffer
	le := func(v int) { binary.Write(&b, binary.LittleEndian, uint32(v)) }
	n := 20 + len(js)
	if bin != nil {
		n += 8 + len(bin)
	}
	b.WriteString("glTF")
	le(2)
	le(n)
	le(len(js))
	b.WriteString("JSON")
	b.Write(js)
	if bin != nil {
		le(len(bin))
		b.WriteString("BIN\x00")
		b.Write(bin)
	}
	return b.Bytes()
}

// use converts what was read in the way the command does.
func (c *case29) use(dir string, data []byte) (bad string) {
	var doc *mqo.Document
	var err error
	switch c.format {
	case "mqo", "mqx":
		a, b := data, c.other
		if c.format == "mqx" {
			a, b = b, a
		}
		writeFile(filepath.Join(dir, "x.mqo"), a)
		writeFile(filepath.Join(dir, "x.mqx"), b)
		doc, err = mqo.Load(filepath.Join(dir, "x.mqo"))
	case "pmx", "pmd":
		var m *mmd.Document
		if m, err = mmd.Parse(bytes.NewReader(data)); err == nil {
			mmd.WritePMX(m, io.Discard)
			if m, err = mmd.Parse(bytes.NewReader(data)); err == nil {
				doc = converter.NewMMDToMQOConverter(nil).Convert(m)
			}
		}
	case "fbx":
		var f *fbx.Document
		if f, err = fbx.Parse(bytes.NewReader(data)); err == nil {
			fbx.Write(io.Discard, f)
			doc, err = converter.NewFBXToMQOConverter(nil).Convert(f)
		}
	case "vmd":
		var a *mmd.Animation
		if a, err = mmd.NewVMDParser(bytes.NewReader(data)).Parse(); err == nil {
			doc = doc24()
			conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{})
			if g, err := conv.Convert(doc, dir); err == nil {
				converter.AddAnimationTpGlb(g, a, conv.JointNodeToBone, c.opt != 1)
				bad = encode29(g)
			}
		}
		return bad
	case "gltf":
		writeFile(filepath.Join(dir, "x.glb"), glbBytes29(data, c.bin))
		var g *gltf.Document
		if g, err = gltfutil.Load(filepath.Join(dir, "x.glb")); err == nil {
			switch c.opt {
			case 1:
				if !plain29(g) { // refused with a message by log.Fatal
					return ""
				}
				gltfutil.ApplyTransform(g, geom.NewScaleMatrix4(2, 2, 2))
				if gltfutil.ToSingleFile(g, dir) == nil {
					encode29(g)
				}
				return ""
			case 2:
				vrm29(g, dir)
				return ""
			}
			doc, err = converter.NewGLTFToMQOConverter(nil).Convert(g)
		}
	}
	if err != nil || doc == nil {
		return ""
	}
	switch c.opt {
	case 0:
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{})
		if g, err := conv.Convert(doc, dir); err == nil {
			bad = encode29(g)
		}
	case 1:
		if p, err := converter.NewMQOToMMDConverter(nil).Convert(doc); err == nil {
			mmd.WritePMX(p, io.Discard)
		}
	case 2:
		doc.ApplyTransform(geom.NewScaleMatrix4(2, 2, 2))
		mqo.NewWriter("").WriteMQO(doc, io.Discard)
		mqo.WriteMQX(doc, io.Discard, "x.mqo")
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{ReuseGeometry: true, IgnoreObjectHierarchy: true, ConvertPhysics: true, ExportLights: true})
		if g, err := conv.Convert(doc, dir); err == nil {
			bad = encode29(g)
			vrm29(g, dir)
		}
	}
	return bad
}

// plain29: all that scaling changes is stored in the usual way.
func plain29(g *gltf.Document) bool {
	var l []uint32
	for _, m := range g.Meshes {
		for _, p := range m.Primitives {
			for _, a := range append([]map[string]uint32{p.Attributes}, targets29(p)...) {
				if x, ok := a["POSITION"]; ok {
					l = append(l, x)
				}
			}
		}
	}
	for _, a := range g.Animations {
		for _, s := range a.Samplers {
			if s.Output != nil {
				l = append(l, *s.Output)
			}
		}
	}
	for _, x := range l {
		a := g.Accessors[x]
		if a.Sparse != nil || a.ComponentType != gltf.ComponentFloat || a.Type != gltf.AccessorVec3 {
			return false
		}
	}
	return true
}

func targets29(p *gltf.Primitive) (r []map[string]uint32) {
	for _, t := range p.Targets {
		r = append(r, t)
	}
	return r
}

func shortStack() string {
	var r []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "modelconv/") || strings.Contains(l, "/rw/") || strings.Contains(l, "/repo/") {
			l, _, _ = strings.Cut(strings.TrimSpace(l), " +0x")
			if strings.HasPrefix(l, "/") {
				r = append(r, l)
			}
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	return strings.Join(r, "\n")
}

// encode29 returns references of the document that do not resolve.
func encode29(g *gltf.Document) string {
	e := gltf.NewEncoder(io.Discard)
	e.AsBinary = true
	e.Encode(g)
	var bad []string
	for _, m := range (gl{g}).valid() {
		if ref29.MatchString(m) {
			bad = append(bad, m)
		}
	}
	return strings.Join(bad, ", ")
}

var ref29 = regexp.MustCompile(`not exist|own ancestor|not fit|parents|not a root|missing`)

func vrm29(g *gltf.Document, dir string) {
	conf := &converter.Config{}
	json.Unmarshal([]byte(`{"preset":"mmd","boneMappings":[{"bone":"hips","nodeNames":["*"]}],"springBones":[{"nodeNames":["*"]}],"convertPhysicsCollider":true,"exportAllMorph":true,"materialSettings":{"*":{"forceUnlit":true}}}`), conf)
	conf.ConvertPhysicsCollider, conf.ExportAllMorph = true, true
	if d, err := converter.ApplyVRMConfig(g, filepath.Join(dir, "o.vrm"), dir, conf); err == nil {
		d.ValidateBones()
		vrm.Write(d, io.Discard, "")
	}
}

var patterns29 = [][]byte{
	{0xff}, {0x00}, {0x7f}, {0x80}, {0x01}, {0x05},
	{0xff, 0xff}, {0xff, 0x7f}, {0x00, 0x80}, {0, 0},
	{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0x80}, {0, 0, 0, 0}, {0, 0, 0xc0, 0x7f}, {0, 0, 0x80, 0x7f},
}

func c29Check(t *T, v any) {
	c := v.(*case29)
	t.State(c.format, c.opt, c.part, c.data)
	dir := t.Dir()
	n := 0
	seen := map[string]bool{"": true} // report each place once
	try := func(b []byte, what string, k int) {
		n++
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic: %v\n%s", r, shortStack())
				}
			}()
			if bad := c.use(dir, b); bad != "" {
				done <- "glTF document made from it:\n" + bad
				return
			}
			done <- ""
		}()
		select {
		case s := <-done:
			if loc := strings.Join(strings.Split(s, "\n")[min(1, strings.Count(s, "\n")):], " "); !seen[loc] {
				seen[loc] = true
				t.Expect(s == "", "panic", "%s at byte %d: %s", what, k, s)
			}
			t.OK()
		case <-time.After(40 * time.Second):
			t.Fatal("hang", "%s at byte %d: no end within 40 s", what, k)
		}
	}
	if c.text == nil {
		buf := make([]byte, len(c.data))
		for k := c.part; k < len(c.data); k += parts29 {
			for _, p := range append([][]byte{{c.data[k] + 1}}, patterns29...) {
				if k+len(p) > len(c.data) || bytes.Equal(c.data[k:k+len(p)], p) {
					continue
				}
				copy(buf, c.data)
				copy(buf[k:], p)
				try(buf, fmt.Sprintf("% x written", p), k)
			}
		}
	}
	for k := c.part; k < len(c.text); k += parts29 {
		m := c.text[k]
		next := "2"
		if v, err := strconv.Atoi(string(c.data[m[0]:m[1]])); err == nil {
			next = strconv.Itoa(v + 1) // one past the last of a list
		}
		for _, s := range []string{"-1", "0", "1", "2", "3", "4", "5", "6", "99", "2147483647", "4294967295", "1e30", "0.5", "nan", "", next} {
			b := append(append(append([]byte{}, c.data[:m[0]]...), s...), c.data[m[1]:]...)
			try(b, fmt.Sprintf("%s replaced by %q", c.data[m[0]:m[1]], s), m[0])
		}
	}
	t.Extra(n)
}

func init() {
	var l []*Scenario
	for _, f := range formats29 {
		l = append(l, &Scenario{Name: f, Gen: gen29(f, false), Check: c29Check, Quick: map[string]int{"mqx": 1}[f], Thorough: 1, What: "files x damage at every number or byte x conversions"})
	}
	Register(&Property{ID: "C29", Level: "fault_enumeration",
		Rule:      "every number of text files and every position of binary files overwritten by other and extreme values; what can still be read is converted to every kind of output",
		Scenarios: l})
}
