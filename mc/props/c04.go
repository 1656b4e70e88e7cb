package props

import (
	"bytes"
	"fmt"

	"github.com/binzume/modelconv/mmd"

	. "modelconvmc/engine"
)

func c04PMX(part int) func(c *Chooser) any {
	return func(c *Chooser) any {
		doc := genPMX(c, part)
		for _, v := range doc.Vertexes { // forms the file format cannot hold
			if len(v.BoneWeights) == 0 || len(v.BoneWeights) == 3 {
				return nil
			}
		}
		info := pickWidths(c, doc.Header.Info)
		info[0] = byte(c.Choose("text", 2))
		ex := pmxExtra{displayGroups: Pick(c, "groups", 0, 1, 2, 4), trailing: Pick(c, "trailing", 0, 4)}
		if c.Flag("bone morph") {
			ex.boneMorph = c.Free("bone morph n", 3)
			doc.Morphs = append(doc.Morphs, &mmd.Morph{Name: "bm", MorphType: 2}, &mmd.Morph{Name: "after", MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: 1}}})
		}
		return &mmdCase{doc: doc, data: encodePMX(doc, info, ex), file: c.Flag("file"), enc: fmt.Sprintf(" encoded with info %v", info)}
	}
}

func c04Widths(c *Chooser) any {
	m := c03Widths(c).(*mmdCase)
	m.data = encodePMX(m.doc, m.doc.Header.Info, pmxExtra{displayGroups: 4})
	return m
}

// indices above the signed range of their width must stay large for vertices
// and become absent for everything else.
func c04Unsigned(c *Chooser) any {
	w := c.Free("width", 2) + 1
	n := []int{200, 40000}[w-1]
	doc := mmd.NewDocument()
	doc.Name = "u"
	for i := 0; i < n; i++ {
		doc.Vertexes = append(doc.Vertexes, &mmd.Vertex{Pos: v3(float32(i), 0, 0), Bones: []int{-1}, BoneWeights: []float32{1}})
	}
	hi := n - 1 - c.Free("from the top", 3)
	doc.Faces = []*mmd.Face{{Verts: [3]int{0, hi, n - 1}}, {Verts: [3]int{hi, 127 * w, 128 * w}}}
	doc.Morphs = []*mmd.Morph{{Name: "v", MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: hi, Offset: v3(1, 2, 3)}}},
		{Name: "u", MorphType: 3, UV: []*mmd.MorphUV{{Target: hi, Value: geomV4(1, 2, 3, 4)}}}}
	doc.Materials = []*mmd.Material{{Name: "m", TextureID: -1, EnvID: -1, Toon: -1, Count: 6}}
	doc.Bodies = []*mmd.RigidBody{{Name: "b", Bone: -1}}
	doc.Joints = []*mmd.Joint{{Name: "j", Body1: -1, Body2: 0}}
	doc.Bones = []*mmd.Bone{{Name: "b", ParentID: -1, TailID: -1, Flags: 1}}
	info := []byte{1, 0, byte(w), byte(w), byte(w), byte(w), byte(w), byte(w)}
	return &mmdCase{doc: doc, data: encodePMX(doc, info, pmxExtra{}), enc: fmt.Sprintf(" encoded with info %v", info)}
}

func c04PMXCheck(t *T, v any) {
	cs := v.(*mmdCase)
	t.State(cs.data)
	got := parseMMD(t, cs)
	d := diffMMD(cs.doc, got)
	t.Must(d.empty(), "decode", "%s", d)
	t.Must(got.Header.Version == cs.doc.Header.Version && string(got.Header.Format) == "PMX ", "header", "header %v, want version %v", got.Header, cs.doc.Header.Version)
}

func parseMMD(t *T, cs *mmdCase) *mmd.Document {
	var got *mmd.Document
	var err error
	if cs.file {
		path := t.Path("x.dat")
		writeFile(path, cs.data)
		got, err = mmd.Load(path)
	} else {
		got, err = mmd.Parse(bytes.NewReader(cs.data))
	}
	t.Must(err == nil && got != nil, "error", "a well-formed file is rejected: %v", err)
	// the parser of the format, used directly
	var direct *mmd.Document
	if bytes.HasPrefix(cs.data, []byte("Pmd")) {
		direct, err = mmd.NewPMDParser(bytes.NewReader(cs.data)).Parse()
	} else {
		direct, err = mmd.NewPMXParser(bytes.NewReader(cs.data)).Parse()
	}
	t.Must(err == nil && direct != nil, "direct-error", "a well-formed file is rejected by its parser: %v", err)
	d := diffMMD(got, direct)
	t.Must(d.empty() && string(direct.Header.Format) == string(got.Header.Format), "direct", "parsed directly: %s", d)
	return got
}

var sjisNames = []string{"", "a", "モデル", "ｾﾝﾀｰ", "左ひざＩＫ", "表示", "ソ能予", "右人指１右人指２", "12345678901234567890", " a b "}

func genPMD(c *Chooser) *mmdCase {
	doc := &mmd.Document{Header: &mmd.Header{Format: []byte("Pmd"), Version: 1}}
	name := func(l, def string) string {
		k := c.Choose(l, len(sjisNames)+1)
		if k == 0 {
			return def
		}
		return sjisNames[k-1]
	}
	f := func(l string, def float32) float32 { return Pick(c, l, def, 0, -1.5, 1e-20, 3.4e38, 0.1) }
	doc.Name = name("name", "model")
	doc.Comment = name("comment", "comment\r\nline")
	nv := Pick(c, "nv", 4, 3, 1, 0)
	for i := 0; i < nv; i++ {
		l := fmt.Sprintf("v%d.", i)
		v := &mmd.Vertex{Pos: v3(float32(i), 1, 2), Normal: v3(0, 0, 1), UV: mmd.Vector2{X: 0.5, Y: float32(i)}}
		if i < 2 {
			v.Pos.X = f(l+"x", float32(i))
			v.Normal.Z = f(l+"nz", 1)
			v.UV.Y = f(l+"v", 0.25)
		}
		w := Pick(c, l+"w", 100, 0, 50, 33, 99)
		v.Bones = []int{c.Choose(l+"b0", 2), c.Choose(l+"b1", 2)}
		v.BoneWeights = []float32{float32(w) / 100, 1 - float32(w)/100}
		v.EdgeScale = float32(c.Choose(l+"edge", 2))
		doc.Vertexes = append(doc.Vertexes, v)
	}
	nf := 0
	if nv > 0 {
		nf = Pick(c, "nf", 2, 1, 0)
	}
	for i := 0; i < nf; i++ {
		doc.Faces = append(doc.Faces, &mmd.Face{Verts: [3]int{i % nv, (i + 1) % nv, (i + 2) % nv}})
	}
	nm := Pick(c, "nm", 2, 1, 0)
	spheres := map[int]string{}
	var texs []string
	for i := 0; i < nm; i++ {
		l := fmt.Sprintf("m%d.", i)
		m := &mmd.Material{Name: fmt.Sprintf("mat%d", i+1), TextureID: -1}
		m.Color = geomV4(1, f(l+"g", 0.5), 0.25, Pick[float32](c, l+"alpha", 1, 0.5, 0, 0.99, 1.5))
		m.Specularity = f(l+"power", 5)
		m.Specular = v3(0.1, f(l+"spec", 0.2), 0.3)
		m.AColor = v3(0.4, 0.5, f(l+"amb", 0.6))
		m.Toon = Pick(c, l+"toon", 0, 3, 255)
		m.EdgeScale = float32(c.Choose(l+"edge", 2))
		m.Count = Pick(c, l+"count", 3, 0, 6)
		switch c.Choose(l+"tex", 4) {
		case 1:
			m.TextureID = len(texs)
			texs = append(texs, "tex.bmp")
		case 2:
			m.TextureID = len(texs)
			texs = append(texs, "テクス.png", "s.sph")
			spheres[i] = "s.sph"
		case 3:
			m.TextureID = len(texs)
			texs = append(texs, "12345678901234567890")
		}
		doc.Materials = append(doc.Materials, m)
	}
	doc.Textures = texs
	nb := Pick(c, "nb", 3, 2, 1, 0)
	for i := 0; i < nb; i++ {
		l := fmt.Sprintf("b%d.", i)
		b := &mmd.Bone{Name: name(l+"name", fmt.Sprintf("bone%d", i)), ParentID: Pick(c, l+"parent", i-1, -1, 0), TailID: -1, Pos: v3(0, f(l+"y", 1), 2)}
		if k := c.Choose(l+"tail", 3); k > 0 {
			b.TailID = k
		}
		if k := c.Choose(l+"ik", 4); k > 0 {
			b.IK.TargetID = nb - 1
			b.IK.Loop = Pick(c, l+"loop", 15, 65535)
			for j := 0; j < k; j++ {
				b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: j % nb})
			}
		}
		doc.Bones = append(doc.Bones, b)
	}
	var base []int
	for i := nv - 1; i >= 0; i-- {
		base = append(base, i)
	}
	no := 0
	if nv > 0 {
		no = Pick(c, "no", 2, 1, 0)
	}
	for i := 0; i < no; i++ {
		l := fmt.Sprintf("o%d.", i)
		m := &mmd.Morph{Name: name(l+"name", fmt.Sprintf("morph%d", i)), PanelType: byte(1 + c.Choose(l+"panel", 4)), MorphType: 1}
		n := Pick(c, l+"n", 1, 2, 0)
		for j := 0; j < n; j++ {
			m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: Pick(c, fmt.Sprintf("%st%d", l, j), j%nv, nv-1), Offset: v3(f(fmt.Sprintf("%sx%d", l, j), 1), 2, 3)})
		}
		doc.Morphs = append(doc.Morphs, m)
	}
	pad := Pick[byte](c, "pad", 0, 0xfd, 'x')
	data := encodePMD(doc, spheres, base, pad)
	return &mmdCase{doc: doc, data: data, enc: " pmd"}
}

func c04PMD(c *Chooser) any {
	m := genPMD(c)
	switch c.Choose("tail", 3) { // display frames, English names, toons, physics: sections the library does not read
	case 1:
		m.data = append(m.data, make([]byte, 50)...)
	case 2:
		m.data = append(m.data, 2, 1, 0, 2, 0, 1, 'f', 'r', 'a', 'm', 'e', 0)
	}
	m.file = c.Flag("file")
	return m
}

// maskPMD clears what the PMD format does not define.
func maskPMD(doc *mmd.Document) *mmd.Document {
	r := *doc
	r.Materials = nil
	for _, m := range doc.Materials {
		mm := *m
		mm.Flags = 0 // see c04PMDCheck
		r.Materials = append(r.Materials, &mm)
	}
	r.Bones = nil
	for _, b := range doc.Bones {
		bb := *b
		bb.Flags = 0
		bb.IK.LimitRad = 0
		r.Bones = append(r.Bones, &bb)
	}
	return &r
}

func c04PMDCheck(t *T, v any) {
	cs := v.(*mmdCase)
	t.State(cs.data)
	got := parseMMD(t, cs)
	d := diffMMD(maskPMD(cs.doc), maskPMD(got))
	t.Must(d.empty(), "decode", "%s", d)
	for i, m := range got.Materials {
		// MMD draws the back faces of a translucent material too
		want := cs.doc.Materials[i].Color.W < 1
		t.Must((m.Flags&mmd.MaterialFlagDoubleSided != 0) == want, "doublesided", "material %d: alpha %v, flags %x", i, m.Color.W, m.Flags)
	}
	t.Must(string(got.Header.Format) == "Pmd" && got.Header.Version == 1, "header", "%v", got.Header)
}

type vmdCase struct {
	a    *mmd.Animation
	data []byte
}

func (v *vmdCase) Describe() string {
	s := fmt.Sprintf("%q", v.a.Name)
	for _, b := range v.a.Bone {
		s += fmt.Sprintf(" bone{%q %d %v %v}", b.Target, b.Frame, b.Position, b.Rotation)
	}
	for _, b := range v.a.Morph {
		s += fmt.Sprintf(" morph{%q %d %v}", b.Target, b.Frame, b.Value)
	}
	return s
}

func genVMD(c *Chooser) *vmdCase {
	a := &mmd.Animation{}
	names := []string{"", "モデル", "左ひざＩＫ", "表示", "123456789012345", "ソ能"}
	name := func(l, def string) string { return Pick(c, l, append([]string{def}, names...)...) }
	f := func(l string, def float32) float32 { return Pick(c, l, def, 0, -1.5, 1e-20, 3.4e38, 0.1) }
	a.Name = name("name", "初音ミク")
	n := Pick(c, "bones", 2, 1, 3, 0)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("b%d.", i)
		s := &mmd.AnimationBoneSample{Target: name(l+"name", "センター"), Frame: Pick(c, l+"frame", i, 0, 65536, 4000000000),
			Position: v3(f(l+"x", 1), f(l+"y", 2), f(l+"z", 3)), Rotation: geomV4(f(l+"rx", 0.1), f(l+"ry", 0.2), f(l+"rz", 0.3), f(l+"rw", 1))}
		for k := range s.Params {
			s.Params[k] = byte(k + i + c.Choose(fmt.Sprintf("%sp%d", l, k), 1))
		}
		a.Bone = append(a.Bone, s)
	}
	n = Pick(c, "morphs", 2, 1, 3, 0)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("m%d.", i)
		a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: name(l+"name", "まばたき"), Frame: Pick(c, l+"frame", i*3, 0, 65536, 4000000000), Value: f(l+"v", 0.5)})
	}
	return &vmdCase{a: a, data: encodeVMD(a, Pick[byte](c, "pad", 0, 0xfd, 'x'), c.Choose("tail", 3))}
}

func c04VMD(c *Chooser) any { return genVMD(c) }

func diffVMD(a, b *mmd.Animation) *diffs {
	d := &diffs{}
	d.eq("name", a.Name, b.Name)
	d.eq("bone samples", len(a.Bone), len(b.Bone))
	for i := 0; i < len(a.Bone) && i < len(b.Bone); i++ {
		d.eq(fmt.Sprintf("bone sample %d", i), *a.Bone[i], *b.Bone[i])
	}
	d.eq("morph samples", len(a.Morph), len(b.Morph))
	for i := 0; i < len(a.Morph) && i < len(b.Morph); i++ {
		d.eq(fmt.Sprintf("morph sample %d", i), *a.Morph[i], *b.Morph[i])
	}
	return d
}

func c04VMDCheck(t *T, v any) {
	cs := v.(*vmdCase)
	t.State(cs.data)
	got, err := mmd.NewVMDParser(bytes.NewReader(cs.data)).Parse()
	t.Must(err == nil && got != nil, "error", "a well-formed motion is rejected: %v", err)
	d := diffVMD(cs.a, got)
	t.Must(d.empty(), "decode", "%s", d)
}

// C03: a model read from PMD can be written as PMX and keeps its contents.
func c03PMD(c *Chooser) any { return genPMD(c) }

func c03PMDCheck(t *T, v any) {
	cs := v.(*mmdCase)
	doc, err := mmd.Parse(bytes.NewReader(cs.data))
	t.Must(err == nil, "pmd", "%v", err)
	ref, _ := mmd.Parse(bytes.NewReader(cs.data))
	var buf bytes.Buffer
	err = mmd.WritePMX(doc, &buf)
	t.Must(err == nil, "write", "%v", err)
	got, err := mmd.Parse(bytes.NewReader(buf.Bytes()))
	t.Must(err == nil, "parse", "%v", err)
	// IK blocks and tails are flag driven in PMX; PMD models carry no flags
	for _, dd := range []*mmd.Document{ref, got} {
		for _, b := range dd.Bones {
			b.IK.Links, b.IK.TargetID, b.IK.Loop, b.TailID = nil, 0, 0, 0
			b.IK.LimitRad, b.Flags = 0, 0
		}
		for _, m := range dd.Materials { // PMD's toon number 255 means none
			if m.Toon == 255 {
				m.Toon = -1
			}
		}
	}
	d := diffMMD(ref, got)
	t.Must(d.empty(), "roundtrip", "%s", d)
	t.State(buf.Bytes())
}

func init() {
	names := []string{"vertices", "materials", "bones", "morphs", "physics"}
	p := &Property{ID: "C04", Level: "model_checking",
		Rule: "models within B edits of a base model are encoded by an independent encoder and decoded by the real code; all index width and text encoding combinations"}
	qb := []int{2, 2, 2, 3, 2}
	for i, n := range names {
		p.Scenarios = append(p.Scenarios, &Scenario{Name: "pmx-" + n, Gen: c04PMX(i), Check: c04PMXCheck, Quick: qb[i], Thorough: 3, What: "PMX " + n + ": every attribute value, widths, text encodings, display groups, bone morphs"})
	}
	p.Scenarios = append(p.Scenarios,
		&Scenario{Name: "pmx-widths", Gen: c04Widths, Check: c04PMXCheck, What: "all 3^6 index width combinations x 2 text encodings"},
		&Scenario{Name: "pmx-unsigned", Gen: c04Unsigned, Check: c04PMXCheck, What: "vertex indices above the signed range"},
		&Scenario{Name: "pmx-sizes", Gen: c04Sizes, Check: c04PMXCheck, What: "sections with n elements, n around every power of two up to 66000 x widths x encodings"},
		&Scenario{Name: "pmd-sizes", Gen: c04PMDSizes, Check: c04PMDCheck, What: "PMD sections with n elements, n around every power of two up to 1030; vertices and morph targets up to 65533"},
		&Scenario{Name: "vmd-sizes", Gen: c04VMDSizes, Check: c04VMDCheck, What: "motions with n samples, n around every power of two up to 65537"},
		&Scenario{Name: "pmd", Gen: c04PMD, Check: c04PMDCheck, Quick: 2, Thorough: 3, What: "PMD sections, names, padding"},
		&Scenario{Name: "vmd", Gen: c04VMD, Check: c04VMDCheck, Quick: 2, Thorough: 3, What: "VMD samples, names, padding"})
	Register(p)
}
