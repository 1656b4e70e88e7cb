package props

import (
	"bytes"
	"fmt"

	"github.com/binzume/modelconv/mmd"

	. "modelconvmc/engine"
)

type mmdCase struct {
	doc  *mmd.Document
	data []byte
	file bool
	enc  string
}

func (m *mmdCase) Describe() string {
	s := fmt.Sprintf("info=%v %d vertices %d faces %d textures %d materials %d bones %d morphs %d bodies %d joints", m.doc.Header.Info, len(m.doc.Vertexes), len(m.doc.Faces),
		len(m.doc.Textures), len(m.doc.Materials), len(m.doc.Bones), len(m.doc.Morphs), len(m.doc.Bodies), len(m.doc.Joints))
	return s + m.enc
}

func c03Gen(part int) func(c *Chooser) any {
	return func(c *Chooser) any {
		doc := genPMX(c, part)
		doc.Header.Info = pickWidths(c, doc.Header.Info)
		doc.Header.Info[0] = byte(c.Choose("text", 2))
		return &mmdCase{doc: doc, file: c.Flag("file")}
	}
}

// all 3^6 width combinations on one model that uses every index kind
func c03Widths(c *Chooser) any {
	doc := genPMX(Replay(nil), 9)
	doc.Morphs = append(doc.Morphs,
		&mmd.Morph{Name: "g", MorphType: 0, Group: []*mmd.MorphGroup{{Target: 0, Weight: 1}, {Target: -1, Weight: 0.5}}},
		&mmd.Morph{Name: "u", MorphType: 3, UV: []*mmd.MorphUV{{Target: 2, Value: geomV4(1, 2, 3, 4)}}},
		&mmd.Morph{Name: "m", MorphType: 8, Material: []*mmd.MorphMaterial{{Target: 1, Flags: 1}, {Target: -1}}})
	doc.Bones[1].Flags = 0x3f21
	doc.Bones[1].TailID = 0
	doc.Bones[1].IK.TargetID = 1
	doc.Bones[1].IK.Links = []*mmd.Link{{TargetID: 0}, {TargetID: 1, HasLimit: true}}
	doc.Materials[0].TextureID, doc.Materials[0].EnvID, doc.Materials[0].Toon = 1, 0, 1
	doc.Joints[0].Body2 = -1
	for i := 2; i < 8; i++ {
		doc.Header.Info[i] = FreePick[byte](c, fmt.Sprintf("width%d", i), 1, 2, 4)
	}
	doc.Header.Info[0] = byte(c.Free("text", 2))
	return &mmdCase{doc: doc}
}

// one section at a time grows to just below / at / above what a width holds
func c03Big(c *Chooser) any {
	sect := c.Free("section", 6)
	w := FreePick[byte](c, "width", 1, 2)
	delta := c.Free("delta", 5) - 2
	n := map[byte]int{1: 128, 2: 32768}[w]
	if sect == 0 {
		n *= 2
	}
	n += delta
	doc := mmd.NewDocument()
	doc.Name = "big"
	for i := 2; i < 8; i++ {
		doc.Header.Info[i] = w
	}
	add := func(k, nn int) {
		for i := 0; i < nn; i++ {
			switch k {
			case 0:
				doc.Vertexes = append(doc.Vertexes, &mmd.Vertex{Pos: v3(float32(i), 0, 0), Bones: []int{0}, BoneWeights: []float32{1}})
			case 1:
				doc.Textures = append(doc.Textures, fmt.Sprintf("t%d", i))
			case 2:
				doc.Materials = append(doc.Materials, &mmd.Material{Name: fmt.Sprintf("m%d", i), TextureID: -1, EnvID: -1, Toon: -1})
			case 3:
				doc.Bones = append(doc.Bones, &mmd.Bone{Name: fmt.Sprintf("b%d", i), ParentID: i - 1, TailID: -1})
			case 4:
				doc.Morphs = append(doc.Morphs, &mmd.Morph{Name: fmt.Sprintf("o%d", i), MorphType: 0})
			case 5:
				doc.Bodies = append(doc.Bodies, &mmd.RigidBody{Name: fmt.Sprintf("r%d", i), Bone: -1})
			}
		}
	}
	for k := 0; k < 6; k++ {
		if k == sect {
			add(k, n)
		} else {
			add(k, 3)
		}
	}
	last := func(l int) int { return l - 1 }
	doc.Faces = []*mmd.Face{{Verts: [3]int{0, 1, last(len(doc.Vertexes))}}}
	doc.Materials[0].TextureID = last(len(doc.Textures))
	doc.Materials[0].Count = 3
	doc.Vertexes[1].Bones[0] = last(len(doc.Bones))
	doc.Morphs[0].Group = []*mmd.MorphGroup{{Target: last(len(doc.Morphs)), Weight: 1}}
	doc.Morphs[1] = &mmd.Morph{Name: "v", MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: last(len(doc.Vertexes)), Offset: v3(1, 2, 3)}}}
	doc.Morphs[2] = &mmd.Morph{Name: "mat", MorphType: 8, Material: []*mmd.MorphMaterial{{Target: last(len(doc.Materials))}}}
	doc.Bodies[0].Bone = last(len(doc.Bones))
	doc.Joints = []*mmd.Joint{{Name: "j", Body1: 0, Body2: last(len(doc.Bodies))}}
	return &mmdCase{doc: doc}
}

func clonePMX(doc *mmd.Document) *mmd.Document {
	c := *doc
	h := *doc.Header
	h.Info = append([]byte{}, h.Info...)
	c.Header = &h
	c.Vertexes = nil
	for _, v := range doc.Vertexes {
		vv := *v
		vv.Bones = append([]int{}, v.Bones...)
		vv.BoneWeights = append([]float32{}, v.BoneWeights...)
		c.Vertexes = append(c.Vertexes, &vv)
	}
	return &c
}

func c03Check(t *T, v any) {
	cs := v.(*mmdCase)
	doc := clonePMX(cs.doc)
	var buf bytes.Buffer
	if cs.file {
		path := t.Path("x.pmx")
		if err := mmd.Save(doc, path); err != nil {
			t.Fatal("save", "%v", err)
		}
		got, err := mmd.Load(path)
		t.Must(err == nil, "load", "%v", err)
		d := diffMMD(cs.doc, got)
		t.Must(d.empty(), "roundtrip", "%s", d)
		return
	}
	err := mmd.WritePMX(doc, &buf)
	t.Must(err == nil, "write", "%v", err)
	t.State(buf.Bytes())
	got, err := mmd.Parse(bytes.NewReader(buf.Bytes()))
	t.Must(err == nil, "parse", "%v", err)
	d := diffMMD(cs.doc, got)
	t.Must(d.empty(), "roundtrip", "%s", d)
	t.Must(got.Header.Version == cs.doc.Header.Version, "version", "version %v, want %v", got.Header.Version, cs.doc.Header.Version)
	// again
	var buf2 bytes.Buffer
	err = mmd.WritePMX(clonePMX(got), &buf2)
	t.Must(err == nil, "write2", "%v", err)
	t.Must(bytes.Equal(buf.Bytes(), buf2.Bytes()), "fixpoint", "writing the re-read model gives other bytes")
	t.Extra(1)
}

func init() {
	names := []string{"vertices", "materials", "bones", "morphs", "physics"}
	p := &Property{ID: "C03", Level: "model_checking",
		Rule: "models within B edits of a base model (per section), written and re-read by the real code; all 3^6 index width assignments; sections sized around every width limit"}
	qb := []int{2, 2, 3, 3, 2}
	for i, n := range names {
		p.Scenarios = append(p.Scenarios, &Scenario{Name: n, Gen: c03Gen(i), Check: c03Check, Quick: qb[i], Thorough: 3, What: n + " section: every attribute value, widths, text encoding"})
	}
	p.Scenarios = append(p.Scenarios,
		&Scenario{Name: "widths", Gen: c03Widths, Check: c03Check, What: "all index width combinations on a model using every index kind"},
		&Scenario{Name: "from-pmd", Gen: c03PMD, Check: c03PMDCheck, Quick: 2, Thorough: 3, What: "models decoded from PMD, then written as PMX"},
		&Scenario{Name: "sizes", Gen: c03Sizes, Check: c03Check, What: "sections with n elements, n around every power of two up to 66000"},
		&Scenario{Name: "limits", Gen: c03Big, Check: c03Check, What: "each section sized around the capacity of the declared width"})
	Register(p)
}
