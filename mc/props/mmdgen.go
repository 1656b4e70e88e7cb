package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"unicode/utf16"

	"github.com/binzume/modelconv/mmd"
	"golang.org/x/text/encoding/japanese"

	. "modelconvmc/engine"
)

// ---- independent PMX / PMD / VMD encoders (written from the format notes)

type enc struct{ bytes.Buffer }

func (e *enc) u8(v int)      { e.WriteByte(byte(v)) }
func (e *enc) u16(v int)     { e.Write([]byte{byte(v), byte(v >> 8)}) }
func (e *enc) u32(v int)     { e.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}) }
func (e *enc) f32(v float32) { e.u32(int(math.Float32bits(v))) }
func (e *enc) fs(vs ...float32) {
	for _, v := range vs {
		e.f32(v)
	}
}
func (e *enc) v2(v mmd.Vector2) { e.fs(v.X, v.Y) }
func (e *enc) v3(v mmd.Vector3) { e.fs(v.X, v.Y, v.Z) }
func (e *enc) v4(v mmd.Vector4) { e.fs(v.X, v.Y, v.Z, v.W) }
func (e *enc) idx(sz byte, v int) {
	switch sz {
	case 1:
		e.u8(v)
	case 2:
		e.u16(v)
	default:
		e.u32(v)
	}
}

// pmxExtra carries what the file format holds and the library's model does not.
type pmxExtra struct {
	boneMorph     int // bone offsets appended to morphs of type 2
	displayGroups int
	localAxis     bool
	trailing      int
}

type pmxEnc struct {
	enc
	info []byte
}

func (e *pmxEnc) text(s string) {
	if e.info[0] == 0 {
		u := utf16.Encode([]rune(s))
		e.u32(len(u) * 2)
		for _, c := range u {
			e.u16(int(c))
		}
		return
	}
	e.u32(len(s))
	e.WriteString(s)
}

func encodePMX(doc *mmd.Document, info []byte, ex pmxExtra) []byte {
	e := &pmxEnc{info: info}
	e.WriteString("PMX ")
	e.f32(doc.Header.Version)
	e.u8(len(info))
	e.Write(info)
	e.text(doc.Name)
	e.text(doc.NameEn)
	e.text(doc.Comment)
	e.text(doc.CommentEn)
	vs, ts, ms, bs, os, rs := info[2], info[3], info[4], info[5], info[6], info[7]
	e.u32(len(doc.Vertexes))
	for _, v := range doc.Vertexes {
		e.v3(v.Pos)
		e.v3(v.Normal)
		e.v2(v.UV)
		for _, u := range v.ExtUVs {
			e.v4(u)
		}
		switch {
		case len(v.BoneWeights) == 1:
			e.u8(0)
			e.idx(bs, v.Bones[0])
		case len(v.BoneWeights) == 2:
			e.u8(1)
			e.idx(bs, v.Bones[0])
			e.idx(bs, v.Bones[1])
			e.f32(v.BoneWeights[0])
		case len(v.BoneWeights) == 4:
			e.u8(2)
			for _, b := range v.Bones {
				e.idx(bs, b)
			}
			e.fs(v.BoneWeights...)
		case len(v.BoneWeights) == 11:
			e.u8(3)
			e.idx(bs, v.Bones[0])
			e.idx(bs, v.Bones[1])
			e.f32(v.BoneWeights[0])
			e.fs(v.BoneWeights[2:]...)
		default:
			panic("weights")
		}
		e.f32(v.EdgeScale)
	}
	e.u32(len(doc.Faces) * 3)
	for _, f := range doc.Faces {
		for _, v := range f.Verts {
			e.idx(vs, v)
		}
	}
	e.u32(len(doc.Textures))
	for _, t := range doc.Textures {
		e.text(t)
	}
	e.u32(len(doc.Materials))
	for _, m := range doc.Materials {
		e.text(m.Name)
		e.text(m.NameEn)
		e.v4(m.Color)
		e.v3(m.Specular)
		e.f32(m.Specularity)
		e.v3(m.AColor)
		e.u8(int(m.Flags))
		e.v4(m.EdgeColor)
		e.f32(m.EdgeScale)
		e.idx(ts, m.TextureID)
		e.idx(ts, m.EnvID)
		e.u8(int(m.EnvMode))
		e.u8(int(m.ToonType))
		if m.ToonType == 0 {
			e.idx(ts, m.Toon)
		} else {
			e.u8(m.Toon)
		}
		e.text(m.Memo)
		e.u32(m.Count)
	}
	e.u32(len(doc.Bones))
	for _, b := range doc.Bones {
		e.text(b.Name)
		e.text(b.NameEn)
		e.v3(b.Pos)
		e.idx(bs, b.ParentID)
		e.u32(b.Layer)
		e.u16(int(b.Flags))
		if b.Flags&1 != 0 {
			e.idx(bs, b.TailID)
		} else {
			e.v3(b.TailPos)
		}
		if b.Flags&(0x100|0x200) != 0 {
			e.idx(bs, b.InheritParentID)
			e.f32(b.InheritParentInfluence)
		}
		if b.Flags&0x400 != 0 {
			e.v3(b.FixedAxis)
		}
		if b.Flags&0x800 != 0 {
			e.fs(1, 0, 0, 0, 0, 1)
		}
		if b.Flags&0x2000 != 0 {
			e.u32(0x01020304)
		}
		if b.Flags&0x20 != 0 {
			e.idx(bs, b.IK.TargetID)
			e.u32(b.IK.Loop)
			e.f32(b.IK.LimitRad)
			e.u32(len(b.IK.Links))
			for _, l := range b.IK.Links {
				e.idx(bs, l.TargetID)
				if l.HasLimit {
					e.u8(1)
					e.v3(l.LimitMin)
					e.v3(l.LimitMax)
				} else {
					e.u8(0)
				}
			}
		}
	}
	e.u32(len(doc.Morphs))
	for _, m := range doc.Morphs {
		e.text(m.Name)
		e.text(m.NameEn)
		e.u8(int(m.PanelType))
		e.u8(int(m.MorphType))
		switch m.MorphType {
		case 0:
			e.u32(len(m.Group))
			for _, g := range m.Group {
				e.idx(os, g.Target)
				e.f32(g.Weight)
			}
		case 1:
			e.u32(len(m.Vertex))
			for _, v := range m.Vertex {
				e.idx(vs, v.Target)
				e.v3(v.Offset)
			}
		case 2:
			e.u32(ex.boneMorph)
			for i := 0; i < ex.boneMorph; i++ {
				e.idx(bs, i)
				e.fs(1, 2, 3, 0, 0, 0, 1)
			}
		case 3, 4, 5, 6, 7:
			e.u32(len(m.UV))
			for _, v := range m.UV {
				e.idx(vs, v.Target)
				e.v4(v.Value)
			}
		case 8:
			e.u32(len(m.Material))
			for _, v := range m.Material {
				e.idx(ms, v.Target)
				e.u8(int(v.Flags))
				e.v4(v.Diffuse)
				e.v3(v.Specular)
				e.f32(v.Specularity)
				e.v3(v.Ambient)
				e.v4(v.EdgeColor)
				e.f32(v.EdgeSize)
				e.v4(v.TextureTint)
				e.v4(v.EnvironmentTint)
				e.v4(v.ToonTint)
			}
		}
	}
	e.u32(ex.displayGroups)
	for i := 0; i < ex.displayGroups; i++ {
		e.text("表示枠")
		e.text("group")
		e.u8(i % 2)
		e.u32(i)
		for j := 0; j < i; j++ {
			e.u8(j % 2)
			if j%2 == 0 {
				e.idx(bs, j)
			} else {
				e.idx(os, j)
			}
		}
	}
	e.u32(len(doc.Bodies))
	for _, b := range doc.Bodies {
		e.text(b.Name)
		e.text(b.NameEn)
		e.idx(bs, b.Bone)
		e.u8(b.Group)
		e.u16(b.GroupTarget)
		e.u8(int(b.Shape))
		e.v3(b.Size)
		e.v3(b.Position)
		e.v3(b.Rotation)
		e.fs(b.Mass, b.LinearDamping, b.AngularDamping, b.Restitution, b.Friction)
		e.u8(int(b.Mode))
	}
	e.u32(len(doc.Joints))
	for _, j := range doc.Joints {
		e.text(j.Name)
		e.text(j.NameEn)
		e.u8(int(j.Type))
		e.idx(rs, j.Body1)
		e.idx(rs, j.Body2)
		e.v3(j.Position)
		e.v3(j.Rotation)
		e.v3(j.PositionMin)
		e.v3(j.PositionMax)
		e.v3(j.RotationMin)
		e.v3(j.RotationMax)
		e.v3(j.LinerSpring)
		e.v3(j.AngulerSpring)
	}
	for i := 0; i < ex.trailing; i++ {
		e.u8(i)
	}
	return e.Bytes()
}

func sjis(s string) []byte {
	b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

func (e *enc) fixed(s string, n int, pad byte) {
	b := sjis(s)
	if len(b) > n {
		panic("fixed string too long: " + s)
	}
	e.Write(b)
	if len(b) < n {
		e.WriteByte(0)
		for i := len(b) + 1; i < n; i++ {
			e.WriteByte(pad)
		}
	}
}

// encodePMD encodes doc; morph targets are translated through the base morph.
func encodePMD(doc *mmd.Document, spheres map[int]string, base []int, pad byte) []byte {
	e := &enc{}
	e.WriteString("Pmd")
	e.f32(doc.Header.Version)
	e.fixed(doc.Name, 20, pad)
	e.fixed(doc.Comment, 256, pad)
	e.u32(len(doc.Vertexes))
	for _, v := range doc.Vertexes {
		e.v3(v.Pos)
		e.v3(v.Normal)
		e.v2(v.UV)
		e.u16(v.Bones[0])
		e.u16(v.Bones[1])
		e.u8(int(math.Round(float64(v.BoneWeights[0]) * 100)))
		e.u8(int(v.EdgeScale))
	}
	e.u32(len(doc.Faces) * 3)
	for _, f := range doc.Faces {
		for _, v := range f.Verts {
			e.u16(v)
		}
	}
	e.u32(len(doc.Materials))
	for i, m := range doc.Materials {
		e.v4(m.Color)
		e.f32(m.Specularity)
		e.v3(m.Specular)
		e.v3(m.AColor)
		e.u8(m.Toon)
		e.u8(int(m.EdgeScale))
		e.u32(m.Count)
		tex := ""
		if m.TextureID >= 0 {
			tex = doc.Textures[m.TextureID]
		}
		if s, ok := spheres[i]; ok {
			tex += "*" + s
		}
		e.fixed(tex, 20, pad)
	}
	e.u16(len(doc.Bones))
	for _, b := range doc.Bones {
		e.fixed(b.Name, 20, pad)
		e.u16(b.ParentID)
		if b.TailID < 0 {
			e.u16(0)
		} else {
			e.u16(b.TailID)
		}
		e.u8(1)
		e.u16(0)
		e.v3(b.Pos)
	}
	n := 0
	for _, b := range doc.Bones {
		if len(b.IK.Links) > 0 {
			n++
		}
	}
	e.u16(n)
	for i, b := range doc.Bones {
		if len(b.IK.Links) > 0 {
			e.u16(i)
			e.u16(b.IK.TargetID)
			e.u8(len(b.IK.Links))
			e.u16(b.IK.Loop)
			e.f32(0.5)
			for _, l := range b.IK.Links {
				e.u16(l.TargetID)
			}
		}
	}
	if len(doc.Morphs) == 0 {
		e.u16(0)
		return e.Bytes()
	}
	e.u16(len(doc.Morphs) + 1)
	e.fixed("base", 20, pad)
	e.u32(len(base))
	e.u8(0)
	at := map[int]int{}
	for i, v := range base {
		at[v] = i
		e.u32(v)
		e.fs(9, 9, 9)
	}
	for _, m := range doc.Morphs {
		e.fixed(m.Name, 20, pad)
		e.u32(len(m.Vertex))
		e.u8(int(m.PanelType))
		for _, v := range m.Vertex {
			e.u32(at[v.Target])
			e.v3(v.Offset)
		}
	}
	return e.Bytes()
}

func encodeVMD(a *mmd.Animation, pad byte, tail int) []byte {
	e := &enc{}
	e.fixed("Vocaloid Motion Data 0002", 30, pad)
	e.fixed(a.Name, 20, pad)
	e.u32(len(a.Bone))
	for _, s := range a.Bone {
		e.fixed(s.Target, 15, pad)
		e.u32(s.Frame)
		e.v3(s.Position)
		e.v4(s.Rotation)
		e.Write(s.Params[:])
	}
	e.u32(len(a.Morph))
	for _, s := range a.Morph {
		e.fixed(s.Target, 15, pad)
		e.u32(s.Frame)
		e.f32(s.Value)
	}
	for i := 0; i < tail; i++ {
		e.u32(0)
	}
	return e.Bytes()
}

// ---- comparison

func effWeights(v *mmd.Vertex) string {
	m := map[int]float32{}
	s := ""
	for i, b := range v.Bones {
		if i < len(v.BoneWeights) && b >= 0 && v.BoneWeights[i] != 0 {
			m[b] += v.BoneWeights[i]
			s += fmt.Sprintf("%d:%v ", b, v.BoneWeights[i])
		} else if i < len(v.BoneWeights) && i > 0 && v.BoneWeights[i] != 0 {
			s += fmt.Sprintf("none:%v ", v.BoneWeights[i])
		}
	}
	if len(v.BoneWeights) == 11 {
		s += fmt.Sprint("sdef", v.BoneWeights[2:])
	}
	return s
}

// diffMMD compares everything of the model.
func diffMMD(a, b *mmd.Document) *diffs {
	d := &diffs{}
	d.eq("name", a.Name, b.Name)
	d.eq("name en", a.NameEn, b.NameEn)
	d.eq("comment", a.Comment, b.Comment)
	d.eq("comment en", a.CommentEn, b.CommentEn)
	d.eq("vertices", len(a.Vertexes), len(b.Vertexes))
	for i := 0; i < len(a.Vertexes) && i < len(b.Vertexes); i++ {
		s, t := a.Vertexes[i], b.Vertexes[i]
		if s.Pos != t.Pos || s.Normal != t.Normal || s.UV != t.UV || s.EdgeScale != t.EdgeScale {
			d.add("vertex %d: want %v %v %v %v, got %v %v %v %v", i, s.Pos, s.Normal, s.UV, s.EdgeScale, t.Pos, t.Normal, t.UV, t.EdgeScale)
		}
		d.eq(fmt.Sprintf("vertex %d ext uv", i), len(s.ExtUVs), len(t.ExtUVs))
		for j := 0; j < len(s.ExtUVs) && j < len(t.ExtUVs); j++ {
			d.eq(fmt.Sprintf("vertex %d ext uv %d", i, j), s.ExtUVs[j], t.ExtUVs[j])
		}
		if x, y := effWeights(s), effWeights(t); x != y {
			d.add("vertex %d weights: want %s, got %s", i, x, y)
		}
		most := len(a.Bones) - 1
		for _, k := range s.Bones {
			most = max(most, k)
		}
		for _, k := range t.Bones {
			if k > most {
				d.add("vertex %d refers to bone %d, want %v", i, k, s.Bones)
			}
		}
	}
	d.eq("faces", len(a.Faces), len(b.Faces))
	for i := 0; i < len(a.Faces) && i < len(b.Faces); i++ {
		d.eq(fmt.Sprintf("face %d", i), a.Faces[i].Verts, b.Faces[i].Verts)
	}
	d.eq("textures", len(a.Textures), len(b.Textures))
	for i := 0; i < len(a.Textures) && i < len(b.Textures); i++ {
		d.eq(fmt.Sprintf("texture %d", i), a.Textures[i], b.Textures[i])
	}
	d.eq("materials", len(a.Materials), len(b.Materials))
	for i := 0; i < len(a.Materials) && i < len(b.Materials); i++ {
		if *a.Materials[i] != *b.Materials[i] {
			d.add("material %d: want %+v, got %+v", i, *a.Materials[i], *b.Materials[i])
		}
	}
	d.eq("bones", len(a.Bones), len(b.Bones))
	for i := 0; i < len(a.Bones) && i < len(b.Bones); i++ {
		if x, y := boneStr(a.Bones[i]), boneStr(b.Bones[i]); x != y {
			d.add("bone %d: want %s, got %s", i, x, y)
		}
	}
	d.eq("morphs", len(a.Morphs), len(b.Morphs))
	for i := 0; i < len(a.Morphs) && i < len(b.Morphs); i++ {
		if x, y := mmdMorphStr(a.Morphs[i]), mmdMorphStr(b.Morphs[i]); x != y {
			d.add("morph %d: want %s, got %s", i, x, y)
		}
	}
	d.eq("bodies", len(a.Bodies), len(b.Bodies))
	for i := 0; i < len(a.Bodies) && i < len(b.Bodies); i++ {
		s, t := *a.Bodies[i], *b.Bodies[i]
		s.GroupTarget &= 0xffff // a 16-bit mask
		t.GroupTarget &= 0xffff
		if s != t {
			d.add("body %d: want %+v, got %+v", i, s, t)
		}
	}
	d.eq("joints", len(a.Joints), len(b.Joints))
	for i := 0; i < len(a.Joints) && i < len(b.Joints); i++ {
		if *a.Joints[i] != *b.Joints[i] {
			d.add("joint %d: want %+v, got %+v", i, *a.Joints[i], *b.Joints[i])
		}
	}
	return d
}

func boneStr(b *mmd.Bone) string {
	c := *b
	s := ""
	for _, l := range c.IK.Links {
		s += fmt.Sprintf(" %+v", *l)
	}
	c.IK.Links = nil
	return fmt.Sprintf("%+v%s", c, s)
}

func mmdMorphStr(m *mmd.Morph) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%q %q panel %d type %d", m.Name, m.NameEn, m.PanelType, m.MorphType)
	for _, x := range m.Group {
		fmt.Fprintf(&s, " g%+v", *x)
	}
	for _, x := range m.Vertex {
		fmt.Fprintf(&s, " v%+v", *x)
	}
	for _, x := range m.UV {
		fmt.Fprintf(&s, " u%+v", *x)
	}
	for _, x := range m.Material {
		fmt.Fprintf(&s, " m%+v", *x)
	}
	return s.String()
}

// ---- generator

var mmdTexts = []string{"", "a", "モデル", "日本 語\r\n改行", "emoji😀𠮷", "ﾊﾝｶｸ", "é", "a\\b.png"}

func pickText(c *Chooser, l, def string) string {
	k := c.Choose(l, len(mmdTexts)+1)
	if k == 0 {
		return def
	}
	return mmdTexts[k-1]
}

// genPMX makes a model; part selects which attributes get choice points.
func genPMX(c *Chooser, part int) *mmd.Document {
	doc := mmd.NewDocument()
	doc.Name = "model"
	nbone, nmorph := 2, 2
	nv := 4
	f := func(on bool, l string, def float32) float32 {
		if !on {
			return def
		}
		return Pick(c, l, def, 0, -1.5, 1e-20, 3.4e38, 0.1)
	}
	p := part == 0
	if p {
		doc.Name = pickText(c, "name", doc.Name)
		doc.NameEn = pickText(c, "nameen", "")
		doc.Comment = pickText(c, "comment", "comment")
		doc.CommentEn = pickText(c, "commenten", "")
		doc.Header.Version = Pick[float32](c, "version", 2, 2.1)
		doc.Header.Info[mmd.AttrExtUV] = byte(c.Choose("extuv", 5))
		nv = Pick(c, "nv", 4, 0, 1, 3)
	}
	for i := 0; i < nv; i++ {
		l := fmt.Sprintf("v%d.", i)
		v := &mmd.Vertex{Pos: v3(float32(i), float32(i%2), 1), Normal: v3(0, 0, 1), UV: mmd.Vector2{X: float32(i) / 4, Y: 0.5}, EdgeScale: 1}
		if p && i < 2 {
			v.Pos.X = f(p, l+"x", v.Pos.X)
			v.Normal.Y = f(p, l+"ny", 0)
			v.UV.X = f(p, l+"u", v.UV.X)
			v.EdgeScale = f(p, l+"edge", 1)
		}
		for k := byte(0); k < doc.Header.Info[mmd.AttrExtUV]; k++ {
			v.ExtUVs = append(v.ExtUVs, geomV4(float32(k), float32(i), 0.5, -1))
		}
		k := 0
		if p {
			k = c.Choose(l+"weights", 11)
		}
		switch k {
		case 0:
			v.Bones, v.BoneWeights = []int{i % nbone}, []float32{1}
		case 1:
			v.Bones, v.BoneWeights = []int{0, 1}, []float32{0.25, 0.75}
		case 2:
			v.Bones, v.BoneWeights = []int{1, 0}, []float32{0.5, 0.5}
		case 3:
			v.Bones, v.BoneWeights = []int{0, 1, 0, 1}, []float32{0.1, 0.2, 0.3, 0.4}
		case 4:
			v.Bones, v.BoneWeights = []int{1, 0, -1, -1}, []float32{0.5, 0.25, 0, 0}
		case 5:
			v.Bones, v.BoneWeights = []int{0, 1}, []float32{0.25, 0.75, 1, 2, 3, 4, 5, 6, 7, 8, 9}
		case 6:
			v.Bones, v.BoneWeights = []int{-1}, []float32{1}
		case 7:
			v.Bones, v.BoneWeights = []int{0, -1}, []float32{1, 0}
		case 8:
			v.Bones, v.BoneWeights = []int{0, 1}, []float32{0, 1}
		case 9:
			v.Bones, v.BoneWeights = nil, nil
		case 10:
			v.Bones, v.BoneWeights = []int{0, 1, 0}, []float32{0.5, 0.25, 0.25}
		}
		doc.Vertexes = append(doc.Vertexes, v)
	}
	nf := 0
	if nv > 0 {
		nf = 2
		if p {
			nf = Pick(c, "nf", 2, 1, 0, 3)
		}
	}
	for i := 0; i < nf; i++ {
		doc.Faces = append(doc.Faces, &mmd.Face{Verts: [3]int{i % nv, (i + 1) % nv, (i + 2) % nv}})
	}
	p = part == 1
	nt := 2
	if p {
		nt = Pick(c, "nt", 2, 0, 1)
	}
	for i := 0; i < nt; i++ {
		t := fmt.Sprintf("tex%d.png", i)
		if p {
			t = pickText(c, fmt.Sprintf("t%d", i), t)
		}
		doc.Textures = append(doc.Textures, t)
	}
	nm := 2
	if p {
		nm = Pick(c, "nm", 2, 0, 1)
	}
	for i := 0; i < nm; i++ {
		l := fmt.Sprintf("m%d.", i)
		m := &mmd.Material{Name: fmt.Sprintf("mat%d", i), Color: geomV4(1, 0.5, 0.25, 1), TextureID: -1, EnvID: -1, Toon: -1, Count: 3}
		if p {
			m.Name = pickText(c, l+"name", m.Name)
			m.NameEn = pickText(c, l+"nameen", "")
			m.Color.W = f(p, l+"a", 1)
			m.Specular = v3(f(p, l+"spec", 0), 0.5, 1)
			m.Specularity = f(p, l+"power", 5)
			m.AColor = v3(0.1, f(p, l+"amb", 0.2), 0.3)
			m.Flags = Pick[byte](c, l+"flags", 0, 1, 2, 0x1f, 0xff)
			m.EdgeColor = geomV4(0, 0, f(p, l+"edgec", 0), 1)
			m.EdgeScale = f(p, l+"edges", 1)
			m.TextureID = c.Choose(l+"tex", nt+1) - 1
			m.EnvID = c.Choose(l+"env", nt+1) - 1
			m.EnvMode = byte(c.Choose(l+"envmode", 4))
			switch c.Choose(l+"toon", 4) {
			case 1:
				m.ToonType, m.Toon = 1, 0
			case 2:
				m.ToonType, m.Toon = 1, 9
			case 3:
				m.ToonType, m.Toon = 0, 0
			}
			m.Memo = pickText(c, l+"memo", "")
			m.Count = Pick(c, l+"count", 3, 0, 6)
		}
		doc.Materials = append(doc.Materials, m)
	}
	p = part == 2
	if p {
		nbone = Pick(c, "nbone", 2, 3, 1, 0)
	}
	for i := 0; i < nbone; i++ {
		l := fmt.Sprintf("b%d.", i)
		b := &mmd.Bone{Name: fmt.Sprintf("bone%d", i), Pos: v3(0, float32(i), 0), ParentID: i - 1, TailID: -1}
		if p {
			b.Name = pickText(c, l+"name", b.Name)
			b.NameEn = pickText(c, l+"nameen", "")
			b.Pos.Z = f(p, l+"z", 0)
			b.ParentID = Pick(c, l+"parent", i-1, -1, 0)
			b.Layer = Pick(c, l+"layer", 0, 1, 1000, -1)
			for bit := 0; bit < 14; bit++ {
				if c.Flag(fmt.Sprintf("%sflag%d", l, bit)) {
					b.Flags |= 1 << bit
				}
			}
			b.Flags |= Pick[uint16](c, l+"more", 0, 0x1e, 0x3f20, 0x31)
			if b.Flags&1 != 0 {
				b.TailID = Pick(c, l+"tail", 0, -1, nbone-1)
			} else {
				b.TailPos = v3(f(p, l+"tailx", 1), 2, 3)
			}
			if b.Flags&0x300 != 0 {
				b.InheritParentID = Pick(c, l+"inh", 0, -1)
				b.InheritParentInfluence = f(p, l+"inhw", 0.5)
			}
			if b.Flags&0x400 != 0 {
				b.FixedAxis = v3(0, f(p, l+"axis", 1), 0.5)
			}
			if b.Flags&0x20 != 0 {
				b.IK.TargetID = Pick(c, l+"ikt", 0, nbone-1)
				b.IK.Loop = Pick(c, l+"loop", 40, 0)
				b.IK.LimitRad = f(p, l+"lim", 0.5)
				n := Pick(c, l+"links", 1, 2, 0)
				for k := 0; k < n; k++ {
					li := &mmd.Link{TargetID: Pick(c, fmt.Sprintf("%sl%d", l, k), 0, nbone-1, -1)}
					if c.Flag(fmt.Sprintf("%sl%d.limit", l, k)) {
						li.HasLimit = true
						li.LimitMin, li.LimitMax = v3(-1, 0, 0.5), v3(1, 2, 3)
					}
					b.IK.Links = append(b.IK.Links, li)
				}
			}
		}
		doc.Bones = append(doc.Bones, b)
	}
	p = part == 3
	if p {
		nmorph = Pick(c, "nmorph", 2, 1, 3, 0)
	}
	for i := 0; i < nmorph; i++ {
		l := fmt.Sprintf("o%d.", i)
		m := &mmd.Morph{Name: fmt.Sprintf("morph%d", i), MorphType: 1, PanelType: 1}
		n := 1
		if p {
			m.Name = pickText(c, l+"name", m.Name)
			m.NameEn = pickText(c, l+"nameen", "")
			m.PanelType = byte(c.Choose(l+"panel", 5))
			m.MorphType = Pick[byte](c, l+"type", 1, 0, 3, 8, 4, 5, 6, 7)
			n = Pick(c, l+"n", 1, 2, 0, 3)
		}
		for k := 0; k < n; k++ {
			ll := fmt.Sprintf("%s%d.", l, k)
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: Pick(c, ll+"target", k%nmorph, nmorph-1, -1), Weight: f(p, ll+"w", 0.5)})
			case 1:
				x := float32(1)
				tg := k % 4
				if p {
					x = f(p, ll+"x", 1)
					tg = Pick(c, ll+"target", k, 3)
				}
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: tg, Offset: v3(x, 0, float32(k))})
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: Pick(c, ll+"target", 0, 1, -1), Flags: byte(c.Choose(ll+"fl", 2)),
					Diffuse: geomV4(1, f(p, ll+"d", 2), 3, 4), Specular: v3(5, 6, 7), Specularity: 8, Ambient: v3(9, 10, 11), EdgeColor: geomV4(12, 13, 14, 15), EdgeSize: 16,
					TextureTint: geomV4(17, 18, 19, 20), EnvironmentTint: geomV4(21, 22, 23, 24), ToonTint: geomV4(25, 26, 27, f(p, ll+"t", 28))})
			default:
				m.UV = append(m.UV, &mmd.MorphUV{Target: Pick(c, ll+"target", k, 3), Value: geomV4(0.1, f(p, ll+"y", 0.2), 0.3, 0.4)})
			}
		}
		doc.Morphs = append(doc.Morphs, m)
	}
	p = part == 4
	nb := 2
	if p {
		nb = Pick(c, "nbody", 2, 1, 0, 3)
	}
	for i := 0; i < nb; i++ {
		l := fmt.Sprintf("r%d.", i)
		b := &mmd.RigidBody{Name: fmt.Sprintf("body%d", i), Bone: 0, Mass: 1, Size: v3(1, 2, 3), Position: v3(4, 5, 6), Rotation: v3(0.1, 0.2, 0.3)}
		if p {
			b.Name = pickText(c, l+"name", b.Name)
			b.NameEn = pickText(c, l+"nameen", "")
			b.Bone = Pick(c, l+"bone", 0, 1, -1)
			b.Group = Pick(c, l+"group", 0, 1, 15)
			b.GroupTarget = Pick(c, l+"mask", 0, 1, 0x7fff, 0x8000, 0xffff)
			b.Shape = byte(c.Choose(l+"shape", 3))
			b.Size.Y = f(p, l+"size", 2)
			b.Position.Z = f(p, l+"pos", 6)
			b.Rotation.X = f(p, l+"rot", 0.1)
			b.Mass = f(p, l+"mass", 1)
			b.LinearDamping = f(p, l+"ld", 0.25)
			b.AngularDamping = f(p, l+"ad", 0.75)
			b.Restitution = f(p, l+"rest", 0.125)
			b.Friction = f(p, l+"fric", 0.625)
			b.Mode = byte(c.Choose(l+"mode", 3))
		}
		doc.Bodies = append(doc.Bodies, b)
	}
	nj := 1
	if p {
		nj = Pick(c, "njoint", 1, 2, 0)
	}
	for i := 0; i < nj; i++ {
		l := fmt.Sprintf("j%d.", i)
		j := &mmd.Joint{Name: fmt.Sprintf("joint%d", i), Body1: 0, Body2: nb - 1, Position: v3(1, 2, 3), Rotation: v3(4, 5, 6), PositionMin: v3(7, 8, 9),
			PositionMax: v3(10, 11, 12), RotationMin: v3(13, 14, 15), RotationMax: v3(16, 17, 18), LinerSpring: v3(19, 20, 21), AngulerSpring: v3(22, 23, 24)}
		if p {
			j.Name = pickText(c, l+"name", j.Name)
			j.NameEn = pickText(c, l+"nameen", "")
			j.Type = byte(c.Choose(l+"type", 2))
			j.Body1 = Pick(c, l+"b1", 0, -1)
			j.Body2 = Pick(c, l+"b2", nb-1, -1)
			j.Position.X = f(p, l+"px", 1)
			j.AngulerSpring.Z = f(p, l+"as", 24)
		}
		doc.Joints = append(doc.Joints, j)
	}
	return doc
}

// pickWidths assigns the index widths.
func pickWidths(c *Chooser, info []byte) []byte {
	r := append([]byte{}, info...)
	for i := 2; i < 8; i++ {
		r[i] = Pick[byte](c, fmt.Sprintf("width%d", i), 1, 2, 4)
	}
	return r
}

var _ = binary.LittleEndian
