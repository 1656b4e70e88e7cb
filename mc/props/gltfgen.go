package props

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// gbuild makes glTF documents byte by byte.
type gbuild struct {
	doc *gltf.Document
	buf []byte
	lay int // 0: a view per accessor, 1: one view per mesh with offsets, 2: interleaved
	pad int // bytes before the data
}

func putNum(b []byte, t gltf.ComponentType, norm bool, x float64) []byte {
	r := func(max float64) float64 {
		if norm {
			return math.Round(x * max)
		}
		return x
	}
	switch t {
	case gltf.ComponentByte:
		return append(b, byte(int8(r(127))))
	case gltf.ComponentUbyte:
		return append(b, byte(r(255)))
	case gltf.ComponentShort:
		return binary.LittleEndian.AppendUint16(b, uint16(int16(r(32767))))
	case gltf.ComponentUshort:
		return binary.LittleEndian.AppendUint16(b, uint16(r(65535)))
	case gltf.ComponentUint:
		return binary.LittleEndian.AppendUint32(b, uint32(x))
	}
	return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(x)))
}

type gattr struct {
	typ    gltf.AccessorType
	comp   gltf.ComponentType
	norm   bool
	data   [][]float64
	minmax bool
	target gltf.Target
}

func (g *gbuild) accessor(a *gattr, view uint32, off int) uint32 {
	acc := &gltf.Accessor{BufferView: &view, ByteOffset: uint32(off), ComponentType: a.comp, Normalized: a.norm, Type: a.typ, Count: uint32(len(a.data))}
	if a.minmax {
		n := gcomps(a.typ)
		for c := 0; c < n; c++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, e := range a.data {
				lo, hi = math.Min(lo, e[c]), math.Max(hi, e[c])
			}
			acc.Min, acc.Max = append(acc.Min, float32(lo)), append(acc.Max, float32(hi))
		}
	}
	g.doc.Accessors = append(g.doc.Accessors, acc)
	return uint32(len(g.doc.Accessors) - 1)
}

func (g *gbuild) view(off, stride int, target gltf.Target) uint32 {
	g.doc.BufferViews = append(g.doc.BufferViews, &gltf.BufferView{ByteOffset: uint32(off), ByteLength: uint32(len(g.buf) - off), ByteStride: uint32(stride), Target: target})
	return uint32(len(g.doc.BufferViews) - 1)
}

func (g *gbuild) align() int {
	for len(g.buf)%4 != 0 {
		g.buf = append(g.buf, 0xEE)
	}
	return len(g.buf)
}

// put writes attributes of the same element count; vertex: they are vertex attributes.
func (g *gbuild) put(vertex bool, as ...*gattr) (r []uint32) {
	esize := func(a *gattr) int {
		n := gcomps(a.typ) * gsize(a.comp)
		if vertex {
			n = (n + 3) / 4 * 4
		}
		return n
	}
	elem := func(a *gattr, e []float64) {
		s := len(g.buf)
		for _, x := range e {
			g.buf = putNum(g.buf, a.comp, a.norm, x)
		}
		for len(g.buf)-s < esize(a) {
			g.buf = append(g.buf, 0xEE)
		}
	}
	stride := func(a *gattr) int {
		if vertex && esize(a) != gcomps(a.typ)*gsize(a.comp) {
			return esize(a)
		}
		return 0
	}
	switch {
	case g.lay == 2 && vertex:
		start := g.align()
		st := 0
		for _, a := range as {
			st += esize(a)
		}
		for i := range as[0].data {
			for _, a := range as {
				elem(a, a.data[i])
			}
		}
		v := g.view(start, st, as[0].target)
		off := 0
		for _, a := range as {
			r = append(r, g.accessor(a, v, off))
			off += esize(a)
		}
	case g.lay == 1 && (!vertex || len(as) == 1): // something before it in the same view
		for _, a := range as {
			start := g.align()
			n := 4 * (1 + g.pad)
			if vertex {
				n = (n + esize(a) - 1) / esize(a) * esize(a)
			}
			for i := 0; i < n; i++ {
				g.buf = append(g.buf, 0xAB)
			}
			for _, e := range a.data {
				elem(a, e)
			}
			r = append(r, g.accessor(a, g.view(start, stride(a), a.target), n))
		}
	case g.lay == 1: // one view, one after the other (same stride)
		st := 0
		for _, a := range as {
			st = max(st, esize(a))
		}
		start := g.align()
		var offs []int
		for _, a := range as {
			offs = append(offs, len(g.buf)-start)
			for _, e := range a.data {
				s := len(g.buf)
				elem(a, e)
				for len(g.buf)-s < st {
					g.buf = append(g.buf, 0xEE)
				}
			}
		}
		v := g.view(start, st, as[0].target)
		for i, a := range as {
			r = append(r, g.accessor(a, v, offs[i]))
		}
	default:
		for _, a := range as {
			start := g.align()
			for _, e := range a.data {
				elem(a, e)
			}
			r = append(r, g.accessor(a, g.view(start, stride(a), a.target), 0))
		}
	}
	return
}

func (g *gbuild) done() *gltf.Document {
	d := g.doc
	if len(g.buf) > 0 {
		d.Buffers = []*gltf.Buffer{{ByteLength: uint32(len(g.buf)), Data: g.buf}}
	}
	return d
}

func rows3(v []v3d) (r [][]float64) {
	for _, x := range v {
		r = append(r, []float64{x[0], x[1], x[2]})
	}
	return
}

func newGLTF() *gltf.Document {
	return &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Scenes: []*gltf.Scene{{Name: "scene"}}, Scene: gltf.Index(0)}
}

type gcase struct {
	mk   func() *gltf.Document
	what string
	aux  []int
	free []int
}

func (c *gcase) Describe() string {
	b, _ := json.Marshal(c.mk())
	return c.what + "\n" + string(b)
}

var gRots = [][4]float64{{}, {0.5, 0.5, 0.5, 0.5}, {0, math.Sqrt2 / 2, 0, math.Sqrt2 / 2}, {-0.1, 0.7, 0.1, 0.7}}

func quatF(q [4]float64) (r [4]float32) {
	l := math.Sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3])
	for i := range q {
		r[i] = float32(q[i] / l)
	}
	return
}

// genGLTF builds a document: a root, two mesh nodes, a skeleton of three joints.
//
//	t transforms and tree, p primitives, m materials, s skin, b morph targets, a animations, l layouts, u uniform positive scales only, x images
func genGLTF(focus string) func(c *Chooser) *gltf.Document {
	has := func(g string) bool { return strings.Contains(focus, g) }
	return func(c *Chooser) *gltf.Document {
		ch := func(g, l string, n int) int {
			if has(g) {
				return c.Choose(l, n)
			}
			return 0
		}
		g := &gbuild{doc: newGLTF()}
		d := g.doc
		g.lay = ch("l", "layout", 3)
		g.pad = ch("l", "pad", 3)
		if g.pad > 0 {
			for i := 0; i < []int{0, 4, 7}[g.pad]; i++ {
				g.buf = append(g.buf, 0xCD)
			}
		}
		// nodes: 0 root 1 body 2 head 3 hips 4 spine 5 hand
		names := []string{"root", "body", "head", "hips", "spine", "hand"}
		trees := [][]int{{-1, 0, 0, 0, 3, 4}, {-1, -1, -1, -1, 3, 4}, {-1, 3, 1, 0, 3, 3}, {-1, 0, 4, 0, 3, 4}}
		if has("r") || has("R") { // meshes must be leaves and not above joints
			trees = [][]int{{-1, 0, 0, 0, 3, 4}, {-1, -1, -1, -1, 3, 4}, {-1, 3, 3, 0, 3, 3}, {-1, 0, 4, 0, 3, 4}}
		}
		tree := trees[ch("t", "tree", len(trees))]
		order := []int{0, 1, 2, 3, 4, 5}
		switch ch("t", "order", 3) {
		case 1:
			order = []int{5, 4, 3, 2, 1, 0}
		case 2:
			order = []int{2, 4, 0, 5, 3, 1}
		}
		at := make([]uint32, 6) // node index of each
		for i, k := range order {
			at[k] = uint32(i)
		}
		for range names {
			d.Nodes = append(d.Nodes, nil)
		}
		trs := func(k int, n *gltf.Node) {
			l := names[k]
			t := []v3d{{}, {1, 2, 3}, {-0.5, 0, 10}}[ch("t", l+".t", 3)]
			if k >= 4 && t == (v3d{}) {
				t = v3d{0, 1, 0.25}
			}
			r := gRots[ch("t", l+".r", len(gRots))]
			scales := []v3d{{}, {2, 2, 2}, {0.5, 1, -2}}
			if has("u") {
				scales = scales[:2]
			}
			if has("1") {
				scales = scales[:1]
			}
			s := scales[ch("t", l+".s", len(scales))]
			if ch("t", l+".matrix", 2) == 1 {
				q := m4id()
				if r != ([4]float64{}) {
					f := quatF(r)
					q = m4q(float64(f[0]), float64(f[1]), float64(f[2]), float64(f[3]))
				}
				sc := s
				if sc == (v3d{}) {
					sc = v3d{1, 1, 1}
				}
				for i, x := range m4t(t).mul(q).mul(m4s(sc)).cols() {
					n.Matrix[i] = float32(x)
				}
				n.Rotation, n.Scale = [4]float32{0, 0, 0, 1}, [3]float32{1, 1, 1}
				return
			}
			n.Matrix = gltf.DefaultMatrix // as the decoder leaves it
			n.Rotation, n.Scale = gltf.DefaultRotation, gltf.DefaultScale
			n.Translation = [3]float32{float32(t[0]), float32(t[1]), float32(t[2])}
			if r != ([4]float64{}) {
				n.Rotation = quatF(r)
			}
			if s != (v3d{}) {
				n.Scale = [3]float32{float32(s[0]), float32(s[1]), float32(s[2])}
			}
		}
		for k, nm := range names {
			n := &gltf.Node{Name: nm}
			trs(k, n)
			d.Nodes[at[k]] = n
		}
		for k, p := range tree {
			if p < 0 {
				d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, at[k])
			} else {
				d.Nodes[at[p]].Children = append(d.Nodes[at[p]].Children, at[k])
			}
		}
		// materials
		nm := 2
		if has("m") {
			nm = Pick(c, "materials", 2, 1, 3)
		}
		for i := 0; i < nm; i++ {
			l := fmt.Sprintf("mat%d.", i)
			m := &gltf.Material{Name: fmt.Sprint("材質", i)}
			m.DoubleSided = ch("m", l+"double", 2) == 1
			m.AlphaMode = []gltf.AlphaMode{gltf.AlphaOpaque, gltf.AlphaMask, gltf.AlphaBlend}[ch("m", l+"alpha", 3)]
			if ch("m", l+"cutoff", 2) == 1 {
				m.AlphaCutoff = gltf.Float(0.25)
			}
			if ch("m", l+"pbr", 2) == 0 {
				m.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
				if ch("m", l+"color", 2) == 1 {
					m.PBRMetallicRoughness.BaseColorFactor = &[4]float32{0.25, 0.5, 0.75, 0.125}
				}
				if ch("m", l+"mr", 2) == 1 {
					m.PBRMetallicRoughness.MetallicFactor = gltf.Float(0.25)
					m.PBRMetallicRoughness.RoughnessFactor = gltf.Float(0.75)
				}
				if k := ch("m", l+"texture", 4); k > 0 {
					m.PBRMetallicRoughness.BaseColorTexture = &gltf.TextureInfo{Index: uint32(k - 1)}
				}
			}
			if ch("m", l+"emissive", 2) == 1 {
				m.EmissiveFactor = [3]float32{0.5, 0.25, 0.125}
			}
			d.Materials = append(d.Materials, m)
		}
		if has("m") {
			d.Images = []*gltf.Image{{Name: "i0", URI: "a.png"}, {Name: "i1", URI: "sub/b.jpg"}}
			d.Textures = []*gltf.Texture{{Source: gltf.Index(1)}, {Source: gltf.Index(0)}, {}}
		}
		// meshes
		meshes := 2
		if ch("p", "shared", 2) == 1 {
			meshes = 1
		} else if !has("p") && ch("s", "shared", 2) == 1 {
			meshes = 1
		}
		skinned := [2]bool{has("s"), false}
		if has("s") {
			switch c.Choose("skinned", 4) {
			case 1:
				skinned = [2]bool{true, true}
			case 2:
				skinned = [2]bool{false, true}
			case 3:
				skinned = [2]bool{}
			}
		}
		if meshes == 1 && (skinned[0] || skinned[1]) {
			skinned = [2]bool{true, true} // both nodes use the one skinned mesh
		}
		var joints []int
		if has("s") {
			joints = []int{3, 4, 5}
			switch c.Choose("joints", 3) {
			case 1:
				joints = []int{5, 3, 4}
			case 2:
				joints = []int{4, 5}
			}
		}
		w := gl{d}.worlds()
		for mi := 0; mi < meshes; mi++ {
			l := fmt.Sprintf("mesh%d.", mi)
			m := &gltf.Mesh{Name: fmt.Sprint("mesh", mi)}
			if ch("p", l+"name", 2) == 1 {
				m.Name = "mesh"
			}
			np := 1
			if mi == 0 {
				np = 2
			}
			if has("p") && mi == 0 {
				np = Pick(c, l+"primitives", 2, 1, 3)
			}
			nt := 0
			if has("b") {
				nt = Pick(c, l+"targets", 1, 0, 2)
			}
			shareAttr := mi == 0 && np > 1 && ch("p", l+"sharedattributes", 2) == 1
			var first map[string]uint32
			for pi := 0; pi < np; pi++ {
				q := fmt.Sprintf("%sprim%d.", l, pi)
				p := &gltf.Primitive{Attributes: map[string]uint32{}, Material: gltf.Index(uint32((mi + pi + 1) % nm))}
				nv := 4 + pi
				if k := ch("p", q+"mode", 7); k > 0 {
					p.Mode = []gltf.PrimitiveMode{gltf.PrimitiveTriangles, gltf.PrimitiveTriangleStrip, gltf.PrimitiveTriangleFan, gltf.PrimitiveLines, gltf.PrimitivePoints, gltf.PrimitiveLineStrip, gltf.PrimitiveLineLoop}[k]
				}
				idx := [][]int{{0, 1, 2, 0, 2, 3}, {2, 1, 0}, {0, 1, 3, 1, 2, 3, 3, 2, 0}, {3, 0, 1, 2, 3, 1}}[ch("p", q+"faces", 4)]
				if p.Mode == gltf.PrimitiveTriangleStrip || p.Mode == gltf.PrimitiveTriangleFan {
					if idx[0] == 3 {
						idx = []int{3, 2, 0, 1}
					} else {
						idx = []int{0, 1, 2, 3, 1}[:3+len(idx)/3%3]
					}
				}
				var ai *gattr
				switch ch("p", q+"indices", 4) {
				case 0:
					ai = &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUshort}
				case 1:
					ai = &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUbyte}
				case 2:
					ai = &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUint}
				}
				if ai != nil {
					ai.target = gltf.TargetElementArrayBuffer
					for _, x := range idx {
						ai.data = append(ai.data, []float64{float64(x)})
					}
					p.Indices = gltf.Index(g.put(false, ai)[0])
				} else if p.Mode == gltf.PrimitiveTriangles || p.Mode == gltf.PrimitiveLines || p.Mode > gltf.PrimitivePoints && p.Mode < gltf.PrimitiveTriangleStrip {
					nv = 6
				}
				if shareAttr && pi > 0 {
					p.Attributes = first
				} else {
					var as []*gattr
					var keys []string
					put := func(k string, a *gattr) {
						a.target = gltf.TargetArrayBuffer
						as, keys = append(as, a), append(keys, k)
					}
					var pos []v3d
					for i := 0; i < nv; i++ {
						pos = append(pos, v3d{float64(i%2) * 2, float64(i/2) + float64(pi)*4, float64(i*i)/4 + float64(mi)*8})
					}
					put("POSITION", &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: rows3(pos), minmax: true})
					if ch("p", q+"normals", 2) == 0 {
						var n []v3d
						for i := range pos {
							n = append(n, fsDirs[(i+pi)%len(fsDirs)])
						}
						put("NORMAL", &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: rows3(n)})
					}
					if k := ch("p", q+"uv", 4); k < 3 {
						a := &gattr{typ: gltf.AccessorVec2, comp: []gltf.ComponentType{gltf.ComponentFloat, gltf.ComponentUbyte, gltf.ComponentUshort}[k], norm: k > 0}
						for i := range pos {
							a.data = append(a.data, []float64{float64(i) / 8, 1 - float64(i*i%7)/16})
						}
						put("TEXCOORD_0", a)
					}
					if skinned[mi] || meshes == 1 && skinned[1] {
						js, ws := &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentUbyte}, &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentFloat}
						if ch("s", q+"jointtype", 2) == 1 {
							js.comp = gltf.ComponentUshort
						}
						nj := len(joints)
						for i := range pos {
							a, b := float64(i%nj), float64((i+1)%nj)
							if i%3 == 0 {
								js.data, ws.data = append(js.data, []float64{a, 0, 0, 0}), append(ws.data, []float64{1, 0, 0, 0})
							} else {
								js.data, ws.data = append(js.data, []float64{a, b, 0, 0}), append(ws.data, []float64{0.25, 0.75, 0, 0})
							}
						}
						put("JOINTS_0", js)
						put("WEIGHTS_0", ws)
					}
					for i, a := range g.put(true, as...) {
						p.Attributes[keys[i]] = a
					}
					first = p.Attributes
				}
				for k := 0; k < nt; k++ {
					n := int(d.Accessors[p.Attributes["POSITION"]].Count)
					var ds []v3d
					for i := 0; i < n; i++ {
						ds = append(ds, v3d{float64(k), float64(i%3) / 2, -1})
					}
					p.Targets = append(p.Targets, gltf.Attribute{"POSITION": g.put(true, &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: rows3(ds), minmax: true, target: gltf.TargetArrayBuffer})[0]})
				}
				m.Primitives = append(m.Primitives, p)
			}
			if nt > 0 {
				m.Extras = map[string]interface{}{"targetNames": []string{"smile", "angry"}[:nt]}
				for k := 0; k < nt; k++ {
					m.Weights = append(m.Weights, 0)
				}
			}
			d.Meshes = append(d.Meshes, m)
		}
		d.Nodes[at[1]].Mesh = gltf.Index(0)
		d.Nodes[at[2]].Mesh = gltf.Index(uint32(meshes - 1))
		// skin
		if has("s") && (skinned[0] || skinned[1]) {
			skin := &gltf.Skin{}
			for _, j := range joints {
				skin.Joints = append(skin.Joints, at[j])
			}
			if c.Choose("skeleton", 2) == 0 {
				skin.Skeleton = gltf.Index(at[3])
			}
			if k := c.Choose("ibm", 3); k < 2 || has("r") || has("k") {
				a := &gattr{typ: gltf.AccessorMat4, comp: gltf.ComponentFloat}
				for _, j := range joints {
					x, _ := w[at[j]].inv()
					if k == 1 && !has("r") && !has("k") { // bound in another pose
						x = m4r(1, 30).mul(m4t(v3d{1, 0, float64(j)})).mul(x)
					}
					a.data = append(a.data, x.cols())
				}
				skin.InverseBindMatrices = gltf.Index(g.put(false, a)[0])
			}
			d.Skins = append(d.Skins, skin)
			n := 0
			for i, s := range skinned {
				if s {
					d.Nodes[at[1+i]].Skin = gltf.Index(uint32(n))
					if i == 0 && skinned[1] && c.Flag("skins2") { // a second skin with the same matrices
						s2 := *skin
						d.Skins = append(d.Skins, &s2)
						n = 1
					}
				}
			}
		}
		// animations
		if has("a") && c.Choose("animation", 2) == 1 {
			tm := &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentFloat, data: [][]float64{{0}, {1}}, minmax: true}
			tr := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, data: [][]float64{{0, 1, 2}, {3, 4, 5}}}
			ro := &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentFloat, data: [][]float64{{0, 0, 0, 1}, {1, 0, 0, 0}}}
			a := g.put(false, tm, tr, ro)
			an := &gltf.Animation{Name: "anim", Samplers: []*gltf.AnimationSampler{{Input: &a[0], Output: &a[1]}, {Input: &a[0], Output: &a[2]}}}
			an.Channels = []*gltf.Channel{{Sampler: gltf.Index(0), Target: gltf.ChannelTarget{Node: gltf.Index(at[4]), Path: gltf.TRSTranslation}}, {Sampler: gltf.Index(1), Target: gltf.ChannelTarget{Node: gltf.Index(at[4]), Path: gltf.TRSRotation}}}
			if c.Flag("animation.shared") { // two nodes with one sampler
				an.Channels = append(an.Channels, &gltf.Channel{Sampler: gltf.Index(0), Target: gltf.ChannelTarget{Node: gltf.Index(at[5]), Path: gltf.TRSTranslation}})
			}
			d.Animations = []*gltf.Animation{an}
		}
		return g.done()
	}
}

func frozenG(c *Chooser, g func(*Chooser) *gltf.Document) func() *gltf.Document {
	before := len(c.Vec())
	g(c)
	vec := append([]int{}, c.Vec()[before:]...)
	return func() *gltf.Document { return g(Replay(vec)) }
}
