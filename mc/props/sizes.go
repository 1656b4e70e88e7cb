package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"

	. "modelconvmc/engine"
)

// Documents with one section grown to n elements: n runs over values around
// every power of two up to the width limits of the formats.

var sizesAll = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1030}

var sizesBig = []int{2000, 2049, 4097, 10000, 32768, 32769, 65535, 65536, 65537, 66000}

type mqoSize struct {
	name string
	max  int
	mk   func(n int) *mqo.Document
}

func sizeTri(o *mqo.Object, off float32, mat int) {
	b := len(o.Vertexes)
	o.Vertexes = append(o.Vertexes, pv3(off, 0, 5), pv3(off, 40, 5), pv3(off+40, 0, 5))
	o.Faces = append(o.Faces, &mqo.Face{Verts: []int{b, b + 1, b + 2}, Material: mat, UVs: []geom.Vector2{{X: 0.625, Y: 0.25}, {X: 0.625, Y: 0.875}, {X: 0.875, Y: 0.25}}})
}

func sizeDoc(nmat int) *mqo.Document {
	doc := mqo.NewDocument()
	for i := 0; i < nmat; i++ {
		doc.Materials = append(doc.Materials, &mqo.Material{Name: fmt.Sprint("m", i), Color: geomV4(float32(i%4)*0.25, 1, float32(i/4%8)*0.125, 1), Diffuse: 0.8, Shader: mqo.ShaderPhong})
	}
	return doc
}

func sizeObj(doc *mqo.Document, name string) *mqo.Object {
	o := mqo.NewObject(name)
	o.Shading = 1
	o.Visible = true
	doc.Objects = append(doc.Objects, o)
	return o
}

func sizeBones(doc *mqo.Document, n int, chain bool) []*mqo.Bone {
	bp := mqo.GetBonePlugin(doc)
	var r []*mqo.Bone
	for i := 0; i < n; i++ {
		p := 0
		if i > 0 {
			p = 1
			if chain {
				p = i
			}
		}
		b := &mqo.Bone{ID: i + 1, Name: fmt.Sprint("bone", i), Parent: p, Pos: mqo.Vector3Attr{Vector3: v3(float32(i), float32(i%7), float32(i%3))}}
		bp.AddBone(b)
		r = append(r, b)
	}
	return r
}

// strip of n vertices
func sizeStrip(o *mqo.Object, n, mats int) {
	for i := 0; i < n; i++ {
		o.Vertexes = append(o.Vertexes, pv3(float32(i/2%2048), float32(i%2+3*(i/4096)), float32(i%5)*0.125))
	}
	for i := 0; i+2 < n; i++ {
		f := &mqo.Face{Verts: []int{i, i + 1 + i%2, i + 2 - i%2}, Material: i % mats}
		for _, v := range f.Verts {
			f.UVs = append(f.UVs, geom.Vector2{X: float32(v%64) / 64, Y: float32(v/64%64) / 64})
		}
		o.Faces = append(o.Faces, f)
	}
}

var mqoSizes = []mqoSize{
	{"objects", 1030, func(n int) *mqo.Document {
		doc := sizeDoc(2)
		for i := 0; i < n; i++ {
			sizeTri(sizeObj(doc, fmt.Sprint("o", i)), float32(i*50), i%2)
		}
		return doc
	}},
	{"depth", 130, func(n int) *mqo.Document {
		doc := sizeDoc(2)
		for i := 0; i < n; i++ {
			o := sizeObj(doc, fmt.Sprint("o", i))
			o.Depth = i
			sizeTri(o, float32(i*50), i%2)
		}
		return doc
	}},
	{"vertices", 66000, func(n int) *mqo.Document {
		doc := sizeDoc(2)
		sizeStrip(sizeObj(doc, "strip"), n, 2)
		return doc
	}},
	{"unused", 4097, func(n int) *mqo.Document { // only the last vertices are used
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		for i := 0; i < n; i++ {
			o.Vertexes = append(o.Vertexes, pv3(float32(i), 0, 0))
		}
		sizeTri(o, 7, 0)
		return doc
	}},
	{"faces", 1030, func(n int) *mqo.Document { // the same vertices with other coordinates
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		o.Vertexes = append(o.Vertexes, pv3(0, 0, 0), pv3(0, 10, 0), pv3(10, 0, 0))
		for i := 0; i < n; i++ {
			f := &mqo.Face{Verts: []int{0, 1, 2}}
			for k := 0; k < 3; k++ {
				f.UVs = append(f.UVs, geom.Vector2{X: float32(i%32) / 32, Y: float32(i/32)/64 + float32(k)*0.5})
			}
			o.Faces = append(o.Faces, f)
		}
		return doc
	}},
	{"corners", 300, func(n int) *mqo.Document { // convex polygon
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		f := &mqo.Face{}
		if n < 3 {
			n = 3
		}
		for i := 0; i < n; i++ {
			s, c := math.Sincos(-2 * math.Pi * float64(i) / float64(n))
			o.Vertexes = append(o.Vertexes, pv3(float32(1000*c), float32(1000*s), 5))
			f.Verts = append(f.Verts, i)
			f.UVs = append(f.UVs, geom.Vector2{X: float32(0.5 + 0.5*c), Y: float32(0.5 + 0.5*s)})
		}
		o.Faces = append(o.Faces, f)
		return doc
	}},
	{"materials", 1030, func(n int) *mqo.Document {
		doc := sizeDoc(n)
		o := sizeObj(doc, "o")
		for i := 0; i < n; i++ {
			sizeTri(o, float32(i*50), i)
		}
		return doc
	}},
	{"chain", 513, func(n int) *mqo.Document {
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		sizeStrip(o, n+2, 1)
		for i, b := range sizeBones(doc, n, true) {
			b.SetVertexWeight(1, i+1, 75)
			b.SetVertexWeight(1, i+2, 25)
			if i == 0 {
				b.SetVertexWeight(1, n+2, 100)
			}
		}
		return doc
	}},
	{"star", 1030, func(n int) *mqo.Document {
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		sizeStrip(o, n+2, 1)
		bs := sizeBones(doc, n, false)
		for i, b := range bs {
			b.SetVertexWeight(1, i+1, 60)
			bs[(i+n/2)%n].SetVertexWeight(1, i+3, 40)
		}
		return doc
	}},
	{"weights", 33, func(n int) *mqo.Document { // n bones on every vertex
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		sizeStrip(o, 8, 1)
		for i, b := range sizeBones(doc, n, false) {
			for v := range o.Vertexes {
				b.SetVertexWeight(1, v+1, float32(1+(i*7+v*3)%97))
			}
		}
		return doc
	}},
	{"skinned", 4097, func(n int) *mqo.Document { // n weights of one bone
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		sizeStrip(o, n+2, 1)
		bs := sizeBones(doc, 2, true)
		for v := range o.Vertexes {
			bs[0].SetVertexWeight(1, v+1, 25)
			bs[1].SetVertexWeight(1, v+1, 75)
		}
		return doc
	}},
	{"targets", 300, func(n int) *mqo.Document {
		doc := sizeDoc(1)
		base := sizeObj(doc, "base")
		sizeStrip(base, 6, 1)
		l := &mqo.MorphTargetList{Base: "base"}
		for i := 0; i < n; i++ {
			o := sizeObj(doc, fmt.Sprint("t", i))
			sizeStrip(o, 6, 1)
			o.Visible = false
			v := o.Vertexes[i%6]
			v.X, v.Y = v.X+float32(1+i), v.Y-float32(i%5)
			l.Target = append(l.Target, &mqo.MorphTarget{Name: o.Name})
		}
		mp := mqo.GetMorphPlugin(doc)
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		return doc
	}},
	{"morphs", 300, func(n int) *mqo.Document { // n objects with one target each
		doc := sizeDoc(1)
		mp := mqo.GetMorphPlugin(doc)
		for i := 0; i < n; i++ {
			b := sizeObj(doc, fmt.Sprint("b", i))
			sizeStrip(b, 5, 1)
			o := sizeObj(doc, fmt.Sprint("t", i))
			sizeStrip(o, 5, 1)
			for k := range b.Vertexes {
				b.Vertexes[k].X += float32(10 * i)
				o.Vertexes[k].X += float32(10 * i)
			}
			o.Visible = false
			o.Vertexes[i%5].Z += float32(1 + i)
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, &mqo.MorphTargetList{Base: b.Name, Target: []*mqo.MorphTarget{{Name: o.Name}}})
		}
		return doc
	}},
	{"moved", 66000, func(n int) *mqo.Document { // n vertices moved by a target
		doc := sizeDoc(1)
		b, o := sizeObj(doc, "base"), sizeObj(doc, "t")
		sizeStrip(b, n+2, 1)
		sizeStrip(o, n+2, 1)
		o.Visible = false
		for i, v := range o.Vertexes {
			v.Y += float32(1 + i%9)
		}
		mp := mqo.GetMorphPlugin(doc)
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, &mqo.MorphTargetList{Base: b.Name, Target: []*mqo.MorphTarget{{Name: o.Name}}})
		return doc
	}},
	{"bodies", 513, func(n int) *mqo.Document {
		doc := sizeDoc(1)
		o := sizeObj(doc, "o")
		sizeStrip(o, 5, 1)
		sizeBones(doc, n, false)
		pp := mqo.GetPhysicsPlugin(doc)
		for i := 0; i < n; i++ {
			pp.Bodies = append(pp.Bodies, &mqo.PhysicsBody{Name: fmt.Sprint("body", i), Mass: 1 + float32(i), CollisionGroup: i % 16, CollisionMask: 0xff, TargetBoneID: i + 1, Shapes: []*mqo.PhysicsShape{{Type: "BOX", Size: mqo.Vector3XmlAttr(v3(40, 80, float32(1+i))), Position: mqo.Vector3XmlAttr(v3(float32(80*i), 8, 160))}}})
		}
		return doc
	}},
	{"names", 1030, func(n int) *mqo.Document {
		doc := sizeDoc(2)
		doc.Materials[1].Name = strings.Repeat("x", n-1) + "y"
		sizeTri(sizeObj(doc, strings.Repeat("o", n)), 0, 1)
		sizeTri(sizeObj(doc, strings.Repeat("o", n)+"2"), 100, 0)
		b := sizeBones(doc, 2, true)
		b[1].Name = strings.Repeat("b", n) + "3"
		b[1].SetVertexWeight(1, 1, 100)
		return doc
	}},
}

// sizeCase draws a section and a size. limit caps the sizes (0: none).
func sizeCase(c *Chooser, limit int, only ...string) (string, func() *mqo.Document) {
	var l []mqoSize
	for _, s := range mqoSizes {
		ok := len(only) == 0
		for _, o := range only {
			ok = ok || o == s.name
		}
		if ok {
			l = append(l, s)
		}
	}
	s := l[c.Free("section", len(l))]
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= s.max && (limit == 0 || n <= limit) {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	return fmt.Sprint(s.name, " ", n), func() *mqo.Document { return s.mk(n) }
}

func gen10Sizes(limit int, only ...string) func(c *Chooser) any {
	return func(c *Chooser) any {
		what, mk := sizeCase(c, limit, only...)
		return &case10{mk: mk, what: what}
	}
}

func gen01Sizes(limit int) func(c *Chooser) any {
	return func(c *Chooser) any {
		_, mk := sizeCase(c, limit, "objects", "depth", "vertices", "faces", "corners", "materials", "names")
		return &c01Case{mk(), c.Free("container", 2) * 2}
	}
}

func gen02Sizes(limit int) func(c *Chooser) any {
	return func(c *Chooser) any {
		_, mk := sizeCase(c, limit, "chain", "star", "weights", "skinned", "targets", "morphs", "bodies", "names")
		return &c02Case{build: mk, file: "x.mqo"}
	}
}
