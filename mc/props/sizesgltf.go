package props

import (
	"fmt"

	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

var gSizeNames = []string{"vertices", "primitives", "meshes", "depth", "materials", "joints", "skins", "targets", "keys"}
var gSizeMax = []int{66000, 300, 513, 129, 513, 300, 129, 129, 1030}

// gSize builds a document with one section of n elements.
func gSize(kind, n int) *gltf.Document {
	g := &gbuild{doc: newGLTF()}
	d := g.doc
	node := func(name string, parent int) *gltf.Node {
		nd := &gltf.Node{Name: name, Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale}
		d.Nodes = append(d.Nodes, nd)
		id := uint32(len(d.Nodes) - 1)
		if parent < 0 {
			d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, id)
		} else {
			d.Nodes[parent].Children = append(d.Nodes[parent].Children, id)
		}
		return nd
	}
	attrs := func(nv, off int) (map[string]uint32, *uint32) {
		pos := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, minmax: true, target: gltf.TargetArrayBuffer}
		uv := &gattr{typ: gltf.AccessorVec2, comp: gltf.ComponentFloat, target: gltf.TargetArrayBuffer}
		idx := &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUshort, target: gltf.TargetElementArrayBuffer}
		if nv > 65535 {
			idx.comp = gltf.ComponentUint
		}
		for i := 0; i < nv; i++ {
			pos.data = append(pos.data, []float64{float64((i + off) / 2 % 1024), float64((i+off)%2 + 3*((i+off)/2048)), float64(i%5) * 0.125})
			uv.data = append(uv.data, []float64{float64(i%64) / 64, float64(i/64%64) / 64})
		}
		for i := 0; i+2 < nv; i++ {
			idx.data = append(idx.data, []float64{float64(i)}, []float64{float64(i + 1 + i%2)}, []float64{float64(i + 2 - i%2)})
		}
		as := g.put(true, pos, uv)
		return map[string]uint32{"POSITION": as[0], "TEXCOORD_0": as[1]}, gltf.Index(g.put(false, idx)[0])
	}
	mesh := func(ps ...*gltf.Primitive) *uint32 {
		d.Meshes = append(d.Meshes, &gltf.Mesh{Name: fmt.Sprint("mesh", len(d.Meshes)), Primitives: ps})
		return gltf.Index(uint32(len(d.Meshes) - 1))
	}
	prim := func(nv, off int) *gltf.Primitive {
		a, i := attrs(nv, off)
		if len(d.Materials) == 0 {
			d.Materials = append(d.Materials, &gltf.Material{Name: "first", PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float32{1, 0.5, 1, 1}}})
		}
		return &gltf.Primitive{Attributes: a, Indices: i, Material: gltf.Index(0)}
	}
	skin := func(p *gltf.Primitive, nv, n, from int) *uint32 {
		js, ws := &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentUshort, target: gltf.TargetArrayBuffer}, &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentFloat, target: gltf.TargetArrayBuffer}
		for i := 0; i < nv; i++ {
			js.data = append(js.data, []float64{float64(i % n), float64((i + n/2) % n), 0, 0})
			ws.data = append(ws.data, []float64{0.75, 0.25, 0, 0})
		}
		as := g.put(true, js, ws)
		p.Attributes["JOINTS_0"], p.Attributes["WEIGHTS_0"] = as[0], as[1]
		w := gl{d}.worlds()
		ibm := &gattr{typ: gltf.AccessorMat4, comp: gltf.ComponentFloat}
		s := &gltf.Skin{}
		for i := 0; i < n; i++ {
			s.Joints = append(s.Joints, uint32(from+i))
			x, _ := w[from+i].inv()
			ibm.data = append(ibm.data, x.cols())
		}
		s.InverseBindMatrices = gltf.Index(g.put(false, ibm)[0])
		d.Skins = append(d.Skins, s)
		return gltf.Index(uint32(len(d.Skins) - 1))
	}
	switch kind {
	case 0:
		node("a", -1).Mesh = mesh(prim(n+2, 0))
	case 1:
		var ps []*gltf.Primitive
		for i := 0; i < n; i++ {
			ps = append(ps, prim(4, 10*i))
		}
		node("a", -1).Mesh = mesh(ps...)
	case 2:
		for i := 0; i < n; i++ {
			nd := node(fmt.Sprint("n", i), -1)
			nd.Mesh = mesh(prim(4, 10*i))
			nd.Translation = [3]float32{float32(i), 2, 3}
		}
	case 3:
		for i := 0; i < n; i++ {
			nd := node(fmt.Sprint("n", i), i-1)
			nd.Translation = [3]float32{0.5, 0.25, float32(i % 3)}
			if i%4 == 0 {
				nd.Mesh = mesh(prim(4, 10*i))
			}
		}
	case 4:
		var ps []*gltf.Primitive
		for i := 0; i < n; i++ {
			d.Materials = append(d.Materials, &gltf.Material{Name: fmt.Sprint("mat", i), PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float32{float32(i%8) / 8, 0.5, 1, 1}}})
			p := prim(3, 10*i)
			p.Material = gltf.Index(uint32(i))
			ps = append(ps, p)
		}
		node("a", -1).Mesh = mesh(ps...)
	case 5: // a chain with side branches
		for i := 0; i < n; i++ {
			p := i - 1
			if i%3 == 2 {
				p = i - 2
			}
			nd := node(fmt.Sprint("j", i), p)
			nd.Translation = [3]float32{0.125, 0.5, float32(i%3) * 0.25}
			if i%5 == 1 {
				nd.Rotation = quatF(gRots[2])
			}
		}
		p := prim(n+3, 0)
		s := skin(p, n+3, n, 0)
		nd := node("a", -1)
		nd.Mesh, nd.Skin = mesh(p), s
	case 6:
		for i := 0; i < n; i++ {
			a := node(fmt.Sprint("r", i), -1)
			a.Translation = [3]float32{float32(i), 1, 0}
			at := len(d.Nodes) - 1
			b := node(fmt.Sprint("s", i), at)
			b.Translation = [3]float32{0, 1, 0}
			b.Rotation = quatF(gRots[1])
			p := prim(5, 10*i)
			s := skin(p, 5, 2, at)
			nd := node(fmt.Sprint("a", i), -1)
			nd.Mesh, nd.Skin = mesh(p), s
		}
	case 7:
		p := prim(6, 0)
		m := mesh(p)
		var names []string
		for i := 0; i < n; i++ {
			t := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, minmax: true, target: gltf.TargetArrayBuffer}
			for k := 0; k < 6; k++ {
				t.data = append(t.data, []float64{float64(i + 1), float64(k), 0.5})
			}
			p.Targets = append(p.Targets, gltf.Attribute{"POSITION": g.put(true, t)[0]})
			names = append(names, fmt.Sprint("t", i))
			d.Meshes[*m].Weights = append(d.Meshes[*m].Weights, 0)
		}
		d.Meshes[*m].Extras = map[string]any{"targetNames": names}
		node("a", -1).Mesh = m
	case 8:
		node("a", -1).Mesh = mesh(prim(4, 0))
		in := &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentFloat, minmax: true}
		out := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat}
		for i := 0; i < n; i++ {
			in.data = append(in.data, []float64{float64(i) / 32})
			out.data = append(out.data, []float64{float64(i % 50), 2, 3})
		}
		a, b := g.put(false, in)[0], g.put(false, out)[0]
		d.Animations = []*gltf.Animation{{Name: "anim", Samplers: []*gltf.AnimationSampler{{Input: &a, Output: &b}}, Channels: []*gltf.Channel{{Sampler: gltf.Index(0), Target: gltf.ChannelTarget{Node: gltf.Index(0), Path: gltf.TRSTranslation}}}}}
	}
	return g.done()
}

func genGSizes(load, aux bool, only ...int) func(c *Chooser) any {
	return func(c *Chooser) any {
		k := only[c.Free("section", len(only))]
		var ns []int
		for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
			if n <= gSizeMax[k] {
				ns = append(ns, n)
			}
		}
		n := ns[c.Free("size", len(ns))]
		r := &gcase{what: fmt.Sprint(gSizeNames[k], " ", n)}
		r.mk = func() *gltf.Document {
			if !load {
				return gSize(k, n)
			}
			return loaded(gSize(k, n))
		}
		if aux {
			r.aux = []int{n % len(factors17)}
		}
		return r
	}
}
