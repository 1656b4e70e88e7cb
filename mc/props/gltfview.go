package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/qmuntal/gltf"
)

// ---- independent reading of glTF documents: accessors, scene graph, validity

// gl is a view of a glTF document that reads buffers by itself.
type gl struct {
	*gltf.Document
}

func gcomps(t gltf.AccessorType) int {
	switch t {
	case gltf.AccessorScalar:
		return 1
	case gltf.AccessorVec2:
		return 2
	case gltf.AccessorVec3:
		return 3
	case gltf.AccessorVec4, gltf.AccessorMat2:
		return 4
	case gltf.AccessorMat3:
		return 9
	case gltf.AccessorMat4:
		return 16
	}
	return 0
}

func gsize(t gltf.ComponentType) int {
	switch t {
	case gltf.ComponentByte, gltf.ComponentUbyte:
		return 1
	case gltf.ComponentShort, gltf.ComponentUshort:
		return 2
	case gltf.ComponentUint, gltf.ComponentFloat:
		return 4
	}
	return 0
}

// bufferData is the content of a buffer.
func (g gl) bufferData(i int) []byte {
	return g.Buffers[i].Data
}

// fit reports why the accessor does not fit its buffer view, or "".
func (g gl) fit(i int) string {
	if i < 0 || i >= len(g.Accessors) {
		return fmt.Sprintf("accessor %d does not exist", i)
	}
	a := g.Accessors[i]
	n, sz := gcomps(a.Type), gsize(a.ComponentType)
	if n == 0 || sz == 0 {
		return fmt.Sprintf("accessor %d has type %v/%v", i, a.Type, a.ComponentType)
	}
	if a.Count == 0 {
		return fmt.Sprintf("accessor %d has no elements", i)
	}
	if a.BufferView == nil {
		return ""
	}
	if int(*a.BufferView) >= len(g.BufferViews) {
		return fmt.Sprintf("accessor %d: buffer view %d does not exist", i, *a.BufferView)
	}
	v := g.BufferViews[*a.BufferView]
	if int(v.Buffer) >= len(g.Buffers) {
		return fmt.Sprintf("buffer view %d: buffer %d does not exist", *a.BufferView, v.Buffer)
	}
	stride := int(v.ByteStride)
	if stride == 0 {
		stride = n * sz
	} else if stride < n*sz || stride%sz != 0 || stride > 252 || stride < 4 {
		return fmt.Sprintf("accessor %d: stride %d", i, stride)
	}
	if (int(a.ByteOffset)+int(v.ByteOffset))%sz != 0 {
		return fmt.Sprintf("accessor %d: offset %d is not aligned", i, int(a.ByteOffset)+int(v.ByteOffset))
	}
	if int(a.ByteOffset)+stride*(int(a.Count)-1)+n*sz > int(v.ByteLength) {
		return fmt.Sprintf("accessor %d: %d elements do not fit into buffer view of %d bytes", i, a.Count, v.ByteLength)
	}
	if int(v.ByteOffset)+int(v.ByteLength) > int(g.Buffers[v.Buffer].ByteLength) {
		return fmt.Sprintf("buffer view %d does not fit into its buffer", *a.BufferView)
	}
	if int(v.ByteOffset)+int(v.ByteLength) > len(g.bufferData(int(v.Buffer))) {
		return fmt.Sprintf("buffer view %d does not fit into the data of its buffer", *a.BufferView)
	}
	return ""
}

// read returns the elements of an accessor, normalised values as floats.
func (g gl) read(i int) [][]float64 {
	if g.fit(i) != "" {
		return nil
	}
	a := g.Accessors[i]
	n, sz := gcomps(a.Type), gsize(a.ComponentType)
	r := make([][]float64, a.Count)
	if a.BufferView == nil {
		for k := range r {
			r[k] = make([]float64, n)
		}
		return r
	}
	v := g.BufferViews[*a.BufferView]
	stride := int(v.ByteStride)
	if stride == 0 {
		stride = n * sz
	}
	d := g.bufferData(int(v.Buffer))[int(v.ByteOffset)+int(a.ByteOffset):]
	for k := range r {
		r[k] = make([]float64, n)
		for c := 0; c < n; c++ {
			p := d[k*stride+c*sz:]
			var x float64
			switch a.ComponentType {
			case gltf.ComponentByte:
				x = float64(int8(p[0]))
				if a.Normalized {
					x = math.Max(x/127, -1)
				}
			case gltf.ComponentUbyte:
				x = float64(p[0])
				if a.Normalized {
					x /= 255
				}
			case gltf.ComponentShort:
				x = float64(int16(binary.LittleEndian.Uint16(p)))
				if a.Normalized {
					x = math.Max(x/32767, -1)
				}
			case gltf.ComponentUshort:
				x = float64(binary.LittleEndian.Uint16(p))
				if a.Normalized {
					x /= 65535
				}
			case gltf.ComponentUint:
				x = float64(binary.LittleEndian.Uint32(p))
			case gltf.ComponentFloat:
				x = float64(math.Float32frombits(binary.LittleEndian.Uint32(p)))
			}
			r[k][c] = x
		}
	}
	return r
}

func (g gl) vec3(i int) []v3d {
	var r []v3d
	for _, e := range g.read(i) {
		if len(e) != 3 {
			return nil
		}
		r = append(r, v3d{e[0], e[1], e[2]})
	}
	return r
}

func (g gl) mats(i int) []m4 {
	var r []m4
	for _, e := range g.read(i) {
		if len(e) != 16 {
			return nil
		}
		r = append(r, m4cols(e))
	}
	return r
}

// tris are the triangles of a primitive as vertex indices.
func (g gl) tris(p *gltf.Primitive) [][3]int {
	var idx []int
	if p.Indices != nil {
		for _, e := range g.read(int(*p.Indices)) {
			idx = append(idx, int(e[0]))
		}
	} else if a, ok := p.Attributes["POSITION"]; ok && int(a) < len(g.Accessors) {
		for i := 0; i < int(g.Accessors[a].Count); i++ {
			idx = append(idx, i)
		}
	}
	var r [][3]int
	switch p.Mode {
	case gltf.PrimitiveTriangles:
		for i := 0; i+2 < len(idx); i += 3 {
			r = append(r, [3]int{idx[i], idx[i+1], idx[i+2]})
		}
	case gltf.PrimitiveTriangleStrip:
		for i := 0; i+2 < len(idx); i++ {
			r = append(r, [3]int{idx[i], idx[i+1+i%2], idx[i+2-i%2]})
		}
	case gltf.PrimitiveTriangleFan:
		for i := 1; i+1 < len(idx); i++ {
			r = append(r, [3]int{idx[0], idx[i], idx[i+1]})
		}
	}
	return r
}

// local is the local matrix of a node.
func (g gl) local(i int) m4 {
	n := g.Nodes[i]
	if n.Matrix != gltf.DefaultMatrix && n.Matrix != ([16]float32{}) {
		var f []float64
		for _, x := range n.Matrix {
			f = append(f, float64(x))
		}
		return m4cols(f)
	}
	q := n.Rotation
	if q == ([4]float32{}) {
		q = gltf.DefaultRotation
	}
	s := n.Scale
	if s == ([3]float32{}) {
		s = gltf.DefaultScale
	}
	t := n.Translation
	return m4t(v3d{float64(t[0]), float64(t[1]), float64(t[2])}).
		mul(m4q(float64(q[0]), float64(q[1]), float64(q[2]), float64(q[3]))).
		mul(m4s(v3d{float64(s[0]), float64(s[1]), float64(s[2])}))
}

// parents maps every node to its parent or -1.
func (g gl) parents() []int {
	p := make([]int, len(g.Nodes))
	for i := range p {
		p[i] = -1
	}
	for i, n := range g.Nodes {
		for _, c := range n.Children {
			if int(c) < len(p) {
				p[c] = i
			}
		}
	}
	return p
}

// worlds are the global matrices of all nodes (the graph must be a forest).
func (g gl) worlds() []m4 {
	p := g.parents()
	w := make([]m4, len(g.Nodes))
	for i := range g.Nodes {
		w[i] = g.local(i)
		for k, n := p[i], 0; k >= 0 && n <= len(p); k, n = p[k], n+1 {
			w[i] = g.local(k).mul(w[i])
		}
	}
	return w
}

// reachable are the nodes of the default scene.
func (g gl) reachable() map[int]bool {
	r := map[int]bool{}
	s := 0
	if g.Scene != nil {
		s = int(*g.Scene)
	}
	if s >= len(g.Scenes) {
		return r
	}
	var walk func(i int)
	walk = func(i int) {
		if i >= len(g.Nodes) || r[i] {
			return
		}
		r[i] = true
		for _, c := range g.Nodes[i].Children {
			walk(int(c))
		}
	}
	for _, n := range g.Scenes[s].Nodes {
		walk(int(n))
	}
	return r
}

// skinned returns the rendered positions of a node's primitive with morph weights w.
func (g gl) rendered(node int, worlds []m4, p *gltf.Primitive, w []float64) []v3d {
	pos := g.vec3(int(p.Attributes["POSITION"]))
	out := append([]v3d{}, pos...)
	for k, t := range p.Targets {
		if k < len(w) && w[k] != 0 {
			if a, ok := t["POSITION"]; ok {
				for i, d := range g.vec3(int(a)) {
					if i < len(out) {
						out[i] = out[i].add(d.mul(w[k]))
					}
				}
			}
		}
	}
	n := g.Nodes[node]
	if n.Skin == nil {
		for i := range out {
			out[i] = worlds[node].apply(out[i])
		}
		return out
	}
	jm := g.jointMats(int(*n.Skin), worlds)
	js, ws := g.read(int(p.Attributes["JOINTS_0"])), g.read(int(p.Attributes["WEIGHTS_0"]))
	for i := range out {
		var r v3d
		if i < len(js) && i < len(ws) {
			for k := 0; k < 4; k++ {
				if ws[i][k] != 0 && int(js[i][k]) < len(jm) {
					r = r.add(jm[int(js[i][k])].apply(out[i]).mul(ws[i][k]))
				}
			}
		}
		out[i] = r
	}
	return out
}

func (g gl) jointMats(skin int, worlds []m4) []m4 {
	s := g.Skins[skin]
	var ibm []m4
	if s.InverseBindMatrices != nil {
		ibm = g.mats(int(*s.InverseBindMatrices))
	}
	var jm []m4
	for k, j := range s.Joints {
		m := worlds[j]
		if k < len(ibm) {
			m = m.mul(ibm[k])
		}
		jm = append(jm, m)
	}
	return jm
}

// valid lists what is structurally wrong with the document.
func (g gl) valid() []string {
	var bad []string
	add := func(f string, a ...any) {
		if len(bad) < 8 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	for i := range g.Accessors {
		if s := g.fit(i); s != "" {
			add("%s", s)
		}
	}
	for i, v := range g.BufferViews {
		if int(v.Buffer) >= len(g.Buffers) {
			add("buffer view %d: buffer %d does not exist", i, v.Buffer)
		} else if int(v.ByteOffset)+int(v.ByteLength) > int(g.Buffers[v.Buffer].ByteLength) {
			add("buffer view %d does not fit into its buffer", i)
		}
	}
	for i, b := range g.Buffers {
		if d := g.bufferData(i); b.URI == "" && len(d) < int(b.ByteLength) {
			add("buffer %d has %d of %d bytes", i, len(d), b.ByteLength)
		}
	}
	if g.Scene != nil && int(*g.Scene) >= len(g.Scenes) {
		add("scene %d does not exist", *g.Scene)
	}
	// graph
	np := make([]int, len(g.Nodes))
	for i, n := range g.Nodes {
		if n == nil {
			add("node %d is missing", i)
			return bad
		}
		for _, c := range n.Children {
			if int(c) >= len(g.Nodes) {
				add("node %d: child %d does not exist", i, c)
			} else {
				np[c]++
			}
		}
		if n.Mesh != nil && int(*n.Mesh) >= len(g.Meshes) {
			add("node %d: mesh %d does not exist", i, *n.Mesh)
		}
		if n.Skin != nil && int(*n.Skin) >= len(g.Skins) {
			add("node %d: skin %d does not exist", i, *n.Skin)
		}
		if n.Skin != nil && n.Mesh == nil {
			add("node %d has a skin but no mesh", i)
		}
		if n.Camera != nil && int(*n.Camera) >= len(g.Cameras) {
			add("node %d: camera %d does not exist", i, *n.Camera)
		}
		for _, x := range n.Matrix {
			if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
				add("node %d: matrix %v", i, n.Matrix)
				break
			}
		}
		for _, x := range append(append(append([]float32{}, n.Translation[:]...), n.Rotation[:]...), n.Scale[:]...) {
			if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
				add("node %d: transform is not finite", i)
				break
			}
		}
	}
	for i, k := range np {
		if k > 1 {
			add("node %d has %d parents", i, k)
		}
	}
	par := g.parents()
	for i := range par {
		k, n := i, 0
		for ; k >= 0 && n <= len(par); n++ {
			k = par[k]
		}
		if k >= 0 {
			add("node %d is its own ancestor", i)
			break
		}
	}
	for i, s := range g.Scenes {
		seen := map[uint32]bool{}
		for _, n := range s.Nodes {
			if int(n) >= len(g.Nodes) {
				add("scene %d: node %d does not exist", i, n)
				continue
			}
			if np[n] > 0 {
				add("scene %d: node %d is not a root", i, n)
			}
			if seen[n] {
				add("scene %d lists node %d twice", i, n)
			}
			seen[n] = true
		}
	}
	if len(bad) > 0 {
		return bad
	}
	for i, s := range g.Skins {
		seen := map[uint32]bool{}
		if len(s.Joints) == 0 {
			add("skin %d has no joints", i)
		}
		for _, j := range s.Joints {
			if int(j) >= len(g.Nodes) {
				add("skin %d: joint node %d does not exist", i, j)
			}
			if seen[j] {
				add("skin %d lists joint %d twice", i, j)
			}
			seen[j] = true
		}
		if s.InverseBindMatrices != nil {
			k := int(*s.InverseBindMatrices)
			if k >= len(g.Accessors) {
				add("skin %d: accessor %d does not exist", i, k)
			} else if a := g.Accessors[k]; a.Type != gltf.AccessorMat4 || a.ComponentType != gltf.ComponentFloat || int(a.Count) < len(s.Joints) {
				add("skin %d: %d joints but %d inverse bind matrices (%v)", i, len(s.Joints), a.Count, a.Type)
			}
		}
	}
	for i, m := range g.Meshes {
		if len(m.Primitives) == 0 {
			add("mesh %d has no primitives", i)
		}
		nt := -1
		for k, p := range m.Primitives {
			q := fmt.Sprintf("mesh %d primitive %d", i, k)
			pos, ok := p.Attributes["POSITION"]
			if !ok || int(pos) >= len(g.Accessors) {
				add("%s: no positions", q)
				continue
			}
			n := g.Accessors[pos].Count
			for name, a := range p.Attributes {
				g.attribute(add, q+" "+name, name, int(a), n)
			}
			if nt >= 0 && nt != len(p.Targets) {
				add("%s: %d targets instead of %d", q, len(p.Targets), nt)
			}
			nt = len(p.Targets)
			for x, t := range p.Targets {
				for name, a := range t {
					g.attribute(add, fmt.Sprintf("%s target %d %s", q, x, name), name, int(a), n)
				}
			}
			if p.Material != nil && int(*p.Material) >= len(g.Materials) {
				add("%s: material %d does not exist", q, *p.Material)
			}
			if p.Indices != nil {
				if int(*p.Indices) >= len(g.Accessors) {
					add("%s: accessor %d does not exist", q, *p.Indices)
				} else {
					a := g.Accessors[*p.Indices]
					if a.Type != gltf.AccessorScalar || a.ComponentType != gltf.ComponentUbyte && a.ComponentType != gltf.ComponentUshort && a.ComponentType != gltf.ComponentUint {
						add("%s: indices of type %v %v", q, a.Type, a.ComponentType)
					}
					if a.Count%3 != 0 && p.Mode == gltf.PrimitiveTriangles {
						add("%s: %d indices", q, a.Count)
					}
					for _, e := range g.read(int(*p.Indices)) {
						if e[0] >= float64(n) {
							add("%s: index %v of %d vertices", q, e[0], n)
							break
						}
					}
				}
			}
		}
		if len(m.Weights) > 0 && len(m.Weights) != nt {
			add("mesh %d: %d weights for %d targets", i, len(m.Weights), nt)
		}
		if x, ok := m.Extras.(map[string]interface{}); ok {
			if names := anyStrings(x["targetNames"]); len(names) != nt {
				add("mesh %d: %d target names for %d targets", i, len(names), nt)
			}
		}
	}
	if len(bad) > 0 {
		return bad
	}
	for i, n := range g.Nodes {
		if n.Mesh == nil {
			continue
		}
		for k, p := range g.Meshes[*n.Mesh].Primitives {
			_, hj := p.Attributes["JOINTS_0"]
			_, hw := p.Attributes["WEIGHTS_0"]
			if hj != hw {
				add("node %d primitive %d: joints without weights", i, k)
			}
			if n.Skin == nil {
				continue
			}
			if !hj {
				add("node %d primitive %d: skinned but without joints", i, k)
				continue
			}
			nj := len(g.Skins[*n.Skin].Joints)
			for _, e := range g.read(int(p.Attributes["JOINTS_0"])) {
				for _, x := range e {
					if int(x) >= nj {
						add("node %d primitive %d: joint %v of %d", i, k, x, nj)
						break
					}
				}
			}
		}
	}
	tex := func(what string, t *gltf.TextureInfo) {
		if t != nil && int(t.Index) >= len(g.Textures) {
			add("%s: texture %d does not exist", what, t.Index)
		}
	}
	for i, m := range g.Materials {
		q := fmt.Sprintf("material %d", i)
		if p := m.PBRMetallicRoughness; p != nil {
			tex(q, p.BaseColorTexture)
			tex(q, p.MetallicRoughnessTexture)
			if p.BaseColorFactor != nil {
				for _, x := range p.BaseColorFactor {
					if !(x >= 0 && x <= 1) {
						add("%s: colour %v", q, *p.BaseColorFactor)
						break
					}
				}
			}
		}
		tex(q, m.EmissiveTexture)
		if m.NormalTexture != nil && m.NormalTexture.Index != nil && int(*m.NormalTexture.Index) >= len(g.Textures) {
			add("%s: texture %d does not exist", q, *m.NormalTexture.Index)
		}
		for _, x := range m.EmissiveFactor {
			if !(x >= 0 && x <= 1) {
				add("%s: emissive factor %v", q, m.EmissiveFactor)
				break
			}
		}
		for name, e := range m.Extensions {
			if !contains(g.ExtensionsUsed, name) {
				add("%s: extension %s is not declared", q, name)
			}
			forTextures(e, func(idx int) {
				if idx >= len(g.Textures) {
					add("%s: texture %d of %s does not exist", q, idx, name)
				}
			})
		}
	}
	for i, n := range g.Nodes {
		for name := range n.Extensions {
			if !contains(g.ExtensionsUsed, name) {
				add("node %d: extension %s is not declared", i, name)
			}
		}
	}
	for name := range g.Extensions {
		if !contains(g.ExtensionsUsed, name) {
			add("extension %s is not declared", name)
		}
	}
	seen := map[string]bool{}
	for _, n := range g.ExtensionsUsed {
		if seen[n] {
			add("extension %s is declared twice", n)
		}
		seen[n] = true
	}
	for i, t := range g.Textures {
		if t.Source != nil && int(*t.Source) >= len(g.Images) {
			add("texture %d: image %d does not exist", i, *t.Source)
		}
		if t.Sampler != nil && int(*t.Sampler) >= len(g.Samplers) {
			add("texture %d: sampler %d does not exist", i, *t.Sampler)
		}
	}
	for i, m := range g.Images {
		if m.BufferView != nil && int(*m.BufferView) >= len(g.BufferViews) {
			add("image %d: buffer view %d does not exist", i, *m.BufferView)
		}
		if m.BufferView == nil && m.URI == "" {
			add("image %d has no data", i)
		}
		if m.BufferView != nil && m.MimeType != "image/png" && m.MimeType != "image/jpeg" {
			add("image %d: type %q", i, m.MimeType)
		}
	}
	for i, a := range g.Animations {
		for k, c := range a.Channels {
			if c.Sampler == nil || int(*c.Sampler) >= len(a.Samplers) {
				add("animation %d channel %d: no sampler", i, k)
				continue
			}
			if c.Target.Node != nil && int(*c.Target.Node) >= len(g.Nodes) {
				add("animation %d channel %d: node %d does not exist", i, k, *c.Target.Node)
			}
		}
		for k, s := range a.Samplers {
			if s.Input == nil || s.Output == nil || int(*s.Input) >= len(g.Accessors) || int(*s.Output) >= len(g.Accessors) {
				add("animation %d sampler %d: accessors do not exist", i, k)
			}
		}
	}
	sort.Strings(bad)
	return bad
}

func (g gl) attribute(add func(string, ...any), q, name string, a int, n uint32) {
	if a >= len(g.Accessors) {
		add("%s: accessor %d does not exist", q, a)
		return
	}
	x := g.Accessors[a]
	if x.Count != n {
		add("%s: %d elements instead of %d", q, x.Count, n)
	}
	want := map[string]gltf.AccessorType{"POSITION": gltf.AccessorVec3, "NORMAL": gltf.AccessorVec3, "TEXCOORD_0": gltf.AccessorVec2, "JOINTS_0": gltf.AccessorVec4, "WEIGHTS_0": gltf.AccessorVec4}
	if w, ok := want[name]; ok && w != x.Type {
		add("%s: type %v", q, x.Type)
		return
	}
	if name == "JOINTS_0" {
		if x.ComponentType != gltf.ComponentUbyte && x.ComponentType != gltf.ComponentUshort {
			add("%s: component type %v", q, x.ComponentType)
		}
	} else if (name == "POSITION" || name == "NORMAL") && x.ComponentType != gltf.ComponentFloat {
		add("%s: component type %v", q, x.ComponentType)
	}
	vals := g.read(a)
	for _, e := range vals {
		for _, c := range e {
			if math.IsNaN(c) || math.IsInf(c, 0) {
				add("%s: not finite", q)
				return
			}
		}
	}
	if name == "POSITION" {
		if len(x.Min) != 3 || len(x.Max) != 3 {
			add("%s: no bounds", q)
			return
		}
		for c := 0; c < 3; c++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, e := range vals {
				lo, hi = math.Min(lo, e[c]), math.Max(hi, e[c])
			}
			if float32(lo) != x.Min[c] || float32(hi) != x.Max[c] {
				add("%s: bounds %v..%v do not match the data (%v..%v)", q, x.Min, x.Max, lo, hi)
				return
			}
		}
	}
	if name == "WEIGHTS_0" {
		for _, e := range vals {
			sum := 0.0
			for _, c := range e {
				if c < 0 {
					add("%s: negative weight %v", q, e)
					return
				}
				sum += c
			}
			if sum != 0 && math.Abs(sum-1) > 1e-4 {
				add("%s: weights %v", q, e)
				return
			}
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func anyStrings(v interface{}) []string {
	switch x := v.(type) {
	case []string:
		return x
	case []interface{}:
		var r []string
		for _, s := range x {
			r = append(r, fmt.Sprint(s))
		}
		return r
	}
	return nil
}

// forTextures calls f with every {"index": n} of a JSON-like value.
func forTextures(v interface{}, f func(int)) {
	switch x := v.(type) {
	case map[string]interface{}:
		if n, ok := x["index"].(float64); ok {
			f(int(n))
		}
		for _, e := range x {
			forTextures(e, f)
		}
	case *gltf.TextureInfo:
		f(int(x.Index))
	}
}

// glb encodes the document as GLB and decodes it again.
func glb(d *gltf.Document) (*gltf.Document, []byte, error) {
	var b bytes.Buffer
	e := gltf.NewEncoder(&b)
	e.AsBinary = true
	if err := e.Encode(d); err != nil {
		return nil, nil, err
	}
	r := &gltf.Document{}
	if err := gltf.NewDecoder(bytes.NewReader(b.Bytes())).Decode(r); err != nil {
		return nil, nil, err
	}
	return r, b.Bytes(), nil
}

// sameGLTF compares the parts that must survive encoding.
func sameGLTF(a, b *gltf.Document) *diffs {
	d := &diffs{}
	d.eq("nodes", len(a.Nodes), len(b.Nodes))
	d.eq("meshes", len(a.Meshes), len(b.Meshes))
	d.eq("accessors", len(a.Accessors), len(b.Accessors))
	d.eq("buffer views", len(a.BufferViews), len(b.BufferViews))
	d.eq("materials", len(a.Materials), len(b.Materials))
	d.eq("skins", len(a.Skins), len(b.Skins))
	d.eq("textures", len(a.Textures), len(b.Textures))
	d.eq("images", len(a.Images), len(b.Images))
	if !d.empty() {
		return d
	}
	ga, gb := gl{a}, gl{b}
	for i := range a.Accessors {
		if !reflect.DeepEqual(ga.read(i), gb.read(i)) {
			d.add("accessor %d has other values", i)
		}
	}
	for i := range a.Nodes {
		x, y := a.Nodes[i], b.Nodes[i]
		d.eq(fmt.Sprintf("node %d", i), fmt.Sprint(x.Name, x.Children, deref(x.Mesh), deref(x.Skin)), fmt.Sprint(y.Name, y.Children, deref(y.Mesh), deref(y.Skin)))
		if !ga.local(i).near(gb.local(i), 1e-6) {
			d.add("node %d: other transform", i)
		}
	}
	return d
}

func deref(p *uint32) int {
	if p == nil {
		return -1
	}
	return int(*p)
}
