package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// mergeViews lets all accessors of the same stride share one buffer view.
func mergeViews(d *gltf.Document) {
	type key struct {
		stride uint32
		target gltf.Target
		buf    uint32
	}
	at := map[key]uint32{}
	var views []*gltf.BufferView
	for _, a := range d.Accessors {
		v := d.BufferViews[*a.BufferView]
		k := key{v.ByteStride, v.Target, v.Buffer}
		if k.stride == 0 && v.Target == gltf.TargetArrayBuffer {
			k.stride = uint32(gcomps(a.Type) * gsize(a.ComponentType))
		}
		i, ok := at[k]
		if !ok {
			i = uint32(len(views))
			at[k] = i
			views = append(views, &gltf.BufferView{Buffer: v.Buffer, ByteLength: d.Buffers[v.Buffer].ByteLength, ByteStride: k.stride, Target: v.Target})
		}
		a.ByteOffset += v.ByteOffset
		a.BufferView = gltf.Index(i)
	}
	d.BufferViews = views
}

// splitBuffers moves every other view to a second buffer.
func splitBuffers(d *gltf.Document) {
	b := d.Buffers[0]
	b.Data = append(b.Data, 9)
	b.ByteLength = uint32(len(b.Data))
	d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: b.ByteLength + 3, Data: append([]byte{1, 2, 3, 4}, b.Data...)})
	d.Buffers[1].ByteLength = uint32(len(d.Buffers[1].Data))
	for i, v := range d.BufferViews {
		if i%2 == 1 {
			v.Buffer = 1
			v.ByteOffset += 4
		}
	}
}

// aliases lets several accessors describe the same bytes.
func aliases(d *gltf.Document, kind int) {
	dup := func(i uint32) uint32 {
		a := *d.Accessors[i]
		d.Accessors = append(d.Accessors, &a)
		return uint32(len(d.Accessors) - 1)
	}
	switch kind {
	case 1: // primitives that share vertices through accessors of their own
		for _, m := range d.Meshes {
			p := m.Primitives[0]
			q := *p
			q.Attributes, q.Targets = gltf.Attribute{}, nil
			for _, k := range sortedKeys(p.Attributes) {
				q.Attributes[k] = dup(p.Attributes[k])
			}
			for _, t := range p.Targets {
				q.Targets = append(q.Targets, gltf.Attribute{"POSITION": dup(t["POSITION"])})
			}
			m.Primitives = append(m.Primitives, &q)
		}
	case 2, 3, 4: // a skin with the first of the joints, with the same matrices or its own view of them
		if len(d.Skins) == 0 {
			return
		}
		s := *d.Skins[0]
		s.Joints = s.Joints[:1]
		if s.InverseBindMatrices != nil && kind == 3 {
			s.InverseBindMatrices = gltf.Index(dup(*s.InverseBindMatrices))
		}
		if kind == 4 {
			d.Skins = append(d.Skins, &s)
			return
		}
		d.Skins = append([]*gltf.Skin{&s}, d.Skins...)
		for _, n := range d.Nodes {
			if n.Skin != nil {
				n.Skin = gltf.Index(*n.Skin + 1)
			}
		}
	case 5: // two animations with the same key frames
		for _, an := range d.Animations {
			b := &gltf.Animation{Name: "again", Channels: an.Channels}
			for _, s := range an.Samplers {
				x := *s
				x.Output = gltf.Index(dup(*s.Output))
				b.Samplers = append(b.Samplers, &x)
			}
			d.Animations = append(d.Animations, b)
			break
		}
	}
}

// loaded is the document as the decoder makes it.
func loaded(d *gltf.Document) *gltf.Document {
	for _, b := range d.Buffers {
		b.EmbeddedResource()
	}
	b, err := json.Marshal(d)
	if err != nil {
		panic("engine: " + err.Error())
	}
	r := &gltf.Document{}
	if err := gltf.NewDecoder(bytes.NewReader(b)).Decode(r); err != nil {
		panic("engine: " + err.Error())
	}
	return r
}

// jsonOf shows the document for fingerprints.
func jsonOf(d *gltf.Document) []byte {
	b, _ := json.Marshal(d)
	for _, x := range d.Buffers {
		b = append(b, x.Data...)
	}
	return b
}

func gen17(focus string) func(c *Chooser) any {
	g := func(c *Chooser) *gltf.Document {
		d := genGLTF(focus)(c)
		if strings.Contains(focus, "l") {
			if c.Flag("merged views") {
				mergeViews(d)
			}
			if c.Flag("two buffers") {
				splitBuffers(d)
			}
			aliases(d, c.Choose("aliases", 6))
		}
		if strings.Contains(focus, "R") { // a node with a camera, which looks where it did
			if k := c.Choose("camera", 4); k > 0 {
				d.Cameras = []*gltf.Camera{{Perspective: &gltf.Perspective{Yfov: 1, Znear: 1}}}
				n := &gltf.Node{Name: "camera", Camera: gltf.Index(0), Matrix: gltf.DefaultMatrix, Translation: [3]float32{1, 2, 3}, Rotation: quatF(gRots[3]), Scale: gltf.DefaultScale}
				d.Nodes = append(d.Nodes, n)
				id := uint32(len(d.Nodes) - 1)
				if k == 1 {
					d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, id)
				} else {
					for _, p := range d.Nodes {
						if p.Name == []string{"hips", "hand"}[k-2] {
							p.Children = append([]uint32{id}, p.Children...)
						}
					}
				}
			}
		}
		return loaded(d)
	}
	return func(c *Chooser) any {
		r := &gcase{}
		if strings.Contains(focus, "S") {
			r.aux = []int{c.Choose("factor", len(factors17))}
		}
		r.mk = frozenG(c, g)
		r.what = c.Trace()
		return r
	}
}

var factors17 = []float64{2, 0.5, 80, 0.001}

// sameRest compares everything but positions and transforms.
func sameRest(a, b gl, positions bool) *diffs {
	d := &diffs{}
	d.eq("nodes", len(b.Nodes), len(a.Nodes))
	d.eq("meshes", len(b.Meshes), len(a.Meshes))
	d.eq("skins", len(b.Skins), len(a.Skins))
	d.eq("materials", len(b.Materials), len(a.Materials))
	d.eq("animations", len(b.Animations), len(a.Animations))
	d.eq("images", len(b.Images), len(a.Images))
	if !d.empty() {
		return d
	}
	for i, x := range a.Nodes {
		y := b.Nodes[i]
		d.eq(fmt.Sprintf("node %d", i), fmt.Sprint(y.Name, y.Children, deref(y.Mesh), deref(y.Skin)), fmt.Sprint(x.Name, x.Children, deref(x.Mesh), deref(x.Skin)))
	}
	for i, x := range a.Skins {
		y := b.Skins[i]
		d.eq(fmt.Sprintf("skin %d", i), fmt.Sprint(y.Joints, deref(y.Skeleton)), fmt.Sprint(x.Joints, deref(x.Skeleton)))
	}
	for i, x := range a.Meshes {
		y := b.Meshes[i]
		d.eq(fmt.Sprintf("mesh %d", i), fmt.Sprint(y.Name, len(y.Primitives), y.Weights), fmt.Sprint(x.Name, len(x.Primitives), x.Weights))
		if !d.empty() {
			return d
		}
		for k, p := range x.Primitives {
			q := y.Primitives[k]
			w := fmt.Sprintf("mesh %d primitive %d ", i, k)
			d.eq(w, fmt.Sprint(q.Mode, deref(q.Material), len(q.Attributes), len(q.Targets)), fmt.Sprint(p.Mode, deref(p.Material), len(p.Attributes), len(p.Targets)))
			d.eq(w+"triangles", fmt.Sprint(b.tris(q)), fmt.Sprint(a.tris(p)))
			if !d.empty() {
				return d
			}
			for name, ac := range p.Attributes {
				bc, ok := q.Attributes[name]
				if !ok {
					d.add("%slost %s", w, name)
				} else if positions || name != "POSITION" {
					d.eq(w+name, fmt.Sprint(b.read(int(bc))), fmt.Sprint(a.read(int(ac))))
				}
			}
		}
	}
	for i, x := range a.Materials {
		p, _ := json.Marshal(x)
		q, _ := json.Marshal(b.Materials[i])
		d.eq(fmt.Sprintf("material %d", i), string(q), string(p))
	}
	for i, x := range a.Animations {
		y := b.Animations[i]
		d.eq("channels", len(y.Channels), len(x.Channels))
		d.eq("samplers", len(y.Samplers), len(x.Samplers))
	}
	return d
}

// renderings compares the positions of all vertices.
func renderings(d *diffs, a, b gl, f float64, what string) {
	wa, wb := a.worlds(), b.worlds()
	for i, n := range a.Nodes {
		if n.Mesh == nil {
			continue
		}
		for k, p := range a.Meshes[*n.Mesh].Primitives {
			for _, w := range [][]float64{nil, {1}, {0.5, -1}} {
				x, y := a.rendered(i, wa, p, w), b.rendered(i, wb, b.Meshes[*n.Mesh].Primitives[k], w)
				if len(x) != len(y) {
					d.add("%snode %d: %d vertices instead of %d", what, i, len(y), len(x))
					continue
				}
				for j := range x {
					e := x[j].mul(f)
					if !(e.sub(y[j]).len() <= 1e-4*(f+e.len())) {
						d.add("%snode %d %q primitive %d vertex %d (morphs %v) is at %v, want %v", what, i, n.Name, k, j, w, y[j], e)
						break
					}
				}
			}
		}
	}
}

func nodePositions(d *diffs, a, b gl, f float64) {
	wa, wb := a.worlds(), b.worlds()
	for i := range wa {
		x, y := wa[i].apply(v3d{}).mul(f), wb[i].apply(v3d{})
		if !(x.sub(y).len() <= 1e-4*(f+x.len())) {
			d.add("node %d %q is at %v, want %v", i, a.Nodes[i].Name, y, x)
		}
	}
}

func c17Scale(t *T, v any) {
	c := v.(*gcase)
	a, doc := gl{c.mk()}, c.mk()
	f := factors17[c.aux[0]]
	t.State(jsonOf(doc), f)
	gltfutil.ApplyTransform(doc, geom.NewScaleMatrix4(float32(f), float32(f), float32(f)))
	b := gl{doc}
	d := sameRest(a, b, false)
	t.Must(d.empty(), "kept", "%s", d)
	bad := b.valid()
	t.Must(len(bad) == 0, "valid", "%v", bad)
	d = &diffs{}
	nodePositions(d, a, b, f)
	renderings(d, a, b, f, "")
	t.Expect(d.empty(), "scaled", "factor %v: %s", f, d)
	wa, wb := a.worlds(), b.worlds()
	for i := range wa { // directions and sizes of the frames
		x, y := wa[i], wb[i]
		for r := 0; r < 3; r++ {
			x[r][3], y[r][3] = 0, 0
		}
		t.Expect(x.near(y, 1e-4), "frame", "node %d %q has another rotation or scale", i, a.Nodes[i].Name)
	}
	for i, x := range a.Animations {
		for k, ch := range x.Channels {
			s, s2 := x.Samplers[*ch.Sampler], b.Animations[i].Samplers[*b.Animations[i].Channels[k].Sampler]
			t.Expect(fmt.Sprint(a.read(int(*s.Input))) == fmt.Sprint(b.read(int(*s2.Input))), "animation", "times of channel %d changed", k)
			p, q := a.read(int(*s.Output)), b.read(int(*s2.Output))
			g := 1.0
			if ch.Target.Path == gltf.TRSTranslation {
				g = f
			}
			ok := len(p) == len(q)
			for j := range p {
				for m := range p[j] {
					ok = ok && len(p[j]) == len(q[j]) && math.Abs(p[j][m]*g-q[j][m]) <= 1e-4*g+1e-6*math.Abs(p[j][m]*g)
				}
			}
			t.Expect(ok, "animation", "channel %d (%v, factor %v): %v became %v", k, ch.Target.Path, f, p, q)
		}
	}
}

func c17Joints(t *T, v any) {
	c := v.(*gcase)
	a, doc := gl{c.mk()}, c.mk()
	t.State(jsonOf(doc))
	gltfutil.FixJointComponentType(doc)
	b := gl{doc}
	bad := b.valid()
	t.Must(len(bad) == 0, "valid", "%v", bad)
	d := sameRest(a, b, true)
	renderings(d, a, b, 1, "")
	nodePositions(d, a, b, 1)
	t.Expect(d.empty(), "kept", "%s", d)
	for i, m := range b.Meshes {
		for k, p := range m.Primitives {
			if j, ok := p.Attributes["JOINTS_0"]; ok {
				t.Expect(b.Accessors[j].ComponentType == gltf.ComponentUshort, "type", "mesh %d primitive %d still has %v joints", i, k, b.Accessors[j].ComponentType)
			}
		}
	}
}

func c17Reset(t *T, v any) {
	c := v.(*gcase)
	a, doc := gl{c.mk()}, c.mk()
	t.State(jsonOf(doc))
	gltfutil.ResetJointMatrix(doc)
	b := gl{doc}
	bad := b.valid()
	t.Must(len(bad) == 0, "valid", "%v", bad)
	d := sameRest(a, b, true)
	t.Must(d.empty(), "kept", "%s", d)
	renderings(d, a, b, 1, "")
	nodePositions(d, a, b, 1)
	t.Expect(d.empty(), "rendering", "%s", d)
	w := b.worlds()
	before := a.worlds()
	for i, n := range a.Nodes {
		if n.Camera != nil {
			t.Expect(b.Nodes[i].Camera != nil && before[i].near(w[i], 1e-4), "camera", "the camera of node %d was moved or turned: %v, want %v", i, w[i], before[i])
		}
	}
	for si, s := range b.Skins {
		for _, j := range s.Joints {
			m := w[j]
			e := 0.0
			for r := 0; r < 3; r++ {
				for k := 0; k < 3; k++ {
					if r != k {
						e = math.Max(e, math.Abs(m[r][k]))
					}
				}
			}
			t.Expect(e < 1e-4 && m[0][0] > 0 && m[1][1] > 0 && m[2][2] > 0, "rotation", "joint %d %q of skin %d is still rotated: %v", j, b.Nodes[j].Name, si, m)
		}
	}
}

// genChain builds a chain of joints with one skinned mesh.
func genChain(c *Chooser) any {
	n := FreePick(c, "length", 2, 1, 4, 9, 12, 15)
	ord := c.Free("order", 3)
	rot := c.Free("rotations", 4)
	branch := c.Free("branches", 2)
	bare := c.Free("no skin", 2)
	r := &gcase{what: c.Trace()}
	r.mk = func() *gltf.Document {
		g := &gbuild{doc: newGLTF()}
		d := g.doc
		at := make([]uint32, n)
		for i := range at {
			switch ord {
			case 0:
				at[i] = uint32(i)
			case 1:
				at[i] = uint32(n - 1 - i)
			case 2:
				at[i] = uint32((i*7 + 3) % n)
				if n%7 == 0 {
					at[i] = uint32(i)
				}
			}
		}
		d.Nodes = make([]*gltf.Node, n)
		for i := range at {
			nd := &gltf.Node{Name: fmt.Sprint("j", i), Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Translation: [3]float32{1, float32(i), 0.5}}
			if q := gRots[(i*(rot+1)+rot)%4]; q != ([4]float64{}) {
				nd.Rotation = quatF(q)
			}
			d.Nodes[at[i]] = nd
		}
		d.Scenes[0].Nodes = []uint32{at[0]}
		for i := 1; i < n; i++ {
			p := i - 1
			if branch == 1 && i > 1 && i%3 == 2 {
				p = i - 2
			}
			d.Nodes[at[p]].Children = append(d.Nodes[at[p]].Children, at[i])
		}
		if bare == 1 {
			return loaded(d)
		}
		w := gl{d}.worlds()
		skin := &gltf.Skin{}
		ibm := &gattr{typ: gltf.AccessorMat4, comp: gltf.ComponentFloat}
		pos, js, ws := &gattr{typ: gltf.AccessorVec3, comp: gltf.ComponentFloat, minmax: true}, &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentUbyte}, &gattr{typ: gltf.AccessorVec4, comp: gltf.ComponentFloat}
		for i := 0; i < max(n, 3); i++ {
			k := i % n
			if i < n {
				skin.Joints = append(skin.Joints, at[i])
				x, _ := w[at[i]].inv()
				ibm.data = append(ibm.data, x.cols())
			}
			p := w[at[k]].apply(v3d{float64(i % 2), 1, 0})
			pos.data = append(pos.data, p[:])
			js.data = append(js.data, []float64{float64(k), 0, 0, 0})
			ws.data = append(ws.data, []float64{0.75, 0.25, 0, 0})
		}
		pos.target, js.target, ws.target = gltf.TargetArrayBuffer, gltf.TargetArrayBuffer, gltf.TargetArrayBuffer
		as := g.put(true, pos, js, ws)
		skin.InverseBindMatrices = gltf.Index(g.put(false, ibm)[0])
		idx := &gattr{typ: gltf.AccessorScalar, comp: gltf.ComponentUshort, data: [][]float64{{0}, {1}, {2}}, target: gltf.TargetElementArrayBuffer}
		d.Meshes = []*gltf.Mesh{{Name: "m", Primitives: []*gltf.Primitive{{Attributes: map[string]uint32{"POSITION": as[0], "JOINTS_0": as[1], "WEIGHTS_0": as[2]}, Indices: gltf.Index(g.put(false, idx)[0])}}}}
		d.Skins = []*gltf.Skin{skin}
		d.Nodes = append(d.Nodes, &gltf.Node{Name: "mesh", Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Mesh: gltf.Index(0), Skin: gltf.Index(0)})
		d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, uint32(n))
		return loaded(g.done())
	}
	return r
}

// ---- single file

type case17f struct {
	gcase
	kinds []int
	mime  []int
	dir   int
}

var imageBytes = [][]byte{[]byte("\x89PNG\r\n\x1a\nfirst"), []byte("\xff\xd8\xff\xe0 second image\x00\x01"), {7}}

func gen17Files(c *Chooser) any {
	r := &case17f{}
	n := FreePick(c, "images", 2, 0, 1, 3)
	for i := 0; i < n; i++ {
		r.kinds = append(r.kinds, c.Choose(fmt.Sprintf("image%d", i), 12))
		r.mime = append(r.mime, c.Choose(fmt.Sprintf("mime%d", i), 2))
	}
	r.dir = c.Free("directory", 3)
	r.mk = frozenG(c, func(c *Chooser) *gltf.Document {
		d := genGLTF("l")(c)
		switch c.Choose("buffers", 3) {
		case 1:
			splitBuffers(d)
		case 2: // nothing but images
			d = newGLTF()
			d.Nodes = []*gltf.Node{{Name: "n"}}
			d.Scenes[0].Nodes = []uint32{0}
		}
		return d
	})
	r.what = c.Trace()
	return r
}

func c17Files(t *T, v any) {
	c := v.(*case17f)
	dir := t.Dir()
	mk := func() *gltf.Document {
		d := c.mk()
		for i, k := range c.kinds {
			m := &gltf.Image{Name: fmt.Sprint("img", i)}
			file := ""
			switch k {
			case 0:
				m.URI = fmt.Sprintf("a%d.png", i)
			case 1:
				m.URI = fmt.Sprintf("textures/sub/b%d.jpg", i)
			case 2:
				m.URI = fmt.Sprintf("C%d.PNG", i)
			case 3:
				m.URI = fmt.Sprintf("c%d.jpeg", i)
			case 4:
				m.URI = fmt.Sprintf("missing%d.png", i)
				file = "-"
			case 5:
				m.URI = "data:image/png;base64,iVBORw0KGgo="
				file = "-"
			case 6:
				m.URI = fmt.Sprintf("a%%20%%E3%%81%%82%d.png", i)
				file, _ = url.PathUnescape(m.URI)
			case 7:
				m.URI = fmt.Sprintf("画像%d.png", i)
			case 8:
				m.URI = fmt.Sprintf("./d%d.png", i)
			case 9: // inside the file already
				if len(d.Buffers) == 0 {
					d.Buffers = []*gltf.Buffer{{}}
				}
				b := d.Buffers[len(d.Buffers)-1]
				off := len(b.Data)
				b.Data = append(b.Data, imageBytes[i]...)
				b.ByteLength = uint32(len(b.Data))
				d.BufferViews = append(d.BufferViews, &gltf.BufferView{Buffer: uint32(len(d.Buffers) - 1), ByteOffset: uint32(off), ByteLength: uint32(len(imageBytes[i]))})
				m.BufferView, m.MimeType, file = gltf.Index(uint32(len(d.BufferViews)-1)), "image/png", "-"
			case 10:
				m.URI = fmt.Sprintf("textures/../e%d.png", i)
			case 11:
				m.URI = fmt.Sprintf("a+b&c=%d.png", i)
			}
			if c.mime[i] == 1 {
				m.MimeType = "image/jpeg"
				if strings.HasSuffix(strings.ToLower(m.URI), "png") {
					m.MimeType = "image/png"
				}
			}
			if file == "" {
				file = m.URI
			}
			if file != "-" {
				p := filepath.Join(dir, "model", file)
				os.MkdirAll(filepath.Join(dir, "model", "textures"), 0o755)
				os.MkdirAll(filepath.Dir(p), 0o755)
				writeFile(p, imageBytes[i])
				if c.dir < 2 { // another file of that name in the current directory
					p = filepath.Join(dir, []string{"elsewhere", "."}[c.dir], file)
					os.MkdirAll(filepath.Dir(p), 0o755)
					os.MkdirAll(filepath.Join(dir, []string{"elsewhere", "."}[c.dir], "textures"), 0o755)
					writeFile(p, []byte("wrong file"))
				}
			}
			d.Images = append(d.Images, m)
			d.Textures = append(d.Textures, &gltf.Texture{Source: gltf.Index(uint32(i))})
		}
		return loaded(d)
	}
	a := gl{mk()}
	doc := mk()
	t.State(jsonOf(doc), c.dir)
	cwd, _ := os.Getwd()
	t.Cleanups = append(t.Cleanups, func() { os.Chdir(cwd) })
	os.MkdirAll(filepath.Join(dir, "model"), 0o755)
	src := filepath.Join(dir, "model")
	switch c.dir {
	case 0:
		os.MkdirAll(filepath.Join(dir, "elsewhere"), 0o755)
		os.Chdir(filepath.Join(dir, "elsewhere"))
	case 1:
		os.Chdir(dir)
		src = "model"
	case 2:
		os.Chdir(src)
		src = "."
	}
	err := gltfutil.ToSingleFile(doc, src)
	os.Chdir(cwd)
	t.Must(err == nil, "error", "%v", err)
	os.RemoveAll(filepath.Join(dir, "model"))
	back, _, err := glb(doc)
	t.Must(err == nil, "file", "cannot write and read the document as a single file: %v", err)
	b := gl{back}
	bad := b.valid()
	t.Must(len(bad) == 0, "valid", "%v", bad)
	d := sameRest(a, b, true)
	t.Must(d.empty(), "kept", "%s", d)
	renderings(d, a, b, 1, "")
	nodePositions(d, a, b, 1)
	t.Expect(d.empty(), "rendering", "%s", d)
	t.Expect(len(b.Textures) == len(a.Textures), "textures", "%d textures", len(b.Textures))
	for i, k := range c.kinds {
		m, o := b.Images[i], a.Images[i]
		if k == 4 || k == 5 {
			t.Expect(m.URI == o.URI && m.BufferView == nil, "image", "image %d (%s) changed to %q", i, o.URI, m.URI)
			continue
		}
		if !t.Expect(m.BufferView != nil && m.URI == "", "image", "image %d (%s) is not in the file", i, o.URI) {
			continue
		}
		bv := b.BufferViews[*m.BufferView]
		got := b.Buffers[bv.Buffer].Data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
		t.Expect(bytes.Equal(got, imageBytes[i]), "image", "image %d (%s) has other bytes: %q", i, o.URI, got)
		want := "image/png"
		if k == 1 || k == 3 {
			want = "image/jpeg"
		}
		if o.MimeType != "" {
			want = o.MimeType
		}
		t.Expect(m.MimeType == want && m.Name == o.Name, "image", "image %d (%s): type %q", i, o.URI, m.MimeType)
	}
}

// ---- extensions

type case17x struct {
	gcase
	where []int
	list  int
}

var extPlaces = []string{"document", "accessor", "animation", "material", "node", "skin", "camera", "sampler", "scene", "mesh", "primitive", "texture", "image", "bufferView", "buffer"}

func (c *case17x) apply(d *gltf.Document, name func(e *gltf.Extensions)) {
	for _, w := range c.where {
		switch extPlaces[w] {
		case "document":
			name(&d.Extensions)
		case "accessor":
			name(&d.Accessors[1].Extensions)
		case "animation":
			name(&d.Animations[0].Extensions)
		case "material":
			name(&d.Materials[1].Extensions)
		case "node":
			name(&d.Nodes[2].Extensions)
		case "skin":
			name(&d.Skins[0].Extensions)
		case "camera":
			name(&d.Cameras[0].Extensions)
		case "sampler":
			name(&d.Samplers[0].Extensions)
		case "scene":
			name(&d.Scenes[0].Extensions)
		case "mesh":
			name(&d.Meshes[1].Extensions)
		case "primitive":
			name(&d.Meshes[0].Primitives[1].Extensions)
		case "texture":
			name(&d.Textures[0].Extensions)
		case "image":
			name(&d.Images[0].Extensions)
		case "bufferView":
			name(&d.BufferViews[0].Extensions)
		case "buffer":
			name(&d.Buffers[0].Extensions)
		}
	}
}

func gen17Ext(c *Chooser) any {
	r := &case17x{}
	for i, p := range extPlaces {
		if c.Flag(p) {
			r.where = append(r.where, i)
		}
	}
	r.list = c.Free("listed", 4)
	r.what = c.Trace()
	r.mk = func() *gltf.Document {
		d := genGLTF("sa")(Fixed(func(l string, n int) int {
			if l == "animation" {
				return 1
			}
			return 0
		}))
		d.Cameras = []*gltf.Camera{{Perspective: &gltf.Perspective{Yfov: 1, Znear: 1}}}
		d.Samplers = []*gltf.Sampler{{}}
		d.Images = []*gltf.Image{{URI: "data:image/png;base64,iVBORw0KGgo="}}
		d.Textures = []*gltf.Texture{{Source: gltf.Index(0), Sampler: gltf.Index(0)}}
		return loaded(d)
	}
	return r
}

func c17Ext(t *T, v any) {
	c := v.(*case17x)
	build := func(with bool) *gltf.Document {
		d := c.mk()
		c.apply(d, func(e *gltf.Extensions) {
			if *e == nil {
				*e = gltf.Extensions{}
			}
			(*e)["EXT_keep"] = map[string]interface{}{"a": 1}
			if with {
				(*e)["EXT_gone"] = map[string]interface{}{"b": 2}
			}
		})
		d.ExtensionsUsed = []string{"EXT_keep"}
		if with {
			switch c.list {
			case 1:
				d.ExtensionsUsed = []string{"EXT_gone", "EXT_keep"}
			case 2:
				d.ExtensionsUsed = []string{"EXT_keep", "EXT_gone"}
				d.ExtensionsRequired = []string{"EXT_gone"}
			case 3:
				d.ExtensionsUsed = []string{"EXT_gone", "EXT_keep"}
				d.ExtensionsRequired = []string{"EXT_keep", "EXT_gone"}
			}
		}
		if c.list == 3 && !with {
			d.ExtensionsRequired = []string{"EXT_keep"}
		}
		return d
	}
	doc := build(true)
	t.State(jsonOf(doc))
	gltfutil.RemoveExtension(doc, "EXT_gone")
	x, y := jsonOf(doc), jsonOf(build(false))
	t.Expect(!bytes.Contains(x, []byte("EXT_gone")), "removed", "the extension is still in the document: %s", x)
	t.Expect(bytes.Equal(x, y), "kept", "more than the extension changed: %s\nwant %s", x, y)
}

func init() {
	Register(&Property{
		ID: "C17", Level: "model_checking",
		Scenarios: []*Scenario{
			{Name: "scale", Gen: gen17("Stsbalp"), Check: c17Scale, Quick: 2, Thorough: 3, What: "documents (tree, node order, TRS and matrix transforms, primitives, skins, morph targets, animations, buffer layouts) x factors"},
			{Name: "joints", Gen: gen17("splb"), Check: c17Joints, Quick: 2, Thorough: 4, What: "skinned documents x accessor layouts (interleaved, shared views, offsets, two buffers)"},
			{Name: "reset", Gen: gen17("tsuRlb"), Check: c17Reset, Quick: 2, Thorough: 3, What: "skinned documents with rotated joints x node order x layouts"},
			{Name: "scale-sizes", Gen: genGSizes(true, true, 0, 1, 2, 3, 5, 6, 7, 8), Check: c17Scale, Quick: 0, Thorough: 0, What: "sections with n elements, n around every power of two up to 66000, scaled"},
			{Name: "joint-sizes", Gen: genGSizes(true, false, 0, 3, 5, 6), Check: c17Joints, Quick: 0, Thorough: 0, What: "the same, joint component types"},
			{Name: "reset-sizes", Gen: genGSizes(true, false, 0, 3, 5, 6), Check: c17Reset, Quick: 0, Thorough: 0, What: "the same, joints reset"},
			{Name: "chains", Gen: genChain, Check: c17Reset, Quick: 0, Thorough: 0, What: "joint chains up to 15 long x node order x rotations x branches"},
			{Name: "files", Gen: gen17Files, Check: c17Files, Quick: 2, Thorough: 3, What: "external images (paths, escapes, missing, embedded) x buffers x current directory"},
			{Name: "extensions", Gen: gen17Ext, Check: c17Ext, Quick: 2, Thorough: 4, What: "places an extension is used in x how it is listed"},
		},
	})
}
