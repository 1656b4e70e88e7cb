package props

import (
	"bytes"
	"fmt"
	"math"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

func gen16(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		r := &gcase{mk: frozenG(c, genGLTF(focus))}
		r.aux = []int{c.Choose("in memory", 2)}
		r.what = c.Trace()
		return r
	}
}

func c16Check(t *T, v any) {
	c := v.(*gcase)
	src := gl{c.mk()}
	in := c.mk()
	_, raw, err := glb(in)
	if err != nil {
		panic("engine: cannot write the document: " + err.Error())
	}
	t.State(raw)
	in = &gltf.Document{}
	if err := gltf.NewDecoder(bytes.NewReader(raw)).Decode(in); err != nil {
		panic("engine: cannot read the document: " + err.Error())
	}
	if len(c.aux) > 0 && c.aux[0] == 1 { // built by a program that leaves defaults unset
		in = c.mk()
		for _, n := range in.Nodes {
			if n.Matrix == gltf.DefaultMatrix {
				n.Matrix = [16]float32{}
			}
			if n.Rotation == gltf.DefaultRotation {
				n.Rotation = [4]float32{}
			}
			if n.Scale == gltf.DefaultScale {
				n.Scale = [3]float32{}
			}
		}
	}
	out, err := converter.NewGLTFToMQOConverter(nil).Convert(in)
	t.Must(err == nil && out != nil, "convert", "%v", err)

	// materials
	d := &diffs{}
	if len(out.Materials) != len(src.Materials) {
		d.add("%d materials, want %d", len(out.Materials), len(src.Materials))
	} else {
		for i, m := range src.Materials {
			d.mat16(src, m, out.Materials[i])
		}
	}
	t.Expect(d.empty(), "materials", "%s", d)

	// every mesh node once, all triangles
	w := src.worlds()
	used := map[*mqo.Object]bool{}
	n := 0
	for i, node := range src.Nodes {
		if node.Mesh == nil {
			continue
		}
		n++
		key := func(i int) string { return fmt.Sprint(i) }
		tris := src.worldTris(i, w[i], key)
		for k := range tris {
			for j := range tris[k].corners {
				tris[k].corners[j].normal = nil
			}
		}
		why := "no object left"
		ok := false
		for _, o := range out.Objects {
			if used[o] || o.Name != src.Meshes[*node.Mesh].Name {
				continue
			}
			bad := ""
			for fi, f := range o.Faces {
				for _, x := range f.Verts {
					if x < 0 || x >= len(o.Vertexes) {
						bad = fmt.Sprintf("face %d of %q refers to vertex %d of %d", fi, o.Name, x, len(o.Vertexes))
					}
				}
			}
			if bad != "" {
				why = bad
				continue
			}
			fs := mqoFaces(o)
			for _, f := range fs {
				for j := range f.corners {
					f.corners[j].normal = nil
				}
			}
			d := &diffs{}
			coverage(d, o.Name, fs, tris, node.Skin != nil || w[i].det3() > 0, 1e-4)
			if d.empty() {
				used[o], ok = true, true
				t.Expect(o.Visible, "visible", "%q is hidden", o.Name)
				break
			}
			why = d.String()
		}
		t.Expect(ok, "object", "node %d %q (mesh %q): %s", i, node.Name, src.Meshes[*node.Mesh].Name, why)
	}
	t.Expect(len(out.Objects) == n, "objects", "%d objects for %d mesh nodes", len(out.Objects), n)

	// bones
	var bones []*mqo.Bone
	if bp := bonePlugin(out); bp != nil {
		bones = bp.Bones()
	}
	nodeOf := map[string]int{}
	for i, nd := range src.Nodes {
		nodeOf[nd.Name] = i
	}
	byName, byID := map[string]*mqo.Bone{}, map[int]*mqo.Bone{}
	for _, b := range bones {
		_, ok := nodeOf[b.Name]
		t.Expect(ok && byName[b.Name] == nil && byID[b.ID] == nil && b.ID > 0, "bone", "bone %q (id %d) is no node, or twice", b.Name, b.ID)
		byName[b.Name], byID[b.ID] = b, b
	}
	for si, s := range src.Skins {
		for _, j := range s.Joints {
			t.Expect(byName[src.Nodes[j].Name] != nil, "joint", "joint %q of skin %d has no bone", src.Nodes[j].Name, si)
		}
	}
	t.Expect(len(src.Skins) > 0 || len(bones) == 0, "bone", "%d bones without a skin", len(bones))
	parents := src.parents()
	for _, b := range bones {
		i := nodeOf[b.Name]
		p := w[i].apply(v3d{})
		t.Expect(p.sub(v3g(&b.Pos.Vector3)).len() < 1e-4*(1+p.len()), "bone position", "bone %q is at %v, want %v", b.Name, b.Pos.Vector3, p)
		k := parents[i]
		for k >= 0 && byName[src.Nodes[k].Name] == nil {
			k = parents[k]
		}
		if k < 0 {
			t.Expect(b.Parent == 0, "bone parent", "bone %q has parent %d", b.Name, b.Parent)
		} else {
			t.Expect(b.Parent == byName[src.Nodes[k].Name].ID, "bone parent", "bone %q has parent %d, want %q", b.Name, b.Parent, src.Nodes[k].Name)
		}
	}
	if len(t.Fails) > 0 {
		return
	}

	// written as text and read: what a glTF export of it has
	txt := mqoBytes(out)
	re, err := mqo.NewParser(bytes.NewReader(txt), "").Parse()
	t.Must(err == nil, "reread", "%v", err)
	back, err := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{Scale: 1, TextureScale: 1, ForceUnlit: false}).Convert(re, t.Dir())
	t.Must(err == nil, "back", "%v", err)
	t.Extra(1)
	byMat := map[string]*gltf.Material{}
	for _, m := range back.Materials {
		byMat[m.Name] = m
	}
	for i, m := range src.Materials {
		g := byMat[m.Name]
		if g == nil {
			continue // not used
		}
		d := &diffs{}
		d.eq("alpha mode", m.AlphaMode, g.AlphaMode)
		if m.AlphaMode == gltf.AlphaMask {
			d.f32("alpha cutoff", m.AlphaCutoffOrDefault(), g.AlphaCutoffOrDefault(), 1e-3)
		}
		d.eq("double sided", m.DoubleSided, g.DoubleSided)
		pbr := m.PBRMetallicRoughness
		if pbr == nil {
			pbr = &gltf.PBRMetallicRoughness{}
		}
		if g.PBRMetallicRoughness == nil {
			g.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
		}
		a, b := pbr.BaseColorFactorOrDefault(), g.PBRMetallicRoughness.BaseColorFactorOrDefault()
		for k := range a {
			if math.Abs(float64(a[k]-b[k])) > 1e-3 {
				d.add("base colour: want %v, got %v", a, b)
				break
			}
		}
		d.fabs("metallic", pbr.MetallicFactorOrDefault(), g.PBRMetallicRoughness.MetallicFactorOrDefault(), 1e-3)
		d.fabs("roughness", pbr.RoughnessFactorOrDefault(), g.PBRMetallicRoughness.RoughnessFactorOrDefault(), 1e-3)
		t.Expect(d.empty(), "back", "material %d, converted to MQO and back: %s", i, d)
	}
}

func (d *diffs) mat16(src gl, m *gltf.Material, g *mqo.Material) {
	p := "material " + m.Name
	d.eq(p+" name", m.Name, g.Name)
	d.eq(p+" double sided", m.DoubleSided, g.DoubleSided)
	pbr := m.PBRMetallicRoughness
	if pbr == nil {
		pbr = &gltf.PBRMetallicRoughness{}
	}
	c := pbr.BaseColorFactorOrDefault()
	d.eq(p+" colour", mqo.Vector4{X: c[0], Y: c[1], Z: c[2], W: c[3]}, g.Color)
	e := mqo.Vector3{}
	if g.EmissionColor != nil {
		e = *g.EmissionColor
	}
	d.eq(p+" emission", mqo.Vector3{X: m.EmissiveFactor[0], Y: m.EmissiveFactor[1], Z: m.EmissiveFactor[2]}, e)
	tex := ""
	if ti := pbr.BaseColorTexture; ti != nil && src.Textures[ti.Index].Source != nil {
		tex = src.Images[*src.Textures[ti.Index].Source].URI
	}
	d.eq(p+" texture", tex, g.Texture)
}

func init() {
	Register(&Property{ID: "C16", Level: "model_checking",
		Rule: "glTF documents of six nodes, up to two meshes of up to three primitives and a skin, built byte by byte, encoded as GLB, decoded and converted by the real code, compared with an independent reading of the document",
		Scenarios: []*Scenario{
			{Name: "primitives", Gen: gen16("pl"), Check: c16Check, Quick: 2, Thorough: 4, What: "primitive modes, index and UV component types, buffer layouts, shared meshes and attributes, up to B deviations"},
			{Name: "nodes", Gen: gen16("t"), Check: c16Check, Quick: 2, Thorough: 3, What: "node trees and orders x TRS and matrix transforms of six nodes, up to B deviations"},
			{Name: "materials", Gen: gen16("m"), Check: c16Check, Quick: 2, Thorough: 4, What: "materials and textures, up to B deviations; also converted back through a written MQO file"},
			{Name: "skins", Gen: gen16("skt"), Check: c16Check, Quick: 2, Thorough: 3, What: "skins, joint lists, skeleton roots x node trees and transforms, up to B deviations"},
			{Name: "sizes", Gen: genGSizes(false, false, 0, 1, 2, 3, 4, 5, 6), Check: c16Check, Quick: 0, Thorough: 0, What: "vertices, primitives, meshes, depth, materials, joints, skins: n elements, n around every power of two up to 66000"},
			{Name: "all", Gen: gen16("pltmskb"), Check: c16Check, Quick: -1, Thorough: 3, What: "all dimensions together, up to B deviations"},
		}})
}
