package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
	"golang.org/x/image/bmp"

	. "modelconvmc/engine"
)

// ---- textures

// texImage: 16x8, left half transparent when alpha is set.
func texImage(alpha bool) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, 16, 8))
	for y := 0; y < 8; y++ {
		for x := 0; x < 16; x++ {
			a := uint8(255)
			if alpha && x < 8 {
				a = 100
			}
			m.SetNRGBA(x, y, color.NRGBA{uint8(x * 16), uint8(y * 30), 77, a})
		}
	}
	return m
}

func encodePNG(m image.Image) []byte {
	var b bytes.Buffer
	if err := png.Encode(&b, m); err != nil {
		panic("engine: " + err.Error())
	}
	return b.Bytes()
}

func writeTextures(dir string) error {
	writeFile(filepath.Join(dir, "opaque.png"), encodePNG(texImage(false)))
	writeFile(filepath.Join(dir, "alpha.png"), encodePNG(texImage(true)))
	pal := image.NewPaletted(image.Rect(0, 0, 16, 8), color.Palette{color.NRGBA{0, 0, 0, 0}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}})
	for y := 0; y < 8; y++ {
		for x := 0; x < 16; x++ {
			if x >= 8 {
				pal.SetColorIndex(x, y, uint8(1+(x+y)%2))
			}
		}
	}
	writeFile(filepath.Join(dir, "pal.png"), encodePNG(pal))
	var b bytes.Buffer
	if err := jpeg.Encode(&b, texImage(false), nil); err != nil {
		return err
	}
	writeFile(filepath.Join(dir, "photo.jpg"), b.Bytes())
	b.Reset()
	if err := bmp.Encode(&b, texImage(false)); err != nil {
		return err
	}
	writeFile(filepath.Join(dir, "map.bmp"), b.Bytes())
	writeFile(filepath.Join(dir, "broken.bmp"), []byte("BM not an image"))
	if err := os.MkdirAll(filepath.Join(dir, "sub"), 0o755); err != nil {
		return err
	}
	writeFile(filepath.Join(dir, "sub", "skin.png"), encodePNG(texImage(false)))
	other := image.NewNRGBA(image.Rect(0, 0, 4, 4))
	for i := range other.Pix {
		other.Pix[i] = 255 - byte(i%3)
	}
	for i := 3; i < len(other.Pix); i += 4 {
		other.Pix[i] = 255
	}
	writeFile(filepath.Join(dir, "skin.png"), encodePNG(other))
	writeFile(filepath.Join(dir, "UPPER.PNG"), encodePNG(texImage(false)))
	writeFile(filepath.Join(dir, "photo.jpeg"), readFile(filepath.Join(dir, "photo.jpg")))
	writeFile(filepath.Join(dir, "photo2.JPG"), readFile(filepath.Join(dir, "photo.jpg")))
	for _, a := range []bool{false, true} { // 32 bit, from the top
		im := texImage(a)
		t := []byte{0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16, 0, 8, 0, 32, 0x28}
		for i := 0; i < len(im.Pix); i += 4 {
			t = append(t, im.Pix[i+2], im.Pix[i+1], im.Pix[i], im.Pix[i+3])
		}
		writeFile(filepath.Join(dir, map[bool]string{false: "map.tga", true: "alpha.TGA"}[a]), t)
	}
	// one transparent cell of 4x4, in images of 16x4 and 4x16 pixels
	for k := 0; k < 32; k++ {
		w, h := 16, 4
		if k >= 16 {
			w, h = 4, 16
		}
		im := image.NewNRGBA(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				a := uint8(255)
				if x*4/w == k%4 && y*4/h == k/4%4 {
					a = 254 - uint8(x+y)
				}
				im.SetNRGBA(x, y, color.NRGBA{uint8(x * 9), uint8(y * 9), 200, a})
			}
		}
		writeFile(filepath.Join(dir, fmt.Sprintf("cell%d.png", k)), encodePNG(im))
	}
	return nil
}

var texImages sync.Map // of transparent textures

// texAlpha tells whether faces with the material cover transparent pixels of its texture,
// and whether nothing near them is transparent.
func texAlpha(src *mqo.Document, mat int, list []int) (covered, clear bool) {
	name := filepath.Base(src.Materials[mat].Texture)
	img, ok := texImages.Load(name)
	if !ok {
		switch {
		case name == "alpha.TGA":
			img = image.Image(texImage(true))
		case name == "alpha.png" || name == "pal.png" || strings.HasPrefix(name, "cell"):
			m, _, err := image.Decode(bytes.NewReader(readFile(filepath.Join(SharedDir(), name))))
			if err != nil {
				panic("engine: " + err.Error())
			}
			img = m
		default:
			return false, true
		}
		texImages.Store(name, img)
	}
	im := img.(image.Image)
	w, h := im.Bounds().Dx(), im.Bounds().Dy()
	lo, hi := [2]float64{9, 9}, [2]float64{-9, -9}
	inside := func(f *mqo.Face, x, y float64) bool { // convex faces
		sign := 0.0
		for i, a := range f.UVs {
			b := f.UVs[(i+1)%len(f.UVs)]
			k := (float64(b.X)-float64(a.X))*(y-float64(a.Y)) - (float64(b.Y)-float64(a.Y))*(x-float64(a.X))
			if math.Abs(k) < 1e-6 || k*sign < 0 {
				return false
			}
			sign = k
		}
		return true
	}
	any := false
	for _, i := range list {
		o := src.Objects[i]
		if !o.Visible {
			continue
		}
		for _, f := range o.Faces {
			if f.Material != mat || len(f.Verts) < 3 || len(f.UVs) == 0 {
				continue
			}
			any = true
			flo, fhi := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{math.Inf(-1), math.Inf(-1)}
			for _, u := range f.UVs {
				for k, x := range []float64{float64(u.X), float64(u.Y)} {
					flo[k], fhi[k] = math.Min(flo[k], x), math.Max(fhi[k], x)
				}
			}
			for k := range flo {
				fl := math.Floor(flo[k])
				if fhi[k]-fl > 1 {
					lo[k], hi[k] = 0, 1
				} else {
					lo[k], hi[k] = math.Min(lo[k], flo[k]-fl), math.Max(hi[k], fhi[k]-fl)
				}
			}
			for y := 0; y < h && !covered && fhi[0]-flo[0] < 9 && fhi[1]-flo[1] < 9; y++ {
				for x := 0; x < w; x++ {
					if _, _, _, a := im.At(im.Bounds().Min.X+x, im.Bounds().Min.Y+y).RGBA(); a == 0xffff {
						continue
					}
					for ty := math.Floor(flo[1]); ty <= fhi[1]; ty++ {
						for tx := math.Floor(flo[0]); tx <= fhi[0]; tx++ {
							covered = covered || inside(f, tx+(float64(x)+0.5)/float64(w), ty+(float64(y)+0.5)/float64(h))
						}
					}
				}
			}
		}
	}
	if !any {
		return false, false
	}
	clear = true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			_, _, _, a := im.At(im.Bounds().Min.X+x, im.Bounds().Min.Y+y).RGBA()
			if a != 0xffff && float64(x+1)/float64(w) > lo[0]-0.01 && float64(x)/float64(w) < hi[0]+0.01 && float64(y+1)/float64(h) > lo[1]-0.01 && float64(y)/float64(h) < hi[1]+0.01 {
				clear = false
			}
		}
	}
	return
}

// ---- documents

type case10 struct {
	mk    func() *mqo.Document
	opt   converter.MQOToGLTFOption
	what  string
	match bool // names are unique: objects can be matched by name
}

func (c *case10) Describe() string { return c.what }

var verts10 = [][3]float32{{0, 0, 0}, {100, 0, 0}, {100, 100, 0}, {0, 100, 0}, {50, 150, 0}, {30, 40, 0}, {200, 10, 60}, {210, 90, 70}}

// gen10Doc builds a document. focus selects the dimensions that are explored: g(eometry), m(aterials), s(keleton), t(argets), o(bject tree).
func gen10Doc(focus string) func(c *Chooser) *mqo.Document {
	return func(c *Chooser) *mqo.Document {
		ch := func(group, label string, n int) int {
			if strings.Contains(focus, group) {
				return c.Choose(label, n)
			}
			return 0
		}
		doc := mqo.NewDocument()
		names := [][]string{{"body", "part", "base", "tA", "tB", "leaf"}, {"体", "a b", "base", "tA", "tB", ""}}[ch("o", "names", 2)]
		depths := [][]int{{0, 1, 0, 1, 1, 0}, {0, 1, 2, 3, 1, 2}, {0, 2, 1, 0, 1, 2}, {1, 1, 2, 0, 0, 5}, {3, 1, 0, 0, 1, 1}, {0, 0, 0, 0, 0, 0}}[ch("o", "depths", 6)]
		uids := [][]int{{0, 0, 0, 0, 0, 0}, {9, 8, 7, 6, 5, 4}, {30, 0, 0, 0, 20, 0}}[ch("s", "uids", 3)]
		hidden := ch("o", "hidden", 5) // 0: targets, 1: none, 2: body, 3: base+targets, 4: all
		for i, n := range names {
			o := mqo.NewObject(n)
			o.UID, o.Depth = uids[i], depths[i]
			o.Shading = 1
			o.Visible = !(i == 3 || i == 4)
			switch hidden {
			case 1:
				o.Visible = true
			case 2:
				o.Visible = o.Visible && i != 0
			case 3:
				o.Visible = o.Visible && i != 2
			case 4:
				o.Visible = false
			}
			doc.Objects = append(doc.Objects, o)
		}
		// body
		body := doc.Objects[0]
		for _, v := range verts10 {
			body.Vertexes = append(body.Vertexes, pv3(v[0], v[1], v[2]))
		}
		polys := [][][]int{
			{{0, 3, 2, 1}, {1, 2, 7, 6}, {3, 4, 2}},
			{{0, 3, 5, 1}, {1, 2, 7}},       // concave
			{{1, 0, 3, 4, 2}, {1, 2, 7, 6}}, // pentagon
			{{0, 1}, {3}, {0, 3, 2}, {1, 2, 6}},
			{},
			{{0, 3, 2}, {0, 2, 3}, {1, 2, 7}}, // front and back
			{{5, 1, 0, 3}, {5, 3, 4, 2, 1}},   // reflex first corner
			{{3, 5, 1, 0}, {3, 4, 2, 1, 5}},   // reflex second, last corner
		}[ch("g", "faces", 8)]
		mats := [][3]int{{0, 1, 0}, {1, 1, 1}, {2, 0, 1}, {-1, 0, 1}, {9, 1, 0}, {3, 1, 0}, {2, 2, 3}, {1, 0, 1}}[ch("m", "facemats", 8)]
		uvm := ch("g", "uvs", 6)
		nrm := ch("g", "normals", 4)
		for k, p := range polys {
			f := &mqo.Face{Verts: p, Material: mats[k%3]}
			for x, v := range p {
				q := verts10[v]
				uv := geom.Vector2{X: 0.55 + q[0]/1000, Y: 0.1 + q[1]/400}
				switch uvm {
				case 1: // seam: every face has its own coordinates
					uv.X += 0.07 * float32(k)
				case 4: // whole texture and beyond
					uv = geom.Vector2{X: float32(x&1^x>>1&1) * 1, Y: float32(x >> 1 & 1)}
				case 5:
					uv.X, uv.Y = uv.X-1.5+float32(k), uv.Y*4-1
				}
				if uvm != 2 && !(uvm == 3 && k == 0) {
					f.UVs = append(f.UVs, uv)
				}
				n := pv3(0, 0, 1)
				if nrm == 2 && k == 1 {
					n = pv3(0.6, 0, 0.8)
				} else if v == 2 {
					n = pv3(0, 0.8, 0.6)
				}
				if nrm == 3 && (k+x)%2 == 0 {
					n = nil
				}
				if nrm > 0 {
					f.Normals = append(f.Normals, n)
				}
			}
			body.Faces = append(body.Faces, f)
		}
		if ch("g", "shading", 2) == 1 {
			body.Shading = 0
		}
		if ch("g", "localtransform", 2) == 1 {
			body.Translation, body.Rotation, body.Scale = pv3(100, 0, 0), pv3(0, 90, 0), pv3(2, 2, 2)
		}
		tri := func(o *mqo.Object, off float32, mat int, uv bool) {
			b := len(o.Vertexes)
			o.Vertexes = append(o.Vertexes, pv3(off, 0, 5), pv3(off, 40, 5), pv3(off+40, 0, 5))
			f := &mqo.Face{Verts: []int{b, b + 1, b + 2}, Material: mat}
			if uv {
				f.UVs = []geom.Vector2{{X: 0.6, Y: 0.2}, {X: 0.6, Y: 0.9}, {X: 0.9, Y: 0.2}}
			}
			o.Faces = append(o.Faces, f)
		}
		tri(doc.Objects[1], 400, 1, true)
		if ch("g", "emptychild", 2) == 0 {
			tri(doc.Objects[5], 600, 4, false)
		}
		// morphs
		base := doc.Objects[2]
		tri(base, 800, 0, true)
		base.Vertexes = append(base.Vertexes, pv3(840, 40, 5))
		base.Faces = append(base.Faces, &mqo.Face{Verts: []int{1, 3, 2}, Material: 1})
		if ch("t", "baseseam", 2) == 1 {
			base.Faces[1].UVs = []geom.Vector2{{X: 0.1, Y: 0.1}, {X: 0.3, Y: 0.3}, {X: 0.5, Y: 0.1}}
		}
		if ch("t", "baseshading", 2) == 1 {
			base.Shading = 0
		}
		if ch("t", "basequad", 2) == 1 {
			base.Faces = []*mqo.Face{{Verts: []int{0, 1, 3, 2}, Material: 0}}
		}
		for i := 3; i <= 4; i++ {
			o := doc.Objects[i]
			for k, v := range base.Vertexes {
				o.Vertexes = append(o.Vertexes, pv3(v.X+float32(i), v.Y-float32(k*i), v.Z+float32(k)))
			}
			for _, f := range base.Faces {
				o.Faces = append(o.Faces, &mqo.Face{Verts: f.Verts, Material: f.Material})
			}
		}
		mp := mqo.GetMorphPlugin(doc)
		list := func(b string, ts ...string) {
			l := &mqo.MorphTargetList{Base: b}
			for _, t := range ts {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: t, Param: 0})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		}
		switch ch("t", "morphs", 11) {
		case 0:
			list(base.Name, "tA", "tB")
		case 1:
		case 2:
			list(base.Name, "tB", "tA")
		case 3:
			list(base.Name, "gone", "tA")
		case 4:
			list("gone", "tA")
			list(base.Name, "tB")
		case 5: // vertex counts differ
			doc.Objects[3].Vertexes = doc.Objects[3].Vertexes[:2]
			doc.Objects[3].Faces = nil
			list(base.Name, "tA", "tB")
		case 6:
			list(base.Name, "tA")
			list(base.Name, "tB")
		case 7:
			list(base.Name, "tA")
			list(names[1], "tB")
		case 8:
			list(base.Name)
		case 10: // targets with vertices only
			doc.Objects[3].Faces, doc.Objects[4].Faces = nil, nil
			list(base.Name, "tA", "tB")
		case 9: // nothing to deform
			base.Faces = nil
			list(base.Name, "tA", "tB")
		}
		if ch("t", "morphempty", 2) == 1 {
			for _, i := range []int{2, 3, 4} {
				doc.Objects[i].Vertexes, doc.Objects[i].Faces = nil, nil
			}
		}
		// materials
		mk := func(n string, r, g, b, a float32) *mqo.Material {
			m := &mqo.Material{Name: n, Color: geomV4(r, g, b, a), Diffuse: 0.8, Shader: mqo.ShaderPhong}
			doc.Materials = append(doc.Materials, m)
			return m
		}
		m0, m1 := mk("red", 1, 0.25, 0.5, 1), mk("顔", 0.5, 1, 1, 1)
		mk("x$IGNORE", 1, 1, 1, 1)
		mk("$MORPH:tA:red", 1, 1, 1, 1)
		mk("plain", 0, 0, 1, 1)
		mk("unused", 0, 0, 0, 0.5)
		m1.Texture = "opaque.png"
		switch ch("m", "material", 22) {
		case 1:
			m0.Color.W = 0.5
		case 2:
			m0.DoubleSided = true
		case 3:
			m0.Emission = 0.5
		case 4:
			m0.EmissionColor = pv3(4, 2, 0)
		case 5:
			m0.Shader = mqo.ShaderConstant
		case 6, 7, 8, 9:
			k := ch("m", "alphamode", 4)
			m0.Ex2 = mqo.NewMaterialEx2("glTF")
			m0.Ex2.ShaderParams["Metallic"], m0.Ex2.ShaderParams["Roughness"] = 0.25, 0.75
			if k > 0 {
				m0.SetGltfAlphaMode(k)
				m0.Ex2.ShaderParams["AlphaCutOff"] = 0.375
			}
			m0.Color.W = 0.5
		case 10:
			m0.Ex2 = mqo.NewMaterialEx2("glTF")
			m0.Ex2.ShaderParams["Extensions.Unlit"] = true
		case 11:
			m0.Ex2 = mqo.NewMaterialEx2("glTF")
			for _, e := range []string{"SpecularExt", "Clearcoat", "Sheen", "IorExt", "Volume", "Transmission"} {
				m0.Ex2.ShaderParams["Extensions."+e] = true
			}
			switch ch("m", "extvalues", 2) {
			case 0:
				m0.Ex2.ShaderParams["Extensions.Ior"] = 1.5
				m0.Ex2.ShaderParams["Extensions.SheenColorFactor"] = []float32{0.1, 0.2, 0.3}
				m0.Ex2.ShaderMapping["Clearcoat"] = "photo.jpg"
				m0.Ex2.ShaderMapping["Transmission"] = "gone.png"
			case 1: // every value and every texture
				x := 0.0
				for _, e := range matExts {
					for _, f := range e.fields {
						x += 0.0625
						switch f.kind {
						case 'f':
							m0.Ex2.ShaderParams["Extensions."+f.param] = x
						case 'c':
							m0.Ex2.ShaderParams["Extensions."+f.param] = []float32{float32(x), 0.5, float32(1 - x), 1}
						case 't':
							m0.Ex2.ShaderMapping[f.param] = []string{"photo.jpg", "opaque.png", "alpha.png"}[int(x*16)%3]
						}
					}
				}
			}
		case 12:
			m0.Ex2 = mqo.NewMaterialEx2("VRM")
		case 13:
			m0.Name, m1.Name = "same", "same"
		case 14:
			m0.BumpTexture = "photo.jpg"
		case 15:
			m0.Texture = "opaque.png"
		case 16:
			m0.Color.W = 0.95
		case 17:
			m0.EmissionColor = pv3(0, 0.5, 3)
		case 18:
			m0.EmissionColor, m0.Emission = pv3(0.25, 0, 0), 0.75
		case 19:
			m0.Texture = "sub/skin.png"
		case 20:
			m0.Texture, m0.BumpTexture = "skin.png", "sub/skin.png"
		case 21:
			m0.Texture, m0.DoubleSided, m0.Color.W = "cell0.png", true, 0.25
		}
		tex := Pick[string]
		if strings.Contains(focus, "m") {
			m1.Texture = tex(c, "texture", "opaque.png", "alpha.png", "pal.png", "photo.jpg", "map.bmp", "gone.png", "broken.bmp", "", "sub/skin.png", "@abs/map.bmp", "@abs/opaque.png", "skin.png", "map.tga", "alpha.TGA", "UPPER.PNG", "photo.jpeg")
		}
		// skeleton
		bones10(ch, doc)
		if k := ch("p", "bodies", 6); k > 0 {
			pp := mqo.GetPhysicsPlugin(doc)
			sh := []*mqo.PhysicsShape{{Type: "BOX", Position: mqo.Vector3XmlAttr(v3(1, 2, 3)), Size: mqo.Vector3XmlAttr(v3(4, 5, 6))}}
			pp.Bodies = append(pp.Bodies, &mqo.PhysicsBody{Name: "a", Mass: 1, Shapes: sh, TargetBoneID: []int{0, 1, 99, 0, 3, 2}[k]}, &mqo.PhysicsBody{Name: "b", Kinematic: true, Shapes: sh, TargetBoneID: []int{0, 1, 0, 0, 5, 3}[k], TargetObjID: []int{0, 0, 1, 77, 2, 1}[k]}, &mqo.PhysicsBody{Name: "empty", TargetObjID: 1})
		}
		// lights and shared geometry
		if k := ch("x", "extra", 11); k > 0 {
			T := m4t(v3d{500, 20, -30}).mul(m4r(1, 40)).mul(m4s(v3d{2, 2, 2}))
			U := m4t(v3d{-100, 0, 70}).mul(m4r(2, 90)).mul(m4s(v3d{1, 1, 3}))
			switch k {
			case 1, 2, 9: // light with/without mesh
				o := doc.Objects[0]
				if k == 9 { // not skinned
					o = doc.Objects[1]
				}
				if k == 2 {
					o = doc.Objects[5]
					o.Faces = nil
				}
				o.Extra["light"] = map[string]interface{}{"type": "point", "intensity": 1.0}
				o.InternalTransform = T.geom()
			default:
				// objects 1 and 5 are instances of the same mesh
				for i, idx := range []int{1, 5, 0}[:2+k%2] {
					o := doc.Objects[idx]
					M := []m4{T, U, m4t(v3d{0, 0, -900})}[i]
					if k == 8 && i == 0 {
						M = m4s(v3d{0, 0, 0})
					}
					o.Vertexes, o.Faces = nil, nil
					for _, p := range []v3d{{0, 0, 0}, {10, 0, 0}, {0, 20, 5}, {30, 1, 1}} {
						o.Vertexes = append(o.Vertexes, M.apply(p).geom())
					}
					nd := func(v v3d) *geom.Vector3 { iv, _ := M.inv(); return iv.transposed().dir(v).unit().geom() }
					for f, p := range [][]int{{0, 1, 2}, {1, 3, 2}} {
						fc := &mqo.Face{Verts: p, Material: []int{0, 1}[f]}
						for _, v := range p {
							fc.UVs = append(fc.UVs, geom.Vector2{X: float32(v) * 0.3, Y: 0.5})
							if k != 8 {
								fc.Normals = append(fc.Normals, nd(v3d{0, 0, 1}))
							}
						}
						o.Faces = append(o.Faces, fc)
					}
					switch {
					case k == 4 && i == 1: // other materials, same number
						o.Faces[0].Material, o.Faces[1].Material = 4, 0
					case k == 5 && i == 1: // a single material
						o.Faces[0].Material, o.Faces[1].Material = 1, 1
					case k == 6 && i == 0: // partially excluded owner
						o.Faces[0].Material = 2
					case k == 7 && i == 0:
						o.Shading = 0
					case k == 10: // instances that have lights
						o.Extra["light"] = map[string]interface{}{"type": "point", "intensity": 1.0}
					}
					o.Extra["sharedGeometryKey"] = "k"
					o.InternalTransform = M.geom()
					if k == 3 && i == 2 {
						o.InternalTransform = nil
					}
				}
			}
		}
		return doc
	}
}

func bones10(ch func(group, label string, n int) int, doc *mqo.Document) {
	bp := mqo.GetBonePlugin(doc)
	b := []*mqo.Bone{}
	for i, p := range [][4]float32{{0, 0, 0, 0}, {0, 100, 10, 1}, {50, 150, 0, 2}, {-50, 150, 0, 2}, {0, -80, 5, 1}, {7, 8, 9, 0}} {
		b = append(b, &mqo.Bone{ID: i + 1, Name: fmt.Sprint("bone", i), Parent: int(p[3]), Pos: mqo.Vector3Attr{Vector3: v3(p[0], p[1], p[2])}})
	}
	n := []int{6, 0, 1, 3}[ch("s", "nbones", 4)]
	b = b[:n]
	switch ch("s", "boneorder", 3) {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	case 2:
		if n > 2 {
			b[0], b[2] = b[2], b[0]
		}
	}
	if ch("s", "lostparent", 2) == 1 && n > 0 {
		b[n/2].Parent = 77
	}
	if ch("s", "sparseids", 2) == 1 {
		for _, x := range b {
			x.ID = x.ID*10 + 3
			if x.Parent > 0 && x.Parent != 77 {
				x.Parent = x.Parent*10 + 3
			}
		}
	}
	for _, x := range b {
		bp.AddBone(x)
	}
	byName := map[string]*mqo.Bone{}
	for _, x := range b {
		byName[x.Name] = x
	}
	uid := func(i int) int {
		if doc.Objects[i].UID > 0 {
			return doc.Objects[i].UID
		}
		return i + 1
	}
	body := doc.Objects[0]
	if ch("s", "vertexids", 2) == 1 {
		body.VertexByUID = map[int]int{11: 0, 5: 1, 2: 2, 30: 3, 1: 4, 3: 5, 8: 6, 9: 7}
	}
	w := func(bone, obj, vert int, v float32) {
		if x := byName[fmt.Sprint("bone", bone)]; x != nil {
			id := vertexID(doc.Objects[obj], vert)
			x.SetVertexWeight(uid(obj), id, v)
		}
	}
	pat := ch("s", "weights", 10)
	for v := range body.Vertexes {
		switch pat {
		case 0: // two bones
			w(0, 0, v, float32(10*v+5))
			w(1, 0, v, float32(95-10*v))
		case 1: // one
			w(v%6, 0, v, 100)
		case 2: // four
			for k, x := range []float32{40, 30, 20, 10} {
				w((v+k)%6, 0, v, x)
			}
		case 3: // five, ascending
			for k, x := range []float32{4, 11, 20, 30, 35} {
				w(k, 0, v, x)
			}
		case 4: // five, descending
			for k, x := range []float32{35, 30, 20, 11, 4} {
				w(k, 0, v, x)
			}
		case 5: // six, rotating
			for k, x := range []float32{5, 30, 8, 25, 20, 12} {
				w((k+v)%6, 0, v, x)
			}
		case 6: // some vertices only
			if v%2 == 0 {
				w(1, 0, v, 100)
			}
		case 7: // three bones, thirds
			for k := 0; k < 3; k++ {
				w(2*k, 0, v, 100.0/3)
			}
		case 8: // none
		case 9: // three with a zero in between
			w(0, 0, v, 50)
			w(1, 0, v, 0)
			w(2, 0, v, 50)
		}
	}
	if ch("s", "weights2", 2) == 1 { // a second skinned object
		for v := range doc.Objects[2].Vertexes {
			w(v%3+1, 2, v, 75)
			w(0, 2, v, 25)
		}
	}
	switch ch("s", "badweights", 5) {
	case 1: // vertex that does not exist
		if n > 0 {
			b[0].SetVertexWeight(uid(0), 999, 100)
		}
	case 2:
		if n > 0 {
			b[0].SetVertexWeight(uid(0), 0, 100)
		}
	case 3: // object that does not exist
		if n > 0 {
			b[0].SetVertexWeight(4711, 1, 100)
		}
	case 4: // two lists for the same object
		if n > 1 {
			for _, x := range b {
				if len(x.Weights) > 0 && len(x.Weights[0].Vertexes) > 1 {
					l := x.Weights[0]
					k := len(l.Vertexes) / 2
					x.Weights = append(x.Weights, &mqo.BoneWeight2{ObjectID: l.ObjectID, Vertexes: l.Vertexes[k:]})
					l.Vertexes = l.Vertexes[:k]
				}
			}
		}
	}
}

func opts10(c *Chooser, focus string) converter.MQOToGLTFOption {
	var o converter.MQOToGLTFOption
	fl := func(group, label string) bool { return strings.Contains(focus, group) && c.Flag(label) }
	if strings.Contains(focus, "c") {
		o.Scale = Pick[float32](c, "scale", 0, 1, 0.01)
	}
	o.ForceUnlit = fl("c", "unlit")
	o.IgnoreObjectHierarchy = fl("c", "flat")
	if strings.Contains(focus, "m") {
		o.DetectAlphaTexture = fl("m", "detectalpha")
		switch c.Choose("texopt", 6) {
		case 1:
			o.TextureReCompress = true
		case 2:
			o.TextureBytesThreshold = 1
		case 3:
			o.TextureReCompress, o.TextureResolutionLimit = true, 4
		case 4:
			o.TextureReCompress, o.TextureScale = true, 0.5
		case 5:
			o.TextureBytesThreshold, o.TextureScale = 1<<30, 0.5
		}
	}
	if strings.Contains(focus, "x") {
		o.ExportLights = c.FreeFlag("lights")
		o.ReuseGeometry = c.FreeFlag("reuse")
	}
	o.ConvertPhysics = fl("p", "physics")
	return o
}

func gen10(focus string) func(c *Chooser) any {
	return func(c *Chooser) any {
		mk := frozen(c, gen10Doc(focus))
		o := opts10(c, focus)
		return &case10{mk: mk, opt: o, what: fmt.Sprintf("options %+v", o)}
	}
}

// gen11Alpha: which part of a texture faces cover.
var uvRects = [][4]float32{{0.02, 0.02, 0.23, 0.23}, {0.77, 0.77, 0.98, 0.98}, {0.77, 0.02, 0.98, 0.23}, {0.02, 0.52, 0.98, 0.73}, {0.52, 0.02, 0.73, 0.98}, {0.77, 0.52, 1.23, 0.73}, {-0.48, -0.23, -0.27, -0.02}, {2.27, 5.52, 2.48, 5.73}, {0.02, -0.23, 0.23, 0.23}, {0, 0, 1, 1}, {0.25, 0.25, 0.5, 0.5}, {-1, 0.5, 1, 1}, {0.5, 0.5, 1, 1}}

func quadDoc(mats ...*mqo.Material) (*mqo.Document, func(mat int, r [4]float32)) {
	doc := mqo.NewDocument()
	doc.Materials = mats
	o := mqo.NewObject("o")
	o.Visible = true
	doc.Objects = append(doc.Objects, o)
	return doc, func(mat int, r [4]float32) {
		b := len(o.Vertexes)
		x := float32(b) * 50
		o.Vertexes = append(o.Vertexes, pv3(x, 0, 0), pv3(x, 100, 0), pv3(x+100, 100, 0), pv3(x+100, 0, 0))
		o.Faces = append(o.Faces, &mqo.Face{Verts: []int{b, b + 1, b + 2, b + 3}, Material: mat, UVs: []geom.Vector2{{X: r[0], Y: r[1]}, {X: r[0], Y: r[3]}, {X: r[2], Y: r[3]}, {X: r[2], Y: r[1]}}})
	}
}

func gen11Alpha(c *Chooser) any {
	k := c.Free("image", 32)
	a := c.Free("first", len(uvRects))
	b := c.Free("second", len(uvRects)+1)
	off := Pick(c, "detect", true, false)
	mk := func() *mqo.Document {
		doc, quad := quadDoc(
			&mqo.Material{Name: "a", Color: geomV4(1, 1, 1, 1), Texture: fmt.Sprintf("cell%d.png", k)},
			&mqo.Material{Name: "b", Color: geomV4(1, 1, 1, 1), Texture: fmt.Sprintf("cell%d.png", k)})
		quad(0, uvRects[a])
		if b > 0 {
			quad(0, uvRects[b-1])
		}
		quad(1, uvRects[(a+b)%len(uvRects)]) // another material with the same texture
		return doc
	}
	o := converter.MQOToGLTFOption{DetectAlphaTexture: off}
	return &case10{mk: mk, opt: o, what: fmt.Sprintf("texture cell%d.png, UVs %v and %v", k, uvRects[a], append([][4]float32{{}}, uvRects...)[b])}
}

// gen11Textures: when textures are encoded again, and how large they become.
func gen11Textures(c *Chooser) any {
	files := []string{"opaque.png", "alpha.png", "photo.jpg", "photo.jpeg", "photo2.JPG", "UPPER.PNG", "map.bmp", "map.tga", "alpha.TGA", "skin.png", "sub/skin.png", "cell3.png", "cell20.png", "gone.png", "broken.bmp"}
	x := FreePick(c, "texture", files...)
	y := FreePick(c, "bump", "", "opaque.png", "photo.jpg", "skin.png", "sub/skin.png")
	o := converter.MQOToGLTFOption{}
	o.TextureReCompress = c.FreeFlag("recompress")
	o.TextureScale = FreePick[float32](c, "scale", 0, 0.5, 2, 0.01)
	o.TextureResolutionLimit = FreePick(c, "limit", 0, 4, 8, 15, 16, 100)
	var size int64
	if x != "gone.png" {
		size = int64(len(readFile(filepath.Join(SharedDir(), x))))
	}
	o.TextureBytesThreshold = []int64{0, size - 1, size, size + 1, 1, 1 << 30}[c.Free("threshold", 6)]
	mk := func() *mqo.Document {
		doc, quad := quadDoc(
			&mqo.Material{Name: "a", Color: geomV4(1, 1, 1, 1), Texture: x},
			&mqo.Material{Name: "b", Color: geomV4(1, 1, 1, 1), Texture: y, BumpTexture: x})
		quad(0, uvRects[9])
		quad(1, uvRects[9])
		return doc
	}
	return &case10{mk: mk, opt: o, what: fmt.Sprintf("textures %q and %q, options %+v", x, y, o)}
}

// resolve texture placeholders
func abs10(doc *mqo.Document) {
	for _, m := range doc.Materials {
		if strings.HasPrefix(m.Texture, "@abs/") {
			m.Texture = filepath.Join(SharedDir(), m.Texture[5:])
		}
	}
}

func convert10(t *T, c *case10) (*mqo.Document, *gltf.Document) {
	src := c.mk()
	abs10(src)
	in := c.mk()
	abs10(in)
	o := c.opt
	out, err := converter.NewMQOToGLTFConverter(&o).Convert(in, SharedDir())
	if err != nil {
		t.Fatal("convert", "%v", err)
	}
	return src, out
}

// ---- C10

func c10Check(t *T, v any) {
	c := v.(*case10)
	_, out := convert10(t, c)
	bad := gl{out}.valid()
	t.Expect(len(bad) == 0, "valid", "%s", strings.Join(bad, "; "))
	dec, data, err := glb(out)
	if err != nil {
		t.Fatal("encode", "%v", err)
	}
	bad = gl{dec}.valid()
	t.Expect(len(bad) == 0, "valid-decoded", "after encoding: %s", strings.Join(bad, "; "))
	if d := sameGLTF(out, dec); !d.empty() {
		t.Fail("survives", "after encoding: %s", d)
	}
	// converting the same document again gives the same bytes
	_, out2 := convert10(t, c)
	_, data2, err := glb(out2)
	t.Expect(err == nil && bytes.Equal(data, data2), "deterministic", "a second conversion gives other bytes")
	t.State(data)
}

// ---- C11

func scale10(o converter.MQOToGLTFOption) float64 {
	if o.Scale == 0 {
		return float64(float32(0.001))
	}
	return float64(o.Scale)
}

func excludedMat(n string) bool {
	return strings.HasSuffix(n, "$IGNORE") || strings.HasPrefix(n, "$MORPH:")
}

// objs10 are the objects that become nodes.
func objs10(src *mqo.Document, o converter.MQOToGLTFOption) (list []int, targets map[string]bool) {
	targets = map[string]bool{}
	have := map[string]bool{}
	for _, x := range src.Objects {
		have[x.Name] = true
	}
	for _, l := range mqo.GetMorphPlugin(src).Morphs() {
		for _, x := range l.Target {
			if have[x.Name] {
				targets[x.Name] = true
			}
		}
	}
	for i, x := range src.Objects {
		if targets[x.Name] || o.IgnoreObjectHierarchy && (!x.Visible || len(x.Faces) == 0) {
			continue
		}
		list = append(list, i)
	}
	return
}

type corner struct {
	pos    v3d
	uv     *[2]float64
	normal *v3d
}

type eface struct {
	corners []corner
	mat     string
	left    int
	area    v3d
}

func (f *eface) planar() bool {
	n := f.area.unit()
	for _, k := range f.corners {
		if math.Abs(k.pos.sub(f.corners[0].pos).dot(n)) > 1e-3*math.Sqrt(f.area.len()) {
			return false
		}
	}
	return true
}

func areaOf(p ...v3d) (r v3d) {
	for i := 1; i+1 < len(p); i++ {
		r = r.add(p[i].sub(p[0]).cross(p[i+1].sub(p[0])).mul(0.5))
	}
	return
}

func faces10(src *mqo.Document, o *mqo.Object, scale float64, normals bool) (r []*eface) {
	for _, f := range o.Faces {
		if len(f.Verts) < 3 || f.Material < 0 || f.Material >= len(src.Materials) || excludedMat(src.Materials[f.Material].Name) {
			continue
		}
		e := &eface{mat: fmt.Sprint(f.Material), left: len(f.Verts) - 2}
		var ps []v3d
		for i, x := range f.Verts {
			k := corner{pos: v3g(o.Vertexes[x]).mul(scale)}
			if len(f.UVs) > 0 {
				k.uv = &[2]float64{float64(f.UVs[i].X), float64(f.UVs[i].Y)}
			}
			if normals && len(f.Normals) > 0 && f.Normals[i] != nil {
				n := v3g(f.Normals[i])
				k.normal = &n
			}
			e.corners = append(e.corners, k)
			ps = append(ps, k.pos)
		}
		e.area = areaOf(ps...)
		r = append(r, e)
	}
	return
}

func (a corner) matches(b corner, tol float64) bool {
	if !a.pos.near(b.pos, tol) {
		return false
	}
	if a.uv != nil && (b.uv == nil || !near(a.uv[0], b.uv[0], 1e-5) || !near(a.uv[1], b.uv[1], 1e-5)) {
		return false
	}
	if a.normal != nil && (b.normal == nil || !a.normal.near(*b.normal, 0.011)) {
		return false
	}
	return true
}

// coverage matches triangles with faces; flip: the triangles have the opposite winding.
func coverage(d *diffs, what string, faces []*eface, tris []eface, flip bool, tol float64) {
	sums := map[*eface]v3d{}
	var ix xindex
	for i, f := range faces {
		for _, k := range f.corners {
			ix.add(k.pos, i)
		}
	}
	ix.sort()
	for _, g := range tris {
		a, b, c := g.corners[0], g.corners[1], g.corners[2]
		if flip {
			a, c = c, a
		}
		ok := false
	search:
		for _, fi := range ix.near(a.pos, tol) {
			f := faces[fi]
			if f.left == 0 || f.mat != g.mat {
				continue
			}
			n := len(f.corners)
			for i := 0; i < n; i++ {
				if !f.corners[i].matches(a, tol) {
					continue
				}
				for j := 1; j < n; j++ {
					if !f.corners[(i+j)%n].matches(b, tol) {
						continue
					}
					for k := j + 1; k < n; k++ {
						if f.corners[(i+k)%n].matches(c, tol) {
							ar := areaOf(a.pos, b.pos, c.pos)
							if f.planar() && ar.dot(f.area) < -tol*tol {
								continue
							}
							f.left--
							sums[f] = sums[f].add(ar)
							ok = true
							break search
						}
					}
				}
			}
		}
		if !ok {
			d.add("%s: triangle %v with material %s belongs to no face", what, showCorners(g.corners), g.mat)
		}
	}
	for i, f := range faces {
		if f.left > 0 {
			d.add("%s: %d triangles of face %d (material %s, corners %v) are missing", what, f.left, i, f.mat, showCorners(f.corners))
		} else if l := f.area.len(); sums[f].sub(f.area).len() > 1e-3*math.Max(l, tol*tol) {
			d.add("%s: triangles of face %d do not cover it", what, i)
		}
	}
}

// mqoFaces are the faces of an object.
func mqoFaces(o *mqo.Object) (r []*eface) {
	for _, f := range o.Faces {
		e := &eface{mat: fmt.Sprint(f.Material), left: len(f.Verts) - 2}
		var ps []v3d
		for i, x := range f.Verts {
			k := corner{pos: v3g(o.Vertexes[x])}
			if i < len(f.UVs) {
				k.uv = &[2]float64{float64(f.UVs[i].X), float64(f.UVs[i].Y)}
			}
			if i < len(f.Normals) && f.Normals[i] != nil {
				n := v3g(f.Normals[i])
				k.normal = &n
			}
			e.corners = append(e.corners, k)
			ps = append(ps, k.pos)
		}
		e.area = areaOf(ps...)
		r = append(r, e)
	}
	return
}

func vals(l []*eface) (r []eface) {
	for _, e := range l {
		r = append(r, *e)
	}
	return
}

func showCorners(cs []corner) string {
	s := ""
	for _, c := range cs {
		s += fmt.Sprintf("(%.4g %.4g %.4g", c.pos[0], c.pos[1], c.pos[2])
		if c.uv != nil {
			s += fmt.Sprintf(" uv %.3g %.3g", c.uv[0], c.uv[1])
		}
		if c.normal != nil {
			s += fmt.Sprintf(" n %.3g %.3g %.3g", c.normal[0], c.normal[1], c.normal[2])
		}
		s += ")"
	}
	return s
}

// tris11 are the triangles of a node in world space; materials by position in the document.
func (g gl) worldTris(node int, world m4, matKey func(int) string) (r []eface) {
	n := g.Nodes[node]
	if n.Mesh == nil {
		return nil
	}
	nm := world
	if iv, ok := world.inv(); ok {
		nm = iv.transposed()
	}
	if n.Skin != nil {
		world, nm = m4id(), m4id()
	}
	for _, p := range g.Meshes[*n.Mesh].Primitives {
		pos := g.vec3(int(p.Attributes["POSITION"]))
		var uv [][]float64
		var nr []v3d
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
			uv = g.read(int(a))
		}
		if a, ok := p.Attributes["NORMAL"]; ok {
			nr = g.vec3(int(a))
		}
		mat := "none"
		if p.Material != nil {
			mat = matKey(int(*p.Material))
		}
		for _, t := range g.tris(p) {
			e := eface{mat: mat}
			for _, i := range t {
				if i >= len(pos) {
					e.mat = "index out of range"
					e.corners = append(e.corners, corner{})
					continue
				}
				k := corner{pos: world.apply(pos[i])}
				if i < len(uv) {
					k.uv = &[2]float64{uv[i][0], uv[i][1]}
				}
				if i < len(nr) {
					x := nm.dir(nr[i]).unit()
					k.normal = &x
				}
				e.corners = append(e.corners, k)
			}
			r = append(r, e)
		}
	}
	return
}

// used10 lists the materials that visible faces use, in document order.
func used10(src *mqo.Document, list []int) (r []int) {
	used := map[int]bool{}
	for _, i := range list {
		if src.Objects[i].Visible {
			for _, f := range src.Objects[i].Faces {
				if len(f.Verts) >= 3 {
					used[f.Material] = true
				}
			}
		}
	}
	for i, m := range src.Materials {
		if used[i] && !excludedMat(m.Name) {
			r = append(r, i)
		}
	}
	return
}

// nodeFor finds the nodes of the objects by name (bones and lights have other names or no mesh).
func nodes10(t *T, g gl, src *mqo.Document, list []int) map[int]int {
	bones := map[string]bool{}
	for _, b := range mqo.GetBonePlugin(src).Bones() {
		bones[b.Name] = true
	}
	byName := map[string][]int{}
	for i, n := range g.Nodes {
		if !bones[n.Name] && n.Extensions["KHR_lights_punctual"] == nil || n.Mesh != nil {
			byName[n.Name] = append(byName[n.Name], i)
		}
	}
	r := map[int]int{}
	for _, i := range list {
		o := src.Objects[i]
		l := byName[o.Name]
		if len(l) == 0 { // an object that is only a light
			for k, n := range g.Nodes {
				if n.Name == o.Name && !bones[n.Name] {
					l = append(l, k)
				}
			}
		}
		if !t.Expect(len(l) == 1, "nodes", "object %q has %d nodes", o.Name, len(l)) {
			continue
		}
		r[i] = l[0]
		delete(byName, o.Name)
	}
	for n := range byName {
		t.Fail("nodes", "unexpected node %q", n)
	}
	return r
}

func c11Check(t *T, v any) {
	c := v.(*case10)
	src, out := convert10(t, c)
	g := gl{out}
	if bad := g.valid(); len(bad) > 0 {
		t.Fatal("valid", "%s", strings.Join(bad, "; "))
	}
	scale := scale10(c.opt)
	list, _ := objs10(src, c.opt)
	nodes := nodes10(t, g, src, list)
	worlds := g.worlds()
	reach := g.reachable()
	used := used10(src, list)
	// materials
	var matOf []int // glTF material -> source
	k := 0
	for _, m := range out.Materials {
		for k < len(used) && src.Materials[used[k]].Name != m.Name {
			k++
		}
		if k < len(used) {
			matOf = append(matOf, used[k])
			k++
		} else {
			matOf = append(matOf, -1)
			t.Expect(!excludedMat(m.Name), "materials", "excluded material %q appears", m.Name)
		}
	}
	key := func(i int) string { return fmt.Sprint(matOf[i]) }
	uses := map[int]bool{}
	d := &diffs{}
	par := g.parents()
	for _, i := range list {
		o := src.Objects[i]
		n, ok := nodes[i]
		if !ok {
			continue
		}
		if !reach[n] {
			d.add("object %q is not in the scene", o.Name)
		}
		// hierarchy
		if o.InternalTransform == nil || len(o.Extra) == 0 {
			want := -1
			if !c.opt.IgnoreObjectHierarchy {
				want = c.parent(src, i, nodes, out)
			}
			if want >= -1 && par[n] != want {
				d.add("object %q: parent is node %d instead of %d", o.Name, par[n], want)
			}
		}
		if !o.Visible {
			if out.Nodes[n].Mesh != nil {
				d.add("hidden object %q has a mesh", o.Name)
			}
			continue
		}
		normals := o.Shading > 0 && !c.opt.ForceUnlit
		fs := faces10(src, o, scale, normals)
		ts := g.worldTris(n, worlds[n], key)
		coverage(d, "object "+o.Name, fs, ts, true, 2e-6*math.Max(1, scale*1000))
		for _, f := range fs {
			var m int
			fmt.Sscan(f.mat, &m)
			uses[m] = true
		}
		if all := allFaces(o, scale); normals && len(all) <= 1000 { // supplied normals point out of the surface
			for _, tr := range ts {
				ar := areaOf(tr.corners[0].pos, tr.corners[1].pos, tr.corners[2].pos)
				for _, k := range tr.corners {
					if k.normal == nil {
						d.add("object %q has no normals", o.Name)
						break
					}
					if !hasExplicitNormals(o) && smooth(all, k.pos) && ar.len() > 0 && k.normal.dot(ar) <= 0 {
						d.add("object %q: supplied normal %v points into the surface", o.Name, *k.normal)
					}
				}
			}
		}
		// lights
		if c.opt.ExportLights && o.Extra["light"] != nil {
			found := false
			for x, ln := range out.Nodes {
				if ln.Extensions["KHR_lights_punctual"] != nil && (x == n || par[x] == n) {
					found = true
					want := m4geom(o.InternalTransform)
					for r := 0; r < 3; r++ {
						want[r][3] *= scale
					}
					if !want.near(worlds[x], 1e-4) {
						d.add("light of %q is at %v instead of %v", o.Name, worlds[x], want)
					}
				}
			}
			if !found {
				d.add("light of %q is missing", o.Name)
			}
		}
	}
	c.physics11(d, src, out, nodes, scale)
	t.Expect(d.empty(), "geometry", "%s", d)
	// every face's material
	for gi, m := range out.Materials {
		if matOf[gi] >= 0 {
			if s := c.diffMat(src, matOf[gi], m, out, list); s != "" {
				t.Fail("material", "%s", s)
			} else {
				t.OK()
			}
		}
	}
	for m := range uses {
		n := 0
		for _, x := range matOf {
			if x == m {
				n++
			}
		}
		t.Expect(n == 1, "materials", "material %q appears %d times", src.Materials[m].Name, n)
	}
	_, data, _ := glb(out)
	t.State(data)
}

// smooth reports whether the faces at a point look into similar directions.
func smooth(fs []*eface, p v3d) bool {
	var ns []v3d
	for _, f := range fs {
		for _, k := range f.corners {
			if k.pos.near(p, 1e-6) {
				ns = append(ns, f.area.unit())
			}
		}
	}
	for i := range ns {
		for j := range ns[:i] {
			if ns[i].dot(ns[j]) < 0.2 {
				return false
			}
		}
	}
	return len(ns) > 0
}

func allFaces(o *mqo.Object, scale float64) (r []*eface) {
	for _, f := range o.Faces {
		e := &eface{}
		var ps []v3d
		for _, x := range f.Verts {
			p := v3g(o.Vertexes[x]).mul(scale)
			ps = append(ps, p)
			e.corners = append(e.corners, corner{pos: p})
		}
		e.area = areaOf(ps...)
		r = append(r, e)
	}
	return
}

func hasExplicitNormals(o *mqo.Object) bool {
	for _, f := range o.Faces {
		if len(f.Normals) > 0 {
			return true
		}
	}
	return false
}

// parent is the node of the nearest ancestor that has one, -1 for roots, -2 if not determined.
func (c *case10) parent(src *mqo.Document, i int, nodes map[int]int, out *gltf.Document) int {
	for i >= 0 {
		p := -1
		for j := i - 1; j >= 0; j-- {
			if src.Objects[j].Depth < src.Objects[i].Depth {
				p = j
				break
			}
		}
		if p < 0 {
			return -1
		}
		if n, ok := nodes[p]; ok {
			if len(src.Objects[p].Extra) > 0 {
				return -2 // may carry a matrix
			}
			return n
		}
		i = p
	}
	return -1
}

func (c *case10) diffMat(src *mqo.Document, idx int, m *gltf.Material, out *gltf.Document, list []int) string {
	s := src.Materials[idx]
	d := &diffs{}
	q := "material " + s.Name
	p := m.PBRMetallicRoughness
	if p == nil || p.BaseColorFactor == nil {
		return q + ": no colour"
	}
	for i, x := range []float32{s.Color.X, s.Color.Y, s.Color.Z, s.Color.W} {
		d.f32(fmt.Sprintf("%s colour %d", q, i), x, p.BaseColorFactor[i], 1e-6)
	}
	d.eq(q+" double sided", s.DoubleSided, m.DoubleSided)
	var em [3]float32
	if s.EmissionColor != nil {
		em = [3]float32{s.EmissionColor.X, s.EmissionColor.Y, s.EmissionColor.Z}
	} else if s.Emission > 0 {
		em = [3]float32{s.Emission, s.Emission, s.Emission}
	}
	mx := float32(1)
	for _, x := range em {
		if x > mx {
			mx = x
		}
	}
	for i := range em {
		d.f32(fmt.Sprintf("%s emission %d", q, i), em[i]/mx, m.EmissiveFactor[i], 1e-6)
	}
	// alpha
	want := gltf.AlphaOpaque
	isG := s.Ex2 != nil && s.Ex2.ShaderName == "glTF"
	if isG {
		switch s.Ex2.ShaderParams["AlphaMode"] {
		case 2:
			want = gltf.AlphaMask
		case 3:
			want = gltf.AlphaBlend
		}
		if want == gltf.AlphaMask && (m.AlphaCutoff == nil || !near32(*m.AlphaCutoff, 0.375, 1e-6)) {
			d.add("%s: alpha cutoff %v", q, m.AlphaCutoff)
		}
		if v, ok := s.Ex2.ShaderParams["Metallic"].(float64); ok {
			if p.MetallicFactor == nil || !near(float64(*p.MetallicFactor), v, 1e-6) {
				d.add("%s: metallic %v", q, p.MetallicFactor)
			}
			v = s.Ex2.ShaderParams["Roughness"].(float64)
			if p.RoughnessFactor == nil || !near(float64(*p.RoughnessFactor), v, 1e-6) {
				d.add("%s: roughness %v", q, p.RoughnessFactor)
			}
		}
	} else if s.Color.W < 0.99 {
		want = gltf.AlphaBlend
	} else if c.opt.DetectAlphaTexture {
		if covered, clear := texAlpha(src, idx, list); covered {
			want = gltf.AlphaBlend
		} else if !clear {
			want = m.AlphaMode
		}
	}
	d.eq(q+" alpha mode", want, m.AlphaMode)
	_, unlit := m.Extensions["KHR_materials_unlit"]
	wantUnlit := c.opt.ForceUnlit || s.Ex2 == nil && s.Shader == mqo.ShaderConstant || isG && s.Ex2.BoolParam("Extensions.Unlit")
	d.eq(q+" unlit", wantUnlit, unlit)
	if isG {
		for a, b := range map[string]string{"SpecularExt": "specular", "Clearcoat": "clearcoat", "Sheen": "sheen", "IorExt": "ior", "Volume": "volume", "Transmission": "transmission"} {
			_, has := m.Extensions["KHR_materials_"+b]
			d.eq(q+" "+b, s.Ex2.BoolParam("Extensions."+a), has)
		}
		for _, e := range matExts {
			if s.Ex2.BoolParam("Extensions." + e.flag) {
				c.diffExt(d, q, s, e, m.Extensions["KHR_materials_"+e.name], out)
			}
		}
	}
	// textures
	if e := c.diffTexture(s.Texture, p.BaseColorTexture, out); e != "" {
		d.add("%s: %s", q, e)
	}
	var bump *gltf.TextureInfo
	if m.NormalTexture != nil && m.NormalTexture.Index != nil {
		bump = &gltf.TextureInfo{Index: *m.NormalTexture.Index}
	}
	if e := c.diffTexture(s.BumpTexture, bump, out); e != "" {
		d.add("%s bump: %s", q, e)
	}
	return d.String()
}

// The glTF material extensions a Metasequoia glTF shader can carry.
type extField struct {
	param, name string
	kind        byte // f: number, c: colour, t: texture
}

var matExts = []struct {
	flag, name string
	fields     []extField
}{
	{"SpecularExt", "specular", []extField{{"SpecularFactor", "specularFactor", 'f'}, {"SpecularColorFactor", "specularColorFactor", 'c'}, {"Specular", "specularTexture", 't'}, {"SpecularColor", "specularColorTexture", 't'}}},
	{"Clearcoat", "clearcoat", []extField{{"ClearcoatFactor", "clearcoatFactor", 'f'}, {"ClearcoatRoughnessFactor", "clearcoatRoughnessFactor", 'f'}, {"Clearcoat", "clearcoatTexture", 't'}, {"ClearcoatRoughness", "clearcoatRoughnessTexture", 't'}, {"ClearcoatNormal", "clearcoatNormalTexture", 't'}}},
	{"Sheen", "sheen", []extField{{"SheenColorFactor", "sheenColorFactor", 'c'}, {"SheenRoughnessFactor", "sheenRoughnessFactor", 'f'}, {"SheenColor", "sheenColorTexture", 't'}, {"SheenRoughness", "sheenRoughnessTexture", 't'}}},
	{"IorExt", "ior", []extField{{"Ior", "ior", 'f'}}},
	{"Volume", "volume", []extField{{"ThicknessFactor", "thicknessFactor", 'f'}, {"AttenuationDistance", "attenuationDistance", 'f'}, {"AttenuationColor", "attenuationColor", 'c'}, {"Thickness", "thicknessTexture", 't'}}},
	{"Transmission", "transmission", []extField{{"TransmissionFactor", "transmissionFactor", 'f'}, {"Transmission", "transmissionTexture", 't'}}},
}

func asJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var r any
	json.Unmarshal(b, &r)
	return r
}

func (c *case10) diffExt(d *diffs, q string, s *mqo.Material, e struct {
	flag, name string
	fields     []extField
}, ext any, out *gltf.Document) {
	got, ok := asJSON(ext).(map[string]any)
	if !ok {
		d.add("%s: extension %s is %v", q, e.name, ext)
		return
	}
	for _, f := range e.fields {
		q := q + " " + f.name
		switch f.kind {
		case 'f':
			if want, ok := s.Ex2.ShaderParams["Extensions."+f.param].(float64); ok {
				x, _ := got[f.name].(float64)
				d.f32(q, float32(want), float32(x), 1e-6)
			} else {
				d.eq(q, nil, got[f.name])
			}
		case 'c':
			want, ok := s.Ex2.ShaderParams["Extensions."+f.param].([]float32)
			l, _ := got[f.name].([]any)
			if !ok {
				d.eq(q, nil, got[f.name])
			} else if len(l) != 3 {
				d.add("%s: %v", q, got[f.name])
			} else {
				for i := range l {
					x, _ := l[i].(float64)
					d.f32(q, want[i], float32(x), 1e-6)
				}
			}
		case 't':
			var ti *gltf.TextureInfo
			if m, ok := got[f.name].(map[string]any); ok {
				x, _ := m["index"].(float64)
				ti = &gltf.TextureInfo{Index: uint32(x)}
				if int(x) >= len(out.Textures) {
					d.add("%s: texture %v", q, x)
					continue
				}
			}
			if e := c.diffTexture(s.Ex2.ShaderMapping[f.param], ti, out); e != "" {
				d.add("%s: %s", q, e)
			}
		}
	}
}

// physics11: when asked for, every body with shapes is described on the node of its bone or object.
func (c *case10) physics11(d *diffs, src *mqo.Document, out *gltf.Document, nodes map[int]int, scale float64) {
	type body struct {
		shapes         [][7]float64
		mass           float64
		static, single bool
	}
	want := map[int]*body{}
	if c.opt.ConvertPhysics {
		fixed := c.mk()
		fixed.FixObjectID()
		bones := mqo.GetBonePlugin(src).Bones()
		add := func(node int, b *mqo.PhysicsBody, at v3d) {
			if len(b.Shapes) == 0 {
				return
			}
			w := want[node]
			if w == nil {
				w = &body{single: true}
				want[node] = w
			} else {
				w.single = false
			}
			w.mass += float64(b.Mass)
			w.static = w.static || b.Kinematic
			for _, s := range b.Shapes {
				w.shapes = append(w.shapes, [7]float64{float64(s.Size.X) * scale, float64(s.Size.Y) * scale, float64(s.Size.Z) * scale, (float64(s.Position.X) - at[0]) * scale, (float64(s.Position.Y) - at[1]) * scale, (float64(s.Position.Z) - at[2]) * scale, float64(len(s.Type))})
			}
		}
		for _, b := range mqo.GetPhysicsPlugin(src).Bodies {
			for _, bone := range bones {
				if b.TargetBoneID != 0 && bone.ID == b.TargetBoneID {
					for i, n := range out.Nodes {
						if n.Name == bone.Name && n.Mesh == nil {
							add(i, b, v3d{float64(bone.Pos.X), float64(bone.Pos.Y), float64(bone.Pos.Z)})
						}
					}
				}
			}
		}
		for i, o := range fixed.Objects {
			if n, ok := nodes[i]; ok && n >= 0 {
				for _, b := range mqo.GetPhysicsPlugin(src).Bodies {
					if b.TargetObjID != 0 && b.TargetObjID == o.UID {
						add(n, b, v3d{})
					}
				}
			}
		}
	}
	for i, n := range out.Nodes {
		ext, has := n.Extensions["BLENDER_physics"]
		w := want[i]
		if (w != nil) != has {
			d.add("node %q: physics %v, want %v", n.Name, ext, w)
			continue
		}
		if w == nil {
			continue
		}
		got, _ := asJSON(ext).(map[string]any)
		l, _ := got["collisionShapes"].([]any)
		if len(l) != len(w.shapes) {
			d.add("node %q has %d shapes, want %d", n.Name, len(l), len(w.shapes))
			continue
		}
		num := func(v any, i int) float64 {
			l, _ := v.([]any)
			if i < len(l) {
				x, _ := l[i].(float64)
				return x
			}
			return math.NaN()
		}
		for k, s := range w.shapes {
			g, _ := l[k].(map[string]any)
			for j := 0; j < 3; j++ {
				if !near(num(g["boundingBox"], j), s[j], 1e-5) || !near(num(g["offsetScale"], j), s[j], 1e-5) || !near(num(g["offsetTranslation"], j), s[3+j], 1e-5) {
					d.add("node %q shape %d is %v, want %v", n.Name, k, g, s)
					break
				}
			}
			if ty, _ := g["shapeType"].(string); len(ty) != int(s[6]) {
				d.add("node %q shape %d has type %v", n.Name, k, g["shapeType"])
			}
		}
		mass, _ := got["mass"].(float64)
		static, _ := got["static"].(bool)
		if !near(mass, w.mass, 1e-5) || w.single && static != w.static {
			d.add("node %q: mass %v static %v, want %v %v", n.Name, mass, static, w.mass, w.static)
		}
	}
}

func (c *case10) diffTexture(name string, ti *gltf.TextureInfo, out *gltf.Document) string {
	encode := c.opt.TextureReCompress
	ext := strings.ToLower(filepath.Ext(name))
	if ext == ".bmp" || ext == ".tga" {
		encode = true
	}
	exists := name != "" && filepath.Base(name) != "gone.png" && filepath.Base(name) != "broken.bmp"
	if !exists {
		if ti != nil {
			return fmt.Sprintf("has a texture although %q cannot be read", name)
		}
		return ""
	}
	if ti == nil {
		return fmt.Sprintf("texture %q is missing", name)
	}
	src := out.Textures[ti.Index].Source
	if src == nil {
		return "texture without image"
	}
	im := out.Images[*src]
	if im.BufferView == nil {
		return "image without data"
	}
	v := out.BufferViews[*im.BufferView]
	data := out.Buffers[v.Buffer].Data[v.ByteOffset : v.ByteOffset+v.ByteLength]
	path := name
	if !filepath.IsAbs(path) {
		path = filepath.Join(SharedDir(), name)
	}
	orig := readFile(path)
	if c.opt.TextureBytesThreshold > 0 && int64(len(orig)) > c.opt.TextureBytesThreshold {
		encode = true
	}
	if !encode {
		if !bytes.Equal(orig, data) {
			return fmt.Sprintf("image of %q has other bytes", name)
		}
		return ""
	}
	wantType := "image/png"
	if ext == ".jpg" || ext == ".jpeg" {
		wantType = "image/jpeg"
	}
	if im.MimeType != wantType {
		return fmt.Sprintf("image of %q is %s", name, im.MimeType)
	}
	var a image.Image
	var err error
	if ext == ".tga" {
		a = texImage(name == "alpha.TGA")
	} else {
		a, _, err = image.Decode(bytes.NewReader(orig))
	}
	if err != nil {
		return ""
	}
	b, kind, err := image.Decode(bytes.NewReader(data))
	if err != nil || "image/"+kind != im.MimeType {
		return fmt.Sprintf("image of %q: %v %v", name, kind, err)
	}
	w, h := a.Bounds().Dx(), a.Bounds().Dy()
	sc := 1.0
	if c.opt.TextureScale != 0 {
		sc = float64(c.opt.TextureScale)
	}
	if l := c.opt.TextureResolutionLimit; l > 0 && float64(w)*sc > float64(l) {
		sc = float64(l) / float64(w)
	}
	if b.Bounds().Dx() != max(1, int(float64(w)*sc)) || b.Bounds().Dy() != max(1, int(float64(h)*sc)) {
		return fmt.Sprintf("image of %q has size %v", name, b.Bounds())
	}
	if sc == 1 && ext != ".jpg" && ext != ".jpeg" {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if color.NRGBAModel.Convert(a.At(a.Bounds().Min.X+x, a.Bounds().Min.Y+y)) != color.NRGBAModel.Convert(b.At(b.Bounds().Min.X+x, b.Bounds().Min.Y+y)) {
					return fmt.Sprintf("image of %q has another pixel at %d,%d", name, x, y)
				}
			}
		}
	}
	return ""
}

// ---- C12

type bw struct {
	bone string
	w    float64
}

// weights12 are the weights of every vertex of an object.
func weights12(src *mqo.Document, oi int) (r []map[string]float64, entries []int) {
	o := src.Objects[oi]
	uid := o.UID
	if uid == 0 {
		used := map[int]bool{}
		for _, x := range src.Objects {
			used[x.UID] = true
		}
		uid = oi + 1
		if used[uid] {
			return nil, nil
		}
	}
	r = make([]map[string]float64, len(o.Vertexes))
	entries = make([]int, len(o.Vertexes))
	for i := range r {
		r[i] = map[string]float64{}
	}
	for _, b := range mqo.GetBonePlugin(src).Bones() {
		for _, l := range b.Weights {
			if l.ObjectID != uid {
				continue
			}
			for _, v := range l.Vertexes {
				i, ok := o.VertexByUID[v.VertexID]
				if !ok {
					i = v.VertexID - 1
				}
				if i >= 0 && i < len(r) {
					r[i][b.Name] += float64(v.Weight) / 100
					entries[i]++
				}
			}
		}
	}
	return
}

func c12Check(t *T, v any) {
	c := v.(*case10)
	src, out := convert10(t, c)
	g := gl{out}
	if bad := g.valid(); len(bad) > 0 {
		t.Fatal("valid", "%s", strings.Join(bad, "; "))
	}
	scale := scale10(c.opt)
	list, targets := objs10(src, c.opt)
	nodes := nodes10(t, g, src, list)
	worlds := g.worlds()
	reach := g.reachable()
	par := g.parents()
	d := &diffs{}
	// bones
	bones := mqo.GetBonePlugin(src).Bones()
	boneNode := map[string]int{}
	byID := map[int]string{}
	for _, b := range bones {
		byID[b.ID] = b.Name
		n := 0
		for i, x := range out.Nodes {
			if x.Name == b.Name {
				boneNode[b.Name] = i
				n++
			}
		}
		d.eq("nodes of "+b.Name, 1, n)
	}
	if !d.empty() {
		t.Fatal("bones", "%s", d)
	}
	for _, b := range bones {
		n := boneNode[b.Name]
		w := worlds[n]
		at := v3d{w[0][3], w[1][3], w[2][3]}
		if want := v3g(&b.Pos.Vector3).mul(scale); !at.near(want, 1e-6*math.Max(1, 1000*scale)) {
			d.add("%s is at %v instead of %v", b.Name, at, want)
		}
		want := -1
		if p, ok := byID[b.Parent]; ok && b.Parent > 0 {
			want = boneNode[p]
		}
		d.eq("parent of "+b.Name, want, par[n])
		if !reach[n] {
			d.add("%s is not in the scene", b.Name)
		}
		if out.Nodes[n].Mesh != nil {
			d.add("%s has a mesh", b.Name)
		}
	}
	t.Expect(d.empty(), "bones", "%s", d)
	byName := map[string]*mqo.Object{}
	for _, o := range src.Objects {
		byName[o.Name] = o
	}
	for _, oi := range list {
		o := src.Objects[oi]
		n, ok := nodes[oi]
		if !ok || out.Nodes[n].Mesh == nil {
			continue
		}
		node := out.Nodes[n]
		mesh := out.Meshes[*node.Mesh]
		d := &diffs{}
		// targets
		var want []*mqo.Object
		for _, l := range mqo.GetMorphPlugin(src).Morphs() {
			if l.Base == o.Name {
				for _, x := range l.Target {
					if m := byName[x.Name]; m != nil && len(m.Vertexes) == len(o.Vertexes) {
						want = append(want, m)
					}
				}
			}
		}
		var wn []string
		for _, m := range want {
			wn = append(wn, m.Name)
		}
		x, _ := mesh.Extras.(map[string]interface{})
		d.eq("targets of "+o.Name, fmt.Sprint(wn), fmt.Sprint(anyStrings(x["targetNames"])))
		var ix xindex
		for i, s := range o.Vertexes {
			ix.add(v3g(s).mul(scale), i)
		}
		ix.sort()
		find := func(p v3d) int {
			for _, i := range ix.near(p, 1e-5*math.Max(1, scale*1000)) {
				s := o.Vertexes[i]
				if v3g(s).mul(scale).near(p, 2e-6*math.Max(1, scale*1000)) {
					return i
				}
			}
			return -1
		}
		ws, entries := weights12(src, oi)
		weighted := false
		for _, e := range entries {
			weighted = weighted || e > 0
		}
		if weighted != (node.Skin != nil) {
			d.add("object %q: weighted %v, skinned %v", o.Name, weighted, node.Skin != nil)
			weighted = false
		}
		var jm []m4
		if weighted {
			jm = g.jointMats(int(*node.Skin), worlds)
			for k, m := range jm {
				if !m.near(m4id(), 1e-5*math.Max(1, scale*1000)) {
					d.add("object %q: joint %d moves the rest pose by %v", o.Name, k, m)
				}
			}
		}
		for pi, p := range mesh.Primitives {
			pos := g.vec3(int(p.Attributes["POSITION"]))
			d.eq(fmt.Sprintf("number of targets of %s", o.Name), len(want), len(p.Targets))
			var js, wt [][]float64
			if weighted {
				js, wt = g.read(int(p.Attributes["JOINTS_0"])), g.read(int(p.Attributes["WEIGHTS_0"]))
			}
			var tp [][]v3d
			for _, tt := range p.Targets {
				tp = append(tp, g.vec3(int(tt["POSITION"])))
			}
			seen := map[int]bool{}
			for _, tr := range g.tris(p) {
				for _, i := range tr {
					if seen[i] {
						continue
					}
					seen[i] = true
					s := find(pos[i])
					if s < 0 {
						d.add("object %q primitive %d: vertex %v does not exist", o.Name, pi, pos[i])
						continue
					}
					for k := 0; k < len(want) && k < len(tp); k++ {
						w := v3g(want[k].Vertexes[s]).mul(scale)
						if !pos[i].add(tp[k][i]).near(w, 3e-6*math.Max(1, scale*1000)) {
							d.add("object %q target %q: vertex %d goes to %v instead of %v", o.Name, want[k].Name, s, pos[i].add(tp[k][i]), w)
						}
					}
					if weighted {
						got := map[string]float64{}
						for k := 0; k < 4; k++ {
							if wt[i][k] != 0 {
								got[out.Nodes[out.Skins[*node.Skin].Joints[int(js[i][k])]].Name] += wt[i][k]
							}
						}
						if m := diffWeights(ws[s], got); m != "" {
							d.add("object %q vertex %d: %s", o.Name, s, m)
						}
					}
				}
			}
		}
		t.Expect(d.empty(), "binding", "%s", d)
	}
	for n := range targets {
		for i, x := range out.Nodes {
			t.Expect(x.Name != n, "target-object", "morph target %q is also node %d", n, i)
		}
	}
	_, data, _ := glb(out)
	t.State(data)
}

// diffWeights: want are all given weights (sum need not be 1); at most four bones are kept.
func diffWeights(want, got map[string]float64) string {
	var l []bw
	sum := 0.0
	for b, w := range want {
		if w > 0 {
			l = append(l, bw{b, w})
			sum += w
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].w > l[j].w || l[i].w == l[j].w && l[i].bone < l[j].bone })
	if len(l) > 4 {
		l = l[:4]
		sum = 0
		for _, x := range l {
			sum += x.w
		}
	}
	k := 1 / sum
	if len(l) != len(got) {
		return fmt.Sprintf("bound to %v, weights given %v", got, want)
	}
	for _, x := range l {
		if math.Abs(x.w*k-got[x.bone]) > 1e-5 {
			return fmt.Sprintf("%s has weight %v instead of %v (all %v, given %v)", x.bone, got[x.bone], x.w*k, got, want)
		}
	}
	return ""
}

func init() {
	Register(&Property{ID: "C10", Level: "model_checking", Setup: writeTextures, Scenarios: []*Scenario{
		{Name: "documents", Quick: 2, Thorough: 3, Gen: gen10("gmstocp"), Check: c10Check, What: "every document x options within the deviation bound"},
		{Name: "instances", Quick: 2, Thorough: 3, Gen: gen10("xogmc"), Check: c10Check, What: "documents with lights and shared geometry x export options"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: gen10Sizes(0), Check: c10Check, What: "sections with n elements, n around every power of two up to 66000"},
	}})
	Register(&Property{ID: "C11", Level: "model_checking", Setup: writeTextures, Scenarios: []*Scenario{
		{Name: "geometry", Quick: 4, Thorough: 5, Gen: gen10("goc"), Check: c11Check, What: "object tree, faces, UVs, normals, options"},
		{Name: "materials", Quick: 3, Thorough: 4, Gen: gen10("gmc"), Check: c11Check, What: "materials, textures, face materials"},
		{Name: "transparency", Quick: 0, Thorough: 1, Gen: gen11Alpha, Check: c11Check, What: "one transparent cell of 16 in images of two shapes x every pair of texture areas"},
		{Name: "textures", Quick: 0, Thorough: 0, Gen: gen11Textures, Check: c11Check, What: "pairs of textures of every file type x encoding options"},
		{Name: "instances", Quick: 3, Thorough: 4, Gen: gen10("xoc"), Check: c11Check, What: "lights and shared geometry"},
		{Name: "physics", Quick: 3, Thorough: 4, Gen: gen10("psc"), Check: c11Check, What: "physics bodies on bones and objects"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: gen10Sizes(0), Check: c11Check, What: "sections with n elements, n around every power of two up to 66000"},
	}})
	Register(&Property{ID: "C12", Level: "model_checking", Setup: writeTextures, Scenarios: []*Scenario{
		{Name: "skinning", Quick: 4, Thorough: 5, Gen: gen10("sc"), Check: c12Check, What: "skeletons x weight patterns x identifiers"},
		{Name: "skinned-geometry", Quick: 3, Thorough: 4, Gen: gen10("sgtoc"), Check: c12Check, What: "skeletons and morphs combined with faces, seams and object trees"},
		{Name: "morphs", Quick: 4, Thorough: 5, Gen: gen10("toc"), Check: c12Check, What: "morph lists x base shapes"},
		{Name: "sizes", Quick: 0, Thorough: 0, Gen: gen10Sizes(0), Check: c12Check, What: "sections with n elements, n around every power of two up to 66000"},
	}})
}
