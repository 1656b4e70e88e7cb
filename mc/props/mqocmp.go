package props

import (
	"fmt"

	"github.com/binzume/modelconv/mqo"
)

// diffMQO compares what the MQO text format carries.  Fields that the format
// stores with a fixed number of decimals are compared to that precision.
func diffMQO(a, b *mqo.Document) *diffs {
	d := &diffs{}
	const exact = 0
	if (a.Scene == nil) != (b.Scene == nil) {
		d.add("scene presence: want %v, got %v", a.Scene != nil, b.Scene != nil)
	} else if a.Scene != nil {
		s, t := a.Scene, b.Scene
		d.v3("scene.pos", &s.CameraPos, &t.CameraPos, exact)
		d.v3("scene.lookat", &s.CameraLookAt, &t.CameraLookAt, exact)
		d.fabs("scene.head", s.CameraRot.Y, t.CameraRot.Y, 0.000051)
		d.fabs("scene.pitch", s.CameraRot.X, t.CameraRot.X, 0.000051)
		d.fabs("scene.bank", s.CameraRot.Z, t.CameraRot.Z, 0.000051)
		d.fabs("scene.zoom2", s.Zoom2, t.Zoom2, 0.000051)
		d.eq("scene.ortho", s.Ortho, t.Ortho)
		d.f32("scene.frontclip", s.FrontClip, t.FrontClip, exact)
		d.f32("scene.backclip", s.BackClip, t.BackClip, exact)
		if (s.AmbientLight == nil) != (t.AmbientLight == nil) {
			d.add("scene.amb presence")
		} else if s.AmbientLight != nil {
			d.fabs("scene.amb.r", s.AmbientLight.X, t.AmbientLight.X, 0.00051)
			d.fabs("scene.amb.g", s.AmbientLight.Y, t.AmbientLight.Y, 0.00051)
			d.fabs("scene.amb.b", s.AmbientLight.Z, t.AmbientLight.Z, 0.00051)
		}
	}
	d.eq("number of materials", len(a.Materials), len(b.Materials))
	for i := 0; i < len(a.Materials) && i < len(b.Materials); i++ {
		diffMaterial(d, fmt.Sprintf("material[%d]", i), a.Materials[i], b.Materials[i])
	}
	d.eq("number of objects", len(a.Objects), len(b.Objects))
	for i := 0; i < len(a.Objects) && i < len(b.Objects); i++ {
		diffObject(d, fmt.Sprintf("object[%d]", i), a.Objects[i], b.Objects[i])
	}
	return d
}

func diffMaterial(d *diffs, p string, s, t *mqo.Material) {
	d.eq(p+".name", s.Name, t.Name)
	d.eq(p+".uid", s.UID, t.UID)
	d.fabs(p+".r", s.Color.X, t.Color.X, 0.00051)
	d.fabs(p+".g", s.Color.Y, t.Color.Y, 0.00051)
	d.fabs(p+".b", s.Color.Z, t.Color.Z, 0.00051)
	d.fabs(p+".a", s.Color.W, t.Color.W, 0.00051)
	d.fabs(p+".dif", s.Diffuse, t.Diffuse, 0.00051)
	d.fabs(p+".amb", s.Ambient, t.Ambient, 0.00051)
	d.fabs(p+".emi", s.Emission, t.Emission, 0.00051)
	d.fabs(p+".spc", s.Specular, t.Specular, 0.00051)
	d.fabs(p+".power", s.Power, t.Power, 0.0051)
	d.eq(p+".tex", s.Texture, t.Texture)
	d.eq(p+".aplane", s.AlphaTexture, t.AlphaTexture)
	d.eq(p+".bump", s.BumpTexture, t.BumpTexture)
	if (s.EmissionColor == nil) != (t.EmissionColor == nil) {
		d.add("%s.emi_col: want %v, got %v", p, s.EmissionColor, t.EmissionColor)
	} else if s.EmissionColor != nil {
		d.fabs(p+".emi_col.r", s.EmissionColor.X, t.EmissionColor.X, 0.00051)
		d.fabs(p+".emi_col.g", s.EmissionColor.Y, t.EmissionColor.Y, 0.00051)
		d.fabs(p+".emi_col.b", s.EmissionColor.Z, t.EmissionColor.Z, 0.00051)
	}
	d.eq(p+".dbls", s.DoubleSided, t.DoubleSided)
	d.eq(p+".shader", s.Shader, t.Shader)
	if (s.Ex2 == nil) != (t.Ex2 == nil) {
		d.add("%s.ex2: want %v, got %v", p, s.Ex2, t.Ex2)
	} else if s.Ex2 != nil {
		d.eq(p+".ex2.type", s.Ex2.ShaderType, t.Ex2.ShaderType)
		d.eq(p+".ex2.name", s.Ex2.ShaderName, t.Ex2.ShaderName)
		diffParams(d, p+".ex2.param", s.Ex2.ShaderParams, t.Ex2.ShaderParams)
		d.eq(p+".ex2.mapping count", len(s.Ex2.ShaderMapping), len(t.Ex2.ShaderMapping))
		for _, k := range sortedKeys(s.Ex2.ShaderMapping) {
			d.eq(p+".ex2.mapping["+k+"]", s.Ex2.ShaderMapping[k], t.Ex2.ShaderMapping[k])
		}
		d.eq(p+".ex2.mappingparam count", len(s.Ex2.ShaderMappingParams), len(t.Ex2.ShaderMappingParams))
		for _, k := range sortedKeys(s.Ex2.ShaderMappingParams) {
			diffParams(d, p+".ex2.mappingparam["+k+"]", s.Ex2.ShaderMappingParams[k], t.Ex2.ShaderMappingParams[k])
		}
	}
}

func diffParams(d *diffs, p string, s, t map[string]interface{}) {
	d.eq(p+" count", len(s), len(t))
	for _, k := range sortedKeys(s) {
		w := fmt.Sprintf("%s[%s]", p, k)
		switch v := s[k].(type) {
		case float64:
			g, ok := t[k].(float32)
			if !ok || !near(v, float64(g), 1e-7) {
				d.add("%s: want %v, got %v", w, v, t[k])
			}
		case []float32:
			g, ok := t[k].([]float32)
			if !ok || len(g) != len(v) {
				d.add("%s: want %v, got %v", w, v, t[k])
				continue
			}
			for i := range v {
				d.fabs(w, v[i], g[i], 0.00051)
			}
		default:
			d.eq(w, v, t[k])
		}
	}
}

func diffObject(d *diffs, p string, s, t *mqo.Object) {
	d.eq(p+".name", s.Name, t.Name)
	d.eq(p+".uid", s.UID, t.UID)
	d.eq(p+".visible", s.Visible, t.Visible)
	d.eq(p+".locked", s.Locked, t.Locked)
	d.eq(p+".depth", s.Depth, t.Depth)
	d.eq(p+".folding", s.Folding, t.Folding)
	d.eq(p+".shading", s.Shading, t.Shading)
	d.f32(p+".facet", s.Facet, t.Facet, 0)
	d.eq(p+".patch", s.Patch, t.Patch)
	d.eq(p+".segment", s.PatchSegment, t.PatchSegment)
	d.eq(p+".mirror", s.Mirror, t.Mirror)
	d.fabs(p+".mirror_dis", s.MirrorDis, t.MirrorDis, 0.00000051)
	d.v3(p+".scale", s.Scale, t.Scale, 0)
	d.v3(p+".rotation", s.Rotation, t.Rotation, 0)
	d.v3(p+".translation", s.Translation, t.Translation, 0)
	if (s.Color == nil) != (t.Color == nil) {
		d.add("%s.color: want %v, got %v", p, s.Color, t.Color)
	} else if s.Color != nil {
		d.fabs(p+".color.r", s.Color.X, t.Color.X, 0.00051)
		d.fabs(p+".color.g", s.Color.Y, t.Color.Y, 0.00051)
		d.fabs(p+".color.b", s.Color.Z, t.Color.Z, 0.00051)
	}
	d.eq(p+" vertices", len(s.Vertexes), len(t.Vertexes))
	for i := 0; i < len(s.Vertexes) && i < len(t.Vertexes); i++ {
		d.v3(fmt.Sprintf("%s.v[%d]", p, i), s.Vertexes[i], t.Vertexes[i], 0)
	}
	// identifiers: every vertex reachable by an identifier stays reachable by it
	for uid, i := range s.VertexByUID {
		if t.GetVertexIndexByID(uid) != i {
			d.add("%s vertex id %d: want index %d, got %d", p, uid, i, t.GetVertexIndexByID(uid))
		}
	}
	for uid := 1; uid <= len(s.Vertexes); uid++ {
		w := s.GetVertexIndexByID(uid)
		if len(s.VertexByUID) > 0 && s.VertexByUID[uid] == 0 && w != 0 && hasExplicit(s, w) {
			continue // the vertex has an explicit identifier instead
		}
		if t.GetVertexIndexByID(uid) != w {
			d.add("%s vertex id %d: want index %d, got %d", p, uid, w, t.GetVertexIndexByID(uid))
		}
	}
	d.eq(p+" faces", len(s.Faces), len(t.Faces))
	for i := 0; i < len(s.Faces) && i < len(t.Faces); i++ {
		diffFace(d, fmt.Sprintf("%s.f[%d]", p, i), s.Faces[i], t.Faces[i])
	}
}

func hasExplicit(o *mqo.Object, idx int) bool {
	for _, i := range o.VertexByUID {
		if i == idx {
			return true
		}
	}
	return false
}

func diffFace(d *diffs, p string, s, t *mqo.Face) {
	d.eq(p+".uid", s.UID, t.UID)
	d.eq(p+".material", s.Material, t.Material)
	d.eq(p+".verts", fmt.Sprint(s.Verts), fmt.Sprint(t.Verts))
	d.eq(p+".uv count", len(s.UVs), len(t.UVs))
	for i := 0; i < len(s.UVs) && i < len(t.UVs); i++ {
		if s.UVs[i] != t.UVs[i] {
			d.add("%s.uv[%d]: want %v, got %v", p, i, s.UVs[i], t.UVs[i])
		}
	}
	d.eq(p+".normal count", len(s.Normals), len(t.Normals))
	for i := 0; i < len(s.Normals) && i < len(t.Normals); i++ {
		d.v3(fmt.Sprintf("%s.n[%d]", p, i), s.Normals[i], t.Normals[i], 0)
	}
}
