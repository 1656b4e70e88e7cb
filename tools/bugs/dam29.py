# C29: guards against damaged input weakened
c='converter/'
def g(i,f,a,b): bug('q%02d'%i,'C29',(f,a,b))
g(1,c+'fbx2mqo.go','if m < 0 || matMap[m] || m >= int32(len(materialIDs)) {','if matMap[m] || m >= int32(len(materialIDs)) {')
g(2,c+'fbx2mqo.go','if matIdx >= 0 && matIdx < len(materialIDs) {','if matIdx < len(materialIDs) {')
g(3,c+'fbx2mqo.go','if idx := normIndex(v, vcount+n); idx >= 0 {','if idx := normIndex(v, vcount+n); idx >= -1 {')
g(4,c+'fbx2mqo.go','if idx < 0 || idx >= len(indexes) {','if idx >= len(indexes) {')
g(5,c+'fbx2mqo.go','if idx < 0 || idx >= n {','if idx < 0 || idx > n {')
g(6,c+'fbx2mqo.go','if len(vertices) != len(indexes) {','if len(vertices) < len(indexes) {')
g(7,c+'fbx2mqo.go','if idx >= 0 && int(idx) < len(obj.Vertexes) {','if int(idx) < len(obj.Vertexes) {')
g(8,c+'gltf2mqo.go','if int(i) < len(src.Textures) && src.Textures[i].Source != nil && int(*src.Textures[i].Source) < len(src.Images) {','if int(i) < len(src.Textures) {')
g(9,c+'mmd2mqo.go','pmBone.InheritParentID >= 0 && len(pmx.Bones) > pmBone.InheritParentID {','pmBone.InheritParentID >= 0 && len(pmx.Bones) >= pmBone.InheritParentID {')
g(10,c+'mmd2mqo.go','pmBone.IK.TargetID >= 0 && pmBone.IK.TargetID < len(bones) {','pmBone.IK.TargetID < len(bones) {')
g(11,c+'mmd2mqo.go','if v.BoneWeights[bi] > 0 && b >= 0 && b < len(bones) {','if v.BoneWeights[bi] > 0 && b < len(bones) {')
g(12,c+'mmd2mqo.go','if mv.Target < 0 || mv.Target >= len(v2f) || len(v2f[mv.Target]) == 0 {','if mv.Target < 0 || mv.Target > len(v2f) || len(v2f[mv.Target]) == 0 {')
g(13,c+'mmd2mqo.go','if um.Target < 0 || um.Target >= len(v2f) || len(v2f[um.Target]) == 0 || m.MorphType > 3 {','if um.Target >= len(v2f) || len(v2f[um.Target]) == 0 || m.MorphType > 3 {')
g(14,c+'mmd2mqo.go','if mat.Target < 0 || mat.Target >= len(mq.Materials) {','if mat.Target >= len(mq.Materials) {')
g(15,c+'mqo2gltf.go','if v < 0 || v >= vs {','if v < 0 || v > vs {')
g(16,c+'mqo2gltf.go','if len(f.Verts) < 3 {','if len(f.Verts) < 2 {')
g(17,c+'mqo2gltf.go','if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {','if objectByName[t.Name] == nil {')
g(18,c+'mqo2mmd.go','if len(f.Verts) < 3 || f.Material != mi {','if f.Material != mi {')
g(19,c+'mqo2mmd.go','if v < len(target.Vertexes) && target','if target')
g(20,c+'vrmconfig.go','if len(ext.MaterialProperties) != len(doc.Materials) {','if len(ext.MaterialProperties) > len(doc.Materials) {')
g(21,'mqo/bone_plugin.go','vi >= 0 && vi < len(obj.Vertexes) {','vi >= 0 {')
g(22,'mqo/bone_plugin.go','				if obj == nil {','				if obj == nil && ObjectID < 0 {')
g(23,'mqo/mqo_parser.go','	if n < 0 {','	if n < -1 {')
g(24,'mqo/mqo_parser.go','if mid >= 0 && mid < len(doc.Materials) {','if mid >= 0 && mid <= len(doc.Materials) {')
g(25,'mqo/mqo.go','if len(o.Vertexes) >= uid {','if len(o.Vertexes) >= uid-1 {')
g(26,'mmd/pmd_parser.go','if v.Target < 0 || v.Target >= len(base.Vertex) {','if v.Target < 0 || v.Target > len(base.Vertex) {')
g(27,'fbx/binary_parser.go','if nprop < 0 || propsz < 0 || nprop > propsz/2 {','if false {')
g(28,'fbx/fbx_document.go',' && len(node.Attributes) >= 3 {',' && len(node.Attributes) >= 2 {')
g(29,'fbx/fbx_geometry.go','if len(m) != 16 {\n','if len(m) > 16 {\n') if False else None
g(30,'fbx/fbx_node.go','if i >= len(p) {','if i > len(p) {')
g(31,'fbx/text_parser.go','if len(tokens) != int(size) {','if len(tokens) > int(size) {')
g(32,'gltfutil/gltf_utils.go','|| ch.Sampler == nil ||','||')
g(33,'gltfutil/gltf_utils.go','		if acr.BufferView == nil && acr.Sparse == nil {','		if false {')
g(34,c+'mqo2gltf.go','b.Parent > 0 && parent != nil && !circular[b.ID] {','b.Parent > 0 && parent != nil {')
g(35,c+'glbanim.go','if i == len(m.Frames) {','if i > len(m.Frames) {')
g(36,c+'glbanim.go','if n.Mesh == nil || len(doc.Meshes[*n.Mesh].Primitives) == 0 {','if n.Mesh == nil {')
g(37,'mqo/morph_plugin.go','if o == nil || len(o.Vertexes) != len(tobj.Vertexes) {','if o == nil {')
g(38,'mqo/utils.go','			if len(f.UVs) > 0 {','			if len(f.UVs) >= 0 {')
g(39,'mmd/vmd_parser.go','if n := len(a.Frames); n > 0 && a.Frames[n-1] == uint32(s.Frame) {','if n := len(a.Frames); a.Frames[n-1] == uint32(s.Frame) {') if False else None
