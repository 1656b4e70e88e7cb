F='converter/mmd2mqo.go';G='converter/mqo2mmd.go';X='converter/fbx2mqo.go'
bug('k01-tex','C13',(F,'if mat.TextureID >= 0 {','if mat.TextureID > 0 {'))
bug('k02-ik','C13',(F,'if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {','if pmBone.TailID > 0 && pmBone.TailID < len(pmBone.IK.Links) {'))
bug('k03-ikcount','C13',(F,'ChainCount: len(pmBone.IK.Links) + 1,','ChainCount: len(pmBone.IK.Links),'))
bug('k04-inherit','C13',(F,'pmBone.InheritParentInfluence > c.InheritParentThreshold','pmBone.InheritParentInfluence >= c.InheritParentThreshold'))
bug('k05-weightdup','C13',(F,'					c[b].Weight += 100 * v.BoneWeights[bi]\n					continue','					continue'))
bug('k06-weightobj','C13',(F,'		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)\n		mq.Objects = append(mq.Objects, o)\n	}\n\n	morphPlugin','		c.setWeight(pmx, bones, matIdx+1, vmap)\n		mq.Objects = append(mq.Objects, o)\n	}\n\n	morphPlugin'))
bug('k07-morphfg','C13',(F,'		for _, um := range m.UV {\n			if um','		for _, um := range m.UV {\n			if len(m2fg[mi]) > 0 {\n				break\n			}\n			if um'))
bug('k08-uvfirst','C13',(F,'for _, fv := range vertToFV[mqv] {','for _, fv := range vertToFV[mqv][:1] {'))
bug('k09-matmorph','C13',(F,'if mat.Flags&1 == 1 {','if mat.Flags == 1 {'))
bug('k10-matmorph-w','C13',(F,'m.Color.Z*mat.Diffuse.Z, m.Color.W*mat.Diffuse.W)','m.Color.Z*mat.Diffuse.Z, m.Color.W)'))
bug('k11-body','C13',(F,'TargetBoneID:   b.Bone + 1,','TargetBoneID:   b.Bone,'))
bug('k12-kin','C13',(F,'Kinematic:      b.Mode == 0,','Kinematic:      b.Mode != 1,'))
bug('k13-joints','C13',(F,'AngulerSpring: mqo.Vector3XmlAttr(j.AngulerSpring),','AngulerSpring: mqo.Vector3XmlAttr(j.LinerSpring),'))
bug('k14-vmapzero','C13',(F,'			if mv, ok := vmap[vi]; ok {\n				verts[i] = mv','			if mv := vmap[vi]; mv > 0 {\n				verts[i] = mv'))
bug('k15-morphtwice','C13',(F,'				v.X += mv.Offset.X\n','				v.X = base.Vertexes[mqv].X + mv.Offset.X\n'))
bug('k16-fg','C13',(F,'			if f2fg[f] == 0 {\n				fs =','			if f2fg[f] == 0 && f > fi {\n				fs ='))
bug('k17-newmg','C13',(F,'				ms = c.newMg(pmx, m2mg, m2fg, fg2m, m, mgid, ms)','				m2mg[m] = mgid\n				ms = append(ms, m)'))
bug('k18-empty','C13',(F,'if len(o.Faces) == 0 && mat.Count != 0 {','if len(o.Faces) == 0 {'))
bug('k19-shared-verts','C13',(F,'		vmap := map[int]int{}\n		c.convertFaces(pmx, faces, face2mat, o, vmap)\n		if len','		vmap := map[int]int{}\n		c.convertFaces(pmx, faces, face2mat, o, vmap)\n		if mat.Name == "" {\n			o.Visible = false\n		}\n		if len'))
bug('k20-morphmatpower','C13',(F,'m.Name = "$MORPH:" + morph.Name + ":" + m.Name','m.Name = "$MORPH:" + morph.Name'))
bug('k21-uvkey','C14',(G,'					if id, ok := indicesMap[vertexKey{v, uv}]; ok {','					if id, ok := indicesMap[vertexKey{v, mqo.Vector2{X: uv.X}}]; ok {'),(G,'						indicesMap[vertexKey{v, uv}] = verts[i]','						indicesMap[vertexKey{v, mqo.Vector2{X: uv.X}}] = verts[i]'))
bug('k22-weightvmap','C14',(G,'				for _, v := range vmap[vi] {\n					vertex','				for n, v := range vmap[vi] {\n					if n > 1 {\n						break\n					}\n					vertex'))
bug('k23-weight4','C14',(G,'if len(vertex.BoneWeights) >= 4 {','if len(vertex.BoneWeights) >= 3 {'))
bug('k24-tail','C14',(G,'			dst.Bones[i].ParentID = parentID\n','			dst.Bones[i].ParentID = b.Parent - 1\n'))
bug('k25-morphhidden','C14',(G,'if !obj.Visible || morphTargets[obj.Name] != nil {','if !obj.Visible || len(morphTargets) > 0 && morphTargets[obj.Name] != nil && len(morphBases[obj.Name]) == 0 {'))
bug('k26-morphbase','C14',(G,'morphBases[m.Base] = append(morphBases[m.Base], m.Target...)','morphBases[m.Base] = m.Target'))
bug('k27-texshare','C14',(G,'			texture = len(dst.Textures)\n			dst.Textures = append(dst.Textures, m.Texture)','			for i, t := range dst.Textures {\n				if len(t) == len(m.Texture) {\n					texture = i\n				}\n			}\n			if texture < 0 {\n				texture = len(dst.Textures)\n				dst.Textures = append(dst.Textures, m.Texture)\n			}'))
bug('k28-bodysize','C14',(G,'Size:           *shape.Size.Vec3().Scale(c.Scale),','Size:           *shape.Size.Vec3().Scale(1.0 / 80),'))
bug('k29-bodyshapes','C14',(G,'	for i, shape := range b.Shapes {\n','	for i, shape := range b.Shapes {\n		if i > 1 {\n			break\n		}\n'))
bug('k30-bodyrot','C14',(G,'Rotation:       mmd.Vector3(shape.Rotation),','Rotation:       *c.convertVec3(shape.Rotation.Vec3()),'))
bug('k31-normz','C14',(G,'Z: normals[v].Z * -1},','Z: -normals[v].Z * float32(1-2*(mi&4)/4)},'))
bug('k32-morphoff','C14',(G,'								if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {','								if v < len(target.Vertexes) && target.Vertexes[v].X != obj.Vertexes[v].X {'))
bug('f01-transformlink','C15',(X,'	bone.Pos.Vector3 = *c.coordMat.Mul(sub.GetTransformLink()).ApplyTo(&geom.Vector3{})\n',''))
bug('f02-shapeabs','C15',(X,'transfrom.ApplyTo(g.Vertices[idx].Add(vertices[i]))','obj.Vertexes[idx].Add(transfrom.ApplyTo(vertices[i]))'))
bug('f03-geomnode','C15',(X,'		if hasGeometryNode(child) {\n			return true','		if child.GetGeometry() != nil {\n			return true'))
bug('f04-limb','C15',(X,'if c.ConvertWholeNode || m.Kind() != "LimbNode" || hasGeometryNode(m) {','if c.ConvertWholeNode || m.Kind() == "Mesh" || m.Kind() == "Null" || hasGeometryNode(m) {'))
bug('f05-matneg','C15',(X,'if matIdx >= 0 && matIdx < len(materialIDs) {','if matIdx >= 0 && matIdx < len(c.materialIDMap) && matIdx < len(materialIDs) {'))
bug('f06-matallsame','C15',(X,'matIdx = int(matArray[0])','matIdx = 0'))
bug('f07-uvidx','C15',(X,'		if indexed {\n			if idx','		if indexed && len(indexes) != n {\n			if idx'))
bug('f08-normals','C15',(X,'normalTransform.ApplyTo(normArray[idx]).Normalize()','rs.ApplyTo(normArray[idx]).Normalize()'))
bug('f09-vcount','C15',(X,'		if len(face.Normals) != len(f) {\n			face.Normals = nil\n		}','		if len(face.Normals) != len(f) {\n			face.Normals = nil\n			continue\n		}'))
bug('f10-uvflip','C15',(X,'t = geom.Vector2{X: uv[idx].X, Y: 1 - uv[idx].Y}','t = geom.Vector2{X: uv[idx].X, Y: float32(math.Abs(float64(1 - uv[idx].Y)))}'),(X,'"log"','"log"\n	"math"'))
bug('f11-bonemap','C15',(X,'			Parent: c.boneNodeMap[m.Parent],','			Parent: len(c.bones),'))
bug('f12-clusteruid','C15',(X,'bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)','if weights[i] >= 0.01 {\n				bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)\n			}'))
bug('f13-uid','C15',(X,'				o.UID = len(dst.Objects)\n','				o.UID = obj.UID + 1\n'))
bug('f14-unique','C15',(X,'				o.Name = c.uniqueName(o.Name)\n',''))
bug('f15-coord','C15',(X,'transform := c.coordMat.Mul(c.src.Scene.GetMatrix())','transform := c.src.Scene.GetMatrix().Mul(c.coordMat)'))
bug('f16-opacity','C15',(X,'opacity := m.GetFactor("Opacity", 1)','opacity := 1 - m.GetFactor("TransparencyFactor", 0)'))
bug('f17-target','C15',(X,'			c.convertModel(m, c.ObjectDepth, transform)\n		}\n		return','			c.convertModel(m, c.ObjectDepth, transform.Mul(m.Parent.GetWorldMatrix()))\n		}\n		return'))
bug('f18-spec','C15',(X,'.Scale(m.GetFactor("SpecularFactor", 0)).X','.Scale(m.GetFactor("SpecularFactor", 0)).Y'))
bug('f19-deformertwice','C15',(X,'		if _, exists := c.boneNodeMap[m]; exists {\n			break\n		}','		if c.boneNodeMap[m] > 1 {\n			break\n		}'))
bug('f20-disablebone','C15',(X,'			if !c.DisableBone {','			if !c.DisableBone && !c.DisableBlendShape {'))
