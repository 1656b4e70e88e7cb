F='converter/vrmconfig.go'
bug('v01-merge','C18',(F,'group.ColliderGroups = append(group.ColliderGroups, i+len(c.ColliderGroups))','group.ColliderGroups = append(group.ColliderGroups, i+len(c.AnimationBoneGroups))'))
bug('v02-mergemat','C18',(F,'		if _, exist := c.MaterialSettings[name]; !exist {\n','		if s, exist := c.MaterialSettings[name]; !exist || *s == (MaterialSetting{}) {\n'))
bug('v03-foundneg','C18',(F,'ok && node >= 0 {','ok {'))
bug('v04-default','C18',(F,'b.UseDefaultValues = b.UseDefaultValues || b.Min == nil && b.Max == nil && b.Center == nil','b.UseDefaultValues = b.UseDefaultValues || b.Min == nil'))
bug('v05-nodename','C18',(F,'mapping.NodeNames = append(mapping.NodeNames, mapping.NodeName)','mapping.NodeNames = append([]string{mapping.NodeName}, mapping.NodeNames...)'))
bug('v06-star','C18',(F,'			if setting == nil {\n				setting = conf.MaterialSettings["*"]\n			}','			if all := conf.MaterialSettings["*"]; all != nil {\n				setting = all\n			}'))
bug('v07-unlit','C18',(F,'mat.Extensions = map[string]interface{}{unlitMaterialExt: map[string]string{}}','if mat.Extensions == nil {\n					mat.Extensions = map[string]interface{}{unlitMaterialExt: map[string]string{}}\n				}'))
bug('v08-alpha','C18',(F,'mat.PBRMetallicRoughness.BaseColorFactor[3] = setting.Alpha','mat.PBRMetallicRoughness.BaseColorFactor[3] *= setting.Alpha'))
bug('v09-collider','C18',(F,'			if index, ok := colliderIndex[i]; ok {\n				b.ColliderGroups = append(b.ColliderGroups, index)\n			}','			if _, ok := colliderIndex[i]; ok {\n				b.ColliderGroups = append(b.ColliderGroups, i)\n			}'))
bug('v10-spring','C18',(F,'				registerReursive(doc, uint32(n), springBones, nodeName)\n','				springBones[uint32(n)] = nodeName\n'))
bug('v11-find','C18',(F,'				if name, ok := findReursive(doc, uint32(n), springBones); ok {','				if name, ok := springBones[uint32(n)]; ok {'))
bug('v12-targets','C18',(F,'			targets[name] = append(targets[name], [2]int{mi, i})','			targets[name] = [][2]int{{mi, i}}'))
bug('v13-material-only','C18',(F,'if len(m.Binds) > 0 || len(m.MaterialValues) > 0 {','if len(m.Binds) > 0 {'))
bug('v14-targetindex','C18',(F,'index < len(mesh.Primitives[0].Targets)','index <= len(mesh.Primitives[0].Targets)'))
bug('v15-current','C18',(F,'			foundBones[bone.Bone] = bone.Node\n			ext.Humanoid.Bones = append(ext.Humanoid.Bones, bone)','			ext.Humanoid.Bones = append(ext.Humanoid.Bones, bone)'))
bug('v16-meta','C18',(F,'if conf.Metadata != (vrm.Metadata{}) {','if conf.Metadata.Title != "" {'))
bug('v17-matprops','C18',(F,'if len(ext.MaterialProperties) != len(doc.Materials) {','if len(ext.MaterialProperties) == 0 {'))
bug('v18-exportall','C18',(F,'if _, used := blendShapeMap[[2]int{mi, i}]; used {','if _, used := blendShapeMap[[2]int{0, i}]; used {'))
bug('v19-bindname','C18',(F,'				blendShapeMap[t] = mapping.Name\n','				if mapping.Name != "" && len(m.Binds) == 0 {\n					blendShapeMap[t] = mapping.Name\n				}\n'))
bug('v20-depth','C18',(F,'			if depth[result[i]] != depth[result[j]] {\n				return depth[result[i]] < depth[result[j]]\n			}\n			return result[i] < result[j]','			return result[i] < result[j]'))
bug('v21-meshbone','C18',(F,'				if doc.Nodes[id].Mesh != nil {\n					log.Printf("ERROR: %v is not bone node!", nodeName)\n					continue','				if doc.Nodes[id].Mesh != nil {\n					log.Printf("ERROR: %v is not bone node!", nodeName)\n					break'))
bug('v22-secondary','C18',(F,'		if len(b.Bones) > 0 {\n			if ext.SecondaryAnimation == nil {\n				ext','		if len(b.Bones) > 0 {\n			if ext.SecondaryAnimation == nil || len(ext.SecondaryAnimation.BoneGroups) == 0 && len(conf.ColliderGroups) == 0 {\n				ext'))
bug('v23-bonetwice','C18',(F,'				foundBones[mapping.Bone.Bone] = id\n','				if id > 0 {\n					foundBones[mapping.Bone.Bone] = id\n				}\n'))
bug('v24-interfacenames','C18 C25',(F,'	case []interface{}: // decoded from json\n		result := make([]string, len(names))\n		for i, name := range names {\n			result[i], _ = name.(string)\n		}\n		return result','	case []interface{}: // decoded from json\n		var result []string\n		for _, name := range names {\n			if s, _ := name.(string); s != "" {\n				result = append(result, s)\n			}\n		}\n		return result'))
bug('v25-springlen','C18 C24',(F,'		if d < 0 {\n			return -1\n		}','		if d < 0 {\n			continue\n		}'))
bug('v26-colliders','C18 C24',(F,'if s["shapeType"] == "SPHERE" || s["shapeType"] == "CAPSULE" {','if s["shapeType"] == "SPHERE" {'))
bug('v27-colliderstatic','C18 C24',(F,'		if !ok || !p.Static {\n			continue','		if !ok {\n			continue'))
bug('v28-required','C18',(F,'		if _, ok := foundBones[name]; ok {\n			continue\n		}\n		if id','		if node := foundBones[name]; node > 0 {\n			continue\n		}\n		if id'))
