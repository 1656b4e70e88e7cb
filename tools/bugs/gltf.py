F='converter/mqo2gltf.go'
bug('x01-reload','C11 C10',(F,'	m.Buffers[0].ByteLength = uint32(len(m.Buffers[0].Data)) // avoid AddImage bug\n',''))
bug('x02-rect','C11',(F,'Y: int(float32(b.Dy()) * rect.top)','Y: int(float32(b.Dx()) * rect.top)'))
bug('x03-wrap','C11',(F,'	if max-base > 1 {','	if max-min > 1 {'))
bug('x04-rectadd','C11',(F,'	if r.bottom > b.bottom {\n		b.bottom = r.bottom\n	}','	if r.bottom > b.bottom && r.top < b.bottom {\n		b.bottom = r.bottom\n	}'))
bug('x05-emis','C11',(F,'geom.Max(geom.Max(mm.EmissiveFactor[0], mm.EmissiveFactor[1]), mm.EmissiveFactor[2])','geom.Max(mm.EmissiveFactor[0], mm.EmissiveFactor[1])'))
bug('x06-alpha99','C11',(F,'mat.Color.W < 0.99','mat.Color.W < 0.9'))
bug('x07-texcache','C11',(F,'	t := textures.get(texture)\n	if t.id','	t := textures.get(filepath.Base(texture))\n	if t.id'))
bug('x08-threshold','C11',(F,'if stat.Size() > m.TextureBytesThreshold {\n			encode = true','if stat.Size() > m.TextureBytesThreshold {\n			encode = ext != ".png"'))
bug('x09-limit','C11',(F,'sz := int(float32(rect.Dx()) * scale)','sz := int(float32(rect.Dx()))'))
bug('x10-bump','C11',(F,'mm.NormalTexture = &gltf.NormalTexture{Index: &t.Index}','mm.NormalTexture = &gltf.NormalTexture{Index: &mm.PBRMetallicRoughness.BaseColorTexture.Index}'))
bug('x11-uvonly','C11',(F,'if len(f.UVs) > 0 && f.UVs[i].Sub(','if len(f.UVs) > 0 && useTexcood0 && len(assigned) > 1 && f.UVs[i].Sub('))
bug('x12-normaldup','C11 C12',(F,'	useNormal := obj.Shading > 0 && !m.ForceUnlit','	useNormal := obj.Shading == 1 && !m.ForceUnlit'))
bug('x13-jointdup','C12',(F,'					joints0 = append(joints0, joints0[index])\n					weights0 = append(weights0, weights0[index])','					joints0 = append(joints0, joints0[i])\n					weights0 = append(weights0, weights0[i])'))
bug('x14-weightmin','C12',(F,'						if w < minWeight {\n							minWeight = w\n							jindex = i\n						}','						if w < minWeight {\n							jindex = i\n						}'))
bug('x15-jointids','C12',(F,'len(jointIds) == 0 || jointIds[len(jointIds)-1] != jointId','len(jointIds) == 0 || jointIds[len(jointIds)-1] < jointId'))
bug('x16-jointorder','C12',(F,'if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {','if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil && idmap[b.Parent] < idmap[b.ID] {'))
bug('x17-morphsrc','C12',(F,'		for _, i := range srcIndices {\n			v := morphObj.Vertexes[i]\n','		for vi, i := range srcIndices {\n			v := morphObj.Vertexes[i]\n			if vi >= 65535 {\n				v = obj.Vertexes[i]\n			}\n'))
bug('x18-morphempty','C12',(F,'len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {','len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) || len(objectByName[t.Name].Faces) == 0 {'))
bug('x19-morphbase','C12',(F,'morphBases[m.Base] = append(morphBases[m.Base], m.Target...)','morphBases[m.Base] = m.Target'))
bug('x20-hiddentarget','C11 C12',(F,'morphTargets[t.Name] = objectByName[t.Name]','if o := objectByName[t.Name]; o != nil && !o.Visible {\n				morphTargets[t.Name] = o\n			}'))
bug('x21-parentdepth','C11',(F,'		for len(objectPath) > 0 && objectPath[len(objectPath)-1].Depth >= obj.Depth {\n			objectPath = objectPath[:len(objectPath)-1]\n		}','		if len(objectPath) > obj.Depth {\n			objectPath = objectPath[:obj.Depth]\n		}'))
bug('x22-matused','C11 C10',(F,'			if obj.Visible {\n				m.checkMaterials(obj, materialUsed)\n			}','			m.checkMaterials(obj, materialUsed)'))
bug('x23-ignore','C11',(F,'!strings.HasSuffix(mat.Name, "$IGNORE")','!strings.HasPrefix(mat.Name, "$IGNORE")'))
bug('x24-ignore2','C11',(F,'!strings.HasSuffix(mat.Name, "$IGNORE")','!strings.Contains(mat.Name, "$IGNORE")'))
bug('x25-phys','C11',(F,'if b.TargetObjID != 0 && b.TargetObjID == obj.UID {','if b.TargetObjID != 0 && b.TargetBoneID == 0 && b.TargetObjID == obj.UID {'))
bug('x26-physnodepos','C11',(F,'addPhysicsBody(m.Nodes[n], b, m.Scale, &jointToBone[n].Pos.Vector3)','pos := geom.NewVector3FromArray(m.Nodes[n].Translation).Scale(1 / m.Scale)\n					addPhysicsBody(m.Nodes[n], b, m.Scale, pos)'))
bug('x27-shared-compat','C11 C10',(F,'return c.vertexCount == vertexCount && hasTexcoord == texcoord && hasNormal == normal && reflect.DeepEqual(c.indexData, indexData)','return c.vertexCount == vertexCount && hasTexcoord == texcoord && hasNormal == normal && len(c.indexData) == len(indexData)'))
bug('x28-shared-skin','C12 C10',(F,'if partial || len(joints) > 0 || len(morphObjs) > 0 || len(materials) == 0 {','if partial || len(joints) > 0 && len(morphObjs) > 0 || len(materials) == 0 {'))
bug('x29-cutoff','C11',(F,'cutoff := float32(mat.Ex2.FloatParam("AlphaCutOff"))','cutoff := float32(mat.Ex2.FloatParam("AlphaCutoff"))'))
bug('x30-sheen','C11',(F,'mat.Ex2.Mapping("SheenRoughness")','mat.Ex2.Mapping("SheenColor")'))
bug('x31-vol','C11',(F,'if v := mat.Ex2.FloatParam("Extensions.AttenuationDistance"); v != 0 {','if v := mat.Ex2.FloatParam("Extensions.AttenuationDistance"); v > 1 {'))
bug('x32-ext-used','C10',(F,'		m.extensions[name] = true\n','		m.extensions[name] = len(mm.Extensions) == 1\n'),(F,'	for ext := range m.extensions {\n		m.ExtensionsUsed','	for ext, ok := range m.extensions {\n		if !ok {\n			continue\n		}\n		m.ExtensionsUsed'))
bug('x33-skin-noface','C10 C12',(F,'if len(joints) > 0 && node.Mesh != nil {','if len(joints) > 0 {'))
bug('x34-ibm','C12 C10',(F,'{-b.Pos.X * scale, -b.Pos.Y * scale, -b.Pos.Z * scale, 1},','{-b.Pos.X * scale, -b.Pos.Y * scale, -b.Pos.Z * 0.001, 1},'))
bug('x35-objscale','C11',(F,'"offsetScale": [3]float32{s.Size.X * scale, s.Size.Y * scale, s.Size.Z * scale},','"offsetScale": [3]float32{s.Size.X * scale, s.Size.Y * scale, s.Size.X * scale},'))
bug('x36-morphtype','C10 C12',(F,'		if normal, ok := attributes["NORMAL"]; ok {','		if normal, ok := attributes["TEXCOORD_0"]; ok {'))
bug('x37-jpgalpha','C11',(F,'strings.HasSuffix(texture, ".jpg") || strings.HasSuffix(texture, ".bmp")','strings.HasSuffix(texture, "g")'))
bug('x38-imgerr','C11',(F,'	if t.img != nil || t.err != nil {\n		return t.img, t.err','	if t.img != nil || t.err != nil || t.id != nil {\n		return t.img, t.err'))
bug('x39-hidden-hier','C11',(F,'		if node.MatrixOrDefault() == gltf.DefaultMatrix {\n			parentNodes[obj] = node','		if node.MatrixOrDefault() == gltf.DefaultMatrix && (obj.Visible || len(obj.Faces) == 0) {\n			parentNodes[obj] = node'))
bug('x40-light','C11 C10',(F,'if lightNode != node && obj.InternalTransform != nil && shared == nil {','if lightNode != node && obj.InternalTransform != nil {'))
bug('x41-weightnorm','C12 C10',(F,'		if sum > 0 {\n			for i := range','		if sum > 1 {\n			for i := range'))
bug('x42-uid','C12',(F,'	doc.FixObjectID()\n	var targetObjects','	var targetObjects'),)
bug('x43-vcount','C10 C11',(F,'	for _, obj := range doc.Objects {\n		objectByName[obj.Name] = obj\n	}\n\n	morphs','	for _, obj := range doc.Objects {\n		if objectByName[obj.Name] == nil {\n			objectByName[obj.Name] = obj\n		}\n	}\n\n	morphs'))
bug('x44-transp','C11',(F,'ext["transmissionFactor"] = v','ext["transmissionFactor"] = float32(1)'))
bug('x45-metal0','C11',(F,'mat.Ex2.BoolParam("Extensions.Unlit") || metallicFactor == 0 && roughnessFactor == 1','mat.Ex2.BoolParam("Extensions.Unlit") || metallicFactor == 0 || roughnessFactor == 1'))
