F='converter/gltf2mqo.go';A='converter/glbanim.go';GU='gltfutil/gltf_utils.go';GJ='gltfutil/fix_joint.go' if os.path.exists(R+'/gltfutil/fix_joint.go') else [x for x in ('gltfutil/'+f for f in sorted(os.listdir(R+'/gltfutil'))) if 'FixJointComponentType' in open(R+'/'+x).read()][0]
V='mmd/vmd.go' 
bug('y01-offset','C16',(F,'			for i := offset; i < len(obj.Vertexes); i++ {\n				indices = append(indices, uint32(i-offset))','			for i := range obj.Vertexes {\n				indices = append(indices, uint32(i))'))
bug('y02-texcheck','C16',(F,'if len(texCoord) > int(indices[i*3]) {','if len(texCoord) > int(indices[i*3])+2 {'))
bug('y03-strip','C16',(F,'indices[i+1+i%2], indices[i+2-i%2])','indices[i+1], indices[i+2])'))
bug('y04-fan','C16',(F,'triangles = append(triangles, indices[0], indices[i], indices[i+1])','triangles = append(triangles, indices[i-1], indices[i], indices[i+1])'))
bug('y05-det','C16',(F,'				if transforms[i].Det() < 0 {','				if node.Scale[0]*node.Scale[1]*node.Scale[2] < 0 {'))
bug('y06-depth','C16',(F,'for depth := 0; ok && depth <= len(src.Nodes); depth++ {','for depth := 0; ok && depth <= 8; depth++ {'))
bug('y07-matdefault','C16',(F,'	if pbr == nil {\n		pbr = &gltf.PBRMetallicRoughness{} // default values\n	}','	if pbr == nil {\n		return mat\n	}'))
bug('y08-boneparent','C16',(F,'		bones = append(bones, b)\n		parent = b.ID','		bones = append(bones, b)\n		if len(n.Children) > 0 && boneNodes[n.Children[0]] {\n			parent = b.ID\n		}'))
bug('y09-skel','C16',(F,'		for _, joint := range skin.Joints {\n			boneNodes[joint] = true\n		}','		for _, joint := range skin.Joints {\n			if skin.Skeleton == nil {\n				boneNodes[joint] = true\n			}\n		}'))
bug('y10-shared','C16',(F,'			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh])','			if done[*node.Mesh] && node.Skin != nil {\n				continue\n			}\n			done[*node.Mesh] = true\n			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh])'),(F,'	transforms := worldTransforms(src)\n	for i, node','	transforms := worldTransforms(src)\n	done := map[uint32]bool{}\n	for i, node'))
bug('y11-cutoff','C16',(F,'"AlphaCutOff": m.AlphaCutoffOrDefault(),','"AlphaCutOff": float32(0.5),'))
bug('y12-trs-matrix','C16',(F,'geom.NewQuaternionFromArray(n.RotationOrDefault()),','geom.NewQuaternionFromArray(n.Rotation),'))
bug('y13-lines','C16',(F,'if p.Mode != gltf.PrimitiveTriangles && p.Mode != gltf.PrimitiveTriangleStrip && p.Mode != gltf.PrimitiveTriangleFan {\n			continue // points or lines','if p.Mode == gltf.PrimitivePoints || p.Mode == gltf.PrimitiveLines || p.Mode == gltf.PrimitiveLineLoop {\n			continue // points or lines'))
bug('y14-texsrc','C16',(F,'mat.Texture = src.Images[*src.Textures[i].Source].URI','mat.Texture = src.Images[i].URI'),(F,'int(*src.Textures[i].Source) < len(src.Images)','int(i) < len(src.Images)'))
bug('y15-keys','C25',(A,'	if len(a) != len(b) {\n		return false\n	}\n	for i := range a {\n		if a[i] != b[i] {','	if len(a) != len(b) {\n		return false\n	}\n	for i := range a[:1] {\n		if a[i] != b[i] {'))
bug('y16-max','C25',(A,'doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}','doc.Accessors[acc].Max = []float32{keys[0] + float32(len(keys)-1)/30}'))
bug('y17-sample','C25',(A,'return m.Weights[i-1] + (m.Weights[i]-m.Weights[i-1])*t','return m.Weights[i-1]*t + m.Weights[i]*(1-t)'))
bug('y18-samplelast','C25',(A,'	if i == len(m.Frames) {\n		return m.Weights[i-1]','	if i == len(m.Frames) {\n		return 0'))
bug('y19-scale','C25',(A,'r := [3]float32{s.X * scale, s.Y * scale, -s.Z * scale}','r := [3]float32{s.X * scale, s.Y * scale, s.Z * -0.1}'))
bug('y20-translate','C25',(A,'if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {','if s.X != 0 || s.Y != 0 {'))
bug('y21-rest','C25',(A,'			if translate {\n				log.Println("Translate','			if translate && len(translations) > 1 {\n				log.Println("Translate'))
bug('y22-node0','C25',(A,'if n, ok := boneToNode[channel.Target]; ok {','if n, ok := boneToNode[channel.Target]; ok && n > 0 {'))
bug('y23-weightsidx','C25',(A,'weights[i*len(names)+ti] = sampleMorph(m, f)','weights[ti*len(frames)+i] = sampleMorph(m, f)'))
bug('y24-frames','C25',(A,'keys = append(keys, float32(k)/30)','keys = append(keys, float32(k)*0.0333)'))
bug('y25-prev','C25',(A,'			prevCh = channel\n			prevKeysAcc = keysAcc','			if rotate {\n				prevCh = channel\n			}\n			prevKeysAcc = keysAcc'))
bug('y26-rotident','C25',(A,'if r != [4]float32{0, 0, 0, 1} {\n					rotate = true','if r[3] != 1 && r[3] != -1 {\n					rotate = true'))
bug('z01-removeext','C17',(GU,'		for _, p := range n.Primitives {\n			delete(p.Extensions, extension)\n		}\n','		if len(n.Primitives) == 1 {\n			delete(n.Primitives[0].Extensions, extension)\n		}\n'))
bug('z02-merge-align','C17',(GU,'		data = append(data, make([]byte, (4-len(data)%4)%4)...)\n',''))
bug('z03-merge-off','C17',(GU,'		offsets[i] = uint32(len(data))\n		data = append(data, b.Data...)','		offsets[i] = uint32(len(data))\n		data = append(data, b.Data[:b.ByteLength/4*4]...)'))
bug('z04-unescape','C17',(GU,'url.PathUnescape(m.URI)','url.QueryUnescape(m.URI)'))
bug('z05-mime','C17',(GU,'strings.HasSuffix(strings.ToLower(m.URI), ".png")','strings.HasSuffix(m.URI, ".png")'))
bug('z06-diff','C17',(GU,'				if a, ok := t["POSITION"]; ok {\n					accs[a] = true','				if a, ok := t["POSITION"]; ok && len(p.Targets) < 100 {\n					accs[a] = true'))
bug('z07-stride','C17',(GU,'err = binary.Write(buffer.Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)','err = binary.Write(buffer.Data[bufferView.ByteOffset+acr.ByteOffset:], 0, pos)'))
bug('z08-minmax','C17',(GU,'acr.Max = []float32{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}','acr.Max = []float32{math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat32}'))
bug('z09-animshared','C17',(GU,'			scaled[output] = true\n			pos','			scaled[output] = len(anim.Channels) > 1\n			pos'))
bug('z10-matrix','C17',(GU,'		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])\n','		if node.Mesh == nil {\n			scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])\n		}\n'))
bug('z11-ibm-off','C17',(GU,'offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64','offset := bufferView.ByteOffset + uint32(i)*64'))
bug('z12-reset-limit','C17',(GJ,'for i := 0; i <= len(doc.Nodes); i++ {','for i := 0; i < 8; i++ {'))
bug('z13-reset-ibm','C17',(GJ,'				data = data[bufferView.ByteOffset+accessor.ByteOffset:]','				data = data[bufferView.ByteOffset:]'))
bug('z14-reset-mul','C17',(GJ,'q := a.Mul(&b)','q := b.Mul(&a)'))
bug('z15-joint-off','C17',(GJ,'			accessor.ByteOffset = 0\n',''))
bug('z16-joint-first','C17',(GJ,'			attr, ok := primitiv.Attributes["JOINTS_0"]\n			if !ok ||','			attr, ok := primitiv.Attributes["JOINTS_0"]\n			if !ok || primitiv.Attributes["WEIGHTS_0"] < attr && len(mesh.Primitives) > 1 ||'))
bug('z17-abs','C17',(GU,'			if !filepath.IsAbs(path) {\n				path = filepath.Join(srcDir, path)','			if _, err := os.Stat(path); err != nil {\n				path = filepath.Join(srcDir, path)'))
bug('z18-camera','C17',(GJ,'|| node.Mesh != nil || node.Camera != nil {','|| node.Mesh != nil {'))
