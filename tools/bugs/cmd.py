M='cmd/modelconv/main.go'; U='cmd/modelconv/utils.go'
c='C24'
bug('c01-glbsrc',c,(M,'gltfutil.ToSingleFile(doc, srcDir)','gltfutil.ToSingleFile(doc, ".")'))
bug('c02-bin',c,(M,'b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)','if b.URI == "" {\n				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)\n			}'))
bug('c03-bin2',c,(M,'"%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)','"%s.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)))'),(M,'for i, b := range doc.Buffers','for _, b := range doc.Buffers'))
bug('c04-vrmerr',c,(M,'			gltf.SaveBinary(doc, output) // for debug\n			return err','			log.Println(err)\n			return gltf.SaveBinary(doc, output) // for debug'))
bug('c05-inputs1',c,(M,'range inputs[1:]','range inputs[:0]'))
bug('c06-vmdcase',c,(M,'strings.ToLower(filepath.Ext(f)) == ".vmd"','filepath.Ext(f) == ".vmd"'))
bug('c07-vmderr',c,(M,'				ani, err := loadAnimation(f)\n				if err != nil {\n					return err\n				}','				ani, err := loadAnimation(f)\n				if err != nil {\n					log.Println(err)\n					continue\n				}'))
bug('c08-vmdfirst',c,(M,'				converter.AddAnimationTpGlb(gltfdoc, ani, conv.JointNodeToBone, true)\n','				converter.AddAnimationTpGlb(gltfdoc, ani, conv.JointNodeToBone, true)\n				break\n'))
bug('c09-mqoz',c,(M,'	} else if ext == ".mqoz" {\n		return mqo.SaveMQOZ(doc, output)','	} else if strings.HasSuffix(output, ".mqoz") {\n		return mqo.SaveMQOZ(doc, output)'))
bug('c10-extcase',c,(M,'			outputExt = strings.ToLower(filepath.Ext(output))','			outputExt = filepath.Ext(output)'))
bug('c11-inext',c,(M,'inputExt := strings.ToLower(filepath.Ext(input))','inputExt := filepath.Ext(input)'))
bug('c12-outname',c,(M,'output = input[0:len(input)-len(inputExt)] + outputExt','output = strings.Split(input, ".")[0] + outputExt'))
bug('c13-vrmconf',c,(M,'if outputExt == ".vrm" && *vrmconf == "" {','if outputExt == ".vrm" {'))
bug('c14-mmdpreset',c,(M,'			*vrmconf = "mmd" // preset','			*vrmconf = "mqo" // preset'))
bug('c15-tpose',c,(M,'*autoTpose = "右腕,左腕"','*autoTpose = "右腕"'))
bug('c16-scale80',c,(M,'	if *scale == 0 {\n		if isMMD(inputExt) {','	if *scale == 0 {\n		if inputExt == ".pmx" {'))
bug('c17-scalexyz',c,(M,'Z: float32(*scale * *scaleZ)','Z: float32(*scale * *scaleX)'))
bug('c18-scalenil',c,(M,'scaleVec.X == 1 && scaleVec.Y == 1 && scaleVec.Z == 1','scaleVec.X == 1 && scaleVec.Y == 1'))
bug('c19-rot',c,(M,'		scaleVec.X *= -1\n		scaleVec.Z *= -1','		scaleVec.X *= -1\n		scaleVec.Y *= -1'))
bug('c20-gltfscale',c,(M,'		if scaleVec != nil {\n			gltfutil.Apply','		if scaleVec != nil && outputExt != ".vrm" {\n			gltfutil.Apply'))
bug('c21-fatal',c,(M,'		err = saveGltfDocument(doc, output, outputExt, filepath.Dir(input), *vrmconf)\n		if err != nil {\n			log.Fatal(err)','		err = saveGltfDocument(doc, output, outputExt, filepath.Dir(input), *vrmconf)\n		if err != nil {\n			log.Println(err)'))
bug('c22-fbxfatal',c,(M,'		err = fbx.Save(doc, output) // Save ASCII file\n		if err != nil {\n			log.Fatal(err)','		err = fbx.Save(doc, output) // Save ASCII file\n		if err != nil {\n			log.Print(err)'))
bug('c23-matchesc',c,(M,'if m, _ := path.Match(strings.ReplaceAll(pattern, "/", "\\x00"), escaped); m || pattern == name','if m, _ := path.Match(pattern, name); m || pattern == name'))
bug('c24-matchexact',c,(M,'m || pattern == name {','m {'))
bug('c25-chsplit',c,(M,'				b.Parent = parent.ID\n','				b.Parent = parent.ID\n				break\n'))
bug('c26-unknown',c,(M,'				if !ok {\n					log.Fatal("unknown parent bone: ", n)\n				}','				if !ok {\n					parent = &mqo.Bone{}\n				}'))
bug('c27-circ',c,(M,'depth > len(boneByID) {','depth > len(boneByID)+10000000000 {'))
bug('c28-hide',c,(M,'doc.Objects[i].Depth > d; i++','doc.Objects[i].Depth == d+1; i++'))
bug('c29-hidepre',c,(M,'				obj.Visible = false\n				d := obj.Depth','				if !obj.Visible {\n					continue\n				}\n				obj.Visible = false\n				d := obj.Depth'))
bug('c30-hidemat',c,(M,'			if match(patterns, mat.Name) {\n				mat.Name += "$IGNORE"\n				mat.Color.W = 0\n			}','			if match(patterns, mat.Name) {\n				mat.Name += "$IGNORE"\n				mat.Color.W = 0\n				break\n			}'))
bug('c31-morph',c,(M,'strings.SplitN(p, ":", 2)\n			if len(pattern) != 2 {\n				log','strings.Split(p, ":")\n			if len(pattern) < 2 {\n				log'))
bug('c32-morpherr',c,(M,'			if err != nil {\n				log.Fatal("invalid morph param:", p)\n			}\n			morph','			if err != nil {\n				log.Print("invalid morph param:", p)\n			}\n			morph'))
bug('c33-opaque',c,(M,'						mat.SetGltfAlphaMode(mqo.AlphaModeOpaque)\n						mat.Color.W = 1','						mat.SetGltfAlphaMode(mqo.AlphaModeOpaque)'))
bug('c34-mask',c,(M,'mat.SetGltfAlphaMode(mqo.AlphaModeMask)','mat.SetGltfAlphaMode(mqo.AlphaModeBlend)'))
bug('c35-alphanum',c,(M,'						if mat.GetShaderName() == "glTF" {\n							mat.SetGltfAlphaMode(mqo.AlphaModeBlend)\n						}\n',''))
bug('c36-alphabad',c,(M,'log.Fatal("invalid alpha:", p)','log.Print("invalid alpha:", p)'))
bug('c37-alpha0',c,(M,'pattern[1] == "0" {\n						mat.Name += "$IGNORE"','pattern[1] == "0" {'))
bug('c38-unlit',c,(M,'mat.Shader = 1 // Constant shader\n				mat.Ex2 = nil','mat.Shader = 1 // Constant shader'))
bug('c39-unlitg',c,(M,'mat.Ex2.ShaderParams["Extensions.Unlit"] = true // keep alpha mode\n					continue','mat.Ex2.ShaderParams["Extensions.Unlit"] = true // keep alpha mode\n					break'))
bug('c40-basedir',c,(M,'		input, _ = splitUnityPath(input)\n','		_, _ = splitUnityPath(input)\n'))
bug('c41-savefatal',c,(M,'flag.Args()[0:inputN]); err != nil {\n		log.Fatal(err)','flag.Args()[0:inputN]); err != nil {\n		log.Println(err)'))
bug('c42-inputn',c,(M,'	inputN := flag.NArg() - 1\n	if inputN < 1 {','	inputN := flag.NArg() - 1\n	if inputN < 1 || inputN > 3 {'))
bug('c43-phys',c,(M,'ConvertPhysics:         *convertPhysics,\n',''))
bug('c44-light',c,(M,'ExportLights:           *gltfExportLight','ExportLights:           *gltfExportLight && ext != ".gltf"'))
bug('c45-ignoreh',c,(M,'IgnoreObjectHierarchy:  *gltfIgnoreHierarchy','IgnoreObjectHierarchy:  *gltfIgnoreHierarchy && !*reuseGeometry'))
bug('c46-allmorph',c,(M,'		if *vrmExportAllMorph {\n			conf.ExportAllMorph = true\n		}\n',''))
bug('c47-resize',c,(M,'TextureScale:           float32(*texResizeScale),\n',''))
bug('c48-tpose2',c,(M,'				*reuseGeometry = false\n				doc.BoneAdjustX(b)','				*reuseGeometry = false\n				doc.BoneAdjustX(b)\n				break'))
bug('c49-split',c,(U,'strings.SplitN(input, "#", 2); len(names) == 2','strings.Split(input, "#"); len(names) == 2'))
bug('c50-assets',c,(U,'		return input[:6], input','		return input[:6], input[7:]'))
bug('c51-assets2',c,(U,'p := strings.Index(slash, "/Assets/"); p >= 0','p := strings.Index(slash, "/Assets/"); p > 0'))
bug('c52-pkgcase',c,(U,'		if strings.ToLower(filepath.Ext(source)) == ".unitypackage" {','		if filepath.Ext(source) == ".unitypackage" {'))
bug('c53-close',c,(U,'		defer assets.Close()\n',''))
bug('c54-known',c,(U,'knownBoneNames = append(knownBoneNames, b.NodeNames...)','knownBoneNames = b.NodeNames'))
bug('c55-thresh',c,(U,'			InheritParentThreshold: float32(*mmdFixInheritParentThreshold),\n',''))
bug('c56-unityphys',c,(U,'ConvertPhysics: *convertPhysics, SaveTexrure','SaveTexrure'))
bug('c57-default',c,(M,'	if isMQO(inputExt) {\n		return ".glb"','	if inputExt == ".mqo" {\n		return ".glb"'))
bug('c58-vrmnoconf',c,(M,'			conf = &converter.Config{}','			return gltf.SaveBinary(doc, output)'))
bug('c59-rotbones',c,(M,'				b.RotationOffset.Y = math.Pi','				b.RotationOffset.X = math.Pi'))
bug('c60-hidesplit',c,(M,'		patterns := strings.Split(*hides, ",")','		patterns := strings.SplitN(*hides, ",", 2)'))
