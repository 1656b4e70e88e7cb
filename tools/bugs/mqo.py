W='mqo/mqo_writer.go';P='mqo/mqo_parser.go';B='mqo/bone_plugin.go';Q='mqo/mqo.go';U='mqo/utils.go';MO='mqo/morph_plugin.go';PH='mqo/physics_plugin.go'
bug('m01-emissioncol0','C01',(W,'if mat.EmissionColor != nil {','if mat.EmissionColor != nil && mat.EmissionColor.LenSqr() > 0 {'))
bug('m02-frontclip-prec','C01',(W,'"\\tfrontclip %v\\n"','"\\tfrontclip %.2f\\n"'))
bug('m03-uv-prec','C01',(W,'fmt.Fprintf(w, "%v %v", uv.X, uv.Y)','fmt.Fprintf(w, "%.3f %.3f", uv.X, uv.Y)'))
bug('m04-vert-exp','C01',(W,'fmt.Fprintf(w, "\\t\\t%v %v %v\\n", v.X, v.Y, v.Z)','fmt.Fprintf(w, "\\t\\t%f %f %f\\n", v.X, v.Y, v.Z)'))
bug('m05-segment','C01',(W,'if obj.Patch > 0 {','if obj.Patch > 1 {'))
bug('m06-faceuid','C01',(W,'if f.UID > 0 {','if f.UID > 1 {'))
bug('m07-mirrordis','C01',(W,'if obj.Mirror != 0 || obj.MirrorDis != 0 {','if obj.Mirror != 0 {'))
bug('m08-negexp','C01',(P,'''	if p.s.TokenText() == "-" {
		tok = p.s.Scan()
		s = -1
	}
	if tok != scanner.Int && tok != scanner.Float {
		return 0
	}''','''	if p.s.TokenText() == "-" {
		tok = p.s.Scan()
		s = -1
	}
	if tok == scanner.Int && s < 0 {
		n, _ := strconv.ParseInt(p.s.TokenText(), 10, 16)
		return -float32(n)
	}
	if tok != scanner.Int && tok != scanner.Float {
		return 0
	}'''))
bug('m09-colorparam','C01',(P,'return n, []float32{p.readFloat(), p.readFloat(), p.readFloat(), p.readFloat()}','r, g, b, a := p.readFloat(), p.readFloat(), p.readFloat(), p.readFloat()\n\t\t\tif a == 0 {\n\t\t\t\ta = 1\n\t\t\t}\n\t\t\treturn n, []float32{r, g, b, a}'))
bug('m10-ex2-lookup','C01',(P,'if mid >= 0 && mid < len(doc.Materials) {','if mid > 0 && mid < len(doc.Materials) || mid == 0 && len(doc.Materials) == 1 {'))
bug('m11-normals-flag','C01 C27',(P,'if flag&2 != 0 {','if flag == 2 || flag == 3 && i > 0 {'))
bug('m12-mqoz-first','C01 C02',(W,'''	mqow, err := zw.Create(name + ".mqo")
''','''	mqow, err := zw.Create(strings.ToLower(name) + ".mqo")
'''))
bug('m13-mqx-name','C02',(W,'mqxFile = filepath.Base(path[0:len(path)-len(filepath.Ext(path))] + ".mqx")','mqxFile = strings.SplitN(filepath.Base(path), ".", 2)[0] + ".mqx"'),)
bug('m14-weight-cache','C02 C23',(B,'''			if bw.ObjectID == objectID {
				w = bw
			}''','''			if bw.ObjectID == objectID && len(bw.Vertexes) > 0 {
				w = bw
			}'''))
bug('m15-preser-obj-accum','C02',(B,'	p.Obj = nil\n	for i','	if len(p.Obj) > len(mqo.Objects) {\n		p.Obj = nil\n	}\n	for i'))
bug('m16-phys-omit','C02 C27',(PH,'Body1 int    `xml:"body1,attr,omitempty"`\n	Body2 int    `xml:"body2,attr,omitempty"`','Body1 int    `xml:"body1,attr,omitempty"`\n	Body2 int    `xml:"body1,omitempty"`'))
bug('m17-boneattr-prec','C02',(B,'value := fmt.Sprintf("%v,%v,%v", v.X, v.Y, v.Z)','value := fmt.Sprintf("%.4f,%.4f,%.4f", v.X, v.Y, v.Z)'))
bug('m18-boneattr-parse','C02',(B,'fmt.Sscanf(attr.Value, "%f,%f,%f", &v.X, &v.Y, &v.Z)','fmt.Sscanf(attr.Value, "%f,%f,%f", &v.X, &v.Y, &v.Z)\n	if math.Abs(float64(v.X)) < 1e-4 {\n		v.X = 0\n	}'))
bug('m19-hide','C02 C27',(B,'Hide     int          `xml:"hide,attr,omitempty"`','Hide     int          `xml:"hide,omitempty"`'))
bug('m20-reader-plugins','C02',('mqo/mqx_reader.go' if os.path.exists(R+'/mqo/mqx_reader.go') else 'mqo/mqx_parser.go','if data.MorphPlugin != nil {','if data.MorphPlugin != nil && (data.BonePlugin != nil || len(data.MorphPlugin.Morphs()) > 1) {'))
bug('m21-vuid','C02 C01 C23',(Q,'	if len(o.Vertexes) >= uid {\n','	if len(o.VertexByUID) == 0 && len(o.Vertexes) >= uid {\n'))
bug('m22-vuid-writer','C02 C01',(W,'							uid += len(uids)','							uid++'))
bug('m23-fixid','C23 C02',(Q,'''			for used[next] {
				next++
			}
			obj.UID = next
			used[next] = true''','''			for used[next] {
				next++
			}
			obj.UID = next
			next++'''))
bug('m24-fixid2','C23 C02',(Q,'		if obj.UID == 0 && !used[i+1] {\n			obj.UID = i + 1\n			used[obj.UID] = true','		if obj.UID == 0 && !used[i+1] {\n			obj.UID = i + 1'))
bug('m25-world','C23 C11',(Q,'for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {','for len(dd) > 1 && dd[len(dd)-1] >= o.Depth && len(dd) > o.Depth {'))
bug('m26-fixnames','C23 C01',(Q,'			obj.Name = fmt.Sprintf("%s_%d", obj.Name, n)\n			allObjNames[obj.Name] = true','			obj.Name = fmt.Sprintf("%s_%d", obj.Name, n)'))
bug('m27-fixnames-mat','C23 C01',(Q,'			for allMatNames[fmt.Sprintf("%s_%d", mat.Name, n)] {','			for matNames[fmt.Sprintf("%s_%d", mat.Name, n)] {'))
bug('m28-flip-uv','C23',(Q,'for i, j := 0, len(f.UVs)-1; i < j; i, j = i+1, j-1 {','for i, j := 0, len(f.Verts)-1; i < j && j < len(f.UVs)-1; i, j = i+1, j-1 {'))
bug('m29-clone-color','C23',(Q,'	cp.Color = cloneVec(o.Color)\n',''))
bug('m30-clone-extra','C23',(Q,'		for _, n := range v.Normals {\n			d.Normals = append(d.Normals, cloneVec(n))\n		}','		d.Normals = append(d.Normals, v.Normals...)'))
bug('m31-transform-normal','C23',(U,'normalTransform := rsmat.Inverse().Transposed()','normalTransform := rsmat'))
bug('m32-transform-root','C23',(U,'if i == 0 || o.Depth <= rootDepth {','if i == 0 || o.Depth == rootDepth {'))
bug('m33-internal','C23 C15',(U,'o.InternalTransform = transform.Mul(o.InternalTransform)','o.InternalTransform = o.InternalTransform.Mul(transform)'))
bug('m34-smooth','C23 C11 C14',(U,'for i := 2; i < len(face.Verts); i++ {\n			v0','for i := 2; i < 3 && i < len(face.Verts); i++ {\n			v0'))
bug('m35-smooth-degenerate','C23 C11 C14',(U,'(i+len(face.Verts)-1)%len(face.Verts)','(i+len(face.Verts)-1)%4%len(face.Verts)'))
bug('m36-fixnormals-alias','C23 C11',(U,'				n := normals[v]\n				f.Normals[i] = &n','				f.Normals[i] = &normals[v]'))
bug('m37-triangulate-uid','C23 C14 C11',(U,'if len(f.Verts) == 3 {\n			faces','if len(f.Verts) <= 3 && len(f.Verts) > 1 {\n			faces'))
bug('m38-morph-material','C23 C24',(MO,'t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))','t.Color = *t.Color.Add(m.Color.Sub(&t.Color).Scale(value * value))'))
bug('m39-morph-first','C23 C24',(MO,'updated = m.Apply(doc, i, float32(value)) || updated','updated = updated || m.Apply(doc, i, float32(value))'))
bug('m40-morph-others','C23 C24',(MO,'		if i == target {\n			o = bobj\n		}','		if i == target {\n			o = bobj\n		} else if t.Name == m.Base {\n			continue\n		} else if i > target+1 {\n			continue\n		}'))
bug('m41-phys-size','C23',(PH,'geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Z)','geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Y)'))
bug('m42-phys-first','C23',(PH,'	for _, c := range p.Constraints {\n		pos','	for _, c := range p.Constraints[:len(p.Constraints)-len(p.Constraints)/3] {\n		pos'))
bug('m43-bonetrans-morph','C23 C24',(B,'objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)','objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)\n			if len(objectIDs) > 2 {\n				objectIDs = objectIDs[1:]\n			}'))
bug('m44-bonetrans-weight','C23 C24',(B,'verts[obj.Vertexes[vi]] += w','verts[obj.Vertexes[vi]] = w'))
bug('m45-bonetrans-parent','C23 C24',(B,'if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {','if b.Parent > 0 && b.Parent < b.ID && targetBones[boneByID[b.Parent]] && !targetBones[b] {'))
bug('m46-tpose','C24 C23',(B,'if math.Abs(bd) < math.Pi/2 {','if bd < math.Pi/2 {'))
bug('m47-eof','C08',(P,'	if !eof {\n','	if !eof && len(doc.Objects) == 0 {\n'))
bug('m48-mqxerr','C08',(P,'			if err != nil {\n				return &doc, fmt.Errorf("Failed to read %s: %w", mqxFile, err)\n			}','			if err != nil && len(mqx.Plugins) == 0 {\n				return &doc, fmt.Errorf("Failed to read %s: %w", mqxFile, err)\n			}'))
bug('m49-count','C08',(P,'o.Vertexes = []*Vector3{}\n			}, func','o.Vertexes = make([]*Vector3, 0, n)\n			}, func'))
bug('m50-codepage-chunk','C07',(P,'n, _ := io.ReadFull(p.r, buf)','n, _ := p.r.Read(buf)'))
bug('m51-mqoz-close','C09',(W,'	return zw.Close()\n','	zw.Close()\n	return nil\n'))
bug('m52-mqx-err','C09',(W,'''		err = WriteMQX(mqo, w, filepath.Base(writer.path))
		if cerr := w.Close(); err == nil {
			err = cerr
		}
		return err''','''		defer w.Close()
		return WriteMQX(mqo, w, filepath.Base(writer.path))'''))
bug('m53-scene-flush','C09',(W,'	w.WriteString("Eof\\n")\n	if err := w.Flush(); err != nil {\n		return err\n	}','	if err := w.Flush(); err != nil {\n		return err\n	}\n	io.WriteString(ww, "Eof\\n")'))
bug('m54-backslash','C01 C07 C24',(P,'	if n < len(src) {\n		err = transform.ErrShortDst\n	}\n','	if n < len(src) && !atEOF {\n		err = transform.ErrShortDst\n	}\n'))
bug('m55-sjis','C01 C07 C24 C08',(P,'`CodePage\\s+utf8`','`CodePage\\s+\\w+`'))
bug('m56-crs','C01 C24',(P,'						p.repeat(vn, func(i int) { p.readFloat() })','						p.repeat(3, func(i int) { p.readFloat() })'))
bug('m57-thumb','C01 C24',(P,'			p.skipN(5)\n			p.skip("{")\n			p.skipBlock()','			p.skipN(4)\n			p.skip("{")\n			p.skipBlock()'))
bug('m58-ident-dot','C01',(P,'		if t == "." {','		for t == "." {'))
bug('m59-ambient','C01',(W,'if scene.AmbientLight != nil {','if scene.AmbientLight != nil && *scene.AmbientLight != (Vector3{X: 1, Y: 1, Z: 1}) {'))
bug('m60-alphamode','C23 C24',(Q,'		m.Ex2.ShaderParams["Metallic"] = float64(m.Specular)','		m.Ex2.ShaderParams["Metallic"] = float64(m.Diffuse)'))
