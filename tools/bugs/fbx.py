T='fbx/text_parser.go'; B='fbx/binary_parser.go'; N='fbx/fbx_node.go'; D='fbx/fbx_document.go'; O='fbx/fbx_object.go'; M='fbx/fbx_model.go'; G='fbx/fbx_geometry.go'; X='fbx/fbx_material.go'
bug('b01-comment','C06',(T,'			p.line++\n			return EOL, ""\n		} else if c == \'{\'','			p.line++\n			continue\n		} else if c == \'{\''))
bug('b02-plus','C05 C06',(T," || c == '-' || c == '+') && p.err"," || c == '-') && p.err"))
bug('b03-E','C05 C06',(T,"c == 'e' || c == 'E' ||","c == 'e' ||"))
bug('b04-floattok','C05 C06',(T,'strings.ContainsAny(s, ".eE")','strings.ContainsAny(s, ".e")'))
bug('b05-floattok2','C05 C06',(T,'strings.ContainsAny(s, ".eE")','strings.Contains(s, ".")'))
bug('b06-quot','C05 C06',(T,'strings.ReplaceAll(string(buf), "&quot;", "\\"")','strings.Replace(string(buf), "&quot;", "\\"", 1)'))
bug('b07-int32','C05 C06',(T,'isInt32 = isInt32 && int64(i32values[i])','isInt32 = int64(i32values[i])'))
bug('b08-eol','C06',(T,'if typ == EOL && prev != Comma {','if typ == EOL {'))
bug('b09-parseint','C05 C06',(T,'''						v, err := strconv.ParseInt(s, 10, 64)
						if err != nil {
							p.errorf("failed to parse integer: '%v'", s)
						}
						node''','''						v, err := strconv.ParseInt(s, 0, 64)
						if err != nil {
							p.errorf("failed to parse integer: '%v'", s)
						}
						node'''))
bug('b10-f32','C05',(T,'dvalues[i], err = strconv.ParseFloat(s, 64)','dvalues[i], err = strconv.ParseFloat(s, 32)'))
bug('b11-ident','C05 C06',(T,"c >= '0' && c <= '9' || c == '-') && p.err == nil {\n				buf","c >= '0' && c <= '9') && p.err == nil {\n				buf"))
bug('b12-splitn','C06 C26',(T,'segments := strings.SplitN(s, "::", 2); len(segments) == 2','segments := strings.Split(s, "::"); len(segments) == 2'))
bug('b13-conn','C06 C26',(T,'[]string{"Objects", "Connections"}','[]string{"Objects"}'))
bug('b14-size','C05 C08',(T,'if len(tokens) != int(size) {','if len(tokens) < int(size) {'))
bug('b15-eofnum','C05 C06',(T,'''			if p.err == nil {
				p.buf = append(p.buf, c)
			}
			return Number''','''			p.buf = append(p.buf, c)
			return Number'''))
bug('b16-minus','C05 C06',(T,"c == '.' || c == '-' {","c == '-' {"))
bug('b20-v7500','C06',(B,'p.version >= 7500','p.version > 7500'))
bug('b21-skip','C06 C08',(B,'		_, err := s.Seek(offset, io.SeekCurrent)\n		r.position = pos','		_, err := s.Seek(offset, io.SeekCurrent)\n		r.position += offset - 1'))
bug('b22-zlib','C06',(B,'			p.err = p.r.SkipTo(next)\n		}\n	}\n	if p.err != nil {\n		return nil\n	}\n	var buf','			_ = next\n		}\n	}\n	if p.err != nil {\n		return nil\n	}\n	var buf'))
bug('b23-y','C06',(B,"'y': 2, 'i'","'y': 4, 'i'"))
bug('b24-uint','C06',(B,"	case 'C':\n		var v byte","	case 'C':\n		var v int8"))
bug('b25-nullchild','C06',(B,'		if child != nil {\n			n.AddChild(child)\n		}','		if child == nil {\n			break\n		}\n		n.AddChild(child)'))
bug('b26-nprop','C06',(B,'nprop > propsz/2','nprop > propsz/3'))
bug('b27-namelen','C06',(B,'return p.readString(uint(p.readUint8()))','return p.readString(uint(p.readUint8() & 0x7f))'))
bug('b28-noprops','C06',(B,'if p.err != nil || next == 0 {','if p.err != nil || next == 0 || nprop == 0 && n.Name == "" {'))
bug('b29-limit','C06',(B,'zlib.NewReader(io.LimitReader(p.r, int64(sz)))','zlib.NewReader(p.r)'))
bug('b30-count','C06',(B,'count := uint(p.readUint32())','count := uint(p.readUint16())'),(B,'	encoding := p.readUint32()','	p.readUint16()\n	encoding := p.readUint32()'))
bug('b31-propsz','C06',(B,'propsz = int64(p.readUint32())','propsz = int64(p.readUint16())\n		p.readUint16()'))
bug('b32-trunc','C08',(B,'		if p.err == io.EOF {\n			p.err = io.ErrUnexpectedEOF\n		}\n	}\n	return v','		if p.err == io.EOF {\n			p.err = nil\n		}\n	}\n	return v'))
bug('b40-quote','C05',(N,'strings.ReplaceAll(strings.Join(segments, "::"), "\\"", "&quot;")','strings.Replace(strings.Join(segments, "::"), "\\"", "&quot;", 1)'))
bug('b41-empty','C05',(N,'if len(n.Children) > 0 || len(n.Attributes) == 0 {','if len(n.Children) > 0 {'))
bug('b42-isarr','C05',(N,'		if p.isArray() {\n','		if p.isArray() && p.Len() > 0 {\n'))
bug('b43-full','C05',(N,'c.Dump(w, d+1, full)','c.Dump(w, d+1, full && d < 4)'))
bug('b44-b64','C05',(N,'base64.StdEncoding','base64.URLEncoding'))
bug('b45-comma','C05',(N,'		if i == 0 {\n			fmt.Fprint(w, " ", s)','		if i == 0 || s == "" {\n			fmt.Fprint(w, " ", s)'))
bug('b46-i64arr','C05 C06 C15 C26',(N,'	case []int64:\n		for _, v := range v {\n			r = append(r, float32(v))\n		}\n','	case []int16:\n		for _, v := range v {\n			r = append(r, float32(v))\n		}\n'))
bug('b47-vec3','C06 C15',(N,'i < len(farray)/3; i++','i+1 < (len(farray)+2)/3; i++'))
bug('b48-toint','C06 C26',(N,'	} else if v, ok := p.Value.(int16); ok {\n		return int64(v)','	} else if v, ok := p.Value.(uint16); ok {\n		return int64(v)'))
bug('b49-f64int','C06 C26 C15',(N,'	} else if v, ok := p.Value.(int64); ok {\n		return float64(v)\n	}\n	return defvalue','	}\n	return defvalue'))
bug('b50-legacyarr','C06 C15',(N,'			array = append(array, attr.ToFloat32(0))','			array = append(array, float32(int(attr.ToFloat32(0)*1e6))/1e6)'))
bug('b51-remove','C26 C05',(N,'n.Children = append(n.Children[:i], n.Children[i+1:]...)','n.Children = append(n.Children[:i:i], n.Children[i:]...)'))
bug('b60-newid','C26',(D,'	for doc.ObjectByID[doc.NextObjectID] != nil {\n		doc.NextObjectID++\n	}','	if doc.ObjectByID[doc.NextObjectID] != nil {\n		doc.NextObjectID++\n	}'))
bug('b61-existing','C26',(D,'if obj.ID() == 0 || existing != nil {','if obj.ID() == 0 {'))
bug('b62-mat','C26',(D,'	if mat, ok := obj.(*Material); ok {\n		doc.Materials','	if mat, ok := obj.(*Material); ok && existing == nil {\n		doc.Materials'))
bug('b63-op','C26 C06',(D,'NewNode("C", "OP", child.ID(), parent.ID(), prop)','NewNode("C", "OO", child.ID(), parent.ID(), prop)'))
bug('b64-template','C06 C15',(D,'base := &Obj{Node: node, Template: templates[node.Name]}','base := &Obj{Node: node, Template: templates["Model"]}'))
bug('b65-6100','C06 C15',(D,'objectByName := map[string]Object{"Scene\\x00\\x01Model": doc.Scene}','objectByName := map[string]Object{}'))
bug('b66-axis','C06 C15',(D,'mat[gs.GetProperty("FrontAxis").ToInt(2)*4+2]','mat[gs.GetProperty("FrontAxis").ToInt(1)*4+2]'))
bug('b67-sign','C06 C15',(D,'gs.GetProperty("UpAxisSign").ToFloat32(1)','gs.GetProperty("FrontAxisSign").ToFloat32(1)'))
bug('b68-3attrs','C06',(D,'(ctype == "OO" || ctype == "OP") && len(node.Attributes) >= 3','ctype == "OO" && len(node.Attributes) >= 3'))
bug('b69-propcache','C26',(O,'	if o.properties != nil {\n		o.properties[name] = prop\n	}','	if o.properties != nil && o.properties[name] == nil {\n		o.properties[name] = prop\n	}'))
bug('b70-setdup','C26',(O,'			node.Attributes = attrs\n			return prop','			node.Attributes = append(attrs[:0:0], attrs...)\n			break'))
bug('b71-newmodelmat','C26',(M,'	m.cachedMatrix = nil\n	return m.Obj.SetProperty','	return m.Obj.SetProperty'))
bug('b72-prop4','C06 C26',(O,'			if len(node.Attributes) > 4 {\n				values = node.Attributes[4:]','			if len(node.Attributes) > 4 {\n				values = node.Attributes[4:min(len(node.Attributes), 7)]'))
bug('b73-replace','C26',(O,'			o.Children[i] = node\n			return false','			o.Children[i].Children = append(o.Children[i].Children[:0], node.Children...)\n			return false'))
bug('b74-propref','C06 C26 C15',(O,'	if o.propRefs[name] == nil {\n		o.propRefs[name] = ref\n	}','	o.propRefs[name] = ref'))
bug('b75-prerot','C06 C15 C26',(M,'tr.Mul(prerot).Mul(rot)','tr.Mul(rot).Mul(prerot)'))
bug('b76-setmat','C26',(M,'	m.SetProperty("Lcl Scaling", &Property{Type','	m.Obj.SetProperty("Lcl Scaling", &Property{Type'))
bug('b77-world','C06 C26',(M,'m.Parent.GetWorldMatrix().Mul(m.GetMatrix())','m.Parent.GetMatrix().Mul(m.GetMatrix())'))
bug('b78-findchild','C26 C06',(M,'if m.Name() == name+"::Model" {','if m.Name() == name+"::Model" && m.Kind() == "Mesh" {'))
bug('b80-neg','C06 C26 C15',(G,'face = append(face, int(^index))','face = append(face, int(-index)-1+0*len(face))'))
bug('b81-facealias','C26 C15',(G,'				face = nil\n','				face = face[len(face):]\n'))
bug('b82-layer','C26',(G,'	if g.AddOrReplaceChild(node) {','	if g.AddOrReplaceChild(node) || len(values) > 3 {'))
bug('b83-lastidx','C26',(G,'		if len(f) > 0 {\n			indices','		if len(f) > 1 {\n			indices'))
bug('b84-wts','C06 C15',(G,'func (d *Deformer) GetTransformLink() *geom.Matrix4 {\n	m := d.FindChild("TransformLink")','func (d *Deformer) GetTransformLink() *geom.Matrix4 {\n	m := d.FindChild("Transform")'))
bug('b85-shape','C06 C15',(G,'ok && g.Kind() == "Shape" {','ok {'))
bug('b86-shapename','C06 C15',(G,'if len(s.Attributes) >= 3 {','if len(s.Attributes) > 3 {'))
bug('b87-deform','C06 C15',(G,'	for _, deformer := range g.FindRefs("Deformer") {\n		for','	for i, deformer := range g.FindRefs("Deformer") {\n		if i > 0 {\n			break\n		}\n		for'))
bug('b88-texture','C15 C06',(X,'	textures := m.FindRefs("Texture")\n	if len(textures) > 0 {','	textures := m.FindRefs("Texture")\n	if len(textures) > 1 {'))
bug('b89-factor','C15 C26',(X,'m.GetProperty(name).ToVector3(def.X, def.Y, def.Z)','m.GetProperty(name).ToVector3(def.X, def.X, def.X)'))
