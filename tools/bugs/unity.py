S='unity/unity_scene.go'; A='unity/unity_assets.go'; U='unity/unity.go'; Y='unity/unity_yaml.go'; M='unity/unity_material.go'; C='converter/unity2mqo.go'
bug('u01-single','C19',(S,'if scenePath == "" && count == 1 {','if count == 1 {'))
bug('u02-parents','C19',(S,'	parents = append(parents, sceneAsset)\n','	if len(parents) < 2 {\n		parents = append(parents, sceneAsset)\n	}\n'))
bug('u03-father','C19',(S,'					tr.Father = Ref{}\n					if prefab','					if prefab'))
bug('u04-int','C19',(S,'*v = int(flaotValue)','*v = int(flaotValue + 0.5)'))
bug('u05-w','C19',(S,'								} else if prop[1] == "w" {\n									v.W','								} else if prop[1] == "W" {\n									v.W'))
bug('u06-vec3z','C19',(S,'''								} else if prop[1] == "z" {
									v.Z = flaotValue
								}
							} else if v, ok := field.(*Vector4)''','''								} else if prop[1] == "z" && flaotValue != 0 {
									v.Z = flaotValue
								}
							} else if v, ok := field.(*Vector4)'''))
bug('u07-break','C19',(S,'				if target == nil {\n					continue','				if target == nil {\n					break'))
bug('u08-arr','C19',(S,'idx >= 0 && int(idx) < reflect','idx >= 0 && int(idx)+1 < reflect'))
bug('u09-firstroot','C19',(S,'root := s.Objects[0]','root := s.Objects[len(s.Objects)-1]'))
bug('u10-notfound','C19',(S,'				log.Println("prefab not found", prefab.SourcePrefab)\n				continue','				log.Println("prefab not found", prefab.SourcePrefab)\n				break'))
bug('u11-rootcheck','C19',(S,'!tr.Father.IsValid() && !obj.CorrespondingSourceObject.IsValid()','!tr.Father.IsValid()'))
bug('u12-order','C19',(S,'addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)','addedChildren[tr.Father] = append([]*Transform{tr}, addedChildren[tr.Father]...)'))
bug('u13-added','C19',(S,'parent != father {','parent != father && tr.GameObject.IsValid() {'))
bug('u14-added2','C19',(S,'			if parent := scene.GetTransform(&tr.Father, nil); parent != father {\n				parent.AddChild(tr)\n			}','			if parent := scene.GetTransform(&tr.Father, nil); parent != father && !father.PrefabInstance.IsValid() {\n				parent.AddChild(tr)\n			}'))
bug('u15-fileid','C19',(S,'strconv.ParseInt(doc.refID, 10, 64)','strconv.ParseInt(doc.refID, 10, 63)'))
bug('u16-color','C19',(S,'								} else if prop[1] == "g" {','								} else if prop[1] == "G" {'))
bug('u17-ref','C19',(S,'*v = mod.ObjectReference','if mod.ObjectReference.IsValid() {\n									*v = mod.ObjectReference\n								}'))
bug('u18-float64','C19',(S,'strconv.ParseFloat(mod.Value, 32); err == nil {','strconv.ParseFloat(mod.Value, 32); err == nil && len(mod.Value) < 12 {'))
bug('u19-crlf','C19',(Y,"s.data[s.pos] != '\\n' && s.data[s.pos] != ' ' && s.data[s.pos] != '\\r' {","s.data[s.pos] != '\\n' && s.data[s.pos] != ' ' {"))
bug('u20-getelem','C19',(U,'return prefab.PrefabScene.GetElement(ref)','return prefab.PrefabScene.Elements[ref.FileID]'))
bug('u21-stripped','C19',(U,'if !t.GameObject.IsValid() && t.CorrespondingSourceObject.IsValid() {','if !t.GameObject.IsValid() {'))
bug('u22-yamldoc','C19',(Y,'doc.Body = data[docStart:s.pos]','doc.Body = data[docStart:s.pos-4]'))
bug('u23-components','C19',(U,'			reflect.ValueOf(target).Elem().Set(reflect.ValueOf(component))\n			return true','			reflect.ValueOf(target).Elem().Set(reflect.ValueOf(component))\n			found = true'),(U,'	typ := reflect.TypeOf(target).Elem()\n	for _','	typ := reflect.TypeOf(target).Elem()\n	found := false\n	for _'),(U,'	return false\n}\n\nfunc (o *GameObject) GetComponents','	return found\n}\n\nfunc (o *GameObject) GetComponents'))
bug('u24-mattag','C19',(M,'if doc.Tag != "" && doc.Tag','if doc.Tag'))
bug('u25-matdup','C19',(C,'			c.mat[matGUID] = mat\n','			if mat.uvScale == nil {\n				c.mat[matGUID] = mat\n			}\n'))
bug('u26-uvscale','C19',(C,'mat.uvScale = &t.Scale','if t.Scale.X != t.Scale.Y {\n						mat.uvScale = &t.Scale\n					}'))
bug('u27-active','C19',(C,'active = active && o.IsActive != 0','active = o.IsActive != 0'))
bug('u28-enabled','C19',(C,'obj.Visible = active && meshRenderer.Enabled != 0','obj.Visible = meshRenderer.Enabled != 0'))
bug('u29-meshidx','C19',(C,'			meshObjectIndex--\n','			if len(dst.Objects) == 1 {\n				meshObjectIndex--\n			}\n'))
bug('u30-mat0','C19',(C,'mat = materials[0]','mat = materials[len(materials)-1]'))
bug('u31-negz','C19',(C,'-tr.LocalPosition.Z','tr.LocalPosition.Z'))
bug('u32-rot','C19',(C,'-tr.LocalRotation.Y, tr.LocalRotation.Z','tr.LocalRotation.Y, tr.LocalRotation.Z'))
bug('u33-fbxcache','C19',(C,'		c.lastFbx = doc\n		c.lastFbxID = mesh.GUID','		c.lastFbx = doc\n		if c.lastFbxID == "" {\n			c.lastFbxID = mesh.GUID\n		}'))
bug('u34-unit','C19',(C,'.ToFloat32(1) * 0.01','.ToFloat32(100) * 0.01'))
bug('u35-depth','C19',(C,'ObjectDepth:      obj.Depth + 1','ObjectDepth:      obj.Depth'))
bug('u36-emission','C19',(C,'if emmision.Len() > 0 {','if emmision.Len() > 1 {'))
bug('u37-alpha','C19',(C,'Z: c.B, W: c.A}','Z: c.B, W: 1}'))
bug('u38-light','C19',(C,'} else if light.Type == 2 {\n			t = "point"','} else if light.Type >= 2 {\n			t = "point"'))
bug('u39-ancest','C19',(C,'	defer delete(c.ancestors, o)\n',''))
bug('u40-childnil','C19',(C,'tr.CorrespondingSourceObject)\n			continue','tr.CorrespondingSourceObject)\n			break'))
bug('u41-tex','C19',(C,'if _, err := os.Stat(texPath); err == nil {','if st, err := os.Stat(texDir); err == nil && !st.IsDir() {'))
bug('u42-texname','C19',(C,'texName := "saved_textures/" + texAsset.GUID + "_"','texName := "saved_textures/"'))
bug('u43-uid','C19',(C,'obj.UID = len(dst.Objects)','obj.UID = len(dst.Objects) - 1'))
bug('u44-box','C19',(C,'*co.Size.Scale(sc.X * 0.5)','*co.Size.Scale(sc.X)'))
bug('u45-capsule','C19',(C,'(co.Height - co.Radius*2)','(co.Height - co.Radius)'))
bug('u46-kin','C19',(C,'Kinematic:      rigidBody.IsKinematic != 0','Kinematic:      rigidBody.IsKinematic == 0'))
bug('u47-bump','C19',(C,'m.BumpTexture, err = c.saveTexrure(c.src.Assets, texAsset)','m.Texture, err = c.saveTexrure(c.src.Assets, texAsset)'))
bug('u48-intens','C19',(C,'"innerConeAngle": light.InnerSpotAngle','"innerConeAngle": light.SpotAngle'))
bug('u49-override','C19',(C,'MaterialOverride: materials,','MaterialOverride: materials[:0],'))
bug('u50-recycle','C19',(A,'return m.ModelImporter.FileIDToRecycleName[fileID]','return m.ModelImporter.FileIDToRecycleName[int64(int32(fileID))]'))
bug('u51-uvs','C19',(C,'if len(uvs) > n {','if len(uvs) > n+1 {'))
# C20
bug('u60-trim','C20',(A,'strings.TrimRight(strings.SplitN(string(b), "\\n", 2)[0], "\\r")','strings.TrimSpace(strings.SplitN(string(b), "\\n", 2)[0])'))
bug('u61-stat','C20',(A,'rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))','strings.HasPrefix(header.Name, "..")'))
bug('u62-guard','C20',(A,'err != nil || rel == ".." ||','err != nil ||'))
bug('u63-close','C20',(A,'	if a.Temp {\n		return os.RemoveAll(a.PackageDir)','	if a.Temp && len(a.Assets) > 0 {\n		return os.RemoveAll(a.PackageDir)'))
bug('u64-failclean','C20',(A,'	err = extractPackage(packagePath, tmpDir)\n	if err != nil {\n		os.RemoveAll(tmpDir)','	err = extractPackage(packagePath, tmpDir)\n	if err != nil {\n		os.Remove(tmpDir)'))
bug('u65-eof','C20',(A,'case err == io.EOF:','case err == io.EOF || err == io.ErrUnexpectedEOF:'))
bug('u66-mkdir','C20',(A,'			if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {\n				return err\n			}\n			f, err','			if err := os.Mkdir(filepath.Dir(name), 0755); err != nil && !os.IsExist(err) {\n				return err\n			}\n			f, err'))
bug('u67-copyn','C20',(A,'io.Copy(f, tr); err','io.CopyN(f, tr, 1<<20); err != io.EOF && err'))
bug('u68-copyerr','C20',(A,'				f.Close()\n				return err\n','				f.Close()\n				break\n'))
bug('u69-pathkey','C20',(A,'assets.AssetsByPath[filepath.ToSlash(path)] = asset','assets.AssetsByPath[strings.ToLower(filepath.ToSlash(path))] = asset'))
bug('u70-meta','C20',(A,'		if !strings.HasSuffix(path, ".meta") {','		if info.IsDir() || !strings.HasSuffix(path, ".meta") || info.Size() == 0 {'))
bug('u71-trimsuf','C20',(A,'strings.TrimSuffix(path, ".meta"))','strings.ReplaceAll(path, ".meta", ""))'))
bug('u72-closedir','C20',(A,'return scanPackage(packagePath, false, packagePath)','return scanPackage(packagePath, true, packagePath)'))
bug('u73-symlink','C20',(A,'		case tar.TypeReg:','		case tar.TypeSymlink:\n			if err := os.Symlink(header.Linkname, name); err != nil {\n				return err\n			}\n		case tar.TypeReg:'))
bug('u74-nodir','C20',(A,'			if _, err := os.Stat(name); err != nil {\n				if err := os.MkdirAll(name, 0755)','			if _, err := os.Stat(name); err != nil {\n				if err := os.MkdirAll(name, os.FileMode(header.Mode))'))
bug('u75-skip','C20',(A,'		if _, err = os.Stat(pathname); err != nil {\n			continue','		if _, err = os.Stat(pathname); err != nil {\n			break'))
bug('u76-dup','C20',(A,'		pkg.Assets[guid] = asset\n		pkg.AssetsByPath[path] = asset','		pkg.Assets[strings.ToLower(guid)] = asset\n		pkg.AssetsByPath[path] = asset'))
bug('u77-bymeta','C20',(A,'return a.loadMetaFile(asset.Path)','return a.loadMetaFile(strings.TrimSuffix(asset.Path, filepath.Ext(asset.Path)) + filepath.Ext(asset.Path)[:0])'))
bug('u78-split','C20',(A,'strings.SplitN(string(b), "\\n", 2)[0]','strings.Fields(string(b) + " \\n")[0]'))
