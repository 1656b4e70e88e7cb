From f69d4e88aad38873d30ca9e141c770d8a146eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 001/176] fix: read the "locking" flag of MQO objects

---
 mqo/mqo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8ea4f75..5efaca0 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -253,6 +253,7 @@ func (p *Parser) readObject() *Object {
 		"depth":       func() { o.Depth = p.readInt() },
 		"folding":     func() { o.Folding = p.readInt() > 0 },
 		"visible":     func() { o.Visible = p.readInt() > 0 },
+		"locking":     func() { o.Locked = p.readInt() > 0 },
 		"shading":     func() { o.Shading = p.readInt() },
 		"facet":       func() { o.Facet = p.readFloat() },
 		"patch":       func() { o.Patch = p.readInt() },
-- 
2.43.0


From b01579e1d84beb60d56db09ea678d30a33e0832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 002/176] fix: read negative integers in MQO files (e.g. M(-1))

---
 mqo/mqo_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 5efaca0..34039ec 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -71,12 +71,17 @@ func (p *Parser) readFloat() float32 {
 
 func (p *Parser) readInt() int {
 	tok := p.s.Scan()
+	s := 1
+	if p.s.TokenText() == "-" {
+		tok = p.s.Scan()
+		s = -1
+	}
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
 	}
 	n, _ := strconv.Atoi(p.s.TokenText())
-	return n
+	return n * s
 }
 
 func (p *Parser) readStr() string {
-- 
2.43.0


From 1aba55f96bbee9a4bd2a3926ecd53b4ad961c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 003/176] fix: write the emission color of MQO materials

---
 mqo/mqo_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 93c93c6..9f17ca9 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -85,6 +85,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		fmt.Fprintf(w, " col(%.3f %.3f %.3f %.3f) dif(%.3f) amb(%.3f) emi(%.3f) spc(%.3f) power(%.2f)",
 			mat.Color.X, mat.Color.Y, mat.Color.Z, mat.Color.W,
 			mat.Diffuse, mat.Ambient, mat.Emission, mat.Specular, mat.Power)
+		if mat.EmissionColor != nil {
+			fmt.Fprintf(w, " emi_col(%.3f %.3f %.3f)", mat.EmissionColor.X, mat.EmissionColor.Y, mat.EmissionColor.Z)
+		}
 		if mat.Texture != "" {
 			fmt.Fprintf(w, " tex(\"%v\")", strings.Replace(mat.Texture, "\\", "/", -1))
 		}
-- 
2.43.0


From 3b10688e99680a09c526a8411c1d702e2aa01d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 004/176] fix: write all MaterialEx2 settings (color/string
 params, shader mappings)

---
 mqo/mqo_writer.go | 57 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 9f17ca9..27f7a3b 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -32,6 +33,28 @@ func boolToInt(b bool) int {
 	return 0
 }
 
+func writeShaderParams(w io.Writer, params map[string]interface{}) {
+	var names []string
+	for name := range params {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := params[name].(type) {
+		case bool:
+			fmt.Fprintf(w, "\t\t\t%v bool %v\n", name, boolToInt(v))
+		case float32, float64:
+			fmt.Fprintf(w, "\t\t\t%v float %v\n", name, v)
+		case []float32:
+			fmt.Fprintf(w, "\t\t\t%v color %v\n", name, strings.Trim(fmt.Sprint(v), "[]"))
+		case string:
+			fmt.Fprintf(w, "\t\t\t%v string \"%v\"\n", name, v)
+		default:
+			fmt.Fprintf(w, "\t\t\t%v int %v\n", name, v)
+		}
+	}
+}
+
 func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	w := bufio.NewWriter(ww)
 	w.WriteString("Metasequoia Document\n")
@@ -116,19 +139,31 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
 			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
-			for name, v := range mat.Ex2.ShaderParams {
-				typ := "int"
-				if b, ok := v.(bool); ok {
-					typ = "bool"
-					v = boolToInt(b)
-				} else if _, ok := v.(float64); ok {
-					typ = "float"
-				} else if _, ok := v.(float32); ok {
-					typ = "float"
+			writeShaderParams(w, mat.Ex2.ShaderParams)
+			w.WriteString("\t\t}\n")
+			if len(mat.Ex2.ShaderMapping) > 0 {
+				var names []string
+				for name := range mat.Ex2.ShaderMapping {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(names))
+				for _, name := range names {
+					fmt.Fprintf(w, "\t\t\t\"%v\" \"%v\"\n", name, mat.Ex2.ShaderMapping[name])
 				}
-				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+				w.WriteString("\t\t}\n")
+			}
+			var names []string
+			for name := range mat.Ex2.ShaderMappingParams {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				params := mat.Ex2.ShaderMappingParams[name]
+				fmt.Fprintf(w, "\t\tshadermappingparam \"%v\" %v {\n", name, len(params))
+				writeShaderParams(w, params)
+				w.WriteString("\t\t}\n")
 			}
-			w.WriteString("\t\t}\n")
 			w.WriteString("\t}\n")
 		}
 		w.WriteString("}\n")
-- 
2.43.0


From 7e5d1a1ce565aa0b16ab8977d0c08b43d5f9bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 005/176] fix: do not assign an identifier twice when writing
 MQO vertex UIDs

---
 mqo/mqo_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 27f7a3b..3b6d858 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -220,6 +220,11 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			for i, uid := range uids {
 				if uid == 0 {
 					uid = i + 1
+					for used := true; used; {
+						if _, used = obj.VertexByUID[uid]; used {
+							uid += len(uids)
+						}
+					}
 				}
 				fmt.Fprintf(w, "\t\t\t%d\n", uid)
 			}
-- 
2.43.0


From 9de69ae3d12a3c50656a16295f855d8d66ec6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 006/176] fix: do not duplicate the object list of the bone
 plugin on every save

---
 mqo/bone_plugin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 64c6d3e..6871a0c 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -222,6 +222,7 @@ func (p *BonePlugin) PreSerialize(mqo *Document) {
 		}
 	}
 
+	p.Obj = nil
 	for i, o := range mqo.Objects {
 		id := o.UID
 		if id <= 0 {
-- 
2.43.0


From 96bb408b4f358e047e8206ff2f820ed397da5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 007/176] fix: load the physics plugin from MQX files

---
 mqo/mqx_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqo/mqx_parser.go b/mqo/mqx_parser.go
index 5b39d88..4de88cd 100644
--- a/mqo/mqx_parser.go
+++ b/mqo/mqx_parser.go
@@ -8,8 +8,9 @@ import (
 func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	var data struct {
 		MQXDoc
-		BonePlugin  *BonePlugin
-		MorphPlugin *MorphPlugin
+		BonePlugin    *BonePlugin
+		MorphPlugin   *MorphPlugin
+		PhysicsPlugin *PhysicsPlugin
 	}
 	err := xml.NewDecoder(r).Decode(&data)
 	doc := data.MQXDoc
@@ -19,6 +20,9 @@ func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	if data.MorphPlugin != nil {
 		doc.Plugins = append(doc.Plugins, data.MorphPlugin)
 	}
+	if data.PhysicsPlugin != nil {
+		doc.Plugins = append(doc.Plugins, data.PhysicsPlugin)
+	}
 	for _, p := range doc.Plugins {
 		p.PostDeserialize(nil)
 	}
-- 
2.43.0


From 813dc663e772f03fc6695d506fe3a040d0c33cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 008/176] fix: write PMX joints with the rigid body index size

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..ce88a15 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -368,8 +368,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From b74248c098aefdfa33ea8b881e4dacecf4b1c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 009/176] fix: PMX bone layer is signed and the external parent
 key is a 32-bit integer

---
 mmd/pmx_parser.go | 6 +++---
 mmd/pmx_writer.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fad066a..fa34491 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -149,7 +149,7 @@ func (p *PMXParser) readBone() *Bone {
 	b.NameEn = p.readText()
 	p.read(&b.Pos)
 	b.ParentID = p.readIndex(AttrBoneIndexSz)
-	b.Layer = p.readInt()
+	b.Layer = p.readVInt(4)
 	p.read(&b.Flags)
 
 	// TODO
@@ -181,8 +181,8 @@ func (p *PMXParser) readBone() *Bone {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		p.readIndex(AttrBoneIndexSz)
+		// external parent key
+		p.readInt()
 	}
 
 	if b.Flags&32 != 0 {
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index ce88a15..f5dd8d2 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -283,8 +283,8 @@ func (w *PMXWriter) writeBone(b *Bone) {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		w.writeIndex(AttrBoneIndexSz, -1)
+		// external parent key
+		w.writeInt(-1)
 	}
 
 	if b.Flags&32 != 0 {
-- 
2.43.0


From a2443aca76f2e37c8f1423c3e05fc14e82988b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 010/176] fix: accept additional UV morphs (type 4-7) in PMX
 files

---
 converter/mmd2mqo.go | 4 ++--
 mmd/mmd.go           | 2 +-
 mmd/pmx_parser.go    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..8cbf5af 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -189,7 +189,7 @@ func (c *mmdToMQO) genMorphGroup(pmx *mmd.Document) ([][]int, [][]int) {
 			}
 		}
 		for _, um := range m.UV {
-			if len(v2f[um.Target]) == 0 {
+			if len(v2f[um.Target]) == 0 || m.MorphType > 3 { // additional UVs are not converted
 				continue
 			}
 			fg := f2fg[v2f[um.Target][0]]
@@ -320,7 +320,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
+				if mu.Target < 0 || morph.MorphType > 3 {
 					continue
 				}
 				for _, fv := range vertToFV[vmap[mu.Target]] {
diff --git a/mmd/mmd.go b/mmd/mmd.go
index f893a12..d90a3a4 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -141,7 +141,7 @@ type MorphVertex struct {
 	Offset Vector3
 }
 
-// type 3
+// type 3 (UV), 4-7 (additional UV)
 type MorphUV struct {
 	Target int
 	Value  Vector4
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fa34491..0a4aca3 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -232,7 +232,7 @@ func (p *PMXParser) readMorph() *Morph {
 			p.read(&Vector3{})
 			p.read(&Vector4{})
 			break
-		case 3:
+		case 3, 4, 5, 6, 7:
 			var v MorphUV
 			v.Target = p.readUIndex(AttrVertIndexSz)
 			p.read(&v.Value)
-- 
2.43.0


From b742a9c818a702daf7f90c1b48eacf08a3b21bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 011/176] fix: return an error for truncated or broken PMX, PMD
 and VMD files instead of exiting or ignoring it

---
 mmd/base_parser.go | 41 ++++++++++++++++------
 mmd/pmd_parser.go  | 47 ++++++++++++++++---------
 mmd/pmx_parser.go  | 86 +++++++++++++++++++++-------------------------
 mmd/vmd_parser.go  | 12 +++++--
 4 files changed, 108 insertions(+), 78 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index f2896a4..8fd00e9 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -10,48 +10,67 @@ type baseParser struct {
 	err error
 }
 
+// read reads v. Once a read failed, all following reads fail with the same error.
 func (p *baseParser) read(v interface{}) error {
-	return binary.Read(p.r, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Read(p.r, binary.LittleEndian, v)
+		if p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
+	}
+	return p.err
+}
+
+func (p *baseParser) readBytes(n int) []byte {
+	if p.err != nil || n <= 0 {
+		return nil
+	}
+	b, err := io.ReadAll(io.LimitReader(p.r, int64(n)))
+	if err == nil && len(b) < n {
+		err = io.ErrUnexpectedEOF
+	}
+	p.err = err
+	return b
 }
 
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
-	binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readUint16() uint16 {
 	var v uint16
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readInt() int {
 	var v uint32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return int(v)
 }
 
 func (p *baseParser) readFloat() float32 {
 	var v float32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readVUInt(sz byte) int {
 	if sz == 1 {
 		var v uint8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v uint16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v uint32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
@@ -60,17 +79,17 @@ func (p *baseParser) readVUInt(sz byte) int {
 func (p *baseParser) readVInt(sz byte) int {
 	if sz == 1 {
 		var v int8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v int16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v int32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index fa31023..4202594 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -40,7 +40,7 @@ func (p *PMDParser) readHeader() error {
 		return fmt.Errorf("Unsupported format")
 	}
 	p.read(&h.Version)
-	return nil
+	return p.err
 }
 
 func (p *PMDParser) readVertex() *Vertex {
@@ -100,7 +100,7 @@ func (p *PMDParser) readMorph() *Morph {
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		var mv MorphVertex
 		mv.Target = p.readVInt(4)
 		p.read(&mv.Offset)
@@ -122,27 +122,24 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// Vertexes
 	n := p.readInt()
-	model.Vertexes = make([]*Vertex, n)
-	for i := 0; i < n; i++ {
-		model.Vertexes[i] = p.readVertex()
+	for i := 0; i < n && p.err == nil; i++ {
+		model.Vertexes = append(model.Vertexes, p.readVertex())
 	}
 
 	// Faces
 	n = p.readInt()
-	model.Faces = make([]*Face, n/3)
-	for i := 0; i < n/3; i++ {
+	for i := 0; i < n/3 && p.err == nil; i++ {
 		var f Face
 		f.Verts[0] = int(p.readUint16())
 		f.Verts[1] = int(p.readUint16())
 		f.Verts[2] = int(p.readUint16())
-		model.Faces[i] = &f
+		model.Faces = append(model.Faces, &f)
 	}
 
 	// Materials
 	mn := p.readInt()
-	model.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		model.Materials[i] = p.readMaterial(&model, i)
+	for i := 0; i < mn && p.err == nil; i++ {
+		model.Materials = append(model.Materials, p.readMaterial(&model, i))
 	}
 
 	// Bones
@@ -154,8 +151,15 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// IK
 	n = int(p.readUint16())
-	for i := 0; i < n; i++ {
-		b := model.Bones[p.readUint16()]
+	for i := 0; i < n && p.err == nil; i++ {
+		bi := int(p.readUint16())
+		if p.err == nil && bi >= len(model.Bones) {
+			p.err = fmt.Errorf("Invalid IK bone: %v", bi)
+		}
+		if p.err != nil {
+			break
+		}
+		b := model.Bones[bi]
 		b.IK.TargetID = p.readVInt(2)
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
@@ -169,14 +173,23 @@ func (p *PMDParser) Parse() (*Document, error) {
 	n = int(p.readUint16())
 	if n > 0 {
 		base := p.readMorph()
-		model.Morphs = make([]*Morph, n-1)
-		for i := 0; i < n-1; i++ {
-			model.Morphs[i] = p.readMorph()
-			for _, v := range model.Morphs[i].Vertex {
+		for i := 0; i < n-1 && p.err == nil; i++ {
+			morph := p.readMorph()
+			model.Morphs = append(model.Morphs, morph)
+			for _, v := range morph.Vertex {
+				if v.Target < 0 || v.Target >= len(base.Vertex) {
+					if p.err == nil {
+						p.err = fmt.Errorf("Invalid morph vertex: %v", v.Target)
+					}
+					break
+				}
 				v.Target = base.Vertex[v.Target].Target
 			}
 		}
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 0a4aca3..b88f11a 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -31,15 +31,15 @@ func (p *PMXParser) readUIndex(attrTyp int) int {
 }
 
 func (p *PMXParser) readText() string {
-	len := p.readInt()
+	data := p.readBytes(p.readInt())
 
 	if p.header.Info[AttrStringEncoding] == 0 {
-		utf16data := make([]uint16, len/2)
-		binary.Read(p.r, binary.LittleEndian, &utf16data)
+		utf16data := make([]uint16, len(data)/2)
+		for i := range utf16data {
+			utf16data[i] = binary.LittleEndian.Uint16(data[i*2:])
+		}
 		return string(utf16.Decode(utf16data))
 	}
-	data := make([]byte, len)
-	binary.Read(p.r, binary.LittleEndian, &data)
 	return string(data)
 }
 
@@ -57,24 +57,19 @@ func (p *PMXParser) readHeader() error {
 	p.read(&h.Version)
 	h.Info = make([]byte, p.readUint8())
 	p.read(&h.Info)
-	return nil
+	if p.err == nil && len(h.Info) <= AttrRBIndexSz {
+		return fmt.Errorf("Invalid header")
+	}
+	return p.err
 }
 
 func (p *PMXParser) readVertex() *Vertex {
 	var v Vertex
-	if err := p.read(&v.Pos); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.Normal); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.UV); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.Pos)
+	p.read(&v.Normal)
+	p.read(&v.UV)
 	v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])
-	if err := p.read(&v.ExtUVs); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.ExtUVs)
 	wehghtType := p.readUint8()
 	if wehghtType == 0 {
 		v.Bones = []int{p.readIndex(AttrBoneIndexSz)}
@@ -102,9 +97,8 @@ func (p *PMXParser) readVertex() *Vertex {
 		weights := [11]float32{w, 1 - w}
 		v.BoneWeights = weights[:]
 		p.read(weights[2:])
-	} else {
-		log.Println(v)
-		log.Fatal("unknown weight ", wehghtType)
+	} else if p.err == nil {
+		p.err = fmt.Errorf("Unknown weight type: %v", wehghtType)
 	}
 	v.EdgeScale = p.readFloat()
 	return &v
@@ -190,7 +184,7 @@ func (p *PMXParser) readBone() *Bone {
 		b.IK.Loop = p.readInt()
 		b.IK.LimitRad = p.readFloat()
 		links := p.readInt()
-		for i := 0; i < links; i++ {
+		for i := 0; i < links && p.err == nil; i++ {
 			var l Link
 			l.TargetID = p.readIndex(AttrBoneIndexSz)
 			l.HasLimit = p.readUint8() != 0
@@ -213,7 +207,7 @@ func (p *PMXParser) readMorph() *Morph {
 	p.read(&m.MorphType)
 
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		switch m.MorphType {
 		case 0:
 			m.Group = append(m.Group, &MorphGroup{
@@ -254,8 +248,9 @@ func (p *PMXParser) readMorph() *Morph {
 			m.Material = append(m.Material, &v)
 			break
 		default:
-			log.Fatal("Unknown morph type ", m.MorphType)
-			break
+			if p.err == nil {
+				p.err = fmt.Errorf("Unknown morph type: %v", m.MorphType)
+			}
 		}
 	}
 
@@ -278,7 +273,7 @@ func (p *PMXParser) readDisplayGroup() {
 	d.NameEn = p.readText()
 	d.Flags = p.readUint8()
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		t := DisplayTarget{Type: p.readUint8()}
 		if t.Type == 0 {
 			t.Target = p.readIndex(AttrBoneIndexSz)
@@ -350,56 +345,53 @@ func (p *PMXParser) Parse() (*Document, error) {
 	pmx.CommentEn = p.readText()
 
 	vn := p.readInt()
-	pmx.Vertexes = make([]*Vertex, vn)
-	for i := 0; i < vn; i++ {
-		pmx.Vertexes[i] = p.readVertex()
+	for i := 0; i < vn && p.err == nil; i++ {
+		pmx.Vertexes = append(pmx.Vertexes, p.readVertex())
 	}
 
 	fn := p.readInt() / 3
-	pmx.Faces = make([]*Face, fn)
-	for i := 0; i < fn; i++ {
-		pmx.Faces[i] = p.readFace()
+	for i := 0; i < fn && p.err == nil; i++ {
+		pmx.Faces = append(pmx.Faces, p.readFace())
 	}
 
 	tn := p.readInt()
-	pmx.Textures = make([]string, tn)
-	for i := 0; i < tn; i++ {
-		pmx.Textures[i] = p.readText()
+	for i := 0; i < tn && p.err == nil; i++ {
+		pmx.Textures = append(pmx.Textures, p.readText())
 	}
 
 	mn := p.readInt()
-	pmx.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		pmx.Materials[i] = p.readMaterial()
+	for i := 0; i < mn && p.err == nil; i++ {
+		pmx.Materials = append(pmx.Materials, p.readMaterial())
 	}
 
 	bn := p.readInt()
-	pmx.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		pmx.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		pmx.Bones = append(pmx.Bones, p.readBone())
 	}
 
 	pn := p.readInt()
-	pmx.Morphs = make([]*Morph, pn)
-	for i := 0; i < pn; i++ {
-		pmx.Morphs[i] = p.readMorph()
+	for i := 0; i < pn && p.err == nil; i++ {
+		pmx.Morphs = append(pmx.Morphs, p.readMorph())
 	}
 
 	gn := p.readInt()
-	for i := 0; i < gn; i++ {
+	for i := 0; i < gn && p.err == nil; i++ {
 		p.readDisplayGroup() // TODO
 	}
 
 	rb := p.readInt()
-	for i := 0; i < rb; i++ {
+	for i := 0; i < rb && p.err == nil; i++ {
 		pmx.Bodies = append(pmx.Bodies, p.readRigidBody())
 	}
 
 	jn := p.readInt()
-	for i := 0; i < jn; i++ {
+	for i := 0; i < jn && p.err == nil; i++ {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &pmx, nil
 }
 
diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 8e0755e..6686f15 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -113,6 +113,9 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	var supportedFormat = "Vocaloid Motion Data 0002"
 
 	formatName := p.readString(30)
+	if p.err != nil {
+		return nil, p.err
+	}
 	if formatName != supportedFormat {
 		return nil, fmt.Errorf("Format error: %v != %v", formatName, supportedFormat)
 	}
@@ -120,7 +123,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	anim.Name = p.readString(20)
 
 	frames := p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationBoneSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -131,7 +134,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	}
 
 	frames = p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationMorphSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -139,7 +142,10 @@ func (p *VMDParser) Parse() (*Animation, error) {
 		anim.Morph = append(anim.Morph, sample)
 	}
 
-	return &anim, p.err
+	if p.err != nil {
+		return nil, p.err
+	}
+	return &anim, nil
 }
 
 func (p *VMDParser) readString(len int) string {
-- 
2.43.0


From c08c74a098b1c63474ded7aa964fa746827c33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 012/176] fix: detect the MMD file format correctly when the
 reader returns short reads

---
 mmd/pmx_parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index b88f11a..4bc30bc 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -399,7 +399,7 @@ func (p *PMXParser) Parse() (*Document, error) {
 func Parse(r io.Reader) (*Document, error) {
 	// check format
 	format := make([]byte, 4)
-	if _, err := r.Read(format[:3]); err != nil {
+	if _, err := io.ReadFull(r, format[:3]); err != nil {
 		return nil, err
 	}
 
@@ -408,7 +408,9 @@ func Parse(r io.Reader) (*Document, error) {
 		p.header = &Header{Format: format[:3]}
 		return p.Parse()
 	}
-	r.Read(format[3:])
+	if _, err := io.ReadFull(r, format[3:]); err != nil {
+		return nil, err
+	}
 	p := NewPMXParser(bufio.NewReader(r))
 	p.header = &Header{Format: format}
 	return p.Parse()
-- 
2.43.0


From 8015cf9de9d5110ee0d7c716ea016ee4494b6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 013/176] fix: mark PMD morphs as vertex morphs

---
 mmd/pmd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index 4202594..79ccc7f 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -96,7 +96,7 @@ func (p *PMDParser) readBone() *Bone {
 }
 
 func (p *PMDParser) readMorph() *Morph {
-	var m Morph
+	m := Morph{MorphType: 1}
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
-- 
2.43.0


From bf300471d968cf5fcea569301e3b4707cb50e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:10 +0000
Subject: [PATCH 014/176] fix: report errors when writing PMX files

---
 mmd/mmd.go        |  6 +++++-
 mmd/pmx_writer.go | 35 ++++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index d90a3a4..b6d7efb 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -244,5 +244,9 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	return WritePMX(doc, w)
+	err = WritePMX(doc, w)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index f5dd8d2..0d59539 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -7,44 +7,49 @@ import (
 )
 
 type baseWriter struct {
-	w io.Writer
+	w   io.Writer
+	err error
 }
 
+// write writes v. Once a write failed, all following writes fail with the same error.
 func (p *baseWriter) write(v interface{}) error {
-	return binary.Write(p.w, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Write(p.w, binary.LittleEndian, v)
+	}
+	return p.err
 }
 
 func (p *baseWriter) writeUint8(v uint8) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeUint16(v uint16) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeInt(v int) {
 	vv := int32(v)
-	binary.Write(p.w, binary.LittleEndian, &vv)
+	p.write(&vv)
 }
 
 func (p *baseWriter) writeFloat(v float32) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = uint8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = uint16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = uint32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -53,17 +58,17 @@ func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 func (p *baseWriter) writeVInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = int8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = int16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = int32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -134,12 +139,12 @@ func (w *PMXWriter) Write(doc *Document) error {
 
 	w.writeInt(0)
 
-	return nil
+	return w.err
 }
 
 func (w *PMXWriter) writeText(v string) {
 	w.writeInt(len(v))
-	binary.Write(w.w, binary.LittleEndian, []byte(v))
+	w.write([]byte(v))
 }
 
 func (w *PMXWriter) writeIndex(attrTyp int, v int) {
@@ -386,5 +391,5 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 
 // WritePMX writes .pmx data
 func WritePMX(doc *Document, w io.Writer) error {
-	return (&PMXWriter{baseWriter: baseWriter{w}}).Write(doc)
+	return (&PMXWriter{baseWriter: baseWriter{w: w}}).Write(doc)
 }
-- 
2.43.0


From 71a44112a5a67caa4fe37e771abd2a0c40c78f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:10 +0000
Subject: [PATCH 015/176] fix: enlarge PMX index sizes that cannot hold the
 number of elements

---
 mmd/pmx_writer.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 0d59539..92dbc87 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -82,6 +82,7 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	w.fixIndexSize(doc)
 	w.writeHeader(doc.Header)
 	w.writeText(doc.Name)
 	w.writeText(doc.NameEn)
@@ -155,6 +156,27 @@ func (w *PMXWriter) writeUIndex(attrTyp int, v int) {
 	w.writeVUInt(w.header.Info[attrTyp], v)
 }
 
+// fixIndexSize enlarges the index sizes which are too small for the document.
+func (w *PMXWriter) fixIndexSize(doc *Document) {
+	fix := func(attrTyp, count, max1, max2 int) {
+		sz := byte(1)
+		if count > max2 {
+			sz = 4
+		} else if count > max1 {
+			sz = 2
+		}
+		if doc.Header.Info[attrTyp] < sz {
+			doc.Header.Info[attrTyp] = sz
+		}
+	}
+	fix(AttrVertIndexSz, len(doc.Vertexes), 0x100, 0x10000)
+	fix(AttrTexIndexSz, len(doc.Textures), 0x80, 0x8000)
+	fix(AttrMatIndexSz, len(doc.Materials), 0x80, 0x8000)
+	fix(AttrBoneIndexSz, len(doc.Bones), 0x80, 0x8000)
+	fix(AttrMorphIndexSz, len(doc.Morphs), 0x80, 0x8000)
+	fix(AttrRBIndexSz, len(doc.Bodies), 0x80, 0x8000)
+}
+
 func (w *PMXWriter) writeHeader(h *Header) {
 	w.header = h
 
-- 
2.43.0


From d3801e6db16a5a8d6bc4d36eb7f86593a7b80500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 016/176] fix: models loaded from PMD files can be written as
 PMX

---
 mmd/pmx_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 92dbc87..1a9eb38 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -82,6 +82,9 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	if string(doc.Header.Format) != "PMX " {
+		doc.Header = NewDocument().Header // e.g. loaded from .pmd
+	}
 	w.fixIndexSize(doc)
 	w.writeHeader(doc.Header)
 	w.writeText(doc.Name)
-- 
2.43.0


From da1ff81afde1dbc4b32fe42974d3ae976f716911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:46 +0000
Subject: [PATCH 017/176] fix: keep track of the position when skipping in a
 FBX stream that is not seekable

---
 fbx/binary_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 74774d1..c27d0ed 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -26,9 +26,9 @@ func (r *positionReader) SkipTo(pos int64) error {
 	if offset < 0 {
 		return fmt.Errorf("cannot rewind")
 	}
-	r.position = pos
 	if s, ok := r.r.(io.Seeker); ok {
-		_, err := s.Seek(pos, 0)
+		_, err := s.Seek(offset, io.SeekCurrent)
+		r.position = pos
 		return err
 	}
 	_, err := io.CopyN(ioutil.Discard, r, offset)
-- 
2.43.0


From bb44e1dcea9bfa6e21b9caaf1407503e376c0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:49 +0000
Subject: [PATCH 018/176] fix: read numbers with exponents, 64-bit and empty
 arrays in FBX ASCII files

---
 fbx/text_parser.go | 53 +++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 375ee9e..bf3d575 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -72,7 +72,7 @@ func (p *textParser) getToken() (tokenType, string) {
 		} else if c >= '0' && c <= '9' || c == '.' || c == '-' {
 			buf := []byte{c}
 			c = p.read()
-			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == '-') && p.err == nil {
+			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') && p.err == nil {
 				buf = append(buf, c)
 				c = p.read()
 			}
@@ -113,6 +113,10 @@ func (p *textParser) Skip(t tokenType) bool {
 	return typ == t
 }
 
+func isFloatToken(s string) bool {
+	return strings.ContainsAny(s, ".eE")
+}
+
 func (p *textParser) parseArrayProp() *Attribute {
 	_, s := p.getToken()
 	size, err := strconv.ParseInt(s, 10, 32)
@@ -125,35 +129,50 @@ func (p *textParser) parseArrayProp() *Attribute {
 			break
 		}
 	}
-	var dvalues []float64
-	var hasPoint bool
-	for i := 0; i < int(size) && p.err == nil; {
+	var tokens []string
+	var isFloat bool
+	for p.err == nil {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
 			continue
 		} else if typ == BlockEnd {
 			break
 		} else if typ == Number {
-			v, _ := strconv.ParseFloat(s, 64)
-			dvalues = append(dvalues, v)
-			hasPoint = hasPoint || strings.Contains(s, ".")
+			tokens = append(tokens, s)
+			isFloat = isFloat || isFloatToken(s)
 		} else {
 			p.errorf("Invalid token: %v", s)
 			break
 		}
 	}
-	if len(dvalues) != int(size) {
-		p.errorf("read array:.size: %v != %v", size, len(dvalues))
+	if len(tokens) != int(size) {
+		p.errorf("read array:.size: %v != %v", size, len(tokens))
 	}
-	var values interface{} = dvalues
-	if !hasPoint {
-		var i32values []int32
-		for _, v := range dvalues {
-			i32values = append(i32values, int32(v))
+	if isFloat {
+		dvalues := make([]float64, len(tokens))
+		for i, s := range tokens {
+			dvalues[i], err = strconv.ParseFloat(s, 64)
+			if err != nil {
+				p.errorf("failed to parse float: '%v'", s)
+			}
 		}
-		values = i32values
+		return &Attribute{Value: dvalues}
+	}
+	i32values := make([]int32, len(tokens))
+	i64values := make([]int64, len(tokens))
+	isInt32 := true
+	for i, s := range tokens {
+		i64values[i], err = strconv.ParseInt(s, 10, 64)
+		if err != nil {
+			p.errorf("failed to parse integer: '%v'", s)
+		}
+		i32values[i] = int32(i64values[i])
+		isInt32 = isInt32 && int64(i32values[i]) == i64values[i]
+	}
+	if !isInt32 {
+		return &Attribute{Value: i64values}
 	}
-	return &Attribute{Value: values}
+	return &Attribute{Value: i32values}
 }
 
 func (p *textParser) parseNodeList() []*Node {
@@ -179,7 +198,7 @@ func (p *textParser) parseNodeList() []*Node {
 					node.Children = p.parseNodeList()
 					break
 				} else if typ == Number {
-					if strings.Contains(s, ".") {
+					if isFloatToken(s) {
 						v, err := strconv.ParseFloat(s, 64)
 						if err != nil {
 							p.errorf("failed to parse float: '%v'", s)
-- 
2.43.0


From c3c6e21493208d2b039b66cd5cb3b12321a08f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:32 +0000
Subject: [PATCH 019/176] fix: write strings, raw data and empty arrays of FBX
 nodes so that they can be read again

---
 fbx/fbx_node.go    | 12 +++++++++---
 fbx/text_parser.go |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 5880884..3d00841 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"reflect"
@@ -154,6 +155,11 @@ func (p Attribute) Len() uint {
 	return 0
 }
 
+func (p Attribute) isArray() bool {
+	_, raw := p.Value.([]byte)
+	return !raw && reflect.ValueOf(p.Value).Kind() == reflect.Slice
+}
+
 func (p *Attribute) ToInt(defvalue int) int {
 	return int(p.ToInt64(int64(defvalue)))
 }
@@ -265,9 +271,9 @@ func (p *Attribute) String() string {
 		if len(segments) == 2 {
 			segments[0], segments[1] = segments[1], segments[0]
 		}
-		return fmt.Sprintf("%q", strings.Join(segments, "::"))
+		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
-		return fmt.Sprintf("\"%v\"", v)
+		return "\"" + base64.StdEncoding.EncodeToString(v) + "\""
 	default:
 		return fmt.Sprint(v)
 	}
@@ -283,7 +289,7 @@ func (n *Node) Dump(w io.Writer, d int, full bool) {
 			continue
 		}
 		s := p.String()
-		if p.Len() > 0 {
+		if p.isArray() {
 			s = fmt.Sprint("*", p.Len(), " ", arrayReplacer.Replace(s))
 		}
 		if i == 0 {
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index bf3d575..469f72a 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -90,7 +90,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			return String, string(buf)
+			return String, strings.ReplaceAll(string(buf), "&quot;", "\"")
 		} else if c >= 'A' && c <= 'z' {
 			buf := []byte{}
 			for (c >= 'A' && c <= 'z' || c >= '0' && c <= '9' || c == '-') && p.err == nil {
-- 
2.43.0


From 466cfbd00e0456c67be97344ece52897e3ea6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:04 +0000
Subject: [PATCH 020/176] fix: object names in FBX ASCII files are the same as
 in binary files

---
 converter/fbx2mqo.go |  8 ++++----
 fbx/text_parser.go   | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 59add09..116248a 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -89,7 +89,7 @@ func (c *fbxToMqoState) convert() {
 
 func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 	mat := &mqo.Material{}
-	mat.Name = m.Name()
+	mat.Name = strings.TrimSuffix(m.Name(), "::Material")
 	col := m.GetColor("DiffuseColor", &geom.Vector3{X: 1, Y: 1, Z: 1})
 	opacity := m.GetFactor("Opacity", 1)
 	mat.Color = geom.Vector4{X: col.X, Y: col.Y, Z: col.Z, W: opacity}
@@ -107,7 +107,7 @@ func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 
 func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.Matrix4) {
 	dst := c.dst
-	obj := mqo.NewObject(strings.TrimSuffix(strings.TrimPrefix(m.Name(), "Model::"), "::Model"))
+	obj := mqo.NewObject(strings.TrimSuffix(m.Name(), "::Model"))
 	dst.Objects = append(dst.Objects, obj)
 	obj.UID = len(dst.Objects)
 	obj.Depth = d
@@ -306,7 +306,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 		pos := c.coordMat.Mul(m.GetWorldMatrix()).ApplyTo(&geom.Vector3{})
 		b := &mqo.Bone{
 			ID:     len(c.bones) + 1,
-			Name:   strings.TrimPrefix(m.Name(), "Model::"),
+			Name:   strings.TrimSuffix(m.Name(), "::Model"),
 			Pos:    mqo.Vector3Attr{Vector3: *pos},
 			Parent: c.boneNodeMap[m.Parent],
 		}
@@ -331,7 +331,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	indexes := node.GetIndexes()
 
 	obj := src.Clone()
-	obj.Name = node.Name()
+	obj.Name = strings.TrimSuffix(node.Name(), "::Geometry")
 
 	if len(vertices) != len(indexes) {
 		log.Println("ERROR: Shape ", node.Name(), len(vertices), len(indexes))
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 469f72a..f56dc4c 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -237,5 +237,18 @@ func (p *textParser) Parse() (*Node, error) {
 	if p.err != nil && p.err != io.EOF {
 		return nil, p.err
 	}
+
+	// "Type::Name" => "Name\x00\x01Type" (same as binary format)
+	for _, name := range []string{"Objects", "Connections"} {
+		for _, node := range root.FindChild(name).GetChildren() {
+			for _, attr := range node.Attributes {
+				if s, ok := attr.Value.(string); ok {
+					if segments := strings.SplitN(s, "::", 2); len(segments) == 2 {
+						attr.Value = segments[1] + "\x00\x01" + segments[0]
+					}
+				}
+			}
+		}
+	}
 	return root, nil
 }
-- 
2.43.0


From 05e50b17537b09cff498023dff1362756a8a42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:04 +0000
Subject: [PATCH 021/176] fix: values of FBX nodes created by NewNode with int
 can be read

---
 fbx/fbx_node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 3d00841..fef15a0 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -170,6 +170,10 @@ func (p *Attribute) ToInt64(defvalue int64) int64 {
 	}
 	if v, ok := p.Value.(int8); ok {
 		return int64(v)
+	} else if v, ok := p.Value.(uint8); ok {
+		return int64(v)
+	} else if v, ok := p.Value.(int); ok {
+		return int64(v)
 	} else if v, ok := p.Value.(int16); ok {
 		return int64(v)
 	} else if v, ok := p.Value.(int32); ok {
@@ -194,6 +198,10 @@ func (p *Attribute) ToFloat64(defvalue float64) float64 {
 		return float64(v)
 	} else if v, ok := p.Value.(int8); ok {
 		return float64(v)
+	} else if v, ok := p.Value.(uint8); ok {
+		return float64(v)
+	} else if v, ok := p.Value.(int); ok {
+		return float64(v)
 	} else if v, ok := p.Value.(int16); ok {
 		return float64(v)
 	} else if v, ok := p.Value.(int32); ok {
-- 
2.43.0


From e3f548314f6956fb036b45061982dea2cb11df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 022/176] fix: store layer element values and polygon vertex
 count of FBX geometries

---
 fbx/fbx_geometry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index 9e07936..ac25fc9 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -52,6 +52,8 @@ func NewGeometry(name string, verts []*geom.Vector3, faces [][]int) *Geometry {
 		}),
 		Vertices: verts,
 		Polygons: faces,
+
+		PolygonVertexCount: len(indices),
 	}
 	return geom
 }
@@ -101,6 +103,7 @@ func (g *Geometry) GetShapes() []*GeometryShape {
 
 func (g *Geometry) setLayerElementNode(name string, typeIndex int, values []*Node) {
 	node := NewNode(name, 0)
+	node.Children = values
 	if g.AddOrReplaceChild(node) {
 		layer := g.FindChild("Layer")
 		el := NewNode("LayerElement")
@@ -125,7 +128,7 @@ func (g *Geometry) SetLayerElementUVIndexed(uv []*geom.Vector2, indices []int32,
 	for _, v := range uv {
 		floatArray = append(floatArray, v.X, v.Y)
 	}
-	g.setLayerElementNode("LayerElementNormal", 0, []*Node{
+	g.setLayerElementNode("LayerElementUV", 0, []*Node{
 		NewNode("MappingInformationType", string(mappingType)),
 		NewNode("ReferenceInformationType", "IndexToDirect"),
 		NewNode("UV", floatArray),
-- 
2.43.0


From 5b378a17c046fb075a69fbb2cf35f487fe102299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 023/176] fix: keep parents, materials and matrices up to date
 when a FBX document is edited

---
 fbx/fbx_document.go | 27 +++++++++++++++++----------
 fbx/fbx_model.go    |  5 +++++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b65a76b..16bc9f3 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -125,14 +125,7 @@ func BuildDocument(root *Node) (*Document, error) {
 				to = objectByName[node.Attr(2).ToString()]
 			}
 			if to != nil && from != nil {
-				to.AddRef(from)
-
-				// build model tree
-				if toModel, ok := to.(*Model); ok {
-					if fromModel, ok := from.(*Model); ok {
-						fromModel.Parent = toModel
-					}
-				}
+				addRef(to, from)
 			}
 		}
 	}
@@ -140,6 +133,17 @@ func BuildDocument(root *Node) (*Document, error) {
 	return doc, nil
 }
 
+func addRef(to, from Object) {
+	to.AddRef(from)
+
+	// build model tree
+	if toModel, ok := to.(*Model); ok {
+		if fromModel, ok := from.(*Model); ok {
+			fromModel.Parent = toModel
+		}
+	}
+}
+
 func (doc *Document) AddObject(obj Object) int64 {
 	existing := doc.ObjectByID[obj.ID()]
 	if existing == obj {
@@ -149,19 +153,22 @@ func (doc *Document) AddObject(obj Object) int64 {
 		obj.GetNode().Attributes[0].Value = doc.newID()
 	}
 	doc.ObjectByID[obj.ID()] = obj
+	if mat, ok := obj.(*Material); ok {
+		doc.Materials = append(doc.Materials, mat)
+	}
 	objs := doc.RawNode.FindChild("Objects")
 	objs.Children = append(objs.Children, obj.GetNode())
 	return obj.ID()
 }
 
 func (doc *Document) AddConnection(parent, child Object) {
-	parent.AddRef(child)
+	addRef(parent, child)
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OO", child.ID(), parent.ID()))
 }
 
 func (doc *Document) AddPropConnection(parent, child Object, prop string) {
-	parent.AddRef(child)
+	addRef(parent, child)
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OP", child.ID(), parent.ID(), prop))
 }
diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index 4c65d49..399890f 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -23,6 +23,11 @@ func NewModel(name, kind string) *Model {
 	return model
 }
 
+func (m *Model) SetProperty(name string, prop *Property) *Property {
+	m.cachedMatrix = nil
+	return m.Obj.SetProperty(name, prop)
+}
+
 func (m *Model) GetTranslation() *geom.Vector3 {
 	return m.GetProperty("Lcl Translation").ToVector3(0, 0, 0)
 }
-- 
2.43.0


From c536ed698376f45c20049c5189eca2e5f14ec3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 024/176] fix: FBX objects without properties and properties
 without values do not panic

---
 fbx/fbx_object.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c3285c0..cb667e8 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -59,8 +59,12 @@ func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
+			var values AttributeList
+			if len(node.Attributes) > 4 {
+				values = node.Attributes[4:]
+			}
 			o.properties[node.Attr(0).ToString()] = &Property{
-				AttributeList: node.Attributes[4:],
+				AttributeList: values,
 				Type:          node.Attr(1).ToString(),
 				Label:         node.Attr(2).ToString(),
 				Flag:          node.Attr(3).ToString()}
@@ -85,6 +89,10 @@ func (o *Obj) SetProperty(name string, prop *Property) *Property {
 	}
 	attrs = append(attrs, prop.AttributeList...)
 	properties70 := o.FindChild("Properties70")
+	if properties70 == nil {
+		properties70 = &Node{Name: "Properties70"}
+		o.AddChild(properties70)
+	}
 	for _, node := range properties70.GetChildren() {
 		if node.Attr(0).ToString() == name {
 			node.Attributes = attrs
-- 
2.43.0


From 4f77592973c3f137bdd06830a75d2f015de2b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:48 +0000
Subject: [PATCH 025/176] fix: return an error for truncated or broken FBX
 binary files

---
 fbx/binary_parser.go | 100 ++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 44 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index c27d0ed..051e559 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -2,12 +2,13 @@ package fbx
 
 import (
 	"bufio"
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"fmt"
 	"io"
 	"io/ioutil"
-	"log"
+	"strings"
 )
 
 type positionReader struct {
@@ -44,10 +45,25 @@ type binaryParser struct {
 func (p *binaryParser) read(v interface{}) interface{} {
 	if p.err == nil {
 		p.err = binary.Read(p.r, binary.LittleEndian, v)
+		if p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
 	}
 	return v
 }
 
+// readBytes reads n bytes from r. The buffer grows with the data actually read.
+func (p *binaryParser) readBytes(r io.Reader, n int64) []byte {
+	var buf bytes.Buffer
+	if p.err == nil {
+		_, p.err = io.CopyN(&buf, r, n)
+		if p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
+	}
+	return buf.Bytes()
+}
+
 func (p *binaryParser) readUint8() uint8 {
 	var v uint8
 	p.read(&v)
@@ -91,9 +107,7 @@ func (p *binaryParser) readFloat64() float64 {
 }
 
 func (p *binaryParser) readString(len uint) string {
-	bytes := make([]byte, len)
-	p.read(bytes)
-	return string(bytes)
+	return string(p.readBytes(p.r, int64(len)))
 }
 
 func (p *binaryParser) readName() string {
@@ -104,6 +118,26 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	count := uint(p.readUint32())
 	encoding := p.readUint32()
 	sz := p.readUint32()
+	elemSize := map[uint8]int64{'b': 1, 'y': 2, 'i': 4, 'l': 8, 'f': 4, 'd': 8}[typ]
+	var data []byte
+	if encoding == 0 {
+		data = p.readBytes(p.r, int64(count)*elemSize)
+	} else if p.err == nil {
+		next := p.r.position + int64(sz)
+		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
+		if err != nil {
+			p.err = err
+			return nil
+		}
+		defer r.Close()
+		data = p.readBytes(r, int64(count)*elemSize)
+		if p.err == nil {
+			p.err = p.r.SkipTo(next)
+		}
+	}
+	if p.err != nil {
+		return nil
+	}
 	var buf interface{}
 	switch typ {
 	case 'b':
@@ -121,22 +155,7 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	default:
 		return nil
 	}
-	if encoding == 0 {
-		p.read(buf)
-	} else {
-		next := p.r.position + int64(sz)
-		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
-		if err != nil {
-			p.err = err
-			return &Attribute{buf}
-		}
-		defer r.Close()
-		err = binary.Read(r, binary.LittleEndian, buf)
-		if p.err == nil {
-			p.err = err
-		}
-		p.r.SkipTo(next)
-	}
+	p.err = binary.Read(bytes.NewReader(data), binary.LittleEndian, buf)
 	return &Attribute{buf}
 }
 
@@ -171,13 +190,13 @@ func (p *binaryParser) readProp() *Attribute {
 	case 'S':
 		return &Attribute{p.readString(uint(p.readUint32()))}
 	case 'R':
-		buf := make([]byte, p.readUint32())
-		p.read(buf)
-		return &Attribute{buf}
+		return &Attribute{p.readBytes(p.r, int64(p.readUint32()))}
 	case 'b', 'y', 'i', 'l', 'f', 'd':
 		return p.readPropArray(typ)
 	}
-	p.err = fmt.Errorf("unknown prop type: %v", typ)
+	if p.err == nil {
+		p.err = fmt.Errorf("unknown prop type: %v", typ)
+	}
 	return nil
 }
 
@@ -197,25 +216,17 @@ func (p *binaryParser) readNode() *Node {
 	}
 	n.Name = p.readName()
 
-	if uint64(nprop)*2 > uint64(propsz) {
-		// invalid node?
-		p.err = p.r.SkipTo(int64(next))
+	if p.err != nil || next == 0 {
 		return nil
 	}
 
-	if next == 0 {
+	if nprop < 0 || propsz < 0 || nprop > propsz/2 {
+		p.err = fmt.Errorf("invalid node: %v", n.Name)
 		return nil
 	}
 
 	for i := int64(0); i < nprop && p.err == nil; i++ {
 		n.Attributes = append(n.Attributes, p.readProp())
-		if p.err != nil {
-			log.Println(n, p.err)
-
-		}
-	}
-	if p.err != nil && p.err != io.EOF {
-		return nil
 	}
 
 	for p.r.position < next && p.err == nil {
@@ -228,7 +239,7 @@ func (p *binaryParser) readNode() *Node {
 	if p.err == nil {
 		p.err = p.r.SkipTo(next)
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil
 	}
 	return n
@@ -238,7 +249,7 @@ func (p *binaryParser) Parse() (*Node, error) {
 	magic := p.readString(21)
 	if magic != "Kaydara FBX Binary  \x00" {
 		// try parse texy. TODO
-		if magic[0] == ';' {
+		if strings.HasPrefix(magic, ";") {
 			p2 := &textParser{r: bufio.NewReader(p.r.r), buf: []byte(magic)}
 			return p2.Parse()
 		}
@@ -248,14 +259,15 @@ func (p *binaryParser) Parse() (*Node, error) {
 	p.read(&p.version)
 	root := &Node{Name: "_FBX_ROOT"}
 
-	for p.err == nil {
+	// nodes are terminated by a null record
+	for {
 		node := p.readNode()
-		if node != nil {
-			root.AddChild(node)
+		if p.err != nil {
+			return nil, p.err
 		}
+		if node == nil {
+			return root, nil
+		}
+		root.AddChild(node)
 	}
-	if p.err != nil && p.err != io.EOF {
-		return nil, p.err
-	}
-	return root, nil
 }
-- 
2.43.0


From 696dfa7bc78c8ddb5e91de172c261af51b4c0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:49 +0000
Subject: [PATCH 026/176] fix: report errors when writing FBX files

---
 fbx/fbx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fbx/fbx.go b/fbx/fbx.go
index 122da9a..c2016bb 100644
--- a/fbx/fbx.go
+++ b/fbx/fbx.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -29,12 +30,15 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-
-	return Write(w, doc)
+	err = Write(w, doc)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
-func Write(w io.Writer, doc *Document) error {
+func Write(ww io.Writer, doc *Document) error {
+	w := bufio.NewWriter(ww)
 	fmt.Fprintln(w, "; FBX 7.5.0 project file")
 	fmt.Fprintln(w, "; Generator: https://github.com/binzume/modelconv")
 	fmt.Fprintln(w, "; -----------------------------------------------")
@@ -44,5 +48,5 @@ func Write(w io.Writer, doc *Document) error {
 			n.Dump(w, 0, true)
 		}
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From e811792d383a30085edbd86c980c2976269bcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:22 +0000
Subject: [PATCH 027/176] fix: report errors when writing MQO, MQX and MQOZ
 files

---
 mqo/mqo_writer.go | 42 ++++++++++++++++++++++++++++++++----------
 mqo/mqx_writer.go | 10 ++++++----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 3b6d858..19b309a 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -275,12 +275,20 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	}
 
 	w.WriteString("Eof\n")
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
 
 	if mqxFile != "" && writer.Create != nil {
-		w, _ := writer.Create(mqxFile)
-		defer w.Close()
-		WriteMQX(mqo, w, filepath.Base(writer.path))
+		w, err := writer.Create(mqxFile)
+		if err != nil {
+			return err
+		}
+		err = WriteMQX(mqo, w, filepath.Base(writer.path))
+		if cerr := w.Close(); err == nil {
+			err = cerr
+		}
+		return err
 	}
 
 	return nil
@@ -293,11 +301,19 @@ func SaveMQOZ(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-	zw := zip.NewWriter(w)
-	defer zw.Close()
+	err = writeMQOZ(doc, w, path, name)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
 
+func writeMQOZ(doc *Document, w io.Writer, path, name string) error {
+	zw := zip.NewWriter(w)
 	mqow, err := zw.Create(name + ".mqo")
+	if err != nil {
+		return err
+	}
 	writer := NewWriter(path)
 	writer.Create = func(name string) (io.WriteCloser, error) {
 		w, err := zw.Create(name)
@@ -306,7 +322,10 @@ func SaveMQOZ(doc *Document, path string) error {
 			io.Closer
 		}{w, io.NopCloser(nil)}, err
 	}
-	return writer.WriteMQO(doc, mqow)
+	if err := writer.WriteMQO(doc, mqow); err != nil {
+		return err
+	}
+	return zw.Close()
 }
 
 func Save(doc *Document, path string) error {
@@ -317,7 +336,10 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 	doc.FixNames()
-	return NewWriter(path).WriteMQO(doc, w)
+	err = NewWriter(path).WriteMQO(doc, w)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
diff --git a/mqo/mqx_writer.go b/mqo/mqx_writer.go
index 2ef14ed..e2791e5 100644
--- a/mqo/mqx_writer.go
+++ b/mqo/mqx_writer.go
@@ -18,8 +18,10 @@ func WriteMQX(mqo *Document, w io.Writer, mqoName string) error {
 		p.PreSerialize(mqo)
 	}
 
-	xmlBuf, _ := xml.MarshalIndent(mqx, "", "    ")
-	w.Write([]byte(xml.Header))
-	w.Write(xmlBuf)
-	return nil
+	xmlBuf, err := xml.MarshalIndent(mqx, "", "    ")
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(append([]byte(xml.Header), xmlBuf...))
+	return err
 }
-- 
2.43.0


From 18a083102fee6c3a4ee97db1a1b521b5c1745417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 028/176] fix: detect the code page of MQO files correctly when
 the reader returns short reads

---
 mqo/mqo_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 34039ec..10f597a 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -49,7 +49,10 @@ func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc in
 			dst[i] = '/'
 		}
 	}
-	return n, n, nil
+	if n < len(src) {
+		err = transform.ErrShortDst
+	}
+	return n, n, err
 }
 
 func (*basckSlashReplacer) Reset() {
@@ -335,7 +338,7 @@ func (p *Parser) readObject() *Object {
 
 func (p *Parser) detectCodePage() {
 	buf := make([]byte, 128)
-	n, _ := p.r.Read(buf)
+	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
-- 
2.43.0


From 80930fdc21aab1778c5c9ea60a55eb5cdf0b640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:57 +0000
Subject: [PATCH 029/176] fix: return an error for truncated MQO and MQX files

---
 mqo/mqo_parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 10f597a..8b7547a 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -351,6 +351,7 @@ func (p *Parser) Parse() (*Document, error) {
 
 	var doc Document
 	var mqxFile string
+	var eof bool
 	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
 		if tok == scanner.Ident && p.s.TokenText() == "Material" {
 			p.procArray(func(n int) {}, func(i int) {
@@ -387,6 +388,7 @@ func (p *Parser) Parse() (*Document, error) {
 		} else if tok == scanner.Ident && p.s.TokenText() == "IncludeXml" {
 			mqxFile = p.readStr()
 		} else if tok == scanner.Ident && p.s.TokenText() == "Eof" {
+			eof = true
 			break
 		} else {
 			// log.Println(" > ", p.s.TokenText())
@@ -395,13 +397,18 @@ func (p *Parser) Parse() (*Document, error) {
 	if p.s.ErrorCount > 0 {
 		return &doc, fmt.Errorf("Parse error (count:%d)", p.s.ErrorCount)
 	}
+	if !eof {
+		return &doc, fmt.Errorf("Parse error: %w", io.ErrUnexpectedEOF)
+	}
 	if mqxFile != "" && p.Open != nil {
-		r, _ := p.Open(mqxFile)
-		if r != nil {
+		r, err := p.Open(mqxFile)
+		if err == nil {
 			defer r.Close()
-			if mqx, err := ReadMQX(r); err == nil {
-				doc.Plugins = mqx.Plugins
+			mqx, err := ReadMQX(r)
+			if err != nil {
+				return &doc, fmt.Errorf("Failed to read %s: %w", mqxFile, err)
 			}
+			doc.Plugins = mqx.Plugins
 		}
 	}
 	return &doc, nil
-- 
2.43.0


From e74ec15e8b5cb379dc1ea7ec2c67f21c9c3a2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:58 +0000
Subject: [PATCH 030/176] fix: negative or huge counts in MQO files are errors

---
 mqo/mqo_parser.go | 61 ++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8b7547a..827e5b3 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -147,13 +147,28 @@ func (p *Parser) skipBlock() {
 	}
 }
 
-func (p *Parser) procArray(init, elem func(n int), name string) {
+func (p *Parser) readCount() int {
 	n := p.readInt()
+	if n < 0 {
+		log.Printf("  Invalid count  %d\n", n)
+		p.s.ErrorCount++
+		return 0
+	}
+	return n
+}
+
+// repeat calls f n times or until the end of the file.
+func (p *Parser) repeat(n int, f func(i int)) {
+	for i := 0; i < n && p.s.Peek() != scanner.EOF; i++ {
+		f(i)
+	}
+}
+
+func (p *Parser) procArray(init, elem func(n int), name string) {
+	n := p.readCount()
 	p.skip("{")
 	init(n)
-	for i := 0; i < n; i++ {
-		elem(i)
-	}
+	p.repeat(n, elem)
 	p.skip("}")
 }
 
@@ -274,48 +289,40 @@ func (p *Parser) readObject() *Object {
 		"color":       func() { o.Color = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()} },
 		"vertex": func() {
 			p.procArray(func(n int) {
-				o.Vertexes = make([]*Vector3, n)
+				o.Vertexes = []*Vector3{}
 			}, func(i int) {
-				o.Vertexes[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
+				o.Vertexes = append(o.Vertexes, &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()})
 			}, "vertex")
 		},
 		"face": func() {
 			p.procArray(func(n int) {
-				o.Faces = make([]*Face, n)
+				o.Faces = []*Face{}
 			}, func(i int) {
 				var f Face
-				o.Faces[i] = &f
-				vn := p.readInt()
+				o.Faces = append(o.Faces, &f)
+				vn := p.readCount()
 				p.procAttrs(map[string]func(){
 					"V": func() {
-						f.Verts = make([]int, vn)
-						for i := 0; i < vn; i++ {
-							f.Verts[i] = p.readInt()
-						}
+						f.Verts = []int{}
+						p.repeat(vn, func(i int) { f.Verts = append(f.Verts, p.readInt()) })
 					},
 					"M": func() { f.Material = p.readInt() },
 					"UV": func() {
-						f.UVs = make([]Vector2, vn)
-						for i := 0; i < vn; i++ {
-							f.UVs[i] = Vector2{X: p.readFloat(), Y: p.readFloat()}
-						}
+						f.UVs = []Vector2{}
+						p.repeat(vn, func(i int) { f.UVs = append(f.UVs, Vector2{X: p.readFloat(), Y: p.readFloat()}) })
 					},
 					"N": func() {
-						flags := make([]int, vn)
-						f.Normals = make([]*Vector3, vn)
-						for i := 0; i < vn; i++ {
-							flags[i] = p.readInt()
-						}
-						for i := 0; i < vn; i++ {
-							if flags[i]&2 != 0 {
+						flags := []int{}
+						p.repeat(vn, func(i int) { flags = append(flags, p.readInt()) })
+						f.Normals = make([]*Vector3, len(flags))
+						for i, flag := range flags {
+							if flag&2 != 0 {
 								f.Normals[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
 							}
 						}
 					},
 					"CRS": func() {
-						for i := 0; i < vn; i++ {
-							p.readFloat()
-						}
+						p.repeat(vn, func(i int) { p.readFloat() })
 					},
 					"UID": func() { f.UID = p.readInt() },
 				}, fmt.Sprintf("Object %v F%v\n", o.Name, i))
-- 
2.43.0


From ffbd0ad2484bae56da305f609ccce4549b0c60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:05 +0000
Subject: [PATCH 031/176] fix: report errors when writing VRM files

---
 vrm/vrm_writer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 20f050e..4fd9b28 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -18,12 +18,28 @@ func (f *createfs) Create(name string) (io.WriteCloser, error) {
 	return os.Create(f.dir + "/" + name)
 }
 
+// errorWriter remembers the first error because gltf.Encoder ignores some of them.
+type errorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (w *errorWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.w.Write(p)
+	w.err = err
+	return n, err
+}
+
 // Write vrm file
 func Write(doc *Document, w io.Writer, path string) error {
-	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
+	ew := &errorWriter{w: w}
+	e := gltf.NewEncoderFS(ew, &createfs{os.DirFS(filepath.Dir(path)), path})
 	e.AsBinary = true
 	if err := e.Encode((*gltf.Document)(doc)); err != nil {
 		return err
 	}
-	return nil
+	return ew.err
 }
-- 
2.43.0


From b25c1ab32f78e722290cb7ce84a051a90ecac5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:05 +0000
Subject: [PATCH 032/176] fix: Euler angles near the gimbal lock were wrong
 because of float32 rounding

---
 geom/euler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom/euler.go b/geom/euler.go
index e613db3..3fedd0f 100644
--- a/geom/euler.go
+++ b/geom/euler.go
@@ -25,7 +25,7 @@ func NewEulerFromQuaternion(q *Quaternion, order RotationOrder) *EulerAngles {
 }
 
 func NewEulerFromMatrix4(mat *Matrix4, order RotationOrder) *EulerAngles {
-	const eps = 0.00000001
+	const eps = 0.0000005 // Element is float32
 	m11, m21, m31 := float64(mat[0]), float64(mat[1]), float64(mat[2])
 	m12, m22, m32 := float64(mat[4]), float64(mat[5]), float64(mat[6])
 	m13, m23, m33 := float64(mat[8]), float64(mat[9]), float64(mat[10])
-- 
2.43.0


From f7a394eda7f2b6a60704b49429335abaddb2ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:06 +0000
Subject: [PATCH 033/176] fix: use the normal of the whole polygon to
 triangulate concave polygons

---
 geom/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index 5d54cde..4d6dae6 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -36,10 +36,9 @@ func Triangulate(poly []*Vector3) [][3]int {
 	ii := make([]int, len(poly))
 	for i := range poly {
 		ii[i] = i
-		v0 := poly[(i+len(poly)-1)%len(poly)]
 		v1 := poly[i]
 		v2 := poly[(i+1)%len(poly)]
-		n = n.Add(v0.Sub(v1).Cross(v2.Sub(v1)))
+		n = n.Add(v2.Sub(poly[0]).Cross(v1.Sub(poly[0])))
 	}
 	n = n.Normalize()
 
-- 
2.43.0


From 356384bfe449e30fa31c50a405d6160d2df2b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:06 +0000
Subject: [PATCH 034/176] fix: triangulate polygons that have a vertex on a
 diagonal

---
 geom/utils.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index 4d6dae6..e52c01e 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -27,6 +27,19 @@ func IsInTriangle(p, a, b, c *Vector3) bool {
 	return c1.Dot(c2) > 0 && c2.Dot(c3) > 0 && c3.Dot(c1) > 0
 }
 
+// isOnTriangle returns true if p is in the triangle or on its edges, except the corners.
+func isOnTriangle(p, a, b, c, n *Vector3) bool {
+	if *p == *a || *p == *b || *p == *c {
+		return false
+	}
+	const eps = 0.00001
+	inner := func(a, b *Vector3) bool {
+		e, v := a.Sub(b), p.Sub(b)
+		return e.Cross(v).Dot(n) >= -eps*e.Len()*v.Len()
+	}
+	return inner(a, b) && inner(b, c) && inner(c, a)
+}
+
 func Triangulate(poly []*Vector3) [][3]int {
 	var dst [][3]int
 	if len(poly) < 3 {
@@ -44,6 +57,7 @@ func Triangulate(poly []*Vector3) [][3]int {
 
 	// O(N*N)...
 	count := len(ii)
+	checkEdges := true
 	for count >= 3 {
 		last_count := count
 		for i := count - 1; i >= 0; i-- {
@@ -59,7 +73,7 @@ func Triangulate(poly []*Vector3) [][3]int {
 				tmp = append(tmp, ii[:i]...)
 				tmp = append(tmp, ii[i+1:]...)
 				for _, i := range tmp {
-					if IsInTriangle(poly[i], v0, v1, v2) {
+					if IsInTriangle(poly[i], v0, v1, v2) || checkEdges && isOnTriangle(poly[i], v0, v1, v2, n) {
 						ok = false
 						break
 					}
@@ -74,7 +88,9 @@ func Triangulate(poly []*Vector3) [][3]int {
 				}
 			}
 		}
-		if last_count == count {
+		if last_count == count && checkEdges {
+			checkEdges = false
+		} else if last_count == count {
 			// error: maybe self-intersecting polygon
 			for i := 0; i < len(ii)-2; i++ {
 				dst = append(dst, [3]int{ii[0], ii[i+1], ii[i+2]})
-- 
2.43.0


From 46b35953ce8e7689f21b14ba861390974d933114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:03 +0000
Subject: [PATCH 035/176] fix: set the rotation of MQO objects in the order in
 which it is read

---
 mqo/mqo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ed9d77..3b7e4ae 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -286,8 +286,7 @@ func NewObject(name string) *Object {
 }
 
 func (o *Object) SetRotation(r *geom.Quaternion) {
-	// RotationOrderYXZ?
-	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderZXY).Vector3.Scale(180 / math.Pi)
+	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderYXZ).Vector3.Scale(180 / math.Pi)
 }
 
 func (o *Object) GetRotation() *geom.Quaternion {
-- 
2.43.0


From a8a2989e5dd97805737de032287f42339b44096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 036/176] fix: do not apply the transform repeatedly to nested
 MQO objects

---
 mqo/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 1de0fd7..65a1a28 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -29,8 +29,13 @@ func (o *Object) ApplyTransform(transform *Matrix4) {
 
 // Transform all objects and plugins
 func (doc *Document) ApplyTransform(transform *Matrix4) {
-	for _, o := range doc.Objects {
-		o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+	rootDepth := 0
+	for i, o := range doc.Objects {
+		if i == 0 || o.Depth <= rootDepth {
+			// local transforms of other objects are relative to the parent
+			rootDepth = o.Depth
+			o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+		}
 		o.ApplyTransform(transform)
 	}
 	for _, p := range doc.Plugins {
-- 
2.43.0


From 2978f334aeeb457f353d0a0116283a6cb07b14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:06 +0000
Subject: [PATCH 037/176] fix: keep normals normalized when MQO objects are
 scaled

---
 mqo/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 65a1a28..381457e 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -21,7 +21,7 @@ func (o *Object) ApplyTransform(transform *Matrix4) {
 	for _, f := range o.Faces {
 		for i, n := range f.Normals {
 			if n != nil {
-				f.Normals[i] = normalTransform.ApplyTo(n)
+				f.Normals[i] = normalTransform.ApplyTo(n).Normalize()
 			}
 		}
 	}
-- 
2.43.0


From c996671ea39ce1f32715c6824ad74d770132845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:07 +0000
Subject: [PATCH 038/176] fix: supply missing normals of faces that have only
 some normals

---
 mqo/utils.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 381457e..d60aeaa 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -70,15 +70,24 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 func (obj *Object) FixhNormals() {
 	var normals []Vector3
 	for _, f := range obj.Faces {
-		if len(f.Normals) == len(f.Verts) {
+		if len(f.Normals) != len(f.Verts) {
+			f.Normals = make([]*Vector3, len(f.Verts))
+		}
+		missing := false
+		for _, n := range f.Normals {
+			missing = missing || n == nil
+		}
+		if !missing {
 			continue
 		}
 		if normals == nil {
 			normals = obj.GetSmoothNormals()
 		}
-		f.Normals = make([]*Vector3, len(f.Verts))
 		for i, v := range f.Verts {
-			f.Normals[i] = &normals[v]
+			if f.Normals[i] == nil {
+				n := normals[v]
+				f.Normals[i] = &n
+			}
 		}
 	}
 }
-- 
2.43.0


From 0485713836b98e244af75139e833b214f25aec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:09 +0000
Subject: [PATCH 039/176] fix: clone all attributes of MQO objects

---
 mqo/mqo.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 3b7e4ae..89e1715 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -306,6 +306,32 @@ func (o *Object) SetLocalTransform(mat *geom.Matrix4) {
 
 func (o *Object) Clone() *Object {
 	var cp = *o
+	cloneVec := func(v *Vector3) *Vector3 {
+		if v == nil {
+			return nil
+		}
+		vv := *v
+		return &vv
+	}
+	cp.Scale = cloneVec(o.Scale)
+	cp.Rotation = cloneVec(o.Rotation)
+	cp.Translation = cloneVec(o.Translation)
+	cp.Color = cloneVec(o.Color)
+	if o.InternalTransform != nil {
+		cp.InternalTransform = o.InternalTransform.Clone()
+	}
+	if o.VertexByUID != nil {
+		cp.VertexByUID = map[int]int{}
+		for k, v := range o.VertexByUID {
+			cp.VertexByUID[k] = v
+		}
+	}
+	if o.Extra != nil {
+		cp.Extra = map[string]interface{}{}
+		for k, v := range o.Extra {
+			cp.Extra[k] = v
+		}
+	}
 	cp.Vertexes = make([]*Vector3, len(o.Vertexes))
 	for i, v := range o.Vertexes {
 		vv := *v
@@ -313,9 +339,12 @@ func (o *Object) Clone() *Object {
 	}
 	cp.Faces = make([]*Face, len(o.Faces))
 	for i, v := range o.Faces {
-		d := &Face{Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs))}
+		d := &Face{UID: v.UID, Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs))}
 		copy(d.Verts, v.Verts)
 		copy(d.UVs, v.UVs)
+		for _, n := range v.Normals {
+			d.Normals = append(d.Normals, cloneVec(n))
+		}
 		cp.Faces[i] = d
 	}
 	return &cp
-- 
2.43.0


From 44d345578caa573d7ca8f2fd165f6a4178c14585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:10 +0000
Subject: [PATCH 040/176] fix: assign unique IDs to MQO objects

---
 mqo/mqo.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 89e1715..9ad085a 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -29,9 +29,24 @@ func (doc *Document) GetPlugins() []Plugin {
 }
 
 func (doc *Document) FixObjectID() {
+	used := map[int]bool{}
+	for _, obj := range doc.Objects {
+		used[obj.UID] = true
+	}
 	for i, obj := range doc.Objects {
+		if obj.UID == 0 && !used[i+1] {
+			obj.UID = i + 1
+			used[obj.UID] = true
+		}
+	}
+	next := 1
+	for _, obj := range doc.Objects {
 		if obj.UID == 0 {
-			obj.UID = i + 1 // TODO: unique id
+			for used[next] {
+				next++
+			}
+			obj.UID = next
+			used[next] = true
 		}
 	}
 }
-- 
2.43.0


From fc63322a9765ed47928e65c0690a6e5b266d7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:51 +0000
Subject: [PATCH 041/176] fix: keep names that are already unique when fixing
 duplicated names

---
 mqo/mqo.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ad085a..a0d8e77 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -79,24 +79,34 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 
 func (doc *Document) FixNames() {
 	objNames := map[string]bool{}
+	allObjNames := map[string]bool{}
+	for _, obj := range doc.Objects {
+		allObjNames[obj.Name] = true
+	}
 	for _, obj := range doc.Objects {
 		if objNames[obj.Name] {
 			n := 2
-			for objNames[fmt.Sprintf("%s_%d", obj.Name, n)] {
+			for allObjNames[fmt.Sprintf("%s_%d", obj.Name, n)] {
 				n++
 			}
 			obj.Name = fmt.Sprintf("%s_%d", obj.Name, n)
+			allObjNames[obj.Name] = true
 		}
 		objNames[obj.Name] = true
 	}
 	matNames := map[string]bool{}
+	allMatNames := map[string]bool{}
+	for _, mat := range doc.Materials {
+		allMatNames[mat.Name] = true
+	}
 	for _, mat := range doc.Materials {
 		if matNames[mat.Name] {
 			n := 2
-			for matNames[fmt.Sprintf("%s_%d", mat.Name, n)] {
+			for allMatNames[fmt.Sprintf("%s_%d", mat.Name, n)] {
 				n++
 			}
 			mat.Name = fmt.Sprintf("%s_%d", mat.Name, n)
+			allMatNames[mat.Name] = true
 		}
 		matNames[mat.Name] = true
 	}
-- 
2.43.0


From 2f8528f4d7fcdabc4fa5bfd73c435e006c5a99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:52 +0000
Subject: [PATCH 042/176] fix: ignore material morphs of unknown materials

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From 4d0efd4e41951cb9910b10712aed3bf160993e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:53 +0000
Subject: [PATCH 043/176] fix: add weights to the existing list when a loaded
 bone is edited

---
 mqo/bone_plugin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 6871a0c..29d9e98 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -151,6 +151,13 @@ func (v *Vector3Attr) UnmarshalXMLAttr(attr xml.Attr) error {
 
 func (b *Bone) SetVertexWeight(objectID, vertID int, weight float32) *VertexWeight {
 	w := b.weightMap[objectID]
+	if w == nil {
+		for _, bw := range b.Weights {
+			if bw.ObjectID == objectID {
+				w = bw
+			}
+		}
+	}
 	if w == nil {
 		if b.weightMap == nil {
 			b.weightMap = map[int]*BoneWeight2{}
-- 
2.43.0


From 4cfd5d515a46b77e4ce7e3ff6c87a5ef8e650afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:55 +0000
Subject: [PATCH 044/176] fix: rotate child bones that precede their parent

---
 mqo/bone_plugin.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 29d9e98..a14fb65 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -259,11 +259,14 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 	boneFn(baseBone)
 
-	// broken if bone.Parent > bone.ID ...
-	for _, b := range bones {
-		if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
-			boneFn(b)
-			targetBones[b] = true
+	for updated := true; updated; { // a child may precede its parent
+		updated = false
+		for _, b := range bones {
+			if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
+				boneFn(b)
+				targetBones[b] = true
+				updated = true
+			}
 		}
 	}
 
-- 
2.43.0


From 64eceeb2987edc956b54cafbdde2962bbce64c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:56 +0000
Subject: [PATCH 045/176] fix: rotate objects without ID and ignore weights of
 unknown vertices

---
 mqo/bone_plugin.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index a14fb65..5be21a9 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -270,6 +270,7 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 		}
 	}
 
+	doc.FixObjectID()
 	// Morph target
 	objectByName := map[string]int{}
 	for _, obj := range doc.Objects {
@@ -296,8 +297,9 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 				}
 				for _, vw := range bw.Vertexes {
 					w := vw.Weight / 100
-					v := obj.Vertexes[obj.GetVertexIndexByID(vw.VertexID)]
-					verts[v] += w
+					if vi := obj.GetVertexIndexByID(vw.VertexID); vi >= 0 && vi < len(obj.Vertexes) {
+						verts[obj.Vertexes[vi]] += w
+					}
 				}
 			}
 		}
-- 
2.43.0


From f8f861d8e1e6edfeef67287a2e7776069e732d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:57 +0000
Subject: [PATCH 046/176] fix: transform the positions of physics constraints
 too

---
 mqo/physics_plugin.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqo/physics_plugin.go b/mqo/physics_plugin.go
index 30ce287..b7a3df9 100644
--- a/mqo/physics_plugin.go
+++ b/mqo/physics_plugin.go
@@ -99,4 +99,8 @@ func (p *PhysicsPlugin) ApplyTransform(transform *Matrix4) {
 			s.Size.X, s.Size.Y, s.Size.Z = geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Z)
 		}
 	}
+	for _, c := range p.Constraints {
+		pos := geom.Vector3(c.Position)
+		c.Position = Vector3XmlAttr(*transform.ApplyTo(&pos))
+	}
 }
-- 
2.43.0


From 2063b339c44547093ea8af91cdf17e830f02f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:42 +0000
Subject: [PATCH 047/176] fix: world transforms of MQO objects include the
 transforms of their parents

---
 mqo/mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index a0d8e77..f438456 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -66,7 +66,7 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 	dt := []*Matrix4{geom.NewMatrix4()}
 
 	for _, o := range doc.Objects {
-		for len(dd) > 1 && dd[len(dd)-1] <= o.Depth {
+		for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {
 			dd = dd[:len(dd)-1]
 			dt = dt[:len(dt)-1]
 		}
-- 
2.43.0


From 78e9e5c59a82f0c13dd8afcfffa500380e466b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 048/176] fix: bones whose parent does not exist become root
 nodes of the glTF document

---
 converter/mqo2gltf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..c30e367 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -190,8 +190,7 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if b.Parent > 0 {
-			parent := bonemap[b.Parent]
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From c30b25eee4d5ad3100319659d73a732d3a87a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 049/176] fix: keep the four heaviest weights of a vertex and
 ignore weights of unknown vertices

---
 converter/mqo2gltf.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index c30e367..0ec2755 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -232,9 +232,15 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 				weights = make([][4]float32, vs)
 				njoint = make([]int, vs)
 			}
-			jointIds = append(jointIds, boneIDToJoint[b.ID])
+			if jointId := boneIDToJoint[b.ID]; len(jointIds) == 0 || jointIds[len(jointIds)-1] != jointId {
+				jointIds = append(jointIds, jointId)
+			}
 			for _, vw := range bw.Vertexes {
 				v := obj.GetVertexIndexByID(vw.VertexID)
+				if v < 0 || v >= vs {
+					log.Println("WARNING: invalid weight. V:", vw.VertexID, " O:", obj.Name)
+					continue
+				}
 				jindex := njoint[v]
 				njoint[v]++
 				if jindex >= 4 {
@@ -250,28 +256,23 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 						continue
 					}
 				}
-				if v < 0 || v >= vs {
-					log.Fatal("invalid weight. V:", vw.VertexID, " O:", obj.Name)
-				}
 				joints[v][jindex] = uint16(len(jointIds)) - 1
 				weights[v][jindex] = vw.Weight * 0.01
 			}
-			for _, vw := range bw.Vertexes {
-				v := obj.GetVertexIndexByID(vw.VertexID)
-				if njoint[v] > 4 {
-					log.Println("WWARNING: njoint > 4. V:", vw.VertexID, " O:", obj.Name)
-					var sum float32 = 0
-					for _, w := range weights[v] {
-						sum += w
-					}
-					if sum > 0 {
-						for i := range weights[v] {
-							weights[v][i] /= sum
-						}
-					}
+		}
+	}
+	for v, n := range njoint {
+		if n > 4 {
+			log.Println("WARNING: njoint > 4. V:", v, " O:", obj.Name)
+			var sum float32 = 0
+			for _, w := range weights[v] {
+				sum += w
+			}
+			if sum > 0 {
+				for i := range weights[v] {
+					weights[v][i] /= sum
 				}
 			}
-
 		}
 	}
 	return jointIds, joints, weights
-- 
2.43.0


From 23ef6a3226ab90b745fc690e363390aa95e0a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:43 +0000
Subject: [PATCH 050/176] fix: morph targets of meshes without normals must not
 refer to an unrelated accessor

---
 converter/mqo2gltf.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0ec2755..57ddca3 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -698,15 +698,21 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	var targets []map[string]uint32
 	var targetNames []string
 	for _, morphObj := range morphObjs {
+		if len(materials) == 0 {
+			break
+		}
 		var mv [][3]float32
 		for _, i := range srcIndices {
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From eb19bf9e9c1b380a3393e6253115bf4ee5e2ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:45 +0000
Subject: [PATCH 051/176] fix: ignore morph targets that do not exist when
 converting to glTF

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 57ddca3..9a39f1e 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -828,7 +828,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		if m.convertMorph {
 			if morph, ok := morphBases[obj.Name]; ok {
 				for _, t := range morph.Target {
-					if len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
 						log.Print("unmached morph target: ", t.Name)
 						continue
 					}
-- 
2.43.0


From 1a0f48615cc3538ed7a5e0178ea52cbd4b9aa175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 052/176] fix: glTF nodes without mesh must not have a skin

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 9a39f1e..80e0218 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -853,7 +853,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
 			}
-			if len(joints) > 0 {
+			if len(joints) > 0 && node.Mesh != nil {
 				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
 			}
 			if m.ExportLights {
-- 
2.43.0


From d2148535689245c9409c11c8ad750c552befe5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:49 +0000
Subject: [PATCH 053/176] fix: write the extensions of a glTF document in a
 fixed order

---
 converter/mqo2gltf.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 80e0218..5659cf6 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
@@ -926,6 +927,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for ext := range m.extensions {
 		m.ExtensionsUsed = append(m.ExtensionsUsed, ext)
 	}
+	sort.Strings(m.ExtensionsUsed)
 
 	if len(m.Document.Textures) > 0 {
 		m.Document.Samplers = []*gltf.Sampler{{}}
-- 
2.43.0


From 7b05acf6608a77ed1f473ec022a6194a36d46992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:24 +0000
Subject: [PATCH 054/176] fix: keep the object hierarchy in glTF when depths
 have gaps or parents are not converted

---
 converter/mqo2gltf.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 5659cf6..6a7ed6f 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -822,8 +822,20 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 	}
 
+	parents := map[*mqo.Object]*mqo.Object{}
+	var objectPath []*mqo.Object
+	for _, obj := range doc.Objects {
+		for len(objectPath) > 0 && objectPath[len(objectPath)-1].Depth >= obj.Depth {
+			objectPath = objectPath[:len(objectPath)-1]
+		}
+		if len(objectPath) > 0 {
+			parents[obj] = objectPath[len(objectPath)-1]
+		}
+		objectPath = append(objectPath, obj)
+	}
+
 	var lights []map[string]interface{}
-	var nodePath []*gltf.Node
+	parentNodes := map[*mqo.Object]*gltf.Node{}
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
@@ -881,17 +893,17 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		m.Nodes[i] = node
 		// node.AddChild()
-		if len(nodePath) > obj.Depth {
-			nodePath = nodePath[:obj.Depth]
+		var parent *gltf.Node
+		for p := parents[obj]; p != nil && parent == nil; p = parents[p] {
+			parent = parentNodes[p]
 		}
-		if !m.IgnoreObjectHierarchy && len(nodePath) > 0 {
-			parent := nodePath[len(nodePath)-1]
+		if !m.IgnoreObjectHierarchy && parent != nil {
 			parent.Children = append(parent.Children, uint32(i))
 		} else {
 			m.Scenes[0].Nodes = append(m.Scenes[0].Nodes, uint32(i))
 		}
 		if node.MatrixOrDefault() == gltf.DefaultMatrix {
-			nodePath = append(nodePath, node)
+			parentNodes[obj] = node
 		}
 
 		// Physics
-- 
2.43.0


From c2406ed44297afe448b7e4d55730c3fbf3cd81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 055/176] fix: place glTF meshes that share their geometry at
 the position of their objects

---
 converter/mqo2gltf.go | 61 ++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 6a7ed6f..34d9b53 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"sort"
 	"strings"
 
@@ -137,10 +138,18 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 }
 
 type geomCache struct {
-	count      int
-	attributes map[string]uint32
-	indices    []uint32
-	matrix     *geom.Matrix4
+	count       int
+	vertexCount int
+	indexData   [][]uint32
+	attributes  map[string]uint32
+	indices     []uint32
+	matrix      *geom.Matrix4
+}
+
+func (c *geomCache) isCompatible(vertexCount int, indexData [][]uint32, texcoord, normal bool) bool {
+	_, hasTexcoord := c.attributes["TEXCOORD_0"]
+	_, hasNormal := c.attributes["NORMAL"]
+	return c.vertexCount == vertexCount && hasTexcoord == texcoord && hasNormal == normal && reflect.DeepEqual(c.indexData, indexData)
 }
 
 func NewMQOToGLTFConverter(options *MQOToGLTFOption) *mqoToGltf {
@@ -664,21 +673,28 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	}
 
 	attributes := map[string]uint32{}
+	useNormal := obj.Shading > 0 && !m.ForceUnlit
+	var indexData [][]uint32
+	for _, mat := range materials {
+		indexData = append(indexData, indices[mat])
+	}
+	if partial || len(joints) > 0 || len(morphObjs) > 0 || len(materials) == 0 {
+		shared = nil
+	}
+	if shared != nil && shared.attributes != nil && !shared.isCompatible(len(vertexes), indexData, useTexcood0, useNormal) {
+		shared = nil
+	}
 
-	if !partial && shared != nil && shared.attributes != nil {
-		attributes["POSITION"] = shared.attributes["POSITION"]
-		if useTexcood0 {
-			attributes["TEXCOORD_0"] = shared.attributes["TEXCOORD_0"]
-		}
-		if obj.Shading > 0 && !m.ForceUnlit {
-			attributes["NORMAL"] = shared.attributes["NORMAL"]
+	if shared != nil && shared.attributes != nil {
+		for name, accessor := range shared.attributes {
+			attributes[name] = accessor
 		}
 	} else if len(vertexes) > 0 {
 		attributes["POSITION"] = modeler.WritePosition(m.Document, vertexes)
 		if useTexcood0 {
 			attributes["TEXCOORD_0"] = modeler.WriteTextureCoord(m.Document, texcood0)
 		}
-		if obj.Shading > 0 && !m.ForceUnlit {
+		if useNormal {
 			attributes["NORMAL"] = modeler.WriteNormal(m.Document, normals)
 		}
 	}
@@ -688,8 +704,10 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		attributes["WEIGHTS_0"] = modeler.WriteWeights(m.Document, weights0)
 	}
 
-	if !partial && shared != nil && shared.attributes == nil {
+	if shared != nil && shared.attributes == nil {
 		shared.attributes = attributes
+		shared.vertexCount = len(vertexes)
+		shared.indexData = indexData
 		for _, mat := range materials {
 			shared.indices = append(shared.indices, modeler.WriteIndices(m.Document, indices[mat]))
 		}
@@ -718,7 +736,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	}
 
 	var indicesAccessors []uint32
-	if !partial && shared != nil {
+	if shared != nil {
 		indicesAccessors = shared.indices
 	} else {
 		for _, mat := range materials {
@@ -854,14 +872,21 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		if obj.Visible {
 			var shared *geomCache
 			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok {
-				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 {
+				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 && obj.InternalTransform != nil {
 					shared = sharedGeoms[key]
-					if shared.matrix == nil {
-						shared.matrix = obj.InternalTransform.Inverse()
-					}
 				}
 			}
+			if shared != nil && shared.attributes == nil && obj.InternalTransform.Det() == 0 {
+				shared = nil
+			}
 			mesh, joints := m.ConvertObject(obj, bones, boneIDToJoint, morphTargets, materialMap, shared, uvBounds)
+			if shared != nil {
+				if shared.attributes == nil || len(mesh.Primitives) == 0 || mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"] {
+					shared = nil
+				} else if shared.matrix == nil {
+					shared.matrix = obj.InternalTransform.TranslationScale(m.Scale).Inverse()
+				}
+			}
 			if len(mesh.Primitives) > 0 {
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
-- 
2.43.0


From 7be3099ed417bf1eafbfc7e4ae45e10a4adc78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:27 +0000
Subject: [PATCH 056/176] fix: do not move the mesh of an object that has a
 light too

---
 converter/mqo2gltf.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 34d9b53..8bc7c40 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -894,16 +894,25 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			if len(joints) > 0 && node.Mesh != nil {
 				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
 			}
+			lightNode := node
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-					if node.Extensions == nil {
-						node.Extensions = gltf.Extensions{}
+					if node.Mesh != nil {
+						lightNode = &gltf.Node{Name: obj.Name}
+						node.Children = append(node.Children, uint32(len(m.Nodes)))
+						m.Nodes = append(m.Nodes, lightNode)
 					}
-					node.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
+					if lightNode.Extensions == nil {
+						lightNode.Extensions = gltf.Extensions{}
+					}
+					lightNode.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
 					lights = append(lights, lightParam)
+					if lightNode != node && obj.InternalTransform != nil && shared == nil {
+						obj.InternalTransform.TranslationScale(m.Scale).ToArray(lightNode.Matrix[:])
+					}
 				}
 			}
-			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
+			if (m.ExportLights && obj.Extra["light"] != nil && lightNode == node || shared != nil) && obj.InternalTransform != nil {
 				m := obj.InternalTransform.TranslationScale(m.Scale)
 				if shared != nil {
 					m = m.Mul(shared.matrix)
-- 
2.43.0


From aec8f290369b6265f6d4744652f1208216dd9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:28 +0000
Subject: [PATCH 057/176] fix: read textures with absolute paths that have to
 be encoded again

---
 converter/mqo2gltf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 8bc7c40..e058521 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -122,7 +122,11 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 		return t.img, t.err
 	}
 
-	f, err := os.Open(filepath.Join(c.srcDir, t.name))
+	path := t.name
+	if !filepath.IsAbs(path) {
+		path = filepath.Join(c.srcDir, t.name)
+	}
+	f, err := os.Open(path)
 	if err != nil {
 		t.err = err
 		return nil, err
-- 
2.43.0


From 53f8ad5cc50753e876e7bca409b1da023288ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:59 +0000
Subject: [PATCH 058/176] fix: detect transparent textures of faces that cover
 the whole texture

---
 converter/mqo2gltf.go | 54 +++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index e058521..c3b5edd 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -74,26 +74,37 @@ type uvrect struct {
 	top, bottom, left, right float32
 }
 
-func newUVRectFromPoint(p geom.Vector2) *uvrect {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	return &uvrect{y, y, x, x}
+// newUVRect returns the area of the texture that is covered by a polygon. (UVs are repeated)
+func newUVRect(uvs []geom.Vector2) *uvrect {
+	b := &uvrect{uvs[0].Y, uvs[0].Y, uvs[0].X, uvs[0].X}
+	for _, p := range uvs[1:] {
+		b.Add(&uvrect{p.Y, p.Y, p.X, p.X})
+	}
+	b.left, b.right = wrapUVRange(b.left, b.right)
+	b.top, b.bottom = wrapUVRange(b.top, b.bottom)
+	return b
 }
 
-func (b *uvrect) Add(p geom.Vector2) {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	if x < b.left {
-		b.left = x
+func wrapUVRange(min, max float32) (float32, float32) {
+	base := float32(math.Floor(float64(min)))
+	if max-base > 1 {
+		return 0, 1
 	}
-	if x > b.right {
-		b.right = x
+	return min - base, max - base
+}
+
+func (b *uvrect) Add(r *uvrect) {
+	if r.left < b.left {
+		b.left = r.left
+	}
+	if r.right > b.right {
+		b.right = r.right
 	}
-	if y < b.top {
-		b.top = y
+	if r.top < b.top {
+		b.top = r.top
 	}
-	if y > b.bottom {
-		b.bottom = y
+	if r.bottom > b.bottom {
+		b.bottom = r.bottom
 	}
 }
 
@@ -326,9 +337,9 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			b := img.Bounds()
 			r := image.Rectangle{
 				Min: image.Point{X: int(float32(b.Dx()) * rect.left), Y: int(float32(b.Dy()) * rect.top)},
-				Max: image.Point{X: int(float32(b.Dx()) * rect.right), Y: int(float32(b.Dy()) * rect.bottom)},
+				Max: image.Point{X: int(math.Ceil(float64(float32(b.Dx()) * rect.right))), Y: int(math.Ceil(float64(float32(b.Dy()) * rect.bottom)))},
 			}
-			img = s.SubImage(r)
+			img = s.SubImage(r.Add(b.Min))
 		}
 	}
 	switch img.ColorModel() {
@@ -630,10 +641,10 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		copy(verts, f.Verts)
 		if len(f.UVs) > 0 {
 			useTexcood0 = true
-			bounds := uvBounds[f.Material]
-			if bounds == nil {
-				bounds = newUVRectFromPoint(f.UVs[0])
-				uvBounds[f.Material] = bounds
+			if bounds := uvBounds[f.Material]; bounds != nil {
+				bounds.Add(newUVRect(f.UVs))
+			} else {
+				uvBounds[f.Material] = newUVRect(f.UVs)
 			}
 
 			for i, index := range verts {
@@ -663,7 +674,6 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 				indicesMap[index] = append(indicesMap[index], verts[i])
 				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
 				normal.ToArray(normals[verts[i]][:])
-				bounds.Add(f.UVs[i])
 			}
 		} else {
 			for i, index := range verts {
-- 
2.43.0


From dfdb51de4bf95e68c26f07247fbf36317d070fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:01 +0000
Subject: [PATCH 059/176] fix: detect transparent textures with a palette or 16
 bits per channel

---
 converter/mqo2gltf.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index c3b5edd..674d71c 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -17,7 +17,6 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 
 	"image"
-	"image/color"
 	"image/jpeg"
 	"image/png"
 
@@ -342,13 +341,8 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			img = s.SubImage(r.Add(b.Min))
 		}
 	}
-	switch img.ColorModel() {
-	case color.YCbCrModel, color.CMYKModel:
-		return false
-	case color.RGBAModel:
-		return !img.(*image.RGBA).Opaque()
-	case color.NRGBAModel:
-		return !img.(*image.NRGBA).Opaque()
+	if img, ok := img.(interface{ Opaque() bool }); ok {
+		return !img.Opaque()
 	}
 	return false
 }
-- 
2.43.0


From 0eadc227134e8e9ebbfe36e599122c4160979093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:03 +0000
Subject: [PATCH 060/176] fix: do not drop textures that become smaller than a
 pixel by scaling

---
 converter/mqo2gltf.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 674d71c..585b109 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -362,7 +362,14 @@ func scaleTexture(texture string, mime string, textures *textureCache, scale flo
 	}
 
 	if scale != 1.0 {
-		dst := image.NewRGBA(image.Rect(0, 0, int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)))
+		w, h := int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)
+		if w < 1 {
+			w = 1
+		}
+		if h < 1 {
+			h = 1
+		}
+		dst := image.NewRGBA(image.Rect(0, 0, w, h))
 		draw.CatmullRom.Scale(dst, dst.Bounds(), img, rect, draw.Over, nil)
 		img = dst
 	}
-- 
2.43.0


From daa796edd6abd3c494e9522bd3b4584b8e5fbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:59 +0000
Subject: [PATCH 061/176] fix: keep the normals of faces that share a vertex
 when converting to glTF

---
 converter/mqo2gltf.go | 57 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 585b109..d558a31 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -31,6 +31,7 @@ import (
 )
 
 var TextureUVEpsilon float32 = 0.0001
+var NormalEpsilon float32 = 0.0001
 
 type MQOToGLTFOption struct {
 	Scale      float32 // Default: 0.001
@@ -628,6 +629,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	texcood0 := make([][2]float32, len(vertexes))
 	indicesMap := map[int][]int{}
 	useTexcood0 := false
+	useNormal := obj.Shading > 0 && !m.ForceUnlit
 	partial := false
 	for _, f := range obj.Faces {
 		if len(f.Verts) < 3 {
@@ -647,39 +649,41 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			} else {
 				uvBounds[f.Material] = newUVRect(f.UVs)
 			}
+		}
 
-			for i, index := range verts {
-				assigned := indicesMap[index]
-				normal := f.Normals[i]
-				if assigned != nil {
-					vi := -1
-					for _, v := range assigned {
-						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon {
-							verts[i] = v
-							vi = v
-						}
-					}
-					if vi >= 0 {
+		for i, index := range verts {
+			assigned := indicesMap[index]
+			normal := f.Normals[i]
+			if assigned != nil {
+				vi := -1
+				for _, v := range assigned {
+					if len(f.UVs) > 0 && f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() >= TextureUVEpsilon {
 						continue
 					}
-					verts[i] = len(vertexes)
-					srcIndices = append(srcIndices, index)
-					vertexes = append(vertexes, vertexes[index])
-					texcood0 = append(texcood0, [2]float32{})
-					normals = append(normals, [3]float32{})
-					if len(joints) > 0 {
-						joints0 = append(joints0, joints0[index])
-						weights0 = append(weights0, weights0[index])
+					if useNormal && normal.Sub(&geom.Vector3{X: normals[v][0], Y: normals[v][1], Z: normals[v][2]}).LenSqr() >= NormalEpsilon {
+						continue
 					}
+					verts[i] = v
+					vi = v
+				}
+				if vi >= 0 {
+					continue
+				}
+				verts[i] = len(vertexes)
+				srcIndices = append(srcIndices, index)
+				vertexes = append(vertexes, vertexes[index])
+				texcood0 = append(texcood0, [2]float32{})
+				normals = append(normals, [3]float32{})
+				if len(joints) > 0 {
+					joints0 = append(joints0, joints0[index])
+					weights0 = append(weights0, weights0[index])
 				}
-				indicesMap[index] = append(indicesMap[index], verts[i])
-				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
-				normal.ToArray(normals[verts[i]][:])
 			}
-		} else {
-			for i, index := range verts {
-				f.Normals[i].ToArray(normals[index][:])
+			indicesMap[index] = append(indicesMap[index], verts[i])
+			if len(f.UVs) > 0 {
+				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
 			}
+			normal.ToArray(normals[verts[i]][:])
 		}
 		if _, exists := indices[mat]; !exists {
 			materials = append(materials, mat)
@@ -688,7 +692,6 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	}
 
 	attributes := map[string]uint32{}
-	useNormal := obj.Shading > 0 && !m.ForceUnlit
 	var indexData [][]uint32
 	for _, mat := range materials {
 		indexData = append(indexData, indices[mat])
-- 
2.43.0


From d07c9c7938880a012bce632577df71ddc92431ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:37 +0000
Subject: [PATCH 062/176] fix: convert all morph target lists of an object to
 glTF

---
 converter/mqo2gltf.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index d558a31..8422295 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -788,7 +788,7 @@ func (m *mqoToGltf) checkMaterials(obj *mqo.Object, materials map[int]bool) {
 func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Document, error) {
 	objectByName := map[string]*mqo.Object{}
 	morphTargets := map[string]*mqo.Object{}
-	morphBases := map[string]*mqo.MorphTargetList{}
+	morphBases := map[string][]*mqo.MorphTarget{}
 	uvBounds := map[int]*uvrect{}
 	for _, obj := range doc.Objects {
 		objectByName[obj.Name] = obj
@@ -796,7 +796,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	morphs := mqo.GetMorphPlugin(doc).Morphs()
 	for _, m := range morphs {
-		morphBases[m.Base] = m
+		morphBases[m.Base] = append(morphBases[m.Base], m.Target...)
 		for _, t := range m.Target {
 			morphTargets[t.Name] = objectByName[t.Name]
 		}
@@ -875,14 +875,12 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
-			if morph, ok := morphBases[obj.Name]; ok {
-				for _, t := range morph.Target {
-					if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
-						log.Print("unmached morph target: ", t.Name)
-						continue
-					}
-					morphTargets = append(morphTargets, objectByName[t.Name])
+			for _, t := range morphBases[obj.Name] {
+				if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					log.Print("unmached morph target: ", t.Name)
+					continue
 				}
+				morphTargets = append(morphTargets, objectByName[t.Name])
 			}
 		}
 
-- 
2.43.0


From e513c5ba54b5b32e4fc98a39d03f1bed5a635f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 063/176] fix: do not skin glTF meshes that have no weighted
 vertices

---
 converter/mqo2gltf.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 8422295..7fcdd2e 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -252,20 +252,20 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 			if bw.ObjectID != obj.UID {
 				continue
 			}
-			if joints == nil {
-				joints = make([][4]uint16, vs)
-				weights = make([][4]float32, vs)
-				njoint = make([]int, vs)
-			}
-			if jointId := boneIDToJoint[b.ID]; len(jointIds) == 0 || jointIds[len(jointIds)-1] != jointId {
-				jointIds = append(jointIds, jointId)
-			}
 			for _, vw := range bw.Vertexes {
 				v := obj.GetVertexIndexByID(vw.VertexID)
 				if v < 0 || v >= vs {
 					log.Println("WARNING: invalid weight. V:", vw.VertexID, " O:", obj.Name)
 					continue
 				}
+				if joints == nil {
+					joints = make([][4]uint16, vs)
+					weights = make([][4]float32, vs)
+					njoint = make([]int, vs)
+				}
+				if jointId := boneIDToJoint[b.ID]; len(jointIds) == 0 || jointIds[len(jointIds)-1] != jointId {
+					jointIds = append(jointIds, jointId)
+				}
 				jindex := njoint[v]
 				njoint[v]++
 				if jindex >= 4 {
-- 
2.43.0


From 2504fdfa236f1ab93cb23db1caf920dae283933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:10 +0000
Subject: [PATCH 064/176] fix: normals at concave corners of MQO faces pointed
 to the wrong side

---
 mqo/utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mqo/utils.go b/mqo/utils.go
index d60aeaa..d0f855c 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -49,6 +49,11 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 	normal := make([]Vector3, len(obj.Vertexes))
 
 	for _, face := range obj.Faces {
+		faceNormal := &Vector3{}
+		for i := 2; i < len(face.Verts); i++ {
+			v0 := obj.Vertexes[face.Verts[0]]
+			faceNormal = faceNormal.Add(obj.Vertexes[face.Verts[i]].Sub(v0).Cross(obj.Vertexes[face.Verts[i-1]].Sub(v0)))
+		}
 		for i, v := range face.Verts {
 			if len(face.Normals) > i && face.Normals[i] != nil {
 				normal[v] = *normal[v].Add(face.Normals[i])
@@ -58,6 +63,9 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 			v2 := obj.Vertexes[face.Verts[(i+1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			cross := Vector3{X: v1.Y*v2.Z - v1.Z*v2.Y, Y: v1.Z*v2.X - v1.X*v2.Z, Z: v1.X*v2.Y - v1.Y*v2.X}
 			cross.Normalize()
+			if cross.Dot(faceNormal) < 0 {
+				cross = *cross.Scale(-1) // concave corner
+			}
 			normal[v] = *normal[v].Add(&cross)
 		}
 	}
-- 
2.43.0


From f2c91eff9b634dd604afec0acab4f361d0979a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:46 +0000
Subject: [PATCH 065/176] fix: MMD to MQO converter without options does not
 panic

---
 converter/mmd2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 8cbf5af..b0918bc 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -19,6 +19,9 @@ type mmdToMQO struct {
 }
 
 func NewMMDToMQOConverter(options *MMDToMQOOption) *mmdToMQO {
+	if options == nil {
+		options = &MMDToMQOOption{}
+	}
 	return &mmdToMQO{MMDToMQOOption: *options}
 }
 
-- 
2.43.0


From 05c7c1e06d5562ca647e356018626f7378109e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:47 +0000
Subject: [PATCH 066/176] fix: weights of MMD vertices without bone or with a
 repeated bone

---
 converter/mmd2mqo.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index b0918bc..d037282 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -124,7 +124,7 @@ func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vm
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-			if v.BoneWeights[bi] > 0 {
+			if v.BoneWeights[bi] > 0 && b >= 0 && b < len(bones) {
 				if c[b] != nil {
 					c[b].Weight += 100 * v.BoneWeights[bi]
 					continue
@@ -285,19 +285,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for pmv, mqv := range vmap {
-			v := pmx.Vertexes[pmv]
-			c := map[int]*mqo.VertexWeight{}
-			for bi, b := range v.Bones {
-				if v.BoneWeights[bi] > 0 {
-					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
-						continue
-					}
-					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-				}
-			}
-		}
+		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)
 
 		mq.Objects = append(mq.Objects, o)
 		base := o
-- 
2.43.0


From b03fa4ecd83adca1e2f722335fb5fd3f0b551544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:48 +0000
Subject: [PATCH 067/176] fix: write the weights of converted MMD models in a
 fixed order

---
 converter/mmd2mqo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d037282..2e7e033 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -120,7 +120,11 @@ func (c *mmdToMQO) convertFaces(pmx *mmd.Document, faces []int, face2mat []int,
 }
 
 func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vmap map[int]int) {
+	pmVerts := make([]int, len(vmap))
 	for pmv, mqv := range vmap {
+		pmVerts[mqv] = pmv
+	}
+	for mqv, pmv := range pmVerts {
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-- 
2.43.0


From b58cb96d885d44564c48082254be9c21f3c9bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 068/176] fix: MMD bones whose IK target or inherit parent is
 not set

---
 converter/mmd2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 2e7e033..8c5d389 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -65,7 +65,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 		}
 		if pmBone.Flags&mmd.BoneFlagInheritRotation > 0 &&
 			pmBone.InheritParentInfluence > c.InheritParentThreshold &&
-			len(pmx.Bones) > pmBone.InheritParentID {
+			pmBone.InheritParentID >= 0 && len(pmx.Bones) > pmBone.InheritParentID {
 			for _, n := range c.KnownBoneNames {
 				if n == pmx.Bones[pmBone.InheritParentID].Name {
 					mqBone.Parent = pmBone.InheritParentID + 1
@@ -80,7 +80,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 	}
 
 	for _, pmBone := range pmx.Bones {
-		if len(pmBone.IK.Links) > 0 {
+		if len(pmBone.IK.Links) > 0 && pmBone.IK.TargetID >= 0 && pmBone.IK.TargetID < len(bones) {
 			var tipName string
 			if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {
 				tipName = pmx.Bones[pmBone.TailID].Name
-- 
2.43.0


From 91d6fdd949634b662f686e36092214bffcee763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:51 +0000
Subject: [PATCH 069/176] fix: ignore MMD morph offsets of vertices that are
 not set or not used by a face

---
 converter/mmd2mqo.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 8c5d389..0b42f2a 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -186,7 +186,7 @@ func (c *mmdToMQO) genMorphGroup(pmx *mmd.Document) ([][]int, [][]int) {
 	for mi, m := range pmx.Morphs {
 		fgs := map[int]bool{}
 		for _, mv := range m.Vertex {
-			if len(v2f[mv.Target]) == 0 {
+			if mv.Target < 0 || mv.Target >= len(v2f) || len(v2f[mv.Target]) == 0 {
 				continue
 			}
 			fg := f2fg[v2f[mv.Target][0]]
@@ -196,7 +196,7 @@ func (c *mmdToMQO) genMorphGroup(pmx *mmd.Document) ([][]int, [][]int) {
 			}
 		}
 		for _, um := range m.UV {
-			if len(v2f[um.Target]) == 0 || m.MorphType > 3 { // additional UVs are not converted
+			if um.Target < 0 || um.Target >= len(v2f) || len(v2f[um.Target]) == 0 || m.MorphType > 3 { // additional UVs are not converted
 				continue
 			}
 			fg := f2fg[v2f[um.Target][0]]
@@ -302,7 +302,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				mqv, ok := vmap[mv.Target]
+				if !ok {
+					continue // not used by any face
+				}
+				v := o.Vertexes[mqv]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -315,10 +319,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 || morph.MorphType > 3 {
+				mqv, ok := vmap[mu.Target]
+				if !ok || morph.MorphType > 3 {
 					continue
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[mqv] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From 0522668d04679693389049f36dc7c1dc34ef1438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:52 +0000
Subject: [PATCH 070/176] fix: do not negate the size of MMD rigid bodies

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 0b42f2a..41f3aa0 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -372,7 +372,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 				Name: b.Name,
 				Shapes: []*mqo.PhysicsShape{{
 					Type:     shapeType,
-					Size:     mqo.Vector3XmlAttr(*c.convertVec3(&b.Size)),
+					Size:     mqo.Vector3XmlAttr(b.Size),
 					Position: mqo.Vector3XmlAttr(*c.convertVec3(&b.Position)),
 					Rotation: mqo.Vector3XmlAttr(b.Rotation),
 				}},
-- 
2.43.0


From 7a36ddea7c93dd97614465661686062dbe24011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:54 +0000
Subject: [PATCH 071/176] fix: MQO bones whose parent does not exist become MMD
 root bones

---
 converter/mqo2mmd.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..bda5e54 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -24,8 +24,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 		dst.Bones = append(dst.Bones, c.convertBone(b))
 	}
 	for i, b := range bones {
-		if b.Parent > 0 {
-			parentID := boneIndexByID[b.Parent]
+		if parentID, ok := boneIndexByID[b.Parent]; ok && b.Parent > 0 {
 			dst.Bones[i].ParentID = parentID
 			dst.Bones[parentID].TailID = i
 			dst.Bones[parentID].Flags = dst.Bones[parentID].Flags | mmd.BoneFlagTailIndex
-- 
2.43.0


From bb47f13461e28ff2cc2566ac1e4bcf2fa4c80556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:55 +0000
Subject: [PATCH 072/176] fix: convert the Z direction of morphs and normals to
 MMD

---
 converter/mqo2mmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index bda5e54..1a96fd2 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -86,7 +86,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						vert := &mmd.Vertex{
 							Pos:       *c.convertVec3(obj.Vertexes[v]),
 							UV:        mmd.Vector2{X: uv.X, Y: uv.Y},
-							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z},
+							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z * -1},
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
@@ -97,7 +97,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: *p.Sub(&vert.Pos),
 										})
 									}
 								}
-- 
2.43.0


From cfb71c9b1bf75fb2328bbb79b1c8676bb244780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:56 +0000
Subject: [PATCH 073/176] fix: triangulate concave polygons when converting to
 MMD

---
 converter/mqo2mmd.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 1a96fd2..acdbb67 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"fmt"
 
+	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 )
@@ -105,9 +106,12 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						}
 					}
 				}
-				// convex polygon only. TODO: triangulation.
-				for n := 0; n < len(verts)-2; n++ {
-					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[0], verts[n+1], verts[n+2]}})
+				poly := make([]*mqo.Vector3, len(f.Verts))
+				for i, v := range f.Verts {
+					poly[i] = obj.Vertexes[v]
+				}
+				for _, tri := range geom.Triangulate(poly) {
+					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[tri[0]], verts[tri[1]], verts[tri[2]]}})
 					faceCount++
 				}
 			}
-- 
2.43.0


From dbae37d6775c0caf2c43a99f0ff84b69b1ff8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:58 +0000
Subject: [PATCH 074/176] fix: size, mode and bone of rigid bodies converted to
 MMD

---
 converter/mqo2mmd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index acdbb67..23466f9 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -195,7 +195,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			Name:  b.Name,
 			Shape: shapeType,
 
-			Size:           *c.convertVec3(shape.Size.Vec3()),
+			Size:           *shape.Size.Vec3().Scale(c.Scale),
 			Position:       *c.convertVec3(shape.Position.Vec3()),
 			Rotation:       mmd.Vector3(shape.Rotation),
 			Mass:           b.Mass,
@@ -205,12 +205,15 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			AngularDamping: b.AngularDamping,
 			Restitution:    b.Restitution,
 			Friction:       b.Friction,
-			Bone:           boneIndexByID[b.TargetBoneID],
+			Bone:           -1,
+		}
+		if bone, ok := boneIndexByID[b.TargetBoneID]; ok {
+			body.Bone = bone
 		}
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
 		}
-		if b.Kinematic {
+		if !b.Kinematic {
 			body.Mode = 1
 		}
 		bodies = append(bodies, body)
-- 
2.43.0


From 802970bd928256034256b100f61bef474ba8ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:59 +0000
Subject: [PATCH 075/176] fix: double sided materials converted to MMD, no
 sphere texture

---
 converter/mqo2mmd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 23466f9..74f78d2 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -166,11 +166,17 @@ func (c *mqoToMMD) convertBone(bone *mqo.Bone) *mmd.Bone {
 }
 
 func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd.Material {
+	var flags byte
+	if m.DoubleSided {
+		flags |= mmd.MaterialFlagDoubleSided
+	}
 	return &mmd.Material{
 		Name:        m.Name,
 		Color:       mmd.Vector4{X: m.Color.X, Y: m.Color.Y, Z: m.Color.Z, W: m.Color.W},
 		Specularity: m.Power,
+		Flags:       flags,
 		TextureID:   texture,
+		EnvID:       -1,
 		Toon:        -1,
 		Count:       faceCount * 3,
 	}
-- 
2.43.0


From 0429f7b48cc590dac6b2aeb81c3772c2dbe69f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:00 +0000
Subject: [PATCH 076/176] fix: convert all morph target lists of an object to
 MMD

---
 converter/mqo2mmd.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 74f78d2..2b87d93 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -34,14 +34,14 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 
 	objectByName := map[string]*mqo.Object{}
 	morphTargets := map[string]*mmd.Morph{}
-	morphBases := map[string]*mqo.MorphTargetList{}
+	morphBases := map[string][]*mqo.MorphTarget{}
 	for _, obj := range doc.Objects {
 		objectByName[obj.Name] = obj
 	}
 
 	morphs := mqo.GetMorphPlugin(doc).Morphs()
 	for _, m := range morphs {
-		morphBases[m.Base] = m
+		morphBases[m.Base] = append(morphBases[m.Base], m.Target...)
 		for _, t := range m.Target {
 			mmdMorph := &mmd.Morph{
 				Name:      t.Name,
@@ -91,16 +91,14 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-						if morphBases[obj.Name] != nil {
-							for _, t := range morphBases[obj.Name].Target {
-								if target, ok := objectByName[t.Name]; ok {
-									if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {
-										p := c.convertVec3(target.Vertexes[v])
-										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
-											Target: verts[i],
-											Offset: *p.Sub(&vert.Pos),
-										})
-									}
+						for _, t := range morphBases[obj.Name] {
+							if target, ok := objectByName[t.Name]; ok {
+								if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {
+									p := c.convertVec3(target.Vertexes[v])
+									morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
+										Target: verts[i],
+										Offset: *p.Sub(&vert.Pos),
+									})
 								}
 							}
 						}
-- 
2.43.0


From fcdd1cac8ff79c35e0cc5e73b252229a364a0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:01 +0000
Subject: [PATCH 077/176] fix: lines and degenerated corners must not tilt the
 normals of a MQO object

---
 mqo/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/utils.go b/mqo/utils.go
index d0f855c..6f16dfc 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -62,6 +62,9 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 			v1 := obj.Vertexes[face.Verts[(i+len(face.Verts)-1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			v2 := obj.Vertexes[face.Verts[(i+1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			cross := Vector3{X: v1.Y*v2.Z - v1.Z*v2.Y, Y: v1.Z*v2.X - v1.X*v2.Z, Z: v1.X*v2.Y - v1.Y*v2.X}
+			if cross.LenSqr() == 0 {
+				continue // line or degenerated corner
+			}
 			cross.Normalize()
 			if cross.Dot(faceNormal) < 0 {
 				cross = *cross.Scale(-1) // concave corner
-- 
2.43.0


From 77727dd2ce34c20362c4b4187d58d246177563ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:17 +0000
Subject: [PATCH 078/176] fix: fbx2mqo: skin weights are percentages in MQO

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 116248a..5bd0ac2 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -319,7 +319,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	indexes := sub.GetIndexes()
 	if len(weights) == len(indexes) {
 		for i := range indexes {
-			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i])
+			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)
 		}
 	} else {
 		log.Println("ERR: Deformer weights ", len(weights), len(indexes))
-- 
2.43.0


From b92e4b32546b0f0f8be761fb84754af2edcd8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:18 +0000
Subject: [PATCH 079/176] fix: fbx2mqo: no crash on polygons without material

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 5bd0ac2..3119264 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -231,7 +231,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		} else if matAllSame {
 			matIdx = int(matArray[0])
 		}
-		if matIdx < len(materialIDs) {
+		if matIdx >= 0 && matIdx < len(materialIDs) {
 			face.Material = materialIDs[matIdx]
 		}
 		for n, v := range f {
-- 
2.43.0


From 4acf6470709800abf4ab1d93f4eb2c8b35ad6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:19 +0000
Subject: [PATCH 080/176] fix: fbx2mqo: no crash on negative blend shape
 indices

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 3119264..c7a64ec 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -339,7 +339,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	}
 
 	for i, idx := range indexes {
-		if int(idx) < len(obj.Vertexes) {
+		if idx >= 0 && int(idx) < len(obj.Vertexes) {
 			obj.Vertexes[idx] = transfrom.ApplyTo(g.Vertices[idx].Add(vertices[i]))
 		}
 	}
-- 
2.43.0


From 69e9a9e99713933a10be9046ddf548d1f0428b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:20 +0000
Subject: [PATCH 081/176] fix: fbx2mqo: support every mapping and reference
 type of normals and UVs

---
 converter/fbx2mqo.go | 75 +++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index c7a64ec..befe5c3 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -197,26 +197,11 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	matAllSame := matType == "AllSame" && len(matArray) > 0
 	normalNode := g.GetLayerElementNormal()
 	normArray := normalNode.Array.GetVec3Array()
-	normByVertex := normalNode.GetMappingInformationType() == "ByControlPoint" && len(normArray) >= len(g.Vertices)
-	normByPolygonVertex := normalNode.GetMappingInformationType() == "ByPolygonVertex"
+	normIndex := layerElementIndex(normalNode, len(normArray))
 
 	uvnode := g.GetLayerElementUV()
-	var uv []*geom.Vector2
-	var uvIndex []int32
-	if uvnode.GetMappingInformationType() == "ByPolygonVertex" {
-		uv = uvnode.Array.GetVec2Array()
-		if uvnode.GetReferenceInformationType() == "IndexToDirect" {
-			uvIndex = uvnode.GetIndexes()
-			if len(uvIndex) < g.PolygonVertexCount {
-				uv = nil
-				uvIndex = nil
-			}
-		} else {
-			if len(uv) < g.PolygonVertexCount {
-				uv = nil
-			}
-		}
-	}
+	uv := uvnode.Array.GetVec2Array()
+	uvIndex := layerElementIndex(uvnode, len(uv))
 
 	rs := transform.Clone()
 	rs[12], rs[13], rs[14] = 0, 0, 0
@@ -236,22 +221,20 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		}
 		for n, v := range f {
 			face.Verts = append(face.Verts, v)
-			// TODO: normal transformation
-			if normByVertex && v < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[v]).Normalize())
-			} else if normByPolygonVertex && vcount+n < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[vcount+n]).Normalize())
+			if idx := normIndex(v, vcount+n); idx >= 0 {
+				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[idx]).Normalize())
 			}
 		}
-		if uvIndex != nil { // Indexed
-			for n := range f {
-				v := uv[uvIndex[vcount+n]]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
-			}
-		} else if uv != nil {
-			for n := range f {
-				v := uv[vcount+n]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
+		if len(face.Normals) != len(f) {
+			face.Normals = nil
+		}
+		if len(uv) > 0 {
+			for n, v := range f {
+				var t geom.Vector2
+				if idx := uvIndex(v, vcount+n); idx >= 0 {
+					t = geom.Vector2{X: uv[idx].X, Y: 1 - uv[idx].Y}
+				}
+				face.UVs = append(face.UVs, t)
 			}
 		}
 		vcount += len(f)
@@ -284,6 +267,34 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	return shapes
 }
 
+// layerElementIndex returns a function to get the index in the data array (length=n) of the layer. (-1: no data)
+func layerElementIndex(layer *fbx.LayerElement, n int) func(vertex, polygonVertex int) int {
+	mapping := layer.GetMappingInformationType()
+	indexed := layer.GetReferenceInformationType() == "IndexToDirect"
+	indexes := layer.GetIndexes()
+	return func(vertex, polygonVertex int) int {
+		var idx int
+		switch mapping {
+		case fbx.ByPolygonVertex:
+			idx = polygonVertex
+		case fbx.ByControlPoint, fbx.ByVertice:
+			idx = vertex
+		default:
+			return -1
+		}
+		if indexed {
+			if idx < 0 || idx >= len(indexes) {
+				return -1
+			}
+			idx = int(indexes[idx])
+		}
+		if idx < 0 || idx >= n {
+			return -1
+		}
+		return idx
+	}
+}
+
 func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	model := sub.GetTarget()
 	if model == nil {
-- 
2.43.0


From 9fed78f133ac44e6ec9ccf32f01ed488087bf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 082/176] fix: fbx2mqo: convert meshes below bones

---
 converter/fbx2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index befe5c3..854c6c3 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -77,7 +77,7 @@ func (c *fbxToMqoState) convert() {
 		return
 	}
 	for _, m := range c.src.Scene.GetChildModels() {
-		if c.ConvertWholeNode || (m.Kind() != "LimbNode" && hasGeometryNode(m)) {
+		if c.ConvertWholeNode || hasGeometryNode(m) {
 			c.convertModel(m, c.ObjectDepth, transform)
 		}
 	}
@@ -167,7 +167,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 		}
 	}
 	for _, m := range m.GetChildModels() {
-		if c.ConvertWholeNode || m.Kind() != "LimbNode" {
+		if c.ConvertWholeNode || m.Kind() != "LimbNode" || hasGeometryNode(m) {
 			c.convertModel(m, d+1, transform)
 		}
 	}
-- 
2.43.0


From 3b5028f2e06d558fc0388724181aecc2eb6e3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 083/176] fix: fbx2mqo: unique names for blend shapes, morph
 targets are referenced by name

---
 converter/fbx2mqo.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 854c6c3..587ee70 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -1,6 +1,7 @@
 package converter
 
 import (
+	"fmt"
 	"log"
 	"strings"
 
@@ -32,6 +33,7 @@ type fbxToMqoState struct {
 	boneNodes     []*fbx.Model
 	bones         []*mqo.Bone
 	coordMat      *geom.Matrix4
+	usedNames     map[string]bool
 }
 
 func NewFBXToMQOConverter(options *FBXToMQOOption) *FBXToMQOConverter {
@@ -55,6 +57,15 @@ func (conv *FBXToMQOConverter) ConvertTo(dst *mqo.Document, src *fbx.Document) (
 		boneNodeMap:    map[*fbx.Model]int{},
 		materialIDMap:  map[*fbx.Material]int{},
 		coordMat:       src.CoordMatrix(),
+		usedNames:      map[string]bool{},
+	}
+	for _, obj := range dst.Objects {
+		c.usedNames[obj.Name] = true
+	}
+	for _, obj := range src.ObjectByID {
+		if m, ok := obj.(*fbx.Model); ok {
+			c.usedNames[strings.TrimSuffix(m.Name(), "::Model")] = true
+		}
 	}
 	c.convert()
 	return c.dst, nil
@@ -158,6 +169,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 			morphPlugin.MorphSet.Targets = append(morphPlugin.MorphSet.Targets, &morphTargets)
 			morphTargets.Base = obj.Name
 			for _, o := range shapes {
+				o.Name = c.uniqueName(o.Name)
 				dst.Objects = append(dst.Objects, o)
 				o.UID = len(dst.Objects)
 				o.Depth = d + 1
@@ -173,6 +185,16 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 	}
 }
 
+// uniqueName returns a name for morph target which is referenced by name.
+func (c *fbxToMqoState) uniqueName(name string) string {
+	unique := name
+	for i := 2; c.usedNames[unique]; i++ {
+		unique = fmt.Sprintf("%s_%d", name, i)
+	}
+	c.usedNames[unique] = true
+	return unique
+}
+
 func hasGeometryNode(m *fbx.Model) bool {
 	if m.GetGeometry() != nil {
 		return true
-- 
2.43.0


From 113ac47ed4cb67f699f49c92c8643e53c0915ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:04 +0000
Subject: [PATCH 084/176] fix: fbx: GetTexture() finds the texture of the
 property

---
 fbx/fbx_document.go | 10 ++++++++++
 fbx/fbx_material.go |  4 +++-
 fbx/fbx_object.go   | 10 ++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 16bc9f3..33e3aa8 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -126,6 +126,9 @@ func BuildDocument(root *Node) (*Document, error) {
 			}
 			if to != nil && from != nil {
 				addRef(to, from)
+				if ctype == "OP" {
+					addPropRef(to, from, node.Attr(3).ToString())
+				}
 			}
 		}
 	}
@@ -144,6 +147,12 @@ func addRef(to, from Object) {
 	}
 }
 
+func addPropRef(to, from Object, prop string) {
+	if o, ok := to.(interface{ addPropRef(string, Object) }); ok {
+		o.addPropRef(prop, from)
+	}
+}
+
 func (doc *Document) AddObject(obj Object) int64 {
 	existing := doc.ObjectByID[obj.ID()]
 	if existing == obj {
@@ -169,6 +178,7 @@ func (doc *Document) AddConnection(parent, child Object) {
 
 func (doc *Document) AddPropConnection(parent, child Object, prop string) {
 	addRef(parent, child)
+	addPropRef(parent, child, prop)
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OP", child.ID(), parent.ID(), prop))
 }
diff --git a/fbx/fbx_material.go b/fbx/fbx_material.go
index b2efff9..fa1f2bf 100644
--- a/fbx/fbx_material.go
+++ b/fbx/fbx_material.go
@@ -32,7 +32,9 @@ func (m *Material) GetFactor(name string, def float32) float32 {
 }
 
 func (m *Material) GetTexture(name string) *Obj {
-	// TOOD: m.GetPropertyRef(name)...
+	if tex, ok := m.propRefs[name].(*Obj); ok && tex.NodeName() == "Texture" {
+		return tex
+	}
 	textures := m.FindRefs("Texture")
 	if len(textures) > 0 {
 		return textures[0].(*Obj)
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index cb667e8..8bd78d5 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -27,6 +27,7 @@ type Obj struct {
 	*Node
 	Template   *Obj
 	Refs       []Object
+	propRefs   map[string]Object
 	properties map[string]*Property // lazty initialize
 }
 
@@ -132,6 +133,15 @@ func (o *Obj) AddRef(ref Object) {
 	o.Refs = append(o.Refs, ref)
 }
 
+func (o *Obj) addPropRef(name string, ref Object) {
+	if o.propRefs == nil {
+		o.propRefs = map[string]Object{}
+	}
+	if o.propRefs[name] == nil {
+		o.propRefs[name] = ref
+	}
+}
+
 func (o *Obj) AddOrReplaceChild(node *Node) bool {
 	for i, c := range o.Children {
 		if c.Name == node.Name {
-- 
2.43.0


From 16bc12c60948b77b47ab21d657b1351d299beab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:03 +0000
Subject: [PATCH 085/176] fix: gltf2mqo: meshes with multiple primitives

---
 converter/gltf2mqo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 837204d..ed80187 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -59,6 +59,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		if p.Indices == nil {
 			continue
 		}
+		offset := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
@@ -91,7 +92,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			mat = int(*p.Material)
 		}
 		for i := 0; i < len(indices)/3; i++ {
-			f := &mqo.Face{Material: mat, Verts: []int{int(indices[i*3]), int(indices[i*3+2]), int(indices[i*3+1])}}
+			f := &mqo.Face{Material: mat, Verts: []int{offset + int(indices[i*3]), offset + int(indices[i*3+2]), offset + int(indices[i*3+1])}}
 			if len(texCoord) > int(indices[i*3]) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
-- 
2.43.0


From db119fbccd5b52911b91a6d5ae577363cff1c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:04 +0000
Subject: [PATCH 086/176] fix: gltf2mqo: no crash on textures without source
 image

---
 converter/gltf2mqo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index ed80187..261e703 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -47,7 +47,9 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
 		if m.PBRMetallicRoughness.BaseColorTexture != nil {
 			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			mat.Texture = src.Images[*src.Textures[i].Source].URI
+			if int(i) < len(src.Textures) && src.Textures[i].Source != nil && int(*src.Textures[i].Source) < len(src.Images) {
+				mat.Texture = src.Images[*src.Textures[i].Source].URI
+			}
 		}
 	}
 	return mat
-- 
2.43.0


From 9f96b52d4f8bd3c69f7590aa227c8f368b8b46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 087/176] fix: gltf2mqo: default color of materials without
 pbrMetallicRoughness

---
 converter/gltf2mqo.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 261e703..074e32a 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -39,17 +39,19 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 			"AlphaCutoff": m.AlphaCutoffOrDefault(),
 		},
 	}
-	if m.PBRMetallicRoughness != nil {
-		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
-		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-		mat.Specular = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Metallic"] = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
-		if m.PBRMetallicRoughness.BaseColorTexture != nil {
-			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			if int(i) < len(src.Textures) && src.Textures[i].Source != nil && int(*src.Textures[i].Source) < len(src.Images) {
-				mat.Texture = src.Images[*src.Textures[i].Source].URI
-			}
+	pbr := m.PBRMetallicRoughness
+	if pbr == nil {
+		pbr = &gltf.PBRMetallicRoughness{} // default values
+	}
+	col := pbr.BaseColorFactorOrDefault()
+	mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
+	mat.Specular = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Metallic"] = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Roughness"] = pbr.RoughnessFactorOrDefault()
+	if pbr.BaseColorTexture != nil {
+		i := pbr.BaseColorTexture.Index
+		if int(i) < len(src.Textures) && src.Textures[i].Source != nil && int(*src.Textures[i].Source) < len(src.Images) {
+			mat.Texture = src.Images[*src.Textures[i].Source].URI
 		}
 	}
 	return mat
-- 
2.43.0


From 868d2d60fba134883c86290448d7011462326153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:07 +0000
Subject: [PATCH 088/176] fix: gltf2mqo: keep alpha mode and alpha cutoff

---
 converter/gltf2mqo.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 074e32a..2edec61 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -35,10 +35,16 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		ShaderType: "hlsl",
 		ShaderName: "glTF",
 		ShaderParams: map[string]interface{}{
-			"AlphaMode":   m.AlphaMode,
-			"AlphaCutoff": m.AlphaCutoffOrDefault(),
+			"AlphaMode":   mqo.AlphaModeOpaque,
+			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
+	switch m.AlphaMode {
+	case gltf.AlphaMask:
+		mat.SetGltfAlphaMode(mqo.AlphaModeMask)
+	case gltf.AlphaBlend:
+		mat.SetGltfAlphaMode(mqo.AlphaModeBlend)
+	}
 	pbr := m.PBRMetallicRoughness
 	if pbr == nil {
 		pbr = &gltf.PBRMetallicRoughness{} // default values
-- 
2.43.0


From 4af213f669c9c1f72c909e4a6166dec99921572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:08 +0000
Subject: [PATCH 089/176] fix: gltf2mqo: primitives without indices, triangle
 strips and fans

---
 converter/gltf2mqo.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 2edec61..c3d2112 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -66,8 +66,8 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
-		if p.Indices == nil {
-			continue
+		if p.Mode != gltf.PrimitiveTriangles && p.Mode != gltf.PrimitiveTriangleStrip && p.Mode != gltf.PrimitiveTriangleFan {
+			continue // points or lines
 		}
 		offset := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
@@ -91,12 +91,21 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 				continue
 			}
 		}
-		acr := src.Accessors[*p.Indices]
-		indices, err := modeler.ReadIndices(src, acr, []uint32{})
-		if err != nil {
-			log.Fatalf("err %v", err)
-			continue
+		var indices []uint32
+		if p.Indices != nil {
+			acr := src.Accessors[*p.Indices]
+			i, err := modeler.ReadIndices(src, acr, []uint32{})
+			if err != nil {
+				log.Fatalf("err %v", err)
+				continue
+			}
+			indices = i
+		} else {
+			for i := offset; i < len(obj.Vertexes); i++ {
+				indices = append(indices, uint32(i-offset))
+			}
 		}
+		indices = triangleIndices(indices, p.Mode)
 		mat := 0
 		if p.Material != nil {
 			mat = int(*p.Material)
@@ -115,6 +124,24 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	return obj
 }
 
+// triangleIndices returns indices of independent triangles.
+func triangleIndices(indices []uint32, mode gltf.PrimitiveMode) []uint32 {
+	var triangles []uint32
+	switch mode {
+	case gltf.PrimitiveTriangleStrip:
+		for i := 0; i+2 < len(indices); i++ {
+			triangles = append(triangles, indices[i], indices[i+1+i%2], indices[i+2-i%2])
+		}
+	case gltf.PrimitiveTriangleFan:
+		for i := 1; i+1 < len(indices); i++ {
+			triangles = append(triangles, indices[0], indices[i], indices[i+1])
+		}
+	default:
+		return indices
+	}
+	return triangles
+}
+
 func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
 	n := src.Nodes[node]
 	pos := geom.NewVector3FromArray(n.Translation)
-- 
2.43.0


From d2c54ae7f3d3c9ffa4ef0134184ed9e9e6cf9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:09 +0000
Subject: [PATCH 090/176] fix: gltf2mqo: apply node transforms to meshes and
 bones

---
 converter/gltf2mqo.go | 58 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index c3d2112..23bc46c 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -142,12 +142,9 @@ func triangleIndices(indices []uint32, mode gltf.PrimitiveMode) []uint32 {
 	return triangles
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, transforms []*geom.Matrix4) []*mqo.Bone {
 	n := src.Nodes[node]
-	pos := geom.NewVector3FromArray(n.Translation)
-	if parent > 0 {
-		pos = pos.Add(&bones[parent-1].Pos.Vector3)
-	}
+	pos := transforms[node].ApplyTo(&geom.Vector3{})
 	b := &mqo.Bone{
 		ID:     len(bones) + 1,
 		Name:   n.Name,
@@ -157,11 +154,42 @@ func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bo
 	}
 	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones)
+		bones = c.convertBones(src, child, b.ID, bones, transforms)
 	}
 	return bones
 }
 
+// worldTransforms returns global transform matrices of nodes.
+func worldTransforms(src *gltf.Document) []*geom.Matrix4 {
+	parents := map[int]int{}
+	transforms := make([]*geom.Matrix4, len(src.Nodes))
+	for i, n := range src.Nodes {
+		for _, child := range n.Children {
+			parents[int(child)] = i
+		}
+	}
+	for i := range src.Nodes {
+		mat := geom.NewMatrix4()
+		node, ok := i, true
+		for depth := 0; ok && depth <= len(src.Nodes); depth++ {
+			mat = localTransform(src.Nodes[node]).Mul(mat)
+			node, ok = parents[node]
+		}
+		transforms[i] = mat
+	}
+	return transforms
+}
+
+func localTransform(n *gltf.Node) *geom.Matrix4 {
+	if m := n.MatrixOrDefault(); m != gltf.DefaultMatrix {
+		return geom.NewMatrix4FromSlice(m[:])
+	}
+	return geom.NewTRSMatrix4(
+		geom.NewVector3FromArray(n.Translation),
+		geom.NewQuaternionFromArray(n.RotationOrDefault()),
+		geom.NewVector3FromArray(n.ScaleOrDefault()))
+}
+
 func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 	mqdoc := mqo.NewDocument()
 
@@ -169,9 +197,21 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	for _, node := range src.Nodes {
+	transforms := worldTransforms(src)
+	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh]))
+			obj := c.convertMesh(src, src.Meshes[*node.Mesh])
+			if node.Skin == nil { // transform of skinned mesh node should be ignored.
+				for _, v := range obj.Vertexes {
+					*v = *transforms[i].ApplyTo(v)
+				}
+				if transforms[i].Det() < 0 {
+					for _, f := range obj.Faces {
+						f.Flip()
+					}
+				}
+			}
+			mqdoc.Objects = append(mqdoc.Objects, obj)
 		}
 	}
 
@@ -181,7 +221,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		if skin.Skeleton != nil {
 			if _, exist := bonemap[*skin.Skeleton]; !exist {
 				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones)
+				bones = c.convertBones(src, *skin.Skeleton, 0, bones, transforms)
 			}
 		}
 	}
-- 
2.43.0


From 5fc892705566f1de566c30eaca684c7507910c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:49 +0000
Subject: [PATCH 091/176] fix: gltf2mqo: bones of skins without skeleton root

---
 converter/gltf2mqo.go | 57 ++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 23bc46c..d09d65a 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -142,19 +142,31 @@ func triangleIndices(indices []uint32, mode gltf.PrimitiveMode) []uint32 {
 	return triangles
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, transforms []*geom.Matrix4) []*mqo.Bone {
+func collectNodes(src *gltf.Document, node uint32, nodes map[uint32]bool) {
+	nodes[node] = true
+	for _, child := range src.Nodes[node].Children {
+		if !nodes[child] {
+			collectNodes(src, child, nodes)
+		}
+	}
+}
+
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, boneNodes map[uint32]bool, transforms []*geom.Matrix4) []*mqo.Bone {
 	n := src.Nodes[node]
-	pos := transforms[node].ApplyTo(&geom.Vector3{})
-	b := &mqo.Bone{
-		ID:     len(bones) + 1,
-		Name:   n.Name,
-		Group:  0,
-		Pos:    mqo.Vector3Attr{Vector3: *pos},
-		Parent: parent,
-	}
-	bones = append(bones, b)
+	if boneNodes[node] {
+		pos := transforms[node].ApplyTo(&geom.Vector3{})
+		b := &mqo.Bone{
+			ID:     len(bones) + 1,
+			Name:   n.Name,
+			Group:  0,
+			Pos:    mqo.Vector3Attr{Vector3: *pos},
+			Parent: parent,
+		}
+		bones = append(bones, b)
+		parent = b.ID
+	}
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones, transforms)
+		bones = c.convertBones(src, child, parent, bones, boneNodes, transforms)
 	}
 	return bones
 }
@@ -215,14 +227,25 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		}
 	}
 
-	bonemap := map[uint32]bool{}
-	var bones []*mqo.Bone
+	boneNodes := map[uint32]bool{}
 	for _, skin := range src.Skins {
 		if skin.Skeleton != nil {
-			if _, exist := bonemap[*skin.Skeleton]; !exist {
-				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones, transforms)
-			}
+			collectNodes(src, *skin.Skeleton, boneNodes)
+		}
+		for _, joint := range skin.Joints {
+			boneNodes[joint] = true
+		}
+	}
+	hasParent := map[uint32]bool{}
+	for _, n := range src.Nodes {
+		for _, child := range n.Children {
+			hasParent[child] = true
+		}
+	}
+	var bones []*mqo.Bone
+	for i := range src.Nodes {
+		if !hasParent[uint32(i)] {
+			bones = c.convertBones(src, uint32(i), 0, bones, boneNodes, transforms)
 		}
 	}
 	mqo.GetBonePlugin(mqdoc).SetBones(bones)
-- 
2.43.0


From 9b2382fa523f68dfa1469d51b5ab9256bdf8ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 092/176] fix: gltf2mqo: return errors instead of terminating
 the process

---
 converter/gltf2mqo.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index d09d65a..715eda2 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -1,8 +1,6 @@
 package converter
 
 import (
-	"log"
-
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
@@ -63,7 +61,7 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
-func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
+func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object, error) {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
 		if p.Mode != gltf.PrimitiveTriangles && p.Mode != gltf.PrimitiveTriangleStrip && p.Mode != gltf.PrimitiveTriangleFan {
@@ -74,8 +72,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
 			if err != nil {
-				log.Fatalf("err %v", err)
-				continue
+				return nil, err
 			}
 			for _, v := range pos {
 				obj.Vertexes = append(obj.Vertexes, &mqo.Vector3{X: v[0], Y: v[1], Z: v[2]})
@@ -87,8 +84,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			t, err := modeler.ReadTextureCoord(src, acr, [][2]float32{})
 			texCoord = t
 			if err != nil {
-				log.Fatalf("err %v", err)
-				continue
+				return nil, err
 			}
 		}
 		var indices []uint32
@@ -96,8 +92,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			acr := src.Accessors[*p.Indices]
 			i, err := modeler.ReadIndices(src, acr, []uint32{})
 			if err != nil {
-				log.Fatalf("err %v", err)
-				continue
+				return nil, err
 			}
 			indices = i
 		} else {
@@ -121,7 +116,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			obj.Faces = append(obj.Faces, f)
 		}
 	}
-	return obj
+	return obj, nil
 }
 
 // triangleIndices returns indices of independent triangles.
@@ -212,7 +207,10 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 	transforms := worldTransforms(src)
 	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			obj := c.convertMesh(src, src.Meshes[*node.Mesh])
+			obj, err := c.convertMesh(src, src.Meshes[*node.Mesh])
+			if err != nil {
+				return nil, err
+			}
 			if node.Skin == nil { // transform of skinned mesh node should be ignored.
 				for _, v := range obj.Vertexes {
 					*v = *transforms[i].ApplyTo(v)
-- 
2.43.0


From ad78b0e2a5c066225ee7940612225fcd38273835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:59 +0000
Subject: [PATCH 093/176] fix: gltfutil: scale node positions and morph targets
 too

---
 gltfutil/gltf_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fc71355..6be180f 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -82,7 +82,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
 	}
-	scaleMat := geom.NewMatrix4().Clone()
+	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
 	accs := map[uint32]bool{}
-- 
2.43.0


From 761ae11b29b5691541b0a9f9d8e8c50048c62df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:00 +0000
Subject: [PATCH 094/176] fix: gltfutil: scale inverse bind matrices correctly

---
 gltfutil/gltf_utils.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 6be180f..4dbcb1a 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -132,8 +132,13 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 	}
+	scaled := map[uint32]bool{}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices != nil {
+			if scaled[*skin.InverseBindMatrices] {
+				continue // shared with other skin
+			}
+			scaled[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
@@ -143,14 +148,10 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 					continue
 				}
 				for i := range skin.Joints {
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
-					// apply scale
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
-					// normalize rotation
-					geom.NewVector3FromSlice(mat[0:3]).Normalize().ToArray(mat[0:3])
-					geom.NewVector3FromSlice(mat[4:7]).Normalize().ToArray(mat[4:7])
-					geom.NewVector3FromSlice(mat[8:11]).Normalize().ToArray(mat[8:11])
+					// apply scale (rotation and scale of joints are not changed)
+					scaleMat.ApplyTo(geom.NewVector3FromSlice(mat[12:15])).ToArray(mat[12:15])
 					writeMatrix(data[offset:offset+64], mat)
 				}
 			}
-- 
2.43.0


From 8c93515c488c9ad360a92ac83536dd5d4e991956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:02 +0000
Subject: [PATCH 095/176] fix: gltfutil: scale positions of nodes with matrix

---
 gltfutil/gltf_utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 4dbcb1a..3ef9e4a 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -131,6 +131,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
+		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])
 	}
 	scaled := map[uint32]bool{}
 	for _, skin := range doc.Skins {
-- 
2.43.0


From 67d63b4dd55108e6bcc97a282bf01c4a894e5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:03 +0000
Subject: [PATCH 096/176] fix: gltfutil: scale translations of animations

---
 gltfutil/gltf_utils.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 3ef9e4a..8ef8f3e 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -134,6 +134,31 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])
 	}
 	scaled := map[uint32]bool{}
+	for _, anim := range doc.Animations {
+		for _, ch := range anim.Channels {
+			if ch.Target.Path != gltf.TRSTranslation || ch.Sampler == nil || anim.Samplers[*ch.Sampler].Output == nil {
+				continue
+			}
+			output := *anim.Samplers[*ch.Sampler].Output
+			acr := doc.Accessors[output]
+			if scaled[output] || acr.BufferView == nil {
+				continue
+			}
+			scaled[output] = true
+			pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
+			if err != nil {
+				log.Fatalf("err %v", err)
+			}
+			for i := range pos {
+				scaleMat.ApplyTo(geom.NewVector3FromArray(pos[i])).ToArray(pos[i][:])
+			}
+			bufferView := doc.BufferViews[*acr.BufferView]
+			err = binary.Write(doc.Buffers[bufferView.Buffer].Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)
+			if err != nil {
+				log.Fatalf("Write err %v", err)
+			}
+		}
+	}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices != nil {
 			if scaled[*skin.InverseBindMatrices] {
-- 
2.43.0


From c0385ef6c45ac53d7a3359b8a9ec62faca272916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:05 +0000
Subject: [PATCH 097/176] fix: gltfutil: ToSingleFile() finds images in the
 source directory

---
 gltfutil/gltf_utils.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 8ef8f3e..3afb1f4 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -4,6 +4,7 @@ import (
 	"io/ioutil"
 	"log"
 	"math"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -51,8 +52,14 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 		b.URI = ""
 	}
 	for _, m := range doc.Images {
-		if m.BufferView == nil && m.URI != "" {
-			path, _ := filepath.Rel(srcDir, m.URI)
+		if m.BufferView == nil && m.URI != "" && !strings.HasPrefix(m.URI, "data:") {
+			path := filepath.FromSlash(m.URI)
+			if name, err := url.PathUnescape(m.URI); err == nil {
+				path = filepath.FromSlash(name)
+			}
+			if !filepath.IsAbs(path) {
+				path = filepath.Join(srcDir, path)
+			}
 			f, err := os.Open(path)
 			if err != nil {
 				log.Print(err)
-- 
2.43.0


From 5b1d9601229fa7462b2ffe2e76dce2bd6af39712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:06 +0000
Subject: [PATCH 098/176] fix: gltfutil: ToSingleFile() merges buffers

---
 gltfutil/gltf_utils.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 3afb1f4..3cf69da 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -47,10 +47,32 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 	delete(doc.Extensions, extension)
 }
 
+// mergeBuffers moves all data to the first buffer. (GLB file has only one binary chunk)
+func mergeBuffers(doc *gltf.Document) {
+	if len(doc.Buffers) < 2 {
+		return
+	}
+	offsets := make([]uint32, len(doc.Buffers))
+	var data []byte
+	for i, b := range doc.Buffers {
+		data = append(data, make([]byte, (4-len(data)%4)%4)...)
+		offsets[i] = uint32(len(data))
+		data = append(data, b.Data...)
+	}
+	for _, v := range doc.BufferViews {
+		v.ByteOffset += offsets[v.Buffer]
+		v.Buffer = 0
+	}
+	doc.Buffers = doc.Buffers[:1]
+	doc.Buffers[0].Data = data
+	doc.Buffers[0].ByteLength = uint32(len(data))
+}
+
 func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	for _, b := range doc.Buffers {
 		b.URI = ""
 	}
+	mergeBuffers(doc)
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" && !strings.HasPrefix(m.URI, "data:") {
 			path := filepath.FromSlash(m.URI)
-- 
2.43.0


From 38055563aab6dc42785abd6244f3ea24b5a31f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:08 +0000
Subject: [PATCH 099/176] fix: gltfutil: RemoveExtension() removes all uses and
 the declaration

---
 gltfutil/gltf_utils.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 3cf69da..3d47c05 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -19,6 +19,16 @@ func Load(path string) (*gltf.Document, error) {
 	return gltf.Open(path)
 }
 
+func removeName(names []string, name string) []string {
+	var result []string
+	for _, n := range names {
+		if n != name {
+			result = append(result, n)
+		}
+	}
+	return result
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
@@ -44,7 +54,27 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Scenes {
 		delete(n.Extensions, extension)
 	}
+	for _, n := range doc.Meshes {
+		delete(n.Extensions, extension)
+		for _, p := range n.Primitives {
+			delete(p.Extensions, extension)
+		}
+	}
+	for _, n := range doc.Textures {
+		delete(n.Extensions, extension)
+	}
+	for _, n := range doc.Images {
+		delete(n.Extensions, extension)
+	}
+	for _, n := range doc.BufferViews {
+		delete(n.Extensions, extension)
+	}
+	for _, n := range doc.Buffers {
+		delete(n.Extensions, extension)
+	}
 	delete(doc.Extensions, extension)
+	doc.ExtensionsUsed = removeName(doc.ExtensionsUsed, extension)
+	doc.ExtensionsRequired = removeName(doc.ExtensionsRequired, extension)
 }
 
 // mergeBuffers moves all data to the first buffer. (GLB file has only one binary chunk)
-- 
2.43.0


From 69322be6f1e136e1e159a797b772a0ad79ae84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:10 +0000
Subject: [PATCH 100/176] fix: gltfutil: FixJointComponentType() keeps other
 data in the buffer view

---
 gltfutil/gltf_joint.go | 44 ++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 09258aa..61b066c 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -2,10 +2,12 @@ package gltfutil
 
 import (
 	"encoding/binary"
+	"log"
 	"math"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
 )
 
 type Quaternion = geom.Vector4
@@ -92,36 +94,24 @@ func ResetJointMatrix(doc *gltf.Document) {
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-	fixedbuffer := map[uint32]bool{}
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
-			for k, attr := range primitiv.Attributes {
-				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && doc.Accessors[attr].ComponentType == 2 { // byte
-					bufferView := doc.BufferViews[*accessor.BufferView]
-					buffer := doc.Buffers[bufferView.Buffer]
-
-					accessor.ComponentType = 4
-					if fixedbuffer[*accessor.BufferView] {
-						continue
-					}
-					fixedbuffer[*accessor.BufferView] = true
-
-					// byte to uint16
-					src := buffer.Data[bufferView.ByteOffset : bufferView.ByteOffset+bufferView.ByteLength]
-					dst := make([]byte, bufferView.ByteLength*2)
-					for i, b := range src {
-						binary.LittleEndian.PutUint16(dst[i*2:i*2+2], uint16(b))
-					}
-
-					bufferView.ByteLength *= 2
-					bufferView.ByteStride *= 2
-					bufferView.ByteOffset = uint32(len(buffer.Data))
-
-					buffer.Data = append(buffer.Data, dst...)
-					buffer.ByteLength += uint32(len(dst))
-				}
+			attr, ok := primitiv.Attributes["JOINTS_0"]
+			if !ok || doc.Accessors[attr].ComponentType != gltf.ComponentUbyte {
+				continue
+			}
+			accessor := doc.Accessors[attr]
+			joints, err := modeler.ReadJoints(doc, accessor, [][4]uint16{})
+			if err != nil {
+				log.Print(err)
+				continue
 			}
+			// byte to uint16. The buffer view may be shared with other accessors.
+			converted := modeler.WriteJoints(doc, joints)
+			accessor.ComponentType = doc.Accessors[converted].ComponentType
+			accessor.BufferView = doc.Accessors[converted].BufferView
+			accessor.ByteOffset = 0
+			doc.Accessors = doc.Accessors[:converted]
 		}
 	}
 }
-- 
2.43.0


From b7ea8e001ad2eae3c71d8a40304c8075380ab874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:42 +0000
Subject: [PATCH 101/176] fix: gltfutil: ResetJointMatrix() resets joints at
 any depth

---
 gltfutil/gltf_joint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 61b066c..85aeb67 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -57,8 +57,8 @@ func ResetJointMatrix(doc *gltf.Document) {
 		}
 	}
 
-	// TODO: check node dependency
-	for i := 0; i < 10; i++ {
+	// repeat until rotations reach the deepest nodes
+	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
 			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
-- 
2.43.0


From beda9c2f1f0a6dcc90870c66a91f0c53af471336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:44 +0000
Subject: [PATCH 102/176] fix: gltfutil: ResetJointMatrix() keeps rotations of
 meshes

---
 gltfutil/gltf_joint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 85aeb67..331dc0f 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -61,7 +61,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
-			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
+			if node.RotationOrDefault() == gltf.DefaultRotation || node.Mesh != nil || node.Camera != nil {
 				continue
 			}
 			fixed++
@@ -78,7 +78,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 				child.Translation[1] = p2.Y
 				child.Translation[2] = p2.Z
 
-				rot := child.Rotation
+				rot := child.RotationOrDefault()
 				b := Quaternion{X: rot[0], Y: rot[1], Z: rot[2], W: rot[3]}
 				q := a.Mul(&b)
 				child.Rotation[0] = q.X
-- 
2.43.0


From b2bf4825eb742efeb4744b07f403f53910e4714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:45 +0000
Subject: [PATCH 103/176] fix: gltfutil: ResetJointMatrix() supports nodes with
 matrix

---
 gltfutil/gltf_joint.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 331dc0f..ea1a253 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -57,6 +57,16 @@ func ResetJointMatrix(doc *gltf.Document) {
 		}
 	}
 
+	for _, node := range doc.Nodes {
+		if m := node.MatrixOrDefault(); m != gltf.DefaultMatrix {
+			t, r, s := geom.NewMatrix4FromSlice(m[:]).Decompose()
+			t.ToArray(node.Translation[:])
+			node.Rotation = [4]float32{r.X, r.Y, r.Z, r.W}
+			s.ToArray(node.Scale[:])
+			node.Matrix = gltf.DefaultMatrix
+		}
+	}
+
 	// repeat until rotations reach the deepest nodes
 	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
-- 
2.43.0


From 04a6b0f8ddf4af27340d0fd33407cbd0c7234886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 104/176] fix: gltfutil: ResetJointMatrix() keeps skinned
 vertices at their positions

---
 gltfutil/gltf_joint.go | 105 ++++++++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 27 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index ea1a253..99f7f38 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -27,35 +27,43 @@ func writeMatrix(data []byte, mat [16]float32) {
 	}
 }
 
-func ResetJointMatrix(doc *gltf.Document) {
-	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
-			accessor := doc.Accessors[*skin.InverseBindMatrices]
-			if accessor.BufferView != nil {
-				bufferView := doc.BufferViews[*accessor.BufferView]
-				// TODO: support sparse data.
-				data := doc.Buffers[bufferView.Buffer].Data
-				if len(data) == 0 {
-					continue
-				}
-				for i := range skin.Joints {
-					// fix inverseBindMatrix
-					offset := bufferView.ByteOffset + uint32(i)*64
-					mat := readMatrix(data[offset : offset+64])
-
-					x := mat[0]*mat[12] + mat[1]*mat[13] + mat[2]*mat[14]
-					y := mat[4]*mat[12] + mat[5]*mat[13] + mat[6]*mat[14]
-					z := mat[8]*mat[12] + mat[9]*mat[13] + mat[10]*mat[14]
-					writeMatrix(data[offset:offset+64], [16]float32{
-						1, 0, 0, 0,
-						0, 1, 0, 0,
-						0, 0, 1, 0,
-						x, y, z, 1,
-					})
-				}
-			}
+// worldMatrices returns global transform matrices of nodes.
+func worldMatrices(doc *gltf.Document) []*geom.Matrix4 {
+	result := make([]*geom.Matrix4, len(doc.Nodes))
+	var visit func(index uint32, parent *geom.Matrix4)
+	visit = func(index uint32, parent *geom.Matrix4) {
+		if result[index] != nil {
+			return
+		}
+		node := doc.Nodes[index]
+		m := node.MatrixOrDefault()
+		local := geom.NewMatrix4FromSlice(m[:])
+		if m == gltf.DefaultMatrix {
+			r, s := node.RotationOrDefault(), node.ScaleOrDefault()
+			local = geom.NewTRSMatrix4(geom.NewVector3FromArray(node.Translation),
+				&Quaternion{X: r[0], Y: r[1], Z: r[2], W: r[3]}, geom.NewVector3FromArray(s))
+		}
+		result[index] = parent.Mul(local)
+		for _, c := range node.Children {
+			visit(c, result[index])
+		}
+	}
+	child := map[uint32]bool{}
+	for _, node := range doc.Nodes {
+		for _, c := range node.Children {
+			child[c] = true
 		}
 	}
+	for i := range doc.Nodes {
+		if !child[uint32(i)] {
+			visit(uint32(i), geom.NewMatrix4())
+		}
+	}
+	return result
+}
+
+func ResetJointMatrix(doc *gltf.Document) {
+	before := worldMatrices(doc)
 
 	for _, node := range doc.Nodes {
 		if m := node.MatrixOrDefault(); m != gltf.DefaultMatrix {
@@ -101,6 +109,49 @@ func ResetJointMatrix(doc *gltf.Document) {
 			break
 		}
 	}
+
+	// fix inverseBindMatrices (joint matrices are not changed)
+	after := worldMatrices(doc)
+	uses := map[uint32]int{}
+	for _, skin := range doc.Skins {
+		if skin.InverseBindMatrices != nil {
+			uses[*skin.InverseBindMatrices]++
+		}
+	}
+	for _, skin := range doc.Skins {
+		var data []byte
+		if skin.InverseBindMatrices != nil {
+			accessor := doc.Accessors[*skin.InverseBindMatrices]
+			if accessor.BufferView != nil {
+				// TODO: support sparse data.
+				bufferView := doc.BufferViews[*accessor.BufferView]
+				if data = doc.Buffers[bufferView.Buffer].Data; len(data) == 0 {
+					continue
+				}
+				data = data[bufferView.ByteOffset+accessor.ByteOffset:]
+			}
+		}
+		columns := make([][4]float32, len(skin.Joints)*4)
+		for i, j := range skin.Joints {
+			ibm := gltf.DefaultMatrix
+			if data != nil {
+				ibm = readMatrix(data[i*64:])
+			}
+			after[j].Inverse().Mul(before[j]).Mul(geom.NewMatrix4FromSlice(ibm[:])).ToArray(ibm[:])
+			for c := 0; c < 4; c++ {
+				copy(columns[i*4+c][:], ibm[c*4:c*4+4])
+			}
+			if data != nil && uses[*skin.InverseBindMatrices] == 1 {
+				writeMatrix(data[i*64:], ibm)
+			}
+		}
+		if data == nil || uses[*skin.InverseBindMatrices] > 1 {
+			acc := modeler.WriteAccessor(doc, gltf.TargetNone, columns)
+			doc.Accessors[acc].Type = gltf.AccessorMat4
+			doc.Accessors[acc].Count /= 4
+			skin.InverseBindMatrices = gltf.Index(acc)
+		}
+	}
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-- 
2.43.0


From 1647d050f241a928f66656174df18f54e2a132ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:59 +0000
Subject: [PATCH 105/176] fix: vrmconfig: no crash when preset has material
 settings

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index adc14b3..2ce34fb 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -95,6 +95,9 @@ func LoadVRMConfig(name string) (*Config, error) {
 }
 
 func (c *Config) MergePreset(preset *Config) {
+	if c.MaterialSettings == nil {
+		c.MaterialSettings = map[string]*MaterialSetting{}
+	}
 	for name, m := range preset.MaterialSettings {
 		if _, exist := c.MaterialSettings[name]; !exist {
 			c.MaterialSettings[name] = m
-- 
2.43.0


From df715a948782a324cd2f493d9e8147d014e0d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:00 +0000
Subject: [PATCH 106/176] fix: vrmconfig: spring bones of preset use collider
 groups of the preset

---
 converter/vrmconfig.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ce34fb..5458674 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -105,7 +105,14 @@ func (c *Config) MergePreset(preset *Config) {
 	}
 	c.BoneMappings = append(c.BoneMappings, preset.BoneMappings...)
 	c.MorphMappings = append(c.MorphMappings, preset.MorphMappings...)
-	c.AnimationBoneGroups = append(c.AnimationBoneGroups, preset.AnimationBoneGroups...)
+	for _, g := range preset.AnimationBoneGroups {
+		group := *g
+		group.ColliderGroups = nil
+		for _, i := range g.ColliderGroups {
+			group.ColliderGroups = append(group.ColliderGroups, i+len(c.ColliderGroups))
+		}
+		c.AnimationBoneGroups = append(c.AnimationBoneGroups, &group)
+	}
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
-- 
2.43.0


From f6852a79c0c26a16862849096ca01b099240eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 107/176] fix: vrmconfig: keep references to collider groups
 when some of them are skipped

---
 converter/vrmconfig.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 5458674..a9cb337 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -215,8 +215,30 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
+	colliderIndex := map[int]int{}
+	for i, colliderGroup := range conf.ColliderGroups {
+		var b = colliderGroup.SecondaryAnimationColliderGroup
+		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
+			b.Node = uint32(id)
+		} else {
+			log.Println("Node not found:", colliderGroup.NodeName)
+			continue
+		}
+		if ext.SecondaryAnimation == nil {
+			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
+		}
+		colliderIndex[i] = len(ext.SecondaryAnimation.ColliderGroups)
+		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
+	}
+
 	for _, boneGroup := range conf.AnimationBoneGroups {
 		var b = boneGroup.SecondaryAnimationBoneGroup
+		b.ColliderGroups = nil
+		for _, i := range boneGroup.ColliderGroups {
+			if index, ok := colliderIndex[i]; ok {
+				b.ColliderGroups = append(b.ColliderGroups, index)
+			}
+		}
 		for _, nodeName := range boneGroup.NodeNames {
 			matched := matchNodeName(nodeName, nodeMap)
 			for _, n := range matched {
@@ -243,20 +265,6 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
-	for _, colliderGroup := range conf.ColliderGroups {
-		var b = colliderGroup.SecondaryAnimationColliderGroup
-		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
-			b.Node = uint32(id)
-		} else {
-			log.Println("Node not found:", colliderGroup.NodeName)
-			continue
-		}
-		if ext.SecondaryAnimation == nil {
-			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
-		}
-		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
-	}
-
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
 		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-- 
2.43.0


From e3cf4b77572e47c537151791ca8e7d41a79bf7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 108/176] fix: vrmconfig: add topmost nodes first when spring
 bones are given by a pattern

---
 converter/vrmconfig.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index a9cb337..9ccc381 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/gltfutil"
@@ -116,7 +117,8 @@ func (c *Config) MergePreset(preset *Config) {
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
-func matchNodeName(pattern string, nodeMap map[string]int) []int {
+// matchNodeName returns nodes in order of depth.
+func matchNodeName(doc *vrm.Document, pattern string, nodeMap map[string]int) []int {
 	var result []int
 	if strings.Contains(pattern, "*") || strings.Contains(pattern, "?") {
 		for name, id := range nodeMap {
@@ -124,6 +126,25 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 				result = append(result, id)
 			}
 		}
+		depth := map[int]int{}
+		var visit func(id, d int)
+		visit = func(id, d int) {
+			depth[id] = d
+			for _, c := range doc.Nodes[id].Children {
+				visit(int(c), d+1)
+			}
+		}
+		for id := range doc.Nodes {
+			if _, ok := depth[id]; !ok {
+				visit(id, 0)
+			}
+		}
+		sort.Slice(result, func(i, j int) bool {
+			if depth[result[i]] != depth[result[j]] {
+				return depth[result[i]] < depth[result[j]]
+			}
+			return result[i] < result[j]
+		})
 	} else if id, ok := nodeMap[pattern]; ok {
 		result = append(result, id)
 	}
@@ -240,7 +261,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			}
 		}
 		for _, nodeName := range boneGroup.NodeNames {
-			matched := matchNodeName(nodeName, nodeMap)
+			matched := matchNodeName(doc, nodeName, nodeMap)
 			for _, n := range matched {
 				if doc.Nodes[n].Mesh != nil {
 					log.Printf("ERROR: %v is not bone node!", nodeName)
-- 
2.43.0


From 6054748c23f604c4cb410141ae042157bf0c1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 109/176] fix: vrmconfig: no crash on alpha settings of
 materials without base color

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 9ccc381..a3bc1ff 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -231,6 +231,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				mat.AlphaMode = gltf.AlphaOpaque
 			}
 			if setting.Alpha > 0 && mat.PBRMetallicRoughness != nil {
+				if mat.PBRMetallicRoughness.BaseColorFactor == nil {
+					mat.PBRMetallicRoughness.BaseColorFactor = &[4]float32{1, 1, 1, 1}
+				}
 				mat.PBRMetallicRoughness.BaseColorFactor[3] = setting.Alpha
 			}
 		}
-- 
2.43.0


From 24262ccd9ccad113140b5fd4e772eccf4b5815ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:45 +0000
Subject: [PATCH 110/176] fix: vrmconfig: bind morph targets of all meshes,
 also in loaded glTF files

---
 converter/vrmconfig.go | 63 +++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index a3bc1ff..bc13e4a 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -170,6 +170,21 @@ func registerReursive(doc *vrm.Document, target uint32, m map[uint32]string, nam
 	}
 }
 
+func morphTargetNames(mesh *gltf.Mesh) []string {
+	extras, _ := mesh.Extras.(map[string]interface{})
+	switch names := extras["targetNames"].(type) {
+	case []string:
+		return names
+	case []interface{}: // decoded from json
+		result := make([]string, len(names))
+		for i, name := range names {
+			result[i], _ = name.(string)
+		}
+		return result
+	}
+	return nil
+}
+
 func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]int, nodeMap map[string]int, blendShapeMap map[[2]int]string) {
 	ext := doc.VRM()
 	springBones := map[uint32]string{}
@@ -289,14 +304,10 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
-	targets := map[string][2]int{}
+	targets := map[string][][2]int{}
 	for mi, mesh := range doc.Meshes {
-		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for i, name := range names {
-					targets[name] = [2]int{mi, i}
-				}
-			}
+		for i, name := range morphTargetNames(mesh) {
+			targets[name] = append(targets[name], [2]int{mi, i})
 		}
 	}
 	for _, mapping := range conf.MorphMappings {
@@ -306,13 +317,11 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				PresetName:     mapping.Name,
 				MaterialValues: mapping.MaterialValues,
 			}
-			if t, ok := targets[mapping.TargetName]; ok {
+			for _, t := range targets[mapping.TargetName] {
 				blendShapeMap[t] = mapping.Name
-				m.Binds = []*vrm.BlendShapeBind{
-					{
-						Mesh: uint32(t[0]), Index: t[1], Weight: 100,
-					},
-				}
+				m.Binds = append(m.Binds, &vrm.BlendShapeBind{
+					Mesh: uint32(t[0]), Index: t[1], Weight: 100,
+				})
 			}
 			if len(m.Binds) > 0 || len(m.MaterialValues) > 0 {
 				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
@@ -373,23 +382,19 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
-			if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-				if names, ok := extras["targetNames"].([]string); ok {
-					for i, name := range names {
-						if _, used := blendShapeMap[[2]int{mi, i}]; used {
-							continue
-						}
-						m := &vrm.BlendShapeGroup{
-							Name: name,
-							Binds: []*vrm.BlendShapeBind{
-								{
-									Mesh: uint32(mi), Index: i, Weight: 100,
-								},
-							},
-						}
-						ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-					}
+			for i, name := range morphTargetNames(mesh) {
+				if _, used := blendShapeMap[[2]int{mi, i}]; used {
+					continue
 				}
+				m := &vrm.BlendShapeGroup{
+					Name: name,
+					Binds: []*vrm.BlendShapeBind{
+						{
+							Mesh: uint32(mi), Index: i, Weight: 100,
+						},
+					},
+				}
+				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 			}
 		}
 	}
-- 
2.43.0


From 68acee96e6fd3234badfba153ab1b9150401fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 111/176] fix: vrmconfig: skip morph mappings to nodes without
 the morph target

---
 converter/vrmconfig.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index bc13e4a..da66098 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -170,6 +170,10 @@ func registerReursive(doc *vrm.Document, target uint32, m map[uint32]string, nam
 	}
 }
 
+func hasMorphTarget(mesh *gltf.Mesh, index int) bool {
+	return index >= 0 && len(mesh.Primitives) > 0 && index < len(mesh.Primitives[0].Targets)
+}
+
 func morphTargetNames(mesh *gltf.Mesh) []string {
 	extras, _ := mesh.Extras.(map[string]interface{})
 	switch names := extras["targetNames"].(type) {
@@ -329,7 +333,8 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			continue
 		}
 
-		if id, ok := nodeMap[mapping.NodeName]; ok {
+		id, ok := nodeMap[mapping.NodeName]
+		if ok && doc.Nodes[id].Mesh != nil && hasMorphTarget(doc.Meshes[*doc.Nodes[id].Mesh], mapping.TargetIndex) {
 			blendShapeMap[[2]int{int(*doc.Nodes[id].Mesh), mapping.TargetIndex}] = mapping.Name
 			m := &vrm.BlendShapeGroup{
 				Name:       mapping.Name,
@@ -339,9 +344,10 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 						Mesh: *doc.Nodes[id].Mesh, Index: mapping.TargetIndex, Weight: 100,
 					},
 				},
+				MaterialValues: mapping.MaterialValues,
 			}
 			ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-		} else if mapping.NodeName == "" {
+		} else {
 			log.Println("Morph node not found:", mapping.NodeName, ":", mapping.TargetIndex)
 		}
 	}
-- 
2.43.0


From 623e873356233f4f284df065cba14600ec0f673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 112/176] fix: vrmconfig: no first person bone when head is not
 mapped

---
 converter/vrmconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index da66098..a97a4ad 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -406,7 +406,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	}
 
 	if ext.FirstPerson == nil {
-		if node, ok := foundBones["head"]; ok {
+		if node, ok := foundBones["head"]; ok && node >= 0 {
 			ext.FirstPerson = &vrm.FirstPerson{
 				FirstPersonBone: node,
 			}
-- 
2.43.0


From 23c2b5f9005615ec780828e88e8256c9e339633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 113/176] fix: vrmconfig: keep bones and metadata of VRM files

---
 converter/vrmconfig.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index a97a4ad..874d076 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -356,7 +356,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	ext := doc.VRM()
 	ext.ExporterVersion = vrm.ExporterVersion
-	ext.Meta = conf.Metadata
+	if conf.Metadata != (vrm.Metadata{}) {
+		ext.Meta = conf.Metadata
+	}
 
 	if len(ext.MaterialProperties) != len(doc.Materials) {
 		ext.MaterialProperties = []*vrm.MaterialProperty{}
@@ -372,6 +374,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 		nodeMap[node.Name] = id
 	}
 	foundBones := map[string]int{}
+	currentBones := ext.Humanoid.Bones
 	ext.Humanoid.Bones = []*vrm.Bone{}
 
 	blendShapeMap := map[[2]int]string{}
@@ -386,6 +389,13 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 
 	applyConfigInternal(doc, conf, foundBones, nodeMap, blendShapeMap)
 
+	for _, bone := range currentBones {
+		if _, ok := foundBones[bone.Bone]; !ok {
+			foundBones[bone.Bone] = bone.Node
+			ext.Humanoid.Bones = append(ext.Humanoid.Bones, bone)
+		}
+	}
+
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
 			for i, name := range morphTargetNames(mesh) {
-- 
2.43.0


From a315c61ab6e82691a5e4d764ccab4572dc2eb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:12 +0000
Subject: [PATCH 114/176] fix: glbanim: add channels in fixed order

---
 converter/glbanim.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 00f9aaf..8ae7c03 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"log"
 	"math"
+	"sort"
 
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
@@ -54,7 +55,13 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	var prevCh *mmd.BoneChannel
 	var prevKeysAcc uint32
-	for _, channel := range bb {
+	var names []string
+	for name := range bb {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		channel := bb[name]
 		if n, ok := boneToNode[channel.Target]; ok {
 			var keysAcc uint32
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
@@ -202,14 +209,24 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	nodeChannels := map[int][]*mmd.MorphChannel{}
-	for _, m := range morphs {
+	var names []string
+	for name := range morphs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		m := morphs[name]
 		if _, exits := targets[m.Target]; !exits {
 			continue
 		}
 		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
 	}
 
-	for ni, mm := range nodeChannels {
+	for ni := range doc.Nodes {
+		mm := nodeChannels[ni]
+		if len(mm) == 0 {
+			continue
+		}
 		var keys []float32
 		for _, k := range mm[0].Frames {
 			keys = append(keys, float32(k)/30)
-- 
2.43.0


From e97cd7af0df6bdecda05537dd92a3c1b0d7b285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:14 +0000
Subject: [PATCH 115/176] fix: glbanim: set min and max of keyframe times

---
 converter/glbanim.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 8ae7c03..c2a28a4 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -23,6 +23,18 @@ func keysEquals(a, b []uint32) bool {
 	return true
 }
 
+// writeKeyframes adds an accessor of keyframe times, which must have min and max.
+func writeKeyframes(doc *gltf.Document, frames []uint32) uint32 {
+	var keys []float32
+	for _, k := range frames {
+		keys = append(keys, float32(k)/30)
+	}
+	acc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+	doc.Accessors[acc].Min = []float32{keys[0]}
+	doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}
+	return acc
+}
+
 func isDefaultRotations(samples []*mmd.Vector4) bool {
 	ident := mmd.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 	for _, q := range samples {
@@ -67,11 +79,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
 				keysAcc = prevKeysAcc
 			} else {
-				var keys []float32
-				for _, k := range channel.Frames {
-					keys = append(keys, float32(k)/30)
-				}
-				keysAcc = modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+				keysAcc = writeKeyframes(doc, channel.Frames)
 			}
 
 			var rot mqo.Vector3
@@ -227,12 +235,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		if len(mm) == 0 {
 			continue
 		}
-		var keys []float32
-		for _, k := range mm[0].Frames {
-			keys = append(keys, float32(k)/30)
-		}
-
-		sampleCount := len(keys)
+		sampleCount := len(mm[0].Frames)
 		sampleSize := targets[mm[0].Target][2]
 		weights := make([]uint8, sampleSize*sampleCount)
 
@@ -247,7 +250,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+		keysAcc := writeKeyframes(doc, mm[0].Frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From 11d4751d04b8d14f637a5c89896e241245e081ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:15 +0000
Subject: [PATCH 116/176] fix: vmd: one keyframe per frame in channels

---
 mmd/vmd_parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 6686f15..ae7abcd 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -70,7 +70,7 @@ type MorphChannel struct {
 }
 
 func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
-	sort.Slice(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
+	sort.SliceStable(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
 
 	r := map[string]*BoneChannel{}
 	for _, s := range a.Bone {
@@ -79,6 +79,11 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 			a = &BoneChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames); n > 0 && a.Frames[n-1] == uint32(s.Frame) {
+			a.Rotations[n-1] = &s.Rotation
+			a.Positions[n-1] = &s.Position
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Rotations = append(a.Rotations, &s.Rotation)
 		a.Positions = append(a.Positions, &s.Position)
@@ -87,7 +92,7 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 }
 
 func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
-	sort.Slice(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
+	sort.SliceStable(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
 
 	r := map[string]*MorphChannel{}
 	for _, s := range a.Morph {
@@ -96,6 +101,10 @@ func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
 			a = &MorphChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames); n > 0 && a.Frames[n-1] == uint32(s.Frame) {
+			a.Weights[n-1] = s.Value
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Weights = append(a.Weights, s.Value)
 	}
-- 
2.43.0


From 3b8a9ebc43df861d0c0dd78972658d744082448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:16 +0000
Subject: [PATCH 117/176] fix: glbanim: translations are relative to the parent
 bone

---
 converter/glbanim.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index c2a28a4..9acaf2e 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -83,12 +83,9 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			}
 
 			var rot mqo.Vector3
-			var pos mqo.Vector3
 			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
-				pos = b.Pos.Vector3
-
 				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
 					// TODO rotation matrix
 					d := (boneByID[b.Parent].RotationOffset.X - b.RotationOffset.X) * float32(math.Cos(float64(boneByID[b.Parent].RotationOffset.Y)))
@@ -148,6 +145,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			}
 
 			translate := false
+			pos := doc.Nodes[n].Translation // relative to the parent
 			var translations [][3]float32
 			for _, s := range channel.Positions {
 				r := [3]float32{s.X * scale, s.Y * scale, -s.Z * scale}
@@ -166,7 +164,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {
 					translate = true
 				}
-				translations = append(translations, [3]float32{pos.X*0.001 + r[0], pos.Y*0.001 + r[1], pos.Z*0.001 + r[2]})
+				translations = append(translations, [3]float32{pos[0] + r[0], pos[1] + r[1], pos[2] + r[2]})
 			}
 			if translate {
 				log.Println("Translate channel:", channel.Target)
-- 
2.43.0


From db7a0b037abe453c0499734df61b4757ee47355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 118/176] fix: glbanim: rotations and translations of bones
 with rotation offset

---
 converter/glbanim.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 9acaf2e..bc890af 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -83,12 +83,16 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			}
 
 			var rot mqo.Vector3
+			var parentRotX float32
 			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
-				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
+				if parent := boneByID[b.Parent]; parent != nil {
+					parentRotX = parent.RotationOffset.X
+				}
+				if b.RotationOffset.X != parentRotX {
 					// TODO rotation matrix
-					d := (boneByID[b.Parent].RotationOffset.X - b.RotationOffset.X) * float32(math.Cos(float64(boneByID[b.Parent].RotationOffset.Y)))
+					d := (parentRotX - b.RotationOffset.X) * float32(math.Cos(float64(b.RotationOffset.Y)))
 					qOffset = mqo.Vector4{X: 0, Y: 0, Z: float32(math.Sin(float64(d / 2))), W: float32(math.Cos(float64(d / 2)))}
 					log.Println("rotation offset", qOffset)
 				}
@@ -103,7 +107,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			rotate := false
 			var rotations [][4]float32
 			for _, ms := range channel.Rotations {
-				s := (&mqo.Vector4{X: ms.X, Y: ms.Y, Z: ms.Z, W: ms.W}).Mul(&qOffset)
+				s := qOffset.Mul(&mqo.Vector4{X: ms.X, Y: ms.Y, Z: ms.Z, W: ms.W})
 				r := [4]float32{-s.X, -s.Y, s.Z, s.W}
 
 				r = [4]float32{
@@ -146,6 +150,8 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 			translate := false
 			pos := doc.Nodes[n].Translation // relative to the parent
+			cosRotX = float32(math.Cos(float64(parentRotX)))
+			sinRotX = float32(math.Sin(float64(parentRotX)))
 			var translations [][3]float32
 			for _, s := range channel.Positions {
 				r := [3]float32{s.X * scale, s.Y * scale, -s.Z * scale}
-- 
2.43.0


From a06c85b65c8e9f3fc8af6ba1adb004a79d7f945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:57 +0000
Subject: [PATCH 119/176] fix: glbanim: animate morphs with different keyframes
 and of all meshes

---
 converter/glbanim.go | 78 +++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index bc890af..953397d 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -200,63 +200,53 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 	}
 }
 
+// sampleMorph returns the weight of the morph at the frame.
+func sampleMorph(m *mmd.MorphChannel, frame uint32) float32 {
+	i := sort.Search(len(m.Frames), func(i int) bool { return m.Frames[i] >= frame })
+	if i == len(m.Frames) {
+		return m.Weights[i-1]
+	} else if i == 0 || m.Frames[i] == frame {
+		return m.Weights[i]
+	}
+	t := float32(frame-m.Frames[i-1]) / float32(m.Frames[i]-m.Frames[i-1])
+	return m.Weights[i-1] + (m.Weights[i]-m.Weights[i-1])*t
+}
+
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
-	targets := map[string][3]int{} // targetName => [node, targetIndex]
-	for i, n := range doc.Nodes {
-		if n.Mesh == nil {
-			continue
-		}
-		if len(doc.Meshes[*n.Mesh].Primitives) == 0 {
+	for ni, n := range doc.Nodes {
+		if n.Mesh == nil || len(doc.Meshes[*n.Mesh].Primitives) == 0 {
 			continue
 		}
-
-		if extras, ok := doc.Meshes[*n.Mesh].Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for ti, name := range names {
-					// TODO multiple mesh
-					targets[name] = [3]int{i, ti, len(names)}
+		names := morphTargetNames(doc.Meshes[*n.Mesh])
+
+		var frames []uint32
+		exists := map[uint32]bool{}
+		for _, name := range names {
+			if m := morphs[name]; m != nil {
+				for _, f := range m.Frames {
+					if !exists[f] {
+						exists[f] = true
+						frames = append(frames, f)
+					}
 				}
 			}
 		}
-	}
-
-	nodeChannels := map[int][]*mmd.MorphChannel{}
-	var names []string
-	for name := range morphs {
-		names = append(names, name)
-	}
-	sort.Strings(names)
-	for _, name := range names {
-		m := morphs[name]
-		if _, exits := targets[m.Target]; !exits {
+		if len(frames) == 0 {
 			continue
 		}
-		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
-	}
+		sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
 
-	for ni := range doc.Nodes {
-		mm := nodeChannels[ni]
-		if len(mm) == 0 {
-			continue
-		}
-		sampleCount := len(mm[0].Frames)
-		sampleSize := targets[mm[0].Target][2]
-		weights := make([]uint8, sampleSize*sampleCount)
-
-		for _, m := range mm {
-			if len(m.Frames) != sampleCount {
-				log.Print("TODO: resample", m.Target, len(m.Frames), sampleCount)
-				continue
-			}
-			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target][1]] = uint8(v * 255)
+		weights := make([]float32, len(names)*len(frames))
+		for ti, name := range names {
+			if m := morphs[name]; m != nil {
+				for i, f := range frames {
+					weights[i*len(names)+ti] = sampleMorph(m, f)
+				}
 			}
 		}
-		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := writeKeyframes(doc, mm[0].Frames)
+		keysAcc := writeKeyframes(doc, frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
-		doc.Accessors[weightsAcc].Normalized = true
 
 		a.Samplers = append(a.Samplers, &gltf.AnimationSampler{
 			Input:         gltf.Index(uint32(keysAcc)),
-- 
2.43.0


From 2e40e9a3f5e96430bb71fbcafeb760f3a64c1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:40 +0000
Subject: [PATCH 120/176] fix: fbx: empty arrays have no elements

---
 fbx/fbx_node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index fef15a0..c0cf089 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -82,7 +82,7 @@ func (n *Node) GetString() string {
 
 func (n *Node) GetInt32Array() []int32 {
 	array := n.Attr(0).ToInt32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, int32(attr.ToInt(0)))
 		}
@@ -92,7 +92,7 @@ func (n *Node) GetInt32Array() []int32 {
 
 func (n *Node) GetFloat32Array() []float32 {
 	array := n.Attr(0).ToFloat32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, attr.ToFloat32(0))
 		}
-- 
2.43.0


From 9238dca3e9e6f486a5360b3484c7ffbdc9010383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:27 +0000
Subject: [PATCH 121/176] fix: unity: remove temporary files when a package can
 not be opened

---
 unity/unity_assets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 98e357e..6971aa2 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -71,9 +71,15 @@ func OpenPackage(packagePath string) (Assets, error) {
 	}
 	err = extractPackage(packagePath, tmpDir)
 	if err != nil {
+		os.RemoveAll(tmpDir)
 		return nil, err
 	}
-	return scanPackage(tmpDir, true, packagePath)
+	pkg, err := scanPackage(tmpDir, true, packagePath)
+	if err != nil {
+		os.RemoveAll(tmpDir)
+		return nil, err
+	}
+	return pkg, nil
 }
 
 type assets struct {
-- 
2.43.0


From 561f250ac0c04cb3f706b98aa094f43171e7642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:30 +0000
Subject: [PATCH 122/176] fix: unity: do not extract files of a package to
 outside of the directory

---
 unity/unity_assets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 6971aa2..316b3f7 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -3,6 +3,7 @@ package unity
 import (
 	"archive/tar"
 	"compress/gzip"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -216,6 +217,9 @@ func extractPackage(pacakage, dst string) error {
 		}
 
 		name := filepath.Join(dst, header.Name)
+		if rel, err := filepath.Rel(dst, name); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("invalid path in package: %s", header.Name)
+		}
 
 		switch header.Typeflag {
 		case tar.TypeDir:
-- 
2.43.0


From e14565e0b0a0a20e572d0c8ffa2c6754571937da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:33 +0000
Subject: [PATCH 123/176] fix: unity: extract packages without entries for
 directories

---
 unity/unity_assets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 316b3f7..ee0b341 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -229,6 +229,9 @@ func extractPackage(pacakage, dst string) error {
 				}
 			}
 		case tar.TypeReg:
+			if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
+				return err
+			}
 			f, err := os.Create(name)
 			if err != nil {
 				return err
-- 
2.43.0


From 402320b744ff70a0e309e6f7d0293989ab41041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:35 +0000
Subject: [PATCH 124/176] fix: unity: path of an asset is the first line of the
 pathname file

---
 unity/unity_assets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index ee0b341..1f5927f 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -175,7 +175,7 @@ func scanPackage(packageDir string, tmp bool, originalPath string) (*packageFs,
 		if err != nil {
 			return nil, err
 		}
-		path := string(b)
+		path := strings.TrimRight(strings.SplitN(string(b), "\n", 2)[0], "\r") // the first line
 		guid := f.Name()
 		asset := &Asset{
 			GUID: guid,
-- 
2.43.0


From a612ef4d5be98971eb5ef089e009a2e642d63cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 125/176] fix: unity: keep a short last line of a YAML file

---
 unity/unity_yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index 5d14fd0..e616138 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -51,7 +51,7 @@ func ParseYamlDocuments(data []byte) []*YAMLDoc {
 		s.nextLine()
 	}
 	if doc != nil {
-		doc.Body = data[docStart:s.pos]
+		doc.Body = data[docStart:]
 		docs = append(docs, doc)
 	}
 	return docs
-- 
2.43.0


From e265ce10ed1d3be51299a691398cd5f6d876b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:01 +0000
Subject: [PATCH 126/176] fix: unity: skip broken game objects

---
 unity/unity_scene.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1008096..576e909 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -69,6 +69,10 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				GameObject *GameObject `yaml:"GameObject" typeid:"unity3d.com,2011:1"`
 			}
 			err = doc.Decode(&d)
+			if err != nil || d.GameObject == nil {
+				log.Println("invalid gameObject", err, scene.GUID, fileId)
+				continue
+			}
 			d.GameObject.init(scene)
 			element = d.GameObject
 			objects = append(objects, d.GameObject)
-- 
2.43.0


From 5fa3da355edabb4a2effd79066954be2cf3955c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:59 +0000
Subject: [PATCH 127/176] fix: unity: parent of prefab instances

---
 unity/unity_components.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unity/unity_components.go b/unity/unity_components.go
index d5d9624..760a33c 100644
--- a/unity/unity_components.go
+++ b/unity/unity_components.go
@@ -63,6 +63,7 @@ type Transform struct {
 	RootOrder int `yaml:"m_RootOrder"`
 
 	children []*Transform
+	parent   *Transform // parent in another scene
 }
 
 func (tr *Transform) GetMatrix() *geom.Matrix4 {
@@ -98,6 +99,7 @@ func (tr *Transform) AddChild(child *Transform) bool {
 	if tr.children == nil {
 		tr.GetChildren()
 	}
+	child.parent = tr
 	for _, c := range tr.children {
 		if child == c {
 			return false
@@ -108,9 +110,13 @@ func (tr *Transform) AddChild(child *Transform) bool {
 }
 
 func (tr *Transform) GetParent() *Transform {
-	// TODO: prefab parent
-	t, _ := tr.Scene.GetElement(&tr.Father).(*Transform)
-	return t
+	if tr.parent != nil {
+		return tr.parent
+	}
+	if tr.Father.GUID != "" && tr.Father.GUID != tr.Scene.GUID {
+		return nil
+	}
+	return tr.Scene.GetTransform(&tr.Father, nil)
 }
 
 type MonoBehaviour struct {
-- 
2.43.0


From c6c7086b80696d068cc8e7f2ad8c7660a4ff8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 128/176] fix: unity: keep objects added below a prefab
 instance

---
 unity/unity_scene.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 576e909..0920c4c 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -58,6 +58,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 	var objects []*GameObject
 
 	addedChildren := map[Ref][]*Transform{}
+	var transforms []*Transform
 
 	for _, doc := range ParseYamlDocuments(b) {
 		var element Element
@@ -196,6 +197,9 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
 					component.init(scene)
 					element = component
+					if tr, ok := component.(*Transform); ok {
+						transforms = append(transforms, tr)
+					}
 				}
 			}
 			if element == nil {
@@ -225,6 +229,14 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 			parent.AddChild(child)
 		}
 	}
+	// Objects added to prefab instances
+	for _, tr := range transforms {
+		if father, ok := scene.GetElement(&tr.Father).(*Transform); ok {
+			if parent := scene.GetTransform(&tr.Father, nil); parent != father {
+				parent.AddChild(tr)
+			}
+		}
+	}
 	return scene, nil
 }
 
-- 
2.43.0


From 61abb15d2eb593f2345d97fab53bde471e9c8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 129/176] fix: unity: attach prefab variants to their parent

---
 unity/unity_scene.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 0920c4c..bfb46ec 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -109,11 +109,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				if tr != nil {
 					tr.Father = *prefab.Modification.TransformParent
 					tr.Father.GUID = scene.GUID
-					for _, c := range root.Components {
-						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
-							addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
-						}
-					}
+					addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
 				}
 				objects = append(objects, root)
 			}
-- 
2.43.0


From 0c6b04df0c88fd910408aa4a16030bbdca818a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 130/176] fix: unity: prefab instance without m_TransformParent

---
 unity/unity_scene.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index bfb46ec..584593b 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -107,7 +107,10 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				root := s.Objects[0]
 				tr := root.GetTransform()
 				if tr != nil {
-					tr.Father = *prefab.Modification.TransformParent
+					tr.Father = Ref{}
+					if prefab.Modification.TransformParent != nil {
+						tr.Father = *prefab.Modification.TransformParent
+					}
 					tr.Father.GUID = scene.GUID
 					addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
 				}
-- 
2.43.0


From 99688674c858aa48b52ad9c60c6a65c1640e4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 131/176] fix: unity: numeric names in prefab modifications

---
 unity/unity.go       |  8 ++++----
 unity/unity_scene.go | 10 ++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index c205f46..80a2f2a 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -117,10 +117,10 @@ func (o *GameObject) GetTransform() *Transform {
 type PrefabInstance struct {
 	Modification struct {
 		Modifications []struct {
-			Target          *Ref        `yaml:"target"`
-			PropertyPath    string      `yaml:"propertyPath"`
-			Value           interface{} `yaml:"value"`
-			ObjectReference *Ref        `yaml:"objectReference"`
+			Target          *Ref   `yaml:"target"`
+			PropertyPath    string `yaml:"propertyPath"`
+			Value           string `yaml:"value"`
+			ObjectReference *Ref   `yaml:"objectReference"`
 		} `yaml:"m_Modifications"`
 		TransformParent   *Ref          `yaml:"m_TransformParent"`
 		RemovedComponents []interface{} `yaml:"m_RemovedComponents"`
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 584593b..be741a5 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -122,13 +122,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 					continue
 				}
 				var flaotValue float32
-				if v, ok := mod.Value.(float32); ok {
-					flaotValue = v
-				} else if v, ok := mod.Value.(float64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int); ok {
+				if v, err := strconv.ParseFloat(mod.Value, 32); err == nil {
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
@@ -152,7 +146,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 							} else if v, ok := field.(**Ref); ok {
 								*v = mod.ObjectReference
 							} else if v, ok := field.(*string); ok {
-								*v, _ = mod.Value.(string)
+								*v = mod.Value
 							} else if v, ok := field.(*Vector3); ok && len(prop) == 2 {
 								if prop[1] == "x" {
 									v.X = flaotValue
-- 
2.43.0


From a49dc4a728ec5d9cd7a7005990d1c66f06269525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 132/176] fix: unity: prefabs that contain themselves

---
 unity/unity_scene.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index be741a5..5928483 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -34,6 +34,16 @@ func LoadScene(assets Assets, scenePath string) (*Scene, error) {
 }
 
 func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
+	return loadSceneAsset(assets, sceneAsset, nil)
+}
+
+func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []*Asset) (*Scene, error) {
+	for _, p := range parents {
+		if p.Path == sceneAsset.Path {
+			return nil, fmt.Errorf("prefab contains itself: %s", sceneAsset.Path)
+		}
+	}
+	parents = append(parents, sceneAsset)
 	r, err := assets.Open(sceneAsset.Path)
 	if err != nil {
 		return nil, err
@@ -96,7 +106,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				log.Println("prefab not found", prefab.SourcePrefab)
 				continue
 			}
-			s, err := LoadSceneAsset(assets, prefabAsset)
+			s, err := loadSceneAsset(assets, prefabAsset, parents)
 			if err != nil {
 				log.Println("failed to loadPrefab", prefab.SourcePrefab)
 				continue
-- 
2.43.0


From da4587a97663b8654b3e2e9274368b8e941b6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 133/176] fix: unity: UVs of the cylinder caps were scaled
 twice

---
 unity/unity_builtin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unity/unity_builtin.go b/unity/unity_builtin.go
index cf14140..fad2e07 100644
--- a/unity/unity_builtin.go
+++ b/unity/unity_builtin.go
@@ -136,6 +136,7 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 	var top []int
 	var bottom []int
 	var topuv []geom.Vector2
+	var bottomuv []geom.Vector2
 
 	for i := 0; i < s; i++ {
 		t := float64(i) / float64(s) * math.Pi * 2
@@ -152,9 +153,10 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 			{X: 1 - float32(i+1)/float32(s), Y: 0},
 		})
 		topuv = append(topuv, geom.Vector2{X: float32(i) / float32(s), Y: 1})
+		bottomuv = append(bottomuv, geom.Vector2{X: float32(i) / float32(s), Y: 1})
 	}
 	faces = append(faces, top, bottom)
-	uvs = append(uvs, topuv, topuv)
+	uvs = append(uvs, topuv, bottomuv)
 	return
 }
 
-- 
2.43.0


From 42167ed215c16ea855d9ff91b243d600b66e8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 134/176] fix: unity2mqo: FBX files with an upper case suffix

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 622e4cf..aab0b9f 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -336,7 +336,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 	log.Println("Import mesh:", asset, meta.GetRecycleNameByFileID(mesh.FileID))
 
 	if c.lastFbxID != mesh.GUID { // TODO
-		if !strings.HasSuffix(asset.Path, ".fbx") {
+		if !strings.HasSuffix(strings.ToLower(asset.Path), ".fbx") {
 			return fmt.Errorf("not supported: %s", asset.Path)
 		}
 
-- 
2.43.0


From 7762be305b77d99f9f4b0411b35191b7374abcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 135/176] fix: unity: components without a body

---
 unity/unity_scene.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 5928483..a978015 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -197,7 +197,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []*Asset) (*Scene,
 			if fieldid, ok := componentTags[doc.Tag]; ok {
 				var components componentDesc
 				err = doc.Decode(&components)
-				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
+				field := reflect.ValueOf(components).Field(fieldid)
+				if component, _ := field.Interface().(Component); component != nil && !field.IsNil() {
 					component.init(scene)
 					element = component
 					if tr, ok := component.(*Transform); ok {
-- 
2.43.0


From fec3ddf0eb6cade5f66ff4f6e3a6a9d1b04d6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:06 +0000
Subject: [PATCH 136/176] fix: unity: transforms that are their own ancestor

---
 unity/unity_components.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unity/unity_components.go b/unity/unity_components.go
index 760a33c..b29cef9 100644
--- a/unity/unity_components.go
+++ b/unity/unity_components.go
@@ -74,11 +74,13 @@ func (tr *Transform) GetMatrix() *geom.Matrix4 {
 }
 
 func (tr *Transform) GetWorldMatrix() *geom.Matrix4 {
-	parent := tr.GetParent()
-	if parent == nil {
-		return tr.GetMatrix()
+	mat := tr.GetMatrix()
+	visited := map[*Transform]bool{tr: true}
+	for p := tr.GetParent(); p != nil && !visited[p]; p = p.GetParent() {
+		visited[p] = true
+		mat = p.GetMatrix().Mul(mat)
 	}
-	return parent.GetWorldMatrix().Mul(tr.GetMatrix())
+	return mat
 }
 
 func (tr *Transform) GetChildren() []*Transform {
-- 
2.43.0


From d8dc154652f0c2c7551eaac9343a632a7fce8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:53 +0000
Subject: [PATCH 137/176] fix: unity2mqo: objects that contain themselves

---
 converter/unity2mqo.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index aab0b9f..82cbe9c 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -34,6 +34,8 @@ type unityToMqoState struct {
 	}
 	matToGUID map[int]string
 
+	ancestors map[*unity.GameObject]bool
+
 	// TODL: LRU cache
 	lastFbx   *fbx.Document
 	lastFbxID string
@@ -61,6 +63,7 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 			uvScale *geom.Vector2
 		}{},
 		matToGUID: map[int]string{},
+		ancestors: map[*unity.GameObject]bool{},
 	}
 
 	s := state.ConvertScale
@@ -77,6 +80,8 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 }
 
 func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransform *geom.Matrix4, active bool) {
+	c.ancestors[o] = true
+	defer delete(c.ancestors, o)
 	dst := c.dst
 	obj := mqo.NewObject(o.Name)
 	active = active && o.IsActive != 0
@@ -213,6 +218,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			log.Println("GameObject not found", child.GameObject, tr.CorrespondingSourceObject)
 			continue
 		}
+		if c.ancestors[childObj] {
+			log.Println("GameObject contains itself", child.GameObject)
+			continue
+		}
 		c.convertObject(childObj, d+1, transform, active)
 	}
 }
-- 
2.43.0


From 6a17dac2b5936b61ef904219a92d0951e5b37618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 138/176] fix: unity: empty entries in the component list

---
 unity/unity.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unity/unity.go b/unity/unity.go
index 80a2f2a..b44b7eb 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -85,6 +85,9 @@ func (o *GameObject) init(scene *Scene) {
 func (o *GameObject) GetComponent(target interface{}) bool {
 	typ := reflect.TypeOf(target).Elem()
 	for _, c := range o.Components {
+		if c == nil {
+			continue
+		}
 		component := o.Scene.GetElement2(&c.Ref, o.PrefabInstance)
 		if reflect.TypeOf(component) == typ {
 			reflect.ValueOf(target).Elem().Set(reflect.ValueOf(component))
@@ -98,6 +101,9 @@ func (o *GameObject) GetComponents(target interface{}) {
 	typ := reflect.TypeOf(target).Elem().Elem()
 	value := reflect.ValueOf(target).Elem()
 	for _, c := range o.Components {
+		if c == nil {
+			continue
+		}
 		component := o.Scene.GetElement2(&c.Ref, o.PrefabInstance)
 		if reflect.TypeOf(component) == typ {
 			value.Set(reflect.Append(value, reflect.ValueOf(component)))
@@ -107,6 +113,9 @@ func (o *GameObject) GetComponents(target interface{}) {
 
 func (o *GameObject) GetTransform() *Transform {
 	for _, c := range o.Components {
+		if c == nil {
+			continue
+		}
 		if t, ok := o.Scene.GetElement2(&c.Ref, o.PrefabInstance).(*Transform); ok {
 			return t
 		}
-- 
2.43.0


From 59e8e7b9690ce6981c94a577ebe2893eb75c35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 139/176] fix: unity2mqo: mesh collider without a mesh

---
 converter/unity2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 82cbe9c..2586e66 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -265,6 +265,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var meshColliders []*unity.MeshCollider
 	o.GetComponents(&meshColliders)
 	for _, co := range meshColliders {
+		if co.Mesh == nil {
+			continue
+		}
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
-- 
2.43.0


From 59bdc1b4c979779109f3fa80d26faeb971211071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 140/176] fix: unity2mqo: empty entries in the material list

---
 converter/unity2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 2586e66..7c49b8b 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -105,6 +105,9 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 	if o.GetComponent(&meshFilter) && o.GetComponent(&meshRenderer) && meshFilter.Mesh.IsValid() {
 		var materials []int
 		for _, materialRef := range meshRenderer.Materials {
+			if materialRef == nil {
+				materialRef = &unity.Ref{}
+			}
 			matGUID := materialRef.GUID
 			if m, ok := c.mat[matGUID]; ok {
 				materials = append(materials, m.index)
-- 
2.43.0


From 917a67d440e3b92ec456e0db8eb7a633856a0f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 141/176] fix: fbx2mqo: negative material index with material
 override

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 587ee70..58c63a9 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -147,7 +147,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 					materialIDs = make([]int, len(c.MaterialOverride))
 					n := 0
 					for _, m := range matArray {
-						if matMap[m] || m >= int32(len(materialIDs)) {
+						if m < 0 || matMap[m] || m >= int32(len(materialIDs)) {
 							continue
 						}
 						matMap[m] = true
-- 
2.43.0


From 747e0fce99b76a236364ba3b26058f88c21eb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 142/176] fix: unity: incomplete tag at the end of a YAML file

---
 unity/unity_yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index e616138..abd5568 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -61,7 +61,7 @@ func (s *yamlSplitter) getTag() string {
 	tag := s.readToken()
 	if len(tag) > 0 && tag[0] == '!' {
 		t := strings.SplitN(tag[1:], "!", 2)
-		if v, ok := s.tags[t[0]]; ok {
+		if v, ok := s.tags[t[0]]; ok && len(t) == 2 {
 			tag = v + tag[len(t[0])+2:]
 		}
 	}
-- 
2.43.0


From f3757796328c7c77e07e93fe74737036d737c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 143/176] fix: unity: prefab modifications of unexpected
 elements

---
 unity/unity_scene.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index a978015..e557096 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -136,6 +136,9 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []*Asset) (*Scene,
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
+				if reflect.TypeOf(target).Kind() != reflect.Ptr {
+					continue
+				}
 				typ := reflect.TypeOf(target).Elem()
 				if typ.Kind() != reflect.Struct {
 					continue
@@ -144,8 +147,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []*Asset) (*Scene,
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
 							field := reflect.ValueOf(target).Elem().Field(i).Addr().Interface()
-							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") {
-								if idx, err := strconv.ParseInt(prop[2][5:len(prop[2])-1], 10, 32); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
+							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") && typ.Field(i).Type.Kind() == reflect.Slice {
+								if idx, err := strconv.ParseInt(strings.TrimSuffix(prop[2][5:], "]"), 10, 32); err == nil && idx >= 0 && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
 									field = reflect.ValueOf(target).Elem().Field(i).Index(int(idx)).Addr().Interface()
 								}
 							}
-- 
2.43.0


From 9c7bd68ada953301e9a00c11f1384c5b7d66b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:11 +0000
Subject: [PATCH 144/176] fix: modelconv: name patterns of options match names
 with slashes and brackets

---
 cmd/modelconv/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index fd79fef..6fc57ff 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -265,8 +265,10 @@ func main() {
 	}
 
 	match := func(patterns []string, name string) bool {
+		// names may contain any characters that are special in path.Match
+		escaped := strings.ReplaceAll(name, "/", "\x00")
 		for _, pattern := range patterns {
-			if m, _ := path.Match(pattern, name); m {
+			if m, _ := path.Match(strings.ReplaceAll(pattern, "/", "\x00"), escaped); m || pattern == name {
 				return true
 			}
 		}
-- 
2.43.0


From 3315ed09a12e41a85d23a0b4aa62597bcbb85107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:12 +0000
Subject: [PATCH 145/176] fix: modelconv: -chparent with an unknown parent bone
 is an error

---
 cmd/modelconv/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 6fc57ff..39edd35 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -287,7 +287,11 @@ func main() {
 				continue
 			}
 			if b, ok := boneByName[boneAndParent[0]]; ok {
-				b.Parent = boneByName[boneAndParent[1]].ID
+				parent, ok := boneByName[boneAndParent[1]]
+				if !ok {
+					log.Fatal("unknown parent bone: ", n)
+				}
+				b.Parent = parent.ID
 			}
 		}
 	}
-- 
2.43.0


From 0e9c955980f262f811d226de9887734025973fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:12 +0000
Subject: [PATCH 146/176] fix: modelconv: -chparent refuses a circular bone
 hierarchy

---
 cmd/modelconv/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 39edd35..0fa9cae 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -294,6 +294,18 @@ func main() {
 				b.Parent = parent.ID
 			}
 		}
+		boneByID := map[int]*mqo.Bone{}
+		for _, b := range boneByName {
+			boneByID[b.ID] = b
+		}
+		for _, b := range boneByName {
+			depth := 0
+			for p := boneByID[b.Parent]; p != nil; p = boneByID[p.Parent] {
+				if depth++; depth > len(boneByID) {
+					log.Fatal("circular bone hierarchy: ", *chparent)
+				}
+			}
+		}
 	}
 
 	if *autoTpose != "" {
-- 
2.43.0


From 10ae6f28ef1a93dc9bdaed1473ab832990793087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 147/176] fix: modelconv: do not use the VRM document when it
 could not be created

---
 cmd/modelconv/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 0fa9cae..a4f21af 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -102,13 +102,13 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			conf.ExportAllMorph = true
 		}
 		vrmdoc, err := converter.ApplyVRMConfig(doc, output, srcDir, conf)
-		if err := vrmdoc.ValidateBones(); err != nil {
-			log.Print(err)
-		}
 		if err != nil {
 			gltf.SaveBinary(doc, output) // for debug
 			return err
 		}
+		if err := vrmdoc.ValidateBones(); err != nil {
+			log.Print(err)
+		}
 		return gltf.SaveBinary(doc, output)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
-- 
2.43.0


From 5291b33616900df457423ee487caed90078f0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 148/176] fix: modelconv: glTF to glTF conversion overwrote
 buffers of the source and ignored changes of embedded buffers

---
 cmd/modelconv/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index a4f21af..9e8e6d6 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -83,9 +83,8 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		return gltf.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
-			if b.URI == "" {
-				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
-			}
+			// Do not use original URIs. (data may be changed, and the file may be used by the source document)
+			b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
 		}
 		return gltf.Save(doc, output)
 	} else if ext == ".vrm" {
-- 
2.43.0


From 2061c4231d0416cc0e2f9b9e7620470cfda48024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:15 +0000
Subject: [PATCH 149/176] fix: modelconv: find the Assets directory of Unity
 scenes

---
 cmd/modelconv/main.go  |  9 ++-------
 cmd/modelconv/utils.go | 36 +++++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 9e8e6d6..ad82136 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -396,13 +396,8 @@ func main() {
 		}
 	}
 
-	if isUnity(inputExt) && !strings.HasSuffix(input, ".unitypackage") {
-		names := strings.SplitN(input, "#", 2)
-		if len(names) == 1 {
-			p := strings.Index(filepath.ToSlash(input), "Assets/")
-			names = []string{input[:p+6], input[p:]}
-		}
-		input = names[0]
+	if isUnity(inputExt) {
+		input, _ = splitUnityPath(input)
 	}
 	baseDir := filepath.Dir(input)
 
diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 2c132f2..d2c8bf6 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -26,6 +26,24 @@ func loadAnimation(input string) (*mmd.Animation, error) {
 	return p.Parse()
 }
 
+// splitUnityPath returns package or assets directory, and scene path.
+func splitUnityPath(input string) (string, string) {
+	if names := strings.SplitN(input, "#", 2); len(names) == 2 {
+		return names[0], names[1]
+	}
+	if strings.ToLower(filepath.Ext(input)) == ".unitypackage" {
+		return input, ""
+	}
+	slash := filepath.ToSlash(input)
+	if strings.HasPrefix(slash, "Assets/") {
+		return input[:6], input
+	}
+	if p := strings.Index(slash, "/Assets/"); p >= 0 {
+		return input[:p+7], input[p+1:]
+	}
+	return input, ""
+}
+
 func loadDocument(input string) (*mqo.Document, error) {
 	ext := strings.ToLower(filepath.Ext(input))
 	switch {
@@ -58,27 +76,19 @@ func loadDocument(input string) (*mqo.Document, error) {
 			InheritParentThreshold: float32(*mmdFixInheritParentThreshold),
 		}).Convert(pmx), nil
 	case isUnity(ext):
-		names := strings.SplitN(input, "#", 2)
-		if len(names) == 1 {
-			p := strings.Index(filepath.ToSlash(input), "Assets/")
-			if p >= 0 && ext != ".unitypackage" {
-				names = []string{input[:p+6], input[p:]}
-			} else {
-				names = append(names, "")
-			}
-		}
+		source, scenePath := splitUnityPath(input)
 		var assets unity.Assets
 		var err error
-		if strings.HasSuffix(names[0], ".unitypackage") {
-			assets, err = unity.OpenPackage(names[0])
+		if strings.ToLower(filepath.Ext(source)) == ".unitypackage" {
+			assets, err = unity.OpenPackage(source)
 		} else {
-			assets, err = unity.OpenAssets(names[0])
+			assets, err = unity.OpenAssets(source)
 		}
 		if err != nil {
 			return nil, err
 		}
 		defer assets.Close()
-		scene, err := unity.LoadScene(assets, names[1])
+		scene, err := unity.LoadScene(assets, scenePath)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 77094437a4ab2d7b0e5fbf29f0b1b6a8ff6fd7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 150/176] fix: modelconv: -format mqoz writes an archive
 whatever the output is called

---
 cmd/modelconv/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index ad82136..1ad6de3 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -142,6 +142,8 @@ func saveDocument(doc *mqo.Document, output, ext, srcDir string, inputs []string
 			}
 		}
 		return saveGltfDocument(gltfdoc, output, ext, srcDir, *vrmconf)
+	} else if ext == ".mqoz" {
+		return mqo.SaveMQOZ(doc, output)
 	} else if isMQO(ext) {
 		return mqo.Save(doc, output)
 	} else if ext == ".pmx" {
-- 
2.43.0


From d1bb2dea72f03c7eddaccd17c2cf43f934132d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:17 +0000
Subject: [PATCH 151/176] fix: mqo: .MQOZ files are archives too

---
 mqo/mqo_parser.go | 2 +-
 mqo/mqo_writer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 827e5b3..9bc032e 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -450,7 +450,7 @@ func LoadMQOZ(path string) (*Document, error) {
 }
 
 func Load(path string) (*Document, error) {
-	if strings.HasSuffix(path, ".mqoz") {
+	if strings.HasSuffix(strings.ToLower(path), ".mqoz") {
 		return LoadMQOZ(path)
 	}
 	r, err := os.Open(path)
diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 19b309a..e10aa51 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -329,7 +329,7 @@ func writeMQOZ(doc *Document, w io.Writer, path, name string) error {
 }
 
 func Save(doc *Document, path string) error {
-	if strings.HasSuffix(path, ".mqoz") {
+	if strings.HasSuffix(strings.ToLower(path), ".mqoz") {
 		return SaveMQOZ(doc, path)
 	}
 	w, err := os.Create(path)
-- 
2.43.0


From 413f520002b917682ec378b5a0ed85d69f65862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 152/176] fix: modelconv: -unlit keeps the alpha mode of glTF
 materials

---
 cmd/modelconv/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 1ad6de3..a43efc9 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -392,6 +392,10 @@ func main() {
 		patterns := strings.Split(*unlit, ",")
 		for _, mat := range doc.Materials {
 			if match(patterns, mat.Name) {
+				if mat.GetShaderName() == mqo.ShaderNameGlTF {
+					mat.Ex2.ShaderParams["Extensions.Unlit"] = true // keep alpha mode
+					continue
+				}
 				mat.Shader = 1 // Constant shader
 				mat.Ex2 = nil
 			}
-- 
2.43.0


From 441af8948d85298e09dc513f7890497449446169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:38 +0000
Subject: [PATCH 153/176] fix: mqo: SetGltfAlphaMode keeps the other attributes
 of materials

---
 mqo/mqo.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index f438456..405d886 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -184,7 +184,16 @@ const (
 
 func (m *Material) SetGltfAlphaMode(mode int) {
 	if m.Ex2 == nil || m.Ex2.ShaderName != ShaderNameGlTF {
+		// Keep appearance of the original shader
+		unlit := m.GetShaderName() == "Constant"
 		m.Ex2 = NewMaterialEx2(ShaderNameGlTF)
+		m.Ex2.ShaderType = ShaderTypeHLSL
+		m.Ex2.ShaderParams["AlphaCutOff"] = 0.5
+		m.Ex2.ShaderParams["Metallic"] = float64(m.Specular)
+		m.Ex2.ShaderParams["Roughness"] = 0.4
+		if unlit {
+			m.Ex2.ShaderParams["Extensions.Unlit"] = true
+		}
 	}
 	m.Ex2.ShaderParams["AlphaMode"] = mode
 }
-- 
2.43.0


From 3217af53fe53cc1da93c294bc2da86210b54d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 154/176] fix: normalise glTF weights whose sum is not 100
 percent

---
 converter/mqo2gltf.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 7fcdd2e..f6b9e46 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -289,14 +289,14 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 	for v, n := range njoint {
 		if n > 4 {
 			log.Println("WARNING: njoint > 4. V:", v, " O:", obj.Name)
-			var sum float32 = 0
-			for _, w := range weights[v] {
-				sum += w
-			}
-			if sum > 0 {
-				for i := range weights[v] {
-					weights[v][i] /= sum
-				}
+		}
+		var sum float32 = 0
+		for _, w := range weights[v] {
+			sum += w
+		}
+		if sum > 0 {
+			for i := range weights[v] {
+				weights[v][i] /= sum
 			}
 		}
 	}
-- 
2.43.0


From bdf63e461cc6107b675df8022e9377571bc6f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 155/176] fix: read ASCII FBX files whose first line is shorter
 than the binary magic

---
 fbx/text_parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index f56dc4c..1591295 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -49,6 +49,12 @@ func (p *textParser) read() byte {
 	return b[0]
 }
 
+func (p *textParser) unread(c byte) {
+	if p.err == nil {
+		p.buf = append([]byte{c}, p.buf...)
+	}
+}
+
 func (p *textParser) getToken() (tokenType, string) {
 	var c byte
 	for p.err == nil {
@@ -76,9 +82,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			if p.err == nil {
-				p.buf = append(p.buf, c)
-			}
+			p.unread(c)
 			return Number, string(buf)
 		} else if c == '\n' {
 			p.line++
@@ -97,9 +101,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			if p.err == nil {
-				p.buf = append(p.buf, c)
-			}
+			p.unread(c)
 			return Ident, string(buf)
 		}
 	}
-- 
2.43.0


From 981b04ae8620be0c45da7f3fadf1f1d603dcd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 156/176] fix: read attribute lists of ASCII FBX files that
 continue with a comma on the next line

---
 fbx/text_parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 1591295..58b1bb2 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -55,6 +55,20 @@ func (p *textParser) unread(c byte) {
 	}
 }
 
+// continued reports whether the next line starts with a comma. (FBX 6)
+func (p *textParser) continued() bool {
+	c := p.read()
+	for (c == ' ' || c == '\t' || c == '\r') && p.err == nil {
+		c = p.read()
+	}
+	if p.err == io.EOF {
+		p.err = nil // the end of the list is not the end of the file
+		return false
+	}
+	p.unread(c)
+	return c == ','
+}
+
 func (p *textParser) getToken() (tokenType, string) {
 	var c byte
 	for p.err == nil {
@@ -192,7 +206,7 @@ func (p *textParser) parseNodeList() []*Node {
 			prev := Colon
 			for p.err == nil {
 				typ, s := p.getToken()
-				if typ == EOL && prev != Comma {
+				if typ == EOL && prev != Comma && !p.continued() {
 					break
 				}
 				prev = typ
-- 
2.43.0


From 1e953dae56e33ae94d97ff5ac6021019d9d0a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 157/176] fix: read backslashes of UTF-8 MQO files as path
 separators

---
 mqo/mqo_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 9bc032e..e27cde3 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -349,6 +349,8 @@ func (p *Parser) detectCodePage() {
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
+	} else {
+		p.r = transform.NewReader(p.r, &basckSlashReplacer{})
 	}
 }
 
-- 
2.43.0


From ba4e5a251d4154835ee52ec53916d192f8f543a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 158/176] fix: do not read past the end of an MQO line that
 ends in spaces

---
 mqo/mqo_parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index e27cde3..5a8bb7d 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -110,7 +110,17 @@ func (p *Parser) skip(t string) {
 	}
 }
 
+func (p *Parser) atLineEnd() bool {
+	for p.s.Peek() == ' ' || p.s.Peek() == '\t' {
+		p.s.Next()
+	}
+	return p.s.Peek() == 0x0d || p.s.Peek() == 0x0a
+}
+
 func (p *Parser) procAttrs(handlers map[string]func(), name string) {
+	if p.atLineEnd() {
+		return
+	}
 	line := p.s.Pos().Line
 	for tok := p.s.Scan(); line == p.s.Pos().Line && tok != scanner.EOF; tok = p.s.Scan() {
 		if handler, ok := handlers[p.s.TokenText()]; ok {
@@ -126,7 +136,7 @@ func (p *Parser) procAttrs(handlers map[string]func(), name string) {
 				}
 			}
 		}
-		if p.s.Peek() == 0x0d || p.s.Peek() == 0x0a {
+		if p.atLineEnd() {
 			break
 		}
 	}
-- 
2.43.0


From 3be92476bb1a548c852dde783db0e833aa084730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:38 +0000
Subject: [PATCH 159/176] fix: scale data that several glTF accessors share
 only once

---
 gltfutil/gltf_utils.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 3d47c05..876f12c 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -144,6 +144,21 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
+	// elements may be shared by accessors
+	done := map[[2]uint32]bool{}
+	once := func(acr *gltf.Accessor, i, size uint32) bool {
+		bufferView := doc.BufferViews[*acr.BufferView]
+		if bufferView.ByteStride != 0 {
+			size = bufferView.ByteStride
+		}
+		key := [2]uint32{bufferView.Buffer, bufferView.ByteOffset + acr.ByteOffset + i*size}
+		if done[key] {
+			return false
+		}
+		done[key] = true
+		return true
+	}
+
 	accs := map[uint32]bool{}
 	for _, m := range doc.Meshes {
 		for _, p := range m.Primitives {
@@ -171,7 +186,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		acr.Min = []float32{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
 		acr.Max = []float32{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
 		for i := range pos {
-			if diff {
+			if !once(acr, uint32(i), 12) {
+				// already transformed
+			} else if diff {
 				scaleMat.ApplyTo(geom.NewVector3FromArray(pos[i])).ToArray(pos[i][:])
 			} else {
 				transformMat.ApplyTo(geom.NewVector3FromArray(pos[i])).ToArray(pos[i][:])
@@ -192,24 +209,23 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])
 	}
-	scaled := map[uint32]bool{}
 	for _, anim := range doc.Animations {
 		for _, ch := range anim.Channels {
 			if ch.Target.Path != gltf.TRSTranslation || ch.Sampler == nil || anim.Samplers[*ch.Sampler].Output == nil {
 				continue
 			}
-			output := *anim.Samplers[*ch.Sampler].Output
-			acr := doc.Accessors[output]
-			if scaled[output] || acr.BufferView == nil {
+			acr := doc.Accessors[*anim.Samplers[*ch.Sampler].Output]
+			if acr.BufferView == nil {
 				continue
 			}
-			scaled[output] = true
 			pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 			if err != nil {
 				log.Fatalf("err %v", err)
 			}
 			for i := range pos {
-				scaleMat.ApplyTo(geom.NewVector3FromArray(pos[i])).ToArray(pos[i][:])
+				if once(acr, uint32(i), 12) {
+					scaleMat.ApplyTo(geom.NewVector3FromArray(pos[i])).ToArray(pos[i][:])
+				}
 			}
 			bufferView := doc.BufferViews[*acr.BufferView]
 			err = binary.Write(doc.Buffers[bufferView.Buffer].Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)
@@ -220,10 +236,6 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices != nil {
-			if scaled[*skin.InverseBindMatrices] {
-				continue // shared with other skin
-			}
-			scaled[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
@@ -233,6 +245,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 					continue
 				}
 				for i := range skin.Joints {
+					if !once(accessor, uint32(i), 64) {
+						continue // shared with other skin
+					}
 					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
 					// apply scale (rotation and scale of joints are not changed)
-- 
2.43.0


From 1afcdc1d3bcaa27489de246ca9c1eae92b474dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 160/176] fix: do not change inverse bind matrices that overlap
 with those of other skins

---
 gltfutil/gltf_joint.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 99f7f38..86d0e40 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -112,10 +112,20 @@ func ResetJointMatrix(doc *gltf.Document) {
 
 	// fix inverseBindMatrices (joint matrices are not changed)
 	after := worldMatrices(doc)
-	uses := map[uint32]int{}
+	matrixKey := func(skin *gltf.Skin, i int) [2]uint32 {
+		accessor := doc.Accessors[*skin.InverseBindMatrices]
+		if accessor.BufferView == nil {
+			return [2]uint32{}
+		}
+		bufferView := doc.BufferViews[*accessor.BufferView]
+		return [2]uint32{bufferView.Buffer, bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64}
+	}
+	uses := map[[2]uint32]int{}
 	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
-			uses[*skin.InverseBindMatrices]++
+		for i := range skin.Joints {
+			if skin.InverseBindMatrices != nil {
+				uses[matrixKey(skin, i)]++
+			}
 		}
 	}
 	for _, skin := range doc.Skins {
@@ -131,6 +141,10 @@ func ResetJointMatrix(doc *gltf.Document) {
 				data = data[bufferView.ByteOffset+accessor.ByteOffset:]
 			}
 		}
+		shared := false
+		for i := range skin.Joints {
+			shared = shared || data != nil && uses[matrixKey(skin, i)] > 1
+		}
 		columns := make([][4]float32, len(skin.Joints)*4)
 		for i, j := range skin.Joints {
 			ibm := gltf.DefaultMatrix
@@ -141,11 +155,11 @@ func ResetJointMatrix(doc *gltf.Document) {
 			for c := 0; c < 4; c++ {
 				copy(columns[i*4+c][:], ibm[c*4:c*4+4])
 			}
-			if data != nil && uses[*skin.InverseBindMatrices] == 1 {
+			if data != nil && !shared {
 				writeMatrix(data[i*64:], ibm)
 			}
 		}
-		if data == nil || uses[*skin.InverseBindMatrices] > 1 {
+		if data == nil || shared {
 			acc := modeler.WriteAccessor(doc, gltf.TargetNone, columns)
 			doc.Accessors[acc].Type = gltf.AccessorMat4
 			doc.Accessors[acc].Count /= 4
-- 
2.43.0


From ca9da3fee929db9b7c2bc43dd73d81801df25bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 161/176] fix: do not give the first material to Unity meshes
 whose renderer has none

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 7c49b8b..f6ea626 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -163,7 +163,7 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 		meshObjectIndex := len(dst.Objects)
 		if vs, faces, uvs, name := unity.GetBuiltinMesh(meshFilter.Mesh); name != "" {
 			meshObjectIndex--
-			mat := 0
+			mat := -1
 			if len(materials) > 0 {
 				mat = materials[0]
 			}
-- 
2.43.0


From 78245bdf0bc5d68ea02713d75db2a8a462ba7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 162/176] fix: place the light of an object that shares its
 geometry

---
 converter/mqo2gltf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index f6b9e46..36ca753 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -923,8 +923,12 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 					}
 					lightNode.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
 					lights = append(lights, lightParam)
-					if lightNode != node && obj.InternalTransform != nil && shared == nil {
-						obj.InternalTransform.TranslationScale(m.Scale).ToArray(lightNode.Matrix[:])
+					if lightNode != node && obj.InternalTransform != nil {
+						lightMatrix := obj.InternalTransform.TranslationScale(m.Scale)
+						if shared != nil {
+							lightMatrix = shared.matrix.Inverse() // relative to the matrix of the instance
+						}
+						lightMatrix.ToArray(lightNode.Matrix[:])
 					}
 				}
 			}
-- 
2.43.0


From 8d94bce6a98a32b0b69fe1c9af5159b27602fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:57 +0000
Subject: [PATCH 163/176] fix: report a VRM config file that cannot be read

---
 cmd/modelconv/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index a43efc9..0db225f 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -90,7 +90,9 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 	} else if ext == ".vrm" {
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
-			log.Println("vrmconfig error:", err)
+			if vrmConf != "" {
+				return fmt.Errorf("vrmconfig error: %v", err)
+			}
 			conf = &converter.Config{}
 		}
 		if *convertPhysics {
-- 
2.43.0


From 5952529d00a696e34f40293e2efeadc27fd3fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 164/176] fix: report malformed values of the alpha option

---
 cmd/modelconv/main.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 0db225f..7983ad4 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -363,7 +363,11 @@ func main() {
 		for _, p := range strings.Split(*alphaOverrides, ",") {
 			pattern := strings.SplitN(p, ":", 2)
 			if len(pattern) != 2 {
-				continue
+				log.Fatal("invalid alpha:", p)
+			}
+			alpha, err := strconv.ParseFloat(pattern[1], 32)
+			if err != nil && pattern[1] != "opaque" && pattern[1] != "mask" && pattern[1] != "blend" {
+				log.Fatal("invalid alpha:", p)
 			}
 			for _, mat := range doc.Materials {
 				if match([]string{pattern[0]}, mat.Name) {
@@ -377,13 +381,11 @@ func main() {
 					} else if pattern[1] == "0" {
 						mat.Name += "$IGNORE"
 						mat.Color.W = 0
-					} else if alpha, err := strconv.ParseFloat(pattern[1], 32); err == nil {
+					} else {
 						if mat.GetShaderName() == "glTF" {
 							mat.SetGltfAlphaMode(mqo.AlphaModeBlend)
 						}
 						mat.Color.W = float32(alpha)
-					} else {
-						log.Fatal("invalid alpha:", p)
 					}
 				}
 			}
-- 
2.43.0


From f53c68b5120d7b66a4f523af3233e440b5bf0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:47 +0000
Subject: [PATCH 165/176] fix: keep all fields of VRM data when a VRM file is
 read and written

---
 vrm/vrm.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index fa84be4..1c72eb7 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -29,6 +29,7 @@ type VRM struct {
 	MaterialProperties []*MaterialProperty `json:"materialProperties"`
 
 	ExporterVersion string `json:"exporterVersion"`
+	SpecVersion     string `json:"specVersion,omitempty"`
 }
 
 func NewVRM() *VRM {
@@ -64,6 +65,8 @@ type Metadata struct {
 	Contact string `json:"contactInformation"`
 	Texture *int   `json:"texture,omitempty"`
 
+	Reference string `json:"reference,omitempty"`
+
 	AllowedUserName      string `json:"allowedUserName,omitempty"`
 	ViolentUssageName    string `json:"violentUssageName,omitempty"`
 	SexualUssageName     string `json:"sexualUssageName,omitempty"`
@@ -77,6 +80,15 @@ type Metadata struct {
 
 type Humanoid struct {
 	Bones []*Bone `json:"humanBones"`
+
+	ArmStretch        float64 `json:"armStretch,omitempty"`
+	LegStretch        float64 `json:"legStretch,omitempty"`
+	UpperArmTwist     float64 `json:"upperArmTwist,omitempty"`
+	LowerArmTwist     float64 `json:"lowerArmTwist,omitempty"`
+	UpperLegTwist     float64 `json:"upperLegTwist,omitempty"`
+	LowerLegTwist     float64 `json:"lowerLegTwist,omitempty"`
+	FeetSpacing       float64 `json:"feetSpacing,omitempty"`
+	HasTranslationDoF bool    `json:"hasTranslationDoF,omitempty"`
 }
 
 type Bone struct {
@@ -110,6 +122,7 @@ type BlendShapeMaster struct {
 type BlendShapeGroup struct {
 	Name           string                     `json:"name"`
 	PresetName     string                     `json:"presetName"`
+	IsBinary       bool                       `json:"isBinary,omitempty"`
 	Binds          []*BlendShapeBind          `json:"binds"`
 	MaterialValues []*BlendShapeMaterialValue `json:"materialValues,omitempty"`
 }
-- 
2.43.0


From da2f3beb91dda5e459b2d649fedf09993883ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:52 +0000
Subject: [PATCH 166/176] fix: limits of humanoid bones in VRM files are
 objects

---
 vrm/vrm.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index 1c72eb7..585bacd 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -1,6 +1,10 @@
 package vrm
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"encoding/json"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type Quaternion = geom.Vector4
 
@@ -96,12 +100,33 @@ type Bone struct {
 	Node             int    `json:"node"`
 	UseDefaultValues bool   `json:"useDefaultValues"`
 
-	Min        *[3]float32 `json:"min,omitempty"`
-	Max        *[3]float32 `json:"max,omitempty"`
-	Center     *[3]float32 `json:"center,omitempty"`
+	Min        *BoneVector `json:"min,omitempty"`
+	Max        *BoneVector `json:"max,omitempty"`
+	Center     *BoneVector `json:"center,omitempty"`
 	AxisLength float32     `json:"axisLength,omitempty"`
 }
 
+// BoneVector is written as an object {"x":0,"y":0,"z":0} in JSON.
+type BoneVector [3]float32
+
+func (v BoneVector) MarshalJSON() ([]byte, error) {
+	return json.Marshal(map[string]float32{"x": v[0], "y": v[1], "z": v[2]})
+}
+
+func (v *BoneVector) UnmarshalJSON(data []byte) error {
+	var array [3]float32
+	if json.Unmarshal(data, &array) == nil {
+		*v = array
+		return nil
+	}
+	var obj struct{ X, Y, Z float32 }
+	if err := json.Unmarshal(data, &obj); err != nil {
+		return err
+	}
+	*v = BoneVector{obj.X, obj.Y, obj.Z}
+	return nil
+}
+
 type FirstPerson struct {
 	FirstPersonBone       int                `json:"firstPersonBone,omitempty"`
 	FirstPersonBoneOffset map[string]float64 `json:"firstPersonBoneOffset,omitempty"`
-- 
2.43.0


From fac9b7e9a4c4794055b3c80fa99d0c30948a73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 167/176] fix: first person bone 0 of VRM files was lost

---
 vrm/vrm.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index 585bacd..cb80507 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -128,7 +128,7 @@ func (v *BoneVector) UnmarshalJSON(data []byte) error {
 }
 
 type FirstPerson struct {
-	FirstPersonBone       int                `json:"firstPersonBone,omitempty"`
+	FirstPersonBone       int                `json:"firstPersonBone"`
 	FirstPersonBoneOffset map[string]float64 `json:"firstPersonBoneOffset,omitempty"`
 
 	MeshAnnotations []interface{} `json:"meshAnnotations,omitempty"`
@@ -140,6 +140,15 @@ type FirstPerson struct {
 	LookAtVerticalUp      map[string]interface{} `json:"lookAtVerticalUp,omitempty"`
 }
 
+// UnmarshalJSON decodes FirstPerson. No bone is specified if firstPersonBone is missing.
+func (f *FirstPerson) UnmarshalJSON(data []byte) error {
+	type plain FirstPerson
+	p := plain{FirstPersonBone: -1}
+	err := json.Unmarshal(data, &p)
+	*f = FirstPerson(p)
+	return err
+}
+
 type BlendShapeMaster struct {
 	BlendShapeGroups []*BlendShapeGroup `json:"blendShapeGroups"`
 }
@@ -181,6 +190,15 @@ type SecondaryAnimationBoneGroup struct {
 	ColliderGroups []int              `json:"colliderGroups,omitempty"`
 }
 
+// UnmarshalJSON decodes a bone group. No center node is specified if center is missing.
+func (g *SecondaryAnimationBoneGroup) UnmarshalJSON(data []byte) error {
+	type plain SecondaryAnimationBoneGroup
+	p := plain{Center: -1}
+	err := json.Unmarshal(data, &p)
+	*g = SecondaryAnimationBoneGroup(p)
+	return err
+}
+
 type SecondaryAnimationColliderGroup struct {
 	Node      uint32                        `json:"node"`
 	Colliders []*SecondaryAnimationCollider `json:"colliders"`
-- 
2.43.0


From 4f895385dd3c0b62e99b5e39a25d5980d2338790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 168/176] fix: glTF files with invalid references or accessors
 are refused

---
 cmd/modelconv/utils.go    |   4 +-
 converter/gltf2mqo.go     |   9 ++-
 gltfutil/gltf_utils.go    |  12 ++-
 gltfutil/gltf_validate.go | 163 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 184 insertions(+), 4 deletions(-)
 create mode 100644 gltfutil/gltf_validate.go

diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index d2c8bf6..c4c4419 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -9,10 +9,10 @@ import (
 
 	"github.com/binzume/modelconv/converter"
 	"github.com/binzume/modelconv/fbx"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/binzume/modelconv/unity"
-	"github.com/qmuntal/gltf"
 )
 
 func loadAnimation(input string) (*mmd.Animation, error) {
@@ -50,7 +50,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isMQO(ext):
 		return mqo.Load(input)
 	case isGltf(ext):
-		doc, err := gltf.Open(input)
+		doc, err := gltfutil.Load(input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 715eda2..41c78d4 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -1,6 +1,8 @@
 package converter
 
 import (
+	"fmt"
+
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
@@ -100,6 +102,11 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object,
 				indices = append(indices, uint32(i-offset))
 			}
 		}
+		for _, v := range indices {
+			if int(v) >= len(obj.Vertexes)-offset {
+				return nil, fmt.Errorf("invalid vertex index: %v", v)
+			}
+		}
 		indices = triangleIndices(indices, p.Mode)
 		mat := 0
 		if p.Material != nil {
@@ -107,7 +114,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) (*mqo.Object,
 		}
 		for i := 0; i < len(indices)/3; i++ {
 			f := &mqo.Face{Material: mat, Verts: []int{offset + int(indices[i*3]), offset + int(indices[i*3+2]), offset + int(indices[i*3+1])}}
-			if len(texCoord) > int(indices[i*3]) {
+			if len(texCoord) >= len(obj.Vertexes)-offset {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
 					{X: texCoord[indices[i*3+2]][0], Y: texCoord[indices[i*3+2]][1]},
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 876f12c..20c1578 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -16,7 +16,14 @@ import (
 )
 
 func Load(path string) (*gltf.Document, error) {
-	return gltf.Open(path)
+	doc, err := gltf.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	if err := validate(doc); err != nil {
+		return nil, err
+	}
+	return doc, nil
 }
 
 func removeName(names []string, name string) []string {
@@ -174,6 +181,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
+		if acr.BufferView == nil && acr.Sparse == nil {
+			continue // no data
+		}
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 		if err != nil {
 			log.Fatalf("err %v", err)
diff --git a/gltfutil/gltf_validate.go b/gltfutil/gltf_validate.go
new file mode 100644
index 0000000..733cb12
--- /dev/null
+++ b/gltfutil/gltf_validate.go
@@ -0,0 +1,163 @@
+package gltfutil
+
+import (
+	"fmt"
+
+	"github.com/qmuntal/gltf"
+)
+
+// validate checks references to other elements and ranges of accessors.
+func validate(doc *gltf.Document) error {
+	var err error
+	check := func(name string, index uint32, n int) {
+		if err == nil && uint64(index) >= uint64(n) {
+			err = fmt.Errorf("gltf: invalid index of %s: %d", name, index)
+		}
+	}
+	checkPtr := func(name string, index *uint32, n int) {
+		if index != nil {
+			check(name, *index, n)
+		}
+	}
+	checkTexture := func(tex *gltf.TextureInfo) {
+		if tex != nil {
+			check("texture", tex.Index, len(doc.Textures))
+		}
+	}
+	checkAttributes := func(attrs map[string]uint32) {
+		for _, a := range attrs {
+			check("accessor", a, len(doc.Accessors))
+		}
+	}
+
+	checkPtr("scene", doc.Scene, len(doc.Scenes))
+	for _, s := range doc.Scenes {
+		for _, n := range s.Nodes {
+			check("node", n, len(doc.Nodes))
+		}
+	}
+	for _, n := range doc.Nodes {
+		checkPtr("mesh", n.Mesh, len(doc.Meshes))
+		checkPtr("skin", n.Skin, len(doc.Skins))
+		checkPtr("camera", n.Camera, len(doc.Cameras))
+		for _, c := range n.Children {
+			check("node", c, len(doc.Nodes))
+		}
+	}
+	for _, m := range doc.Meshes {
+		for _, p := range m.Primitives {
+			checkPtr("material", p.Material, len(doc.Materials))
+			checkPtr("accessor", p.Indices, len(doc.Accessors))
+			checkAttributes(p.Attributes)
+			for _, t := range p.Targets {
+				checkAttributes(t)
+			}
+		}
+	}
+	for _, m := range doc.Materials {
+		if pbr := m.PBRMetallicRoughness; pbr != nil {
+			checkTexture(pbr.BaseColorTexture)
+			checkTexture(pbr.MetallicRoughnessTexture)
+		}
+		if m.NormalTexture != nil {
+			checkPtr("texture", m.NormalTexture.Index, len(doc.Textures))
+		}
+		if m.OcclusionTexture != nil {
+			checkPtr("texture", m.OcclusionTexture.Index, len(doc.Textures))
+		}
+		checkTexture(m.EmissiveTexture)
+	}
+	for _, t := range doc.Textures {
+		checkPtr("image", t.Source, len(doc.Images))
+		checkPtr("sampler", t.Sampler, len(doc.Samplers))
+	}
+	for _, m := range doc.Images {
+		checkPtr("bufferView", m.BufferView, len(doc.BufferViews))
+	}
+	for _, s := range doc.Skins {
+		checkPtr("accessor", s.InverseBindMatrices, len(doc.Accessors))
+		checkPtr("node", s.Skeleton, len(doc.Nodes))
+		for _, n := range s.Joints {
+			check("node", n, len(doc.Nodes))
+		}
+	}
+	for _, a := range doc.Animations {
+		for _, c := range a.Channels {
+			checkPtr("sampler", c.Sampler, len(a.Samplers))
+			checkPtr("node", c.Target.Node, len(doc.Nodes))
+		}
+		for _, s := range a.Samplers {
+			checkPtr("accessor", s.Input, len(doc.Accessors))
+			checkPtr("accessor", s.Output, len(doc.Accessors))
+		}
+	}
+	for _, v := range doc.BufferViews {
+		check("buffer", v.Buffer, len(doc.Buffers))
+		if err == nil && uint64(v.ByteOffset)+uint64(v.ByteLength) > uint64(doc.Buffers[v.Buffer].ByteLength) {
+			err = fmt.Errorf("gltf: bufferView is out of range: %d + %d", v.ByteOffset, v.ByteLength)
+		}
+	}
+	if err != nil {
+		return err
+	}
+
+	checkRange := func(view, offset, count, size uint32) {
+		check("bufferView", view, len(doc.BufferViews))
+		if err != nil || count == 0 {
+			return
+		}
+		stride := uint64(size)
+		if s := doc.BufferViews[view].ByteStride; s != 0 {
+			stride = uint64(s)
+		}
+		if uint64(offset)+uint64(count-1)*stride+uint64(size) > uint64(doc.BufferViews[view].ByteLength) {
+			err = fmt.Errorf("gltf: accessor is out of range: %d elements at %d", count, offset)
+		}
+	}
+	for _, a := range doc.Accessors {
+		size := a.ComponentType.ByteSize() * a.Type.Components()
+		if a.BufferView != nil {
+			checkRange(*a.BufferView, a.ByteOffset, a.Count, size)
+		}
+		if s := a.Sparse; s != nil {
+			checkRange(s.Indices.BufferView, s.Indices.ByteOffset, s.Count, s.Indices.ComponentType.ByteSize())
+			checkRange(s.Values.BufferView, s.Values.ByteOffset, s.Count, size)
+		}
+	}
+	for _, s := range doc.Skins {
+		if err == nil && s.InverseBindMatrices != nil {
+			a := doc.Accessors[*s.InverseBindMatrices]
+			if a.Type != gltf.AccessorMat4 || a.ComponentType != gltf.ComponentFloat || uint64(a.Count) < uint64(len(s.Joints)) {
+				err = fmt.Errorf("gltf: invalid inverseBindMatrices of skin %q", s.Name)
+			}
+		}
+	}
+	if err == nil && hasCycle(doc) {
+		err = fmt.Errorf("gltf: circular node hierarchy")
+	}
+	return err
+}
+
+func hasCycle(doc *gltf.Document) bool {
+	state := make([]int, len(doc.Nodes))
+	var visit func(n uint32) bool
+	visit = func(n uint32) bool {
+		if state[n] != 0 {
+			return state[n] == 1
+		}
+		state[n] = 1
+		for _, c := range doc.Nodes[n].Children {
+			if visit(c) {
+				return true
+			}
+		}
+		state[n] = 2
+		return false
+	}
+	for i := range doc.Nodes {
+		if visit(uint32(i)) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 12dd8341be60e31ca29f44152aefc5801200c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 169/176] fix: writing a vertex ID of a missing vertex crashed

---
 mqo/mqo_writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index e10aa51..6c3b389 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -215,7 +215,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			w.WriteString("\t\tuid {\n")
 			uids := make([]int, len(obj.Vertexes))
 			for uid, v := range obj.VertexByUID {
-				uids[v] = uid
+				if v >= 0 && v < len(uids) {
+					uids[v] = uid
+				}
 			}
 			for i, uid := range uids {
 				if uid == 0 {
-- 
2.43.0


From 7afe9f37c208b486d97b249ff02175a72e3f4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 170/176] fix: MQO faces with invalid vertex index are refused

---
 mqo/mqo_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 5a8bb7d..952e1ac 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -350,6 +350,14 @@ func (p *Parser) readObject() *Object {
 			}, "vertexattr")
 		},
 	}, fmt.Sprintf("Object %v\n", o.Name))
+	for _, f := range o.Faces {
+		for _, v := range f.Verts {
+			if v < 0 || v >= len(o.Vertexes) {
+				log.Printf("Object %v: invalid vertex index: %v", o.Name, v)
+				p.s.ErrorCount++
+			}
+		}
+	}
 	return o
 }
 
-- 
2.43.0


From f63cd938bc0b933a09151a23eef656568bf47f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 171/176] fix: MMD models with invalid face, texture or
 material index crashed

---
 converter/mmd2mqo.go | 14 ++++++++++----
 mmd/mmd.go           | 12 ++++++++++++
 mmd/pmd_parser.go    |  3 +++
 mmd/pmx_parser.go    |  3 +++
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 41f3aa0..523906a 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -38,7 +38,7 @@ func (c *mmdToMQO) convertMaterial(mat *mmd.Material, model *mmd.Document) *mqo.
 	m.Ambient = 1.4
 	m.Power = mat.Specularity
 	m.DoubleSided = mat.Flags&mmd.MaterialFlagDoubleSided != 0
-	if mat.TextureID >= 0 {
+	if mat.TextureID >= 0 && mat.TextureID < len(model.Textures) {
 		m.Texture = model.Textures[mat.TextureID]
 	}
 
@@ -256,18 +256,24 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		m := c.convertMaterial(mat, pmx)
 		mq.Materials = append(mq.Materials, m)
 
-		for fi := vpos; fi < vpos+mat.Count/3; fi++ {
+		end := len(pmx.Faces)
+		if n := mat.Count / 3; n < end-vpos {
+			end = vpos + n
+		}
+		for fi := vpos; fi < end; fi++ {
 			face2mat[fi] = matIdx
 		}
 
 		o := mqo.NewObject("M_" + mat.Name)
 		faces := []int{}
-		for fi := vpos; fi < vpos+mat.Count/3; fi++ {
+		for fi := vpos; fi < end; fi++ {
 			if baseFaces[fi] {
 				faces = append(faces, fi)
 			}
 		}
-		vpos += mat.Count / 3
+		if end > vpos {
+			vpos = end
+		}
 
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
diff --git a/mmd/mmd.go b/mmd/mmd.go
index b6d7efb..fcd57b3 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -1,6 +1,7 @@
 package mmd
 
 import (
+	"fmt"
 	"os"
 
 	"github.com/binzume/modelconv/geom"
@@ -239,6 +240,17 @@ func Load(path string) (*Document, error) {
 	return Parse(r)
 }
 
+func (doc *Document) checkFaces() error {
+	for _, f := range doc.Faces {
+		for _, v := range f.Verts {
+			if v < 0 || v >= len(doc.Vertexes) {
+				return fmt.Errorf("Invalid vertex index: %v", v)
+			}
+		}
+	}
+	return nil
+}
+
 func Save(doc *Document, path string) error {
 	w, err := os.Create(path)
 	if err != nil {
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index 79ccc7f..6b715ea 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -135,6 +135,9 @@ func (p *PMDParser) Parse() (*Document, error) {
 		f.Verts[2] = int(p.readUint16())
 		model.Faces = append(model.Faces, &f)
 	}
+	if p.err == nil {
+		p.err = model.checkFaces()
+	}
 
 	// Materials
 	mn := p.readInt()
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 4bc30bc..08aca26 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -353,6 +353,9 @@ func (p *PMXParser) Parse() (*Document, error) {
 	for i := 0; i < fn && p.err == nil; i++ {
 		pmx.Faces = append(pmx.Faces, p.readFace())
 	}
+	if p.err == nil {
+		p.err = pmx.checkFaces()
+	}
 
 	tn := p.readInt()
 	for i := 0; i < tn && p.err == nil; i++ {
-- 
2.43.0


From a5229933c43a84534cba8f7b4a83d9076ab78534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 172/176] fix: FBX files with circular models or invalid axis
 crashed

---
 fbx/fbx_document.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 33e3aa8..004fe7c 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -1,6 +1,10 @@
 package fbx
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"errors"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type Document struct {
 	FileId       []byte
@@ -133,9 +137,36 @@ func BuildDocument(root *Node) (*Document, error) {
 		}
 	}
 
+	if doc.hasCircularModel() {
+		return nil, errors.New("circular model hierarchy")
+	}
 	return doc, nil
 }
 
+func (doc *Document) hasCircularModel() bool {
+	visited := map[*Model]bool{} // false: visiting
+	var visit func(m *Model) bool
+	visit = func(m *Model) bool {
+		if done, ok := visited[m]; ok {
+			return !done
+		}
+		visited[m] = false
+		for _, child := range m.GetChildModels() {
+			if visit(child) {
+				return true
+			}
+		}
+		visited[m] = true
+		return false
+	}
+	for _, obj := range doc.ObjectByID {
+		if m, ok := obj.(*Model); ok && visit(m) {
+			return true
+		}
+	}
+	return false
+}
+
 func addRef(to, from Object) {
 	to.AddRef(from)
 
@@ -191,8 +222,14 @@ func (doc *Document) CoordMatrix() *geom.Matrix4 {
 		0, 0, 0, 0,
 		0, 0, 0, 1,
 	}
-	mat[gs.GetProperty("CoordAxis").ToInt(0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("UpAxis").ToInt(1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("FrontAxis").ToInt(2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
+	axis := func(name string, def int) int {
+		if v := gs.GetProperty(name).ToInt(def); v >= 0 && v < 3 {
+			return v
+		}
+		return def
+	}
+	mat[axis("CoordAxis", 0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
+	mat[axis("UpAxis", 1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
+	mat[axis("FrontAxis", 2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
 	return &mat
 }
-- 
2.43.0


From 23000aa59c4b6a042c3bbeae48bb5fc2367fb27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 173/176] fix: FBX polygons with invalid vertices and clusters
 without a model crashed

---
 converter/fbx2mqo.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 58c63a9..2e4e4ab 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -231,6 +231,11 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 
 	vcount := 0
 	for i, f := range g.Polygons {
+		if !validPolygon(f, len(obj.Vertexes)) {
+			log.Println("ERR: Invalid polygon: ", f)
+			vcount += len(f)
+			continue
+		}
 		face := &mqo.Face{}
 		var matIdx int
 		if matByPolygon {
@@ -289,6 +294,15 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	return shapes
 }
 
+func validPolygon(verts []int, n int) bool {
+	for _, v := range verts {
+		if v < 0 || v >= n {
+			return false
+		}
+	}
+	return true
+}
+
 // layerElementIndex returns a function to get the index in the data array (length=n) of the layer. (-1: no data)
 func layerElementIndex(layer *fbx.LayerElement, n int) func(vertex, polygonVertex int) int {
 	mapping := layer.GetMappingInformationType()
@@ -319,7 +333,7 @@ func layerElementIndex(layer *fbx.LayerElement, n int) func(vertex, polygonVerte
 
 func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	model := sub.GetTarget()
-	if model == nil {
+	if model == nil || model == c.src.Scene {
 		log.Println("ERR: Deformer has no model: ", sub.ID(), sub.Kind())
 		return
 	}
-- 
2.43.0


From 14932a2231989dbdd93519cf22104ef82ca24880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 174/176] fix: circular bones made invalid glTF nodes

---
 converter/mqo2gltf.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 36ca753..d4d9255 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -213,9 +213,10 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 		m.Nodes = append(m.Nodes, &gltf.Node{Name: b.Name, Translation: [3]float32{0, 0, 0}, Rotation: [4]float32{0, 0, 0, 1}})
 	}
 
+	circular := circularBones(bones, bonemap)
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil && !circular[b.ID] {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
@@ -231,6 +232,26 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 	return idmap, idmapr
 }
 
+// circularBones returns bones which are ancestors of themselves.
+func circularBones(bones []*mqo.Bone, bonemap map[int]*mqo.Bone) map[int]bool {
+	circular := map[int]bool{}
+	visited := map[int]int{}
+	for i, b := range bones {
+		for b != nil && visited[b.ID] == 0 {
+			visited[b.ID] = i + 1
+			b = bonemap[b.Parent]
+		}
+		if b == nil || visited[b.ID] != i+1 {
+			continue
+		}
+		for !circular[b.ID] {
+			circular[b.ID] = true
+			b = bonemap[b.Parent]
+		}
+	}
+	return circular
+}
+
 func (m *mqoToGltf) getNormal(obj *mqo.Object) [][3]float32 {
 	normals := obj.GetSmoothNormals()
 	normalArray := make([][3]float32, len(obj.Vertexes))
-- 
2.43.0


From c7d39a355bf8d8e414ad8b90c771e723b18f3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 175/176] fix: node names of bone groups in VRM configurations
 were not decoded

---
 vrm/vrm.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index cb80507..ea288ef 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -178,6 +178,28 @@ type SecondaryAnimation struct {
 	ColliderGroups []*SecondaryAnimationColliderGroup `json:"colliderGroups,omitempty"`
 }
 
+// UnmarshalJSON decodes SecondaryAnimation. No center node is specified if center is missing.
+func (s *SecondaryAnimation) UnmarshalJSON(data []byte) error {
+	type plain SecondaryAnimation
+	if err := json.Unmarshal(data, (*plain)(s)); err != nil {
+		return err
+	}
+	var centers struct {
+		BoneGroups []struct {
+			Center *int `json:"center"`
+		} `json:"boneGroups"`
+	}
+	if err := json.Unmarshal(data, &centers); err != nil {
+		return err
+	}
+	for i, g := range centers.BoneGroups {
+		if g.Center == nil && s.BoneGroups[i] != nil {
+			s.BoneGroups[i].Center = -1
+		}
+	}
+	return nil
+}
+
 type SecondaryAnimationBoneGroup struct {
 	Comment        string             `json:"comment"`
 	Stiffiness     float64            `json:"stiffiness"`
@@ -190,15 +212,6 @@ type SecondaryAnimationBoneGroup struct {
 	ColliderGroups []int              `json:"colliderGroups,omitempty"`
 }
 
-// UnmarshalJSON decodes a bone group. No center node is specified if center is missing.
-func (g *SecondaryAnimationBoneGroup) UnmarshalJSON(data []byte) error {
-	type plain SecondaryAnimationBoneGroup
-	p := plain{Center: -1}
-	err := json.Unmarshal(data, &p)
-	*g = SecondaryAnimationBoneGroup(p)
-	return err
-}
-
 type SecondaryAnimationColliderGroup struct {
 	Node      uint32                        `json:"node"`
 	Colliders []*SecondaryAnimationCollider `json:"colliders"`
-- 
2.43.0


From 9c57c02299aa40c49d5e8230cec92f9a6c99fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 176/176] fix: animation of models with duplicate bone names
 depended on the map order

---
 converter/glbanim.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 953397d..eaa8f37 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -48,19 +48,24 @@ func isDefaultRotations(samples []*mmd.Vector4) bool {
 func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mqo.Bone, bb map[string]*mmd.BoneChannel) {
 	var scale float32 = 80 * 0.001
 
-	boneToNode := map[string]int{}
-	for n, b := range bones {
-		boneToNode[b.Name] = int(n)
+	// node order: the result does not depend on the order of the map, and the first bone of a name is moved.
+	var boneNodes []uint32
+	for n := range bones {
+		boneNodes = append(boneNodes, n)
 	}
+	sort.Slice(boneNodes, func(i, j int) bool { return boneNodes[i] < boneNodes[j] })
 
+	boneToNode := map[string]int{}
 	boneByID := map[int]*mqo.Bone{}
-	for _, b := range bones {
+	for i := len(boneNodes) - 1; i >= 0; i-- {
+		b := bones[boneNodes[i]]
+		boneToNode[b.Name] = int(boneNodes[i])
 		boneByID[b.ID] = b
 	}
 
 	ikNodes := map[uint32]uint32{}
-	for ni, b := range bones {
-		if b.IK != nil && boneToNode[b.IK.Name] > 0 {
+	for _, ni := range boneNodes {
+		if b := bones[ni]; b.IK != nil && boneToNode[b.IK.Name] > 0 {
 			ikNodes[uint32(boneToNode[b.IK.Name])] = ni
 		}
 	}
-- 
2.43.0

