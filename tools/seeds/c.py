M='github.com/binzume/modelconv/'
def G(imports,body):
    return 'package main\nimport ("fmt";"os"\n'+''.join('"%s"\n'%i for i in imports)+')\nfunc bad(a ...interface{}) { fmt.Println(a...); os.Exit(1) }\nfunc main(){\n'+body+'\n}\n'
seed("s12-stale-uvs","C16",[("converter/gltf2mqo.go",'''		var texCoord [][2]float32
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {''','''		if a, ok := p.Attributes["TEXCOORD_0"]; ok {'''),("converter/gltf2mqo.go",'''	obj := mqo.NewObject(m.Name)
	for _, p := range m.Primitives {''','''	obj := mqo.NewObject(m.Name)
	var texCoord [][2]float32
	for _, p := range m.Primitives {''')],
G(['github.com/qmuntal/gltf','github.com/qmuntal/gltf/modeler',M+'converter'],r"""
 g:=gltf.NewDocument()
 pos:=[][3]float32{{0,0,0},{1,0,0},{0,1,0}}
 prim:=func(uv bool) *gltf.Primitive {
  a:=map[string]uint32{gltf.POSITION:modeler.WritePosition(g,pos)}
  if uv { a[gltf.TEXCOORD_0]=modeler.WriteTextureCoord(g,[][2]float32{{0.25,0.5},{1,0},{0,1}}) }
  return &gltf.Primitive{Attributes:a,Indices:gltf.Index(modeler.WriteIndices(g,[]uint16{0,1,2}))}
 }
 g.Meshes=[]*gltf.Mesh{{Name:"m",Primitives:[]*gltf.Primitive{prim(true),prim(false)}}}
 g.Nodes=[]*gltf.Node{{Name:"m",Mesh:gltf.Index(0)}}
 g.Scenes[0].Nodes=[]uint32{0}
 d,err:=converter.NewGLTFToMQOConverter(nil).Convert(g); if err!=nil {bad(err)}
 if len(d.Objects)!=1||len(d.Objects[0].Faces)!=2 {bad("objects or faces are missing")}
 f:=d.Objects[0].Faces
 if len(f[0].UVs)!=3||f[0].UVs[0].X!=0.25 {bad("first primitive",f[0].UVs)}
 for _,uv:=range f[1].UVs { if uv.X!=0||uv.Y!=0 {bad("second primitive has UVs of the first one",f[1].UVs)} }
"""),"a mesh with a primitive with texture coordinates followed by a primitive without them","faces of the second primitive get texture coordinates of the first one")
seed("s13-permission-url","C28",[("vrm/vrm.go",'`json:"otherPermissionUrl,omitempty"`','`json:"otherPermissionURL,omitempty"`')],
G(['bytes','encoding/json','encoding/binary',M+'vrm'],r"""
 js:=[]byte("{\"asset\":{\"version\":\"2.0\"},\"extensionsUsed\":[\"VRM\"],\"extensions\":{\"VRM\":{\"meta\":{\"title\":\"t\",\"otherPermissionUrl\":\"http://example.com/p\"},\"humanoid\":{\"humanBones\":[]}}}}")
 for len(js)%4!=0 {js=append(js,' ')}
 var b bytes.Buffer
 b.WriteString("glTF"); for _,v:=range []uint32{2,uint32(20+len(js)),uint32(len(js))} {binary.Write(&b,binary.LittleEndian,v)}
 b.WriteString("JSON"); b.Write(js)
 d,err:=vrm.Parse(&b,"."); if err!=nil {bad(err)}
 if d.VRM().Meta.OtherPermissionURL!="http://example.com/p" {bad("not read")}
 var o bytes.Buffer
 if err:=vrm.Write(d,&o,"x.vrm");err!=nil {bad(err)}
 raw:=o.Bytes(); n:=binary.LittleEndian.Uint32(raw[12:])
 var x struct{Extensions struct{VRM struct{Meta map[string]interface{}}}}
 if err:=json.Unmarshal(raw[20:20+n],&x);err!=nil {bad(err)}
 if x.Extensions.VRM.Meta["otherPermissionUrl"]!="http://example.com/p" {bad("not written",x.Extensions.VRM.Meta)}
"""),"a VRM file with otherPermissionUrl, and a reader of the file written that tells upper from lower case","the URL is written under a name that VRM does not define (this library still reads it)")
seed("s14-material-ex-range","C29",[("mqo/mqo_parser.go",'mid < len(doc.Materials)','mid <= len(doc.Materials)')],
G(['strings',M+'mqo'],r"""
 src:=func(n string) string { return "Metasequoia Document\nFormat Text Ver 1.1\n\nMaterial 1 {\n\t\"m\" shader(3) col(1 1 1 1) dif(0.8) amb(0.6) emi(0) spc(0) power(5)\n}\nMaterialEx2 1 {\n\tmaterial "+n+" {\n\t\tshadertype \"hlsl\"\n\t\tshadername \"glTF\"\n\t\tshaderparam 1 {\n\t\t\t\"Metallic\" float 0.5\n\t\t}\n\t}\n}\nEof\n" }
 for _,n:=range []string{"0","7","2","1"} {
  d,err:=mqo.NewParser(strings.NewReader(src(n)),"x.mqo").Parse()
  if n=="0"&&(err!=nil||len(d.Materials)!=1||d.Materials[0].Ex2==nil) {bad("usual file",err)}
 }
"""),"extended material settings for a material whose number is exactly the number of materials","reading the file crashes")
seed("s15-png-upper-case","C17",[("gltfutil/gltf_utils.go",'strings.HasSuffix(strings.ToLower(m.URI), ".png")','strings.HasSuffix(m.URI, ".png")')],
G(['image','image/png','github.com/qmuntal/gltf',M+'gltfutil'],r"""
 for _,n:=range []string{"a.png","b.PNG"} {
  f,err:=os.Create(n); if err!=nil {bad(err)}
  if err:=png.Encode(f,image.NewRGBA(image.Rect(0,0,1,1)));err!=nil {bad(err)}
  f.Close()
 }
 g:=gltf.NewDocument()
 g.Images=[]*gltf.Image{{URI:"a.png"},{URI:"b.PNG"}}
 if err:=gltfutil.ToSingleFile(g,".");err!=nil {bad(err)}
 for i,m:=range g.Images { if m.BufferView==nil||m.MimeType!="image/png" {bad("image",i,m.MimeType)} }
"""),"an external PNG image whose extension is in upper case and that has no mimeType","the packed image is declared to be a JPEG")
seed("s16-material-order","C30",[("converter/mqo2gltf.go",'''	for i, mat := range doc.Materials {
		if !materialUsed[i] {
			continue
		}
''','''	for i := range materialUsed {
		if i < 0 || i >= len(doc.Materials) {
			continue
		}
		mat := doc.Materials[i]
'''),("converter/mqo2gltf.go",'''	for i, mat := range doc.Materials {
		if _, ok := materialMap[i]; !ok {
			continue
		}
		mm := m.convertMaterial(mat, textures, uvBounds[i])
		m.Document.Materials = append(m.Document.Materials, mm)
	}
''','''	if materialCount > 0 {
		m.Document.Materials = make([]*gltf.Material, materialCount)
	}
	for i, mat := range doc.Materials {
		if n, ok := materialMap[i]; ok {
			m.Document.Materials[n] = m.convertMaterial(mat, textures, uvBounds[i])
		}
	}
''')],
G([M+'converter',M+'mqo'],r"""
 for k:=0;k<200;k++ {
  d:=mqo.NewDocument(); o:=mqo.NewObject("o"); d.Objects=append(d.Objects,o)
  for i:=0;i<3;i++ {
   m:=&mqo.Material{Name:fmt.Sprint("m",i)}; m.Color.W=1; d.Materials=append(d.Materials,m)
   n:=len(o.Vertexes)
   o.Vertexes=append(o.Vertexes,&mqo.Vector3{Z:float32(i)},&mqo.Vector3{X:1,Z:float32(i)},&mqo.Vector3{Y:1,Z:float32(i)})
   o.Faces=append(o.Faces,&mqo.Face{Verts:[]int{n,n+1,n+2},Material:i})
  }
  g,err:=converter.NewMQOToGLTFConverter(nil).Convert(d,"."); if err!=nil {bad(err)}
  if len(g.Materials)!=3 {bad(len(g.Materials),"materials")}
  for i,m:=range g.Materials { if m.Name!=fmt.Sprint("m",i) {bad("run",k,"material",i,"is",m.Name)} }
 }
"""),"a document with several materials in use, and a run in which Go iterates the map from another element","the materials of the glTF file are in a different order on every run")
