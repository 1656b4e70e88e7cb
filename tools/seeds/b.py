H='''package main
import ("fmt";"os")
func bad(a ...interface{}){fmt.Println(a...);os.Exit(1)}
'''
def G(imports,body,extra=''):
    return 'package main\nimport ("fmt";"os";'+';'.join('"%s"'%i if i[0]!='_' else i for i in imports)+')\nfunc bad(a ...interface{}){fmt.Println(a...);os.Exit(1)}\n'+extra+'\nfunc main(){\n'+body+'\n}\n'
M='github.com/binzume/modelconv/'

seed("s05-deep-arrays","C05",[("fbx/fbx_node.go","			c.Dump(w, d+1, full)\n","			c.Dump(w, d+1, full && d < 8)\n")],
G(['bytes',M+'fbx'],r"""
 doc:=&fbx.Document{RawNode:&fbx.Node{}}
 n:=fbx.NewNode("Objects"); doc.RawNode.AddChild(n)
 for i:=0;i<11;i++ { c:=fbx.NewNode(fmt.Sprint("N",i),int64(i)); n.AddChild(c); n=c }
 v:=make([]int32,20); for i:=range v { v[i]=int32(i) }
 n.AddChild(fbx.NewNode("Values",v))
 var b bytes.Buffer
 if err:=fbx.Write(&b,doc);err!=nil {bad(err)}
 g,err:=fbx.Parse(bytes.NewReader(b.Bytes())); if err!=nil {bad(err)}
 x:=g.RawNode.FindChild("Objects")
 for i:=0;i<11;i++ { x=x.FindChild(fmt.Sprint("N",i)) }
 a:=x.FindChild("Values").Attr(0).ToInt32Array()
 if len(a)!=20||a[19]!=19 {bad("array",a)}
"""),"an array of more than 16 elements below more than eight nested nodes","the elements of the array are not written")
seed("s06-taken-ids","C26",[("fbx/fbx_document.go",'	for doc.ObjectByID[doc.NextObjectID] != nil {\n		doc.NextObjectID++\n	}','	if doc.ObjectByID[doc.NextObjectID] != nil {\n		doc.NextObjectID++\n	}')],
G(['bytes','strings',M+'fbx'],r"""
 src:="; FBX 7.4.0 project file\nObjects:  {\n Model: 1, \"Model::a\", \"Null\" {\n  Version: 232\n }\n Model: 2, \"Model::b\", \"Null\" {\n  Version: 232\n }\n Model: 3, \"Model::c\", \"Null\" {\n  Version: 232\n }\n Model: 4, \"Model::d\", \"Null\" {\n  Version: 232\n }\n}\nConnections:  {\n C: \"OO\",1,0\n C: \"OO\",2,0\n C: \"OO\",3,0\n C: \"OO\",4,0\n}\n"
 d,err:=fbx.Parse(strings.NewReader(src)); if err!=nil {bad(err)}
 d.NextObjectID=1
 n:=len(d.ObjectByID)
 m:=fbx.NewModel("new","Null"); d.AddObject(m)
 if len(d.ObjectByID)!=n+1 {bad("an object was replaced",len(d.ObjectByID),n)}
 d.AddConnection(d.Scene,m)
 var b bytes.Buffer
 if err:=fbx.Write(&b,d);err!=nil {bad(err)}
 g,err:=fbx.Parse(bytes.NewReader(b.Bytes())); if err!=nil {bad(err)}
 if len(g.ObjectByID)!=n+1 {bad("objects after reading",len(g.ObjectByID))}
"""),"a document whose next free number is followed by two or more numbers in use","a new object replaces an existing one")
seed("s07-small-matrices","C21",[("geom/matrix4.go",'	if det == 0 {\n		return r','	if Abs(det) < 1e-6 {\n		return r')],
G([M+'geom'],r"""
 m:=geom.NewScaleMatrix4(0.005,0.005,0.005)
 i:=m.Inverse()
 v:=i.ApplyTo(m.ApplyTo(&geom.Vector3{X:1,Y:2,Z:3}))
 if v.X<0.99||v.X>1.01||v.Y<1.99||v.Y>2.01||v.Z<2.99||v.Z>3.01 {bad("inverse",v)}
"""),"a transform whose scale is below one hundredth (such as millimetres to metres)","its inverse is not an inverse")
seed("s08-normals-nonuniform","C23",[("mqo/utils.go",'normalTransform := rsmat.Inverse().Transposed()','normalTransform := rsmat')],
G([M+'geom',M+'mqo'],r"""
 d:=mqo.NewDocument(); o:=mqo.NewObject("o")
 o.Vertexes=append(o.Vertexes,&mqo.Vector3{},&mqo.Vector3{X:1,Y:-1},&mqo.Vector3{Z:1})
 n:=func() *mqo.Vector3 { return (&mqo.Vector3{X:1,Y:1}).Normalize() }
 o.Faces=append(o.Faces,&mqo.Face{Verts:[]int{0,1,2},Normals:[]*mqo.Vector3{n(),n(),n()}})
 d.Objects=append(d.Objects,o)
 d.ApplyTransform(geom.NewScaleMatrix4(1,3,1))
 e:=o.Vertexes[1].Sub(o.Vertexes[0])
 for _,x:=range o.Faces[0].Normals { if p:=x.Dot(e); p>1e-3||p< -1e-3 {bad("normal not perpendicular",x,e)} }
"""),"a transform that scales the axes differently, on a face with normals that are not along an axis","the normals are no longer perpendicular to the surface")
seed("s09-first-node-bone","C18",[("converter/vrmconfig.go",'				foundBones[mapping.Bone.Bone] = id\n','				if id > 0 {\n					foundBones[mapping.Bone.Bone] = id\n				}\n')],
G(['encoding/json','github.com/qmuntal/gltf',M+'converter',M+'vrm'],r"""
 g:=gltf.NewDocument()
 for _,n:=range []string{"hips","spine"} { g.Nodes=append(g.Nodes,&gltf.Node{Name:n}) }
 g.Nodes[0].Children=[]uint32{1}; g.Scenes[0].Nodes=[]uint32{0}
 var conf converter.Config
 if err:=json.Unmarshal([]byte("{\"boneMappings\":[{\"bone\":\"hips\",\"nodeNames\":[\"hips\"]},{\"bone\":\"hips\",\"nodeNames\":[\"spine\"]}]}"),&conf);err!=nil {bad(err)}
 d:=(*vrm.Document)(g)
 if _,err:=converter.ApplyConfig(d,&conf);err!=nil {bad(err)}
 n:=0
 for _,b:=range d.VRM().Humanoid.Bones { if b.Bone=="hips" { n++; if b.Node!=0 {bad("hips at node",b.Node)} } }
 if n!=1 {bad(n,"entries for hips")}
"""),"a human bone that is mapped to the first node and has a second mapping","the bone is listed twice, for two nodes")
seed("s10-smallest-weight","C12",[("converter/mqo2gltf.go",'						if w < minWeight {\n							minWeight = w\n							jindex = i\n						}','						if w < minWeight {\n							jindex = i\n						}')],
G(['bytes','math','github.com/qmuntal/gltf','github.com/qmuntal/gltf/modeler',M+'converter',M+'mqo'],r"""
 _=bytes.NewBuffer
 d:=mqo.NewDocument(); d.Materials=append(d.Materials,&mqo.Material{Name:"m"})
 d.Materials[0].Color.W=1
 o:=mqo.NewObject("o")
 o.Vertexes=append(o.Vertexes,&mqo.Vector3{},&mqo.Vector3{X:1},&mqo.Vector3{Y:1})
 o.Faces=append(o.Faces,&mqo.Face{Verts:[]int{0,1,2}}); d.Objects=append(d.Objects,o); d.FixObjectID()
 pl:=mqo.GetBonePlugin(d)
 ws:=[]float32{5,30,10,25,30}
 for i,w:=range ws { b:=&mqo.Bone{ID:i+1,Name:fmt.Sprint("b",i)}; if i>0 {b.Parent=1}; for v:=1;v<=3;v++ {b.SetVertexWeight(o.UID,v,w)}; pl.AddBone(b) }
 g,err:=converter.NewMQOToGLTFConverter(nil).Convert(d,"."); if err!=nil {bad(err)}
 for _,n:=range g.Nodes { if n.Mesh==nil||n.Skin==nil {continue}
  p:=g.Meshes[*n.Mesh].Primitives[0]
  js,err:=modeler.ReadJoints(g,g.Accessors[p.Attributes[gltf.JOINTS_0]],nil); if err!=nil {bad(err)}
  w,err:=modeler.ReadWeights(g,g.Accessors[p.Attributes[gltf.WEIGHTS_0]],nil); if err!=nil {bad(err)}
  for v:=range js { for k:=0;k<4;k++ {
   name:=g.Nodes[g.Skins[*n.Skin].Joints[js[v][k]]].Name
   if name=="b0"&&w[v][k]>0 {bad("the smallest weight was kept")}
   if name=="b2"&&math.Abs(float64(w[v][k])-10.0/95)>1e-3 {bad("weight of b2",w[v][k])}
  } }
  return }
 bad("no skinned mesh")
"""),"a vertex with five bone weights of which the smallest is not the last one below the fifth","a larger influence is dropped instead of the smallest one")
seed("s11-hide-nested","C24",[("cmd/modelconv/main.go",'doc.Objects[i].Depth > d; i++','doc.Objects[i].Depth == d+1; i++')],
G(['os/exec','github.com/qmuntal/gltf'],r"""
 src:="Metasequoia Document\nFormat Text Ver 1.1\n\nMaterial 1 {\n\t\"m\" shader(3) col(1 1 1 1) dif(0.8) amb(0.6) emi(0) spc(0) power(5)\n}\n"
 for i,n:=range []string{"root","child","grandchild","other"} { src+=fmt.Sprintf("Object \"%s\" {\n\tdepth %d\n\tvisible 15\n\tvertex 3 {\n\t\t0 0 0\n\t\t1 0 0\n\t\t0 1 0\n\t}\n\tface 1 {\n\t\t3 V(0 1 2) M(0)\n\t}\n}\n",n,[]int{0,1,2,0}[i]) }
 src+="Eof\n"
 if err:=os.WriteFile("in.mqo",[]byte(src),0644);err!=nil {bad(err)}
 if o,err:=exec.Command(os.Getenv("MODELCONV"),"-hide","root","in.mqo","out.glb").CombinedOutput();err!=nil {bad(err,string(o))}
 g,err:=gltf.Open("out.glb"); if err!=nil {bad(err)}
 seen:=map[string]bool{}
 for _,n:=range g.Nodes { if n.Mesh!=nil {seen[n.Name]=true} }
 if !seen["other"]||seen["root"]||seen["child"]||seen["grandchild"] {bad("meshes",seen)}
"""),"-hide of an object with objects two levels below it","the objects two levels below stay in the output")
