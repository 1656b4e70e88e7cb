seed("s01-mixed-normals","C01",[("mqo/mqo_writer.go",'''				for _, n := range f.Normals {
					if n != nil {
						fmt.Fprintf(w, " %v %v %v", n.X, n.Y, n.Z)
					}
				}
''','''				for _, n := range f.Normals {
					if n == nil {
						break
					}
					fmt.Fprintf(w, " %v %v %v", n.X, n.Y, n.Z)
				}
''')],r'''package main
import ("bytes";"fmt";"os";"github.com/binzume/modelconv/mqo")
func main(){
 d:=mqo.NewDocument(); o:=mqo.NewObject("o")
 for i:=0;i<3;i++ { o.Vertexes=append(o.Vertexes,&mqo.Vector3{X:float32(i),Y:float32(i*i)}) }
 o.Faces=append(o.Faces,&mqo.Face{Verts:[]int{0,1,2},Normals:[]*mqo.Vector3{{X:1},nil,{Z:1}}})
 d.Objects=append(d.Objects,o)
 var b bytes.Buffer
 if err:=mqo.NewWriter("").WriteMQO(d,&b);err!=nil {panic(err)}
 g,err:=mqo.NewParser(bytes.NewReader(b.Bytes()),"").Parse()
 if err!=nil {fmt.Println(err);os.Exit(1)}
 n:=g.Objects[0].Faces[0].Normals
 if len(n)!=3||n[0]==nil||n[1]!=nil||n[2]==nil||n[2].Z!=1||n[0].X!=1 {fmt.Println("normals lost",n);os.Exit(1)}
}
''',"a face that has per-corner normals on some corners, with a corner without one before a corner with one","the normals of later corners are lost or zero after writing and re-reading")
seed("s02-implicit-uid","C02",[("mqo/bone_plugin.go",'''		id := o.UID
		if id <= 0 {
			id = i + 1
		}
		if objs[id] {''','''		id := o.UID
		if id <= i {
			id = i + 1
		}
		if objs[id] {''')],r'''package main
import ("fmt";"os";"github.com/binzume/modelconv/mqo")
func main(){
 d:=mqo.NewDocument()
 for i,u:=range []int{7,1} { o:=mqo.NewObject(fmt.Sprint("o",i)); o.UID=u
  for k:=0;k<3;k++ { o.Vertexes=append(o.Vertexes,&mqo.Vector3{X:float32(k)}) }
  o.Faces=append(o.Faces,&mqo.Face{Verts:[]int{0,1,2}})
  d.Objects=append(d.Objects,o) }
 b:=&mqo.Bone{ID:1,Name:"b"}; b.SetVertexWeight(7,1,100); b.SetVertexWeight(1,2,100)
 mqo.GetBonePlugin(d).AddBone(b)
 if err:=mqo.Save(d,"x.mqo");err!=nil {panic(err)}
 g,err:=mqo.Load("x.mqo"); if err!=nil {panic(err)}
 ob:=mqo.GetBonePlugin(g).Obj
 if len(ob)!=2||ob[0].ID!=7||ob[1].ID!=1 {fmt.Println("weighted objects",ob);os.Exit(1)}
}
''',"an object whose identifier is smaller than its position in the object list","the list of weighted objects in the companion file names the wrong object, or omits it")
seed("s03-bdef4-third","C03",[("mmd/pmx_parser.go",'''		w := p.readFloat()
		weights := [11]float32{w, 1 - w}
		v.BoneWeights = weights[:]
		p.read(weights[2:])''','''		w := p.readFloat()
		weights := [11]float32{w, 1 - w}
		p.read(weights[2:])
		v.BoneWeights = append([]float32{}, weights[:10]...)''')],r'''package main
import ("bytes";"fmt";"os";"github.com/binzume/modelconv/mmd")
func main(){
 d:=mmd.NewDocument(); w:=make([]float32,11); w[0]=0.25;w[1]=0.75; for i:=2;i<11;i++ {w[i]=float32(i)}
 d.Bones=[]*mmd.Bone{{Name:"a",ParentID:-1,TailID:-1},{Name:"b",ParentID:0,TailID:-1}}
 d.Vertexes=[]*mmd.Vertex{{Bones:[]int{0,1},BoneWeights:w}}
 var b bytes.Buffer
 if err:=mmd.WritePMX(d,&b);err!=nil {panic(err)}
 g,err:=mmd.Parse(bytes.NewReader(b.Bytes()))
 if err!=nil {fmt.Println(err);os.Exit(1)}
 var b2 bytes.Buffer
 if fmt.Sprint(g.Vertexes[0].BoneWeights)!=fmt.Sprint(w) {fmt.Println("weights",g.Vertexes[0].BoneWeights);os.Exit(1)}
 mmd.WritePMX(g,&b2); if !bytes.Equal(b.Bytes(),b2.Bytes()) {fmt.Println("differs");os.Exit(1)}
}
''',"a vertex with spherical deform (SDEF) weights","the last SDEF parameter is dropped when such a file is read")
seed("s04-inherit-flag","C04",[("mmd/pmx_parser.go","if b.Flags&256 != 0 || b.Flags&512 != 0 {","if b.Flags&256 != 0 {")],r'''package main
import ("bytes";"fmt";"os";"encoding/binary";"github.com/binzume/modelconv/mmd")
func main(){
 // a hand-written PMX with one bone that inherits only translation (flag 0x200), and one morph
 var b bytes.Buffer
 w:=func(v interface{}){binary.Write(&b,binary.LittleEndian,v)}
 t:=func(s string){w(int32(len(s)));b.WriteString(s)}
 b.WriteString("PMX ");w(float32(2));w(uint8(8));b.Write([]byte{1,0,1,1,1,1,1,1})
 t("m");t("");t("");t("")
 w(int32(0));w(int32(0));w(int32(0));w(int32(0))
 w(int32(2))
 t("a");t("");w([3]float32{1,2,3});w(int8(-1));w(int32(0));w(uint16(0x201));w(int8(1));w(int8(1));w(float32(0.5))
 t("b");t("");w([3]float32{4,5,6});w(int8(0));w(int32(0));w(uint16(1));w(int8(-1))
 w(int32(0));w(int32(0));w(int32(0));w(int32(0))
 g,err:=mmd.Parse(bytes.NewReader(b.Bytes()))
 if err!=nil {fmt.Println(err);os.Exit(1)}
 if len(g.Bones)!=2||g.Bones[0].InheritParentID!=1||g.Bones[0].InheritParentInfluence!=0.5||g.Bones[1].Name!="b" {fmt.Println("bones");os.Exit(1)}
}
''',"a bone that inherits only translation (flag 0x200 without 0x100)","the bytes after that bone are misread")
