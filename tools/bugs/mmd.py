P='mmd/pmx_parser.go'; W='mmd/pmx_writer.go'; D='mmd/pmd_parser.go'; V='mmd/vmd_parser.go'; B='mmd/base_parser.go'
bug('p01-utf16','C04',(P,'return string(utf16.Decode(utf16data))','var rs []rune\n		for _, u := range utf16data {\n			rs = append(rs, rune(u))\n		}\n		return string(rs)'))
bug('p02-face','C03 C04',(P,'f.Verts[2] = p.readUIndex(AttrVertIndexSz)','f.Verts[2] = p.readIndex(AttrVertIndexSz)'))
bug('p03-bdef4','C03 C04',(P,'			p.readIndex(AttrBoneIndexSz),\n			p.readIndex(AttrBoneIndexSz),\n			p.readIndex(AttrBoneIndexSz),\n			p.readIndex(AttrBoneIndexSz),','			p.readIndex(AttrBoneIndexSz),\n			p.readIndex(AttrBoneIndexSz),\n			p.readIndex(AttrBoneIndexSz),\n			p.readUIndex(AttrBoneIndexSz),'))
bug('p04-toon','C03 C04',(P,'m.Toon = int(p.readUint8())','m.Toon = p.readVInt(1)'))
bug('p05-inherit','C03 C04',(P,'if b.Flags&256 != 0 || b.Flags&512 != 0 {','if b.Flags&256 != 0 {'))
bug('p06-morphuv','C03 C04',(P,'case 3, 4, 5, 6, 7:','case 3, 4, 5, 6:'))
bug('p07-vmorph','C03 C04',(P,'			v.Target = p.readUIndex(AttrVertIndexSz)\n			p.read(&v.Offset)','			v.Target = p.readIndex(AttrVertIndexSz)\n			p.read(&v.Offset)'))
bug('p08-matmorph','C03 C04',(P,'v.Target = p.readIndex(AttrMatIndexSz)','v.Target = p.readUIndex(AttrMatIndexSz)'))
bug('p09-bonemorph','C04',(P,'p.read(&Vector4{})','p.read(&Vector3{})'))
bug('p10-disp','C04',(P,'t.Target = p.readIndex(AttrMorphIndexSz)','t.Target = p.readIndex(AttrBoneIndexSz)'))
bug('p11-group','C03 C04',(P,'d.Group = p.readVInt(1)','d.Group = p.readVInt(1) & 15'))
bug('p12-grouptarget','C03 C04',(P,'d.GroupTarget = p.readVInt(2)','d.GroupTarget = p.readVUInt(2)'))
bug('p13-joint','C03 C04',(P,'	p.read(&j.PositionMin)\n	p.read(&j.PositionMax)','	p.read(&j.PositionMax)\n	p.read(&j.PositionMin)'))
bug('p14-layer','C03 C04',(P,'b.Layer = p.readVInt(4)','b.Layer = p.readVInt(4) & 0xffff'))
bug('p15-iklim','C03 C04',(P,'l.HasLimit = p.readUint8() != 0','l.HasLimit = p.readUint8() == 1'))
bug('p16-infolen','C04',(P,'len(h.Info) <= AttrRBIndexSz','len(h.Info) != AttrRBIndexSz+1'))
bug('p17-extp','C03 C04',(P,'if b.Flags&8192 != 0 {','if b.Flags&4096 != 0 {'))
bug('p18-sdef','C03 C04',(P,'weights := [11]float32{w, 1 - w}','weights := [11]float32{1 - w, w}'))
bug('p19-tex','C03 C04',(P,'m.EnvID = p.readIndex(AttrTexIndexSz)','m.EnvID = p.readIndex(AttrMatIndexSz)'))
bug('p20-extuv','C03 C04',(P,'v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])','v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV]&3)'))
bug('w01-fixidx','C03',(W,'fix(AttrVertIndexSz, len(doc.Vertexes), 0x100, 0x10000)','fix(AttrVertIndexSz, len(doc.Vertexes), 0x100, 0x100000)'))
bug('w02-fixbone','C03',(W,'fix(AttrBoneIndexSz, len(doc.Bones), 0x80, 0x8000)','fix(AttrBoneIndexSz, len(doc.Bones), 0x100, 0x10000)'))
bug('w03-case3','C03',(W,'	case 3:\n		v.BoneWeights = append(v.BoneWeights, 0)\n		v.Bones = append(v.Bones, -1)','	case 3:\n		v.BoneWeights = append(v.BoneWeights, 1)\n		v.Bones = append(v.Bones, -1)'))
bug('w04-sdef','C03',(W,'		wehghtType = 3\n		break','		wehghtType = 2\n		v.BoneWeights = v.BoneWeights[:4]\n		v.Bones = append(v.Bones, -1, -1)\n		break'))
bug('w05-toon','C03',(W,'	if m.ToonType == 0 {\n		w.writeIndex(AttrTexIndexSz, m.Toon)','	if m.ToonType == 0 && m.Toon >= 0 {\n		w.writeIndex(AttrTexIndexSz, m.Toon)'))
bug('w06-uvmorph','C03',(W,'len(m.Group) + len(m.Vertex) + len(m.UV) + len(m.Material)','len(m.Group) + len(m.Vertex) + len(m.UV)'))
bug('w07-fixed','C03',(W,'		w.write(&b.FixedAxis)','		w.write(b.FixedAxis.Normalize())'))
bug('w08-iklimit','C03',(W,'				w.write(&l.LimitMin)\n				w.write(&l.LimitMax)','				w.write(&l.LimitMax)\n				w.write(&l.LimitMin)'))
bug('w09-memo','C03',(W,'	w.writeText(m.Memo)\n	w.writeInt(m.Count)','	w.writeText("")\n	w.writeInt(m.Count)'))
bug('w10-len','C03',(W,'	w.writeInt(len(v))\n	w.write([]byte(v))','	w.writeInt(len([]rune(v)))\n	w.write([]byte(v))'))
bug('w11-err','C09',(W,'	if p.err == nil {\n		p.err = binary.Write','	{\n		p.err = binary.Write'))
bug('w12-inherit','C03',(W,'	if b.Flags&256 != 0 || b.Flags&512 != 0 {','	if b.Flags&(256|512) == 256|512 {'))
bug('w13-edge','C03',(W,'	w.write(&v.EdgeScale)\n}','	w.writeFloat(float32(int(v.EdgeScale)))\n}'))
bug('w14-type0','C03',(W,'	if len(v.BoneWeights) == 1 {\n		wehghtType = 0','	if len(v.BoneWeights) == 1 || len(v.BoneWeights) == 2 && v.BoneWeights[1] == 0 {\n		wehghtType = 0'))
bug('d01-sjis','C04',(D,'bytes.SplitN(b, []byte{0}, 2)[0]','bytes.TrimRight(b, "\\x00")'))
bug('d02-wt','C04',(D,'w := float32(p.readUint8()) / 100','w := float32(int8(p.readUint8())) / 100'))
bug('d03-vidx','C04',(D,'f.Verts[1] = int(p.readUint16())','f.Verts[1] = p.readVInt(2)'))
bug('d04-ikloop','C04',(D,'b.IK.Loop = int(p.readUint16())','b.IK.Loop = int(p.readUint8())\n		p.readUint8()'))
bug('d05-tex','C04 C13',(D,'model.Textures = append(model.Textures, tex...)','model.Textures = append(model.Textures, tex[0])'))
bug('d06-tail','C04',(D,'	if b.TailID == 0 {\n		b.TailID = -1\n	}\n',''))
bug('d07-base','C04',(D,'v.Target = base.Vertex[v.Target].Target','v.Target = base.Vertex[v.Target%len(base.Vertex)].Target - base.Vertex[0].Target'))
bug('d08-alpha','C04',(D,'if m.Color.W < 1 {','if m.Color.W <= 1 {'))
bug('d09-nobase','C04',(D,'	if n > 0 {\n		base := p.readMorph()','	if n > 1 {\n		base := p.readMorph()'))
bug('d10-iklinks','C04',(D,'for i := 0; i < ln; i++ {\n			b.IK','for i := 0; i < ln && i < 100; i++ {\n			b.IK'))
bug('d11-edge','C04',(D,'v.EdgeScale = float32(p.readUint8())','v.EdgeScale = 1 - float32(p.readUint8())'))
bug('v01-stable','C04 C25',(V,'sort.SliceStable(a.Bone,','sort.Slice(a.Bone,'))
bug('v02-frame','C04 C25',(V,'a.Frames[n-1] == uint32(s.Frame) {\n			a.Rotations','a.Frames[n-1] >= uint32(s.Frame) && n > 1 {\n			a.Rotations'))
bug('v03-morphdup','C04 C25',(V,'			a.Weights[n-1] = s.Value\n			continue','			continue'))
bug('v04-trunc','C04',(V,'bytes.SplitN(b, []byte{0}, 2)[0]','bytes.Trim(b, "\\x00")'))
bug('v05-sjis','C04',(V,'	return string(utf8Data)','	return strings.TrimSpace(string(utf8Data))'),(V,'	"sort"\n','	"sort"\n	"strings"\n'))
bug('v06-frames','C04',(V,'		sample.Frame = p.readInt()\n		p.read(&sample.Value)','		sample.Frame = int(p.readUint16())\n		p.readUint16()\n		p.read(&sample.Value)'))
bug('v07-samename','C04 C25',(V,'			a = &BoneChannel{Target: s.Target}\n			r[s.Target] = a','			a = &BoneChannel{Target: s.Target}\n			r[strings.TrimSpace(s.Target)] = a'),(V,'	"sort"\n','	"sort"\n	"strings"\n'))
bug('v08-header','C04',(V,'if formatName != supportedFormat {','if formatName > supportedFormat {'))
bug('e01-bytes','C08 C07',(B,'	b, err := io.ReadAll(io.LimitReader(p.r, int64(n)))\n	if err == nil && len(b) < n {','	b := make([]byte, n&0xffff)\n	m, err := p.r.Read(b)\n	b = b[:m]\n	if err == nil && len(b) < n && false {'))
bug('e02-vuint','C03 C04',(B,'	if sz == 2 {\n		var v uint16','	if sz == 2 {\n		var v int16'))
bug('e03-eof','C08',(B,'			p.err = io.ErrUnexpectedEOF','			p.err = nil'))
