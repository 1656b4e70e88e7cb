package props

import (
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"

	. "modelconvmc/engine"
)

// C19: Unity scenes. A scene is data (files of nodes and prefab instances), written as Unity's
// YAML by this file and expanded independently into the tree that has to be seen.

const unit19 = 1000

var meshNames19 = []string{"", "Cube", "Cylinder", "Sphere", "Capsule", "Plane", "Quad"}
var meshIDs19 = []int64{0, 10202, 10206, 10207, 10208, 10209, 10210}

const builtin19 = "0000000000000000e000000000000000"
const defaultMat19 = "0000000000000000f000000000000000"
const missingMat19 = "dddddddddddddddddddddddddddddddd"
const meshFBX19 = 7

type mat19 struct {
	guid, name  string
	color       [4]float64
	emission    *[3]float64
	tex, bump   string // GUIDs
	scale       [2]float64
	noTexScaled bool
}

type yname19 struct{ yaml, name string }

type node19 struct {
	name    yname19
	active  bool
	parent  int // -1: none, -2: an object of an instance
	pInst   int
	pNode   int
	t, s    v3d
	q       [4]float64
	mesh    int
	fbxID   int64
	enabled bool
	mats    []string
	light   int        // 0 none, else type+1
	li      [6]float64 // colour, intensity, range, cone
	fbx     int        // which of the two files
	noise   int
	stale   bool // m_Father only: a child that the parent's list does not mention
}

type mod19 struct {
	node  int
	comp  int // 1 game object, 4 transform, 23 renderer, 99 nothing
	path  string
	value string
	ref   string // material GUID
}

type inst19 struct {
	src          *file19
	parent       int // -1, node, -2: an object of an instance
	pInst, pNode int
	listed       bool
	mods         []mod19
	gone         bool // the prefab is not in the project
	stripped     bool // a stripped root transform and game object even if nothing needs it
}

func (in *inst19) guid() string {
	if in.gone {
		return "99999999999999999999999999999999"
	}
	return in.src.guid
}

type file19 struct {
	guid, path string
	nodes      []*node19
	insts      []*inst19
	base       int64
	order      int
	rev        bool
	crlf       bool
	noEOL      bool
	wrap       bool // the last value ends on a line of its own
	oldPrefab  bool
	doc        []string // after text()
}

func (f *file19) id(node, typ int) int64 { return f.base + int64(node)*1000 + int64(typ) }
func (f *file19) instID(i int) int64     { return f.base + 900000 + int64(i) }
func (f *file19) stripID(i, node int) int64 {
	return f.base + 800000 + int64(i)*100 + int64(node)
}

// the root object of a prefab file: the file and node that hold it
func (f *file19) root() (*file19, int) {
	for i, n := range f.nodes {
		if n.parent == -1 {
			return f, i
		}
	}
	return f.insts[0].src.root()
}

// ---- text

func ff(x float64) string { return strings.TrimSuffix(fmt.Sprintf("%v", x), ".0") }

func (f *file19) childRefs(node int) (r []int64) {
	for i, n := range f.nodes {
		if n.parent == node && !n.stale {
			r = append(r, f.id(i, 4))
		}
	}
	for i, in := range f.insts {
		if in.parent == node && in.listed {
			_, k := in.src.root()
			r = append(r, f.stripID(i, k))
		}
	}
	if f.rev {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return
}

const head19 = "  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n"

func (f *file19) docs() (gos, trs, comps, insts []string) {
	strip := map[[2]int]bool{}
	for i, n := range f.nodes {
		var ids []int64
		add := func(typ int, cls, body string) {
			ids = append(ids, f.id(i, typ))
			comps = append(comps, fmt.Sprintf("--- !u!%d &%d\n%s:\n%s  m_GameObject: {fileID: %d}\n%s", typ, f.id(i, typ), cls, head19, f.id(i, 1), body))
		}
		ids = append(ids, f.id(i, 4))
		if n.mesh != 0 {
			en := 0
			if n.enabled {
				en = 1
			}
			mats := ""
			for _, m := range n.mats {
				if m == "" {
					mats += "  - {fileID: 0}\n"
				} else {
					mats += fmt.Sprintf("  - {fileID: 2100000, guid: %s, type: 2}\n", m)
				}
			}
			if mats == "" {
				mats = "  m_Materials: []\n"
			} else {
				mats = "  m_Materials:\n" + mats
			}
			mesh := fmt.Sprintf("{fileID: %d, guid: %s, type: 0}", 0, builtin19)
			if n.mesh == meshFBX19 {
				mesh = fmt.Sprintf("{fileID: %d, guid: %s, type: 3}", n.fbxID, fbxGUIDs19[n.fbx])
			} else {
				mesh = fmt.Sprintf("{fileID: %d, guid: %s, type: 0}", meshIDs19[n.mesh], builtin19)
			}
			add(23, "MeshRenderer", fmt.Sprintf("  m_Enabled: %d\n  m_CastShadows: 1\n  m_DynamicOccludee: 1\n%s  m_StaticBatchInfo:\n    firstSubMesh: 0\n    subMeshCount: 0\n  m_SortingOrder: 0\n", en, mats))
			add(33, "MeshFilter", "  m_Mesh: "+mesh+"\n")
		}
		if n.light > 0 {
			add(108, "Light", fmt.Sprintf("  m_Enabled: 1\n  serializedVersion: 10\n  m_Type: %d\n  m_Color: {r: %s, g: %s, b: %s, a: 1}\n  m_Intensity: %s\n  m_Range: %s\n  m_SpotAngle: %s\n  m_InnerSpotAngle: 20\n", n.light-1, ff(n.li[0]), ff(n.li[1]), ff(n.li[2]), ff(n.li[3]), ff(n.li[4]), ff(n.li[5])))
		}
		switch n.noise {
		case 1:
			add(82, "AudioSource", "  m_Volume: 1\n  rolloff:\n    m_Curve:\n    - serializedVersion: 3\n      time: 0\n")
		case 2:
			ids = append(ids, f.id(i, 777))
		case 4:
			for k := 0; k < 2; k++ {
				id := f.id(i, 114+k)
				ids = append(ids, id)
				comps = append(comps, fmt.Sprintf("--- !u!114 &%d\nMonoBehaviour:\n%s  m_GameObject: {fileID: %d}\n%s", id, head19, f.id(i, 1), "  m_Enabled: 1\n  m_Script: {fileID: 11500000, guid: aaaabbbbccccddddeeeeffff00001111, type: 3}\n  m_Name: \n  speed: 3\n  list:\n  - a\n  - b: {fileID: 0}\n"))
			}
		case 6:
			add(64, "MeshCollider", "  m_IsTrigger: 0\n  m_Mesh: {fileID: 10202, guid: "+builtin19+", type: 0}\n")
			add(65, "BoxCollider", "  m_Size: {x: 1, y: 2, z: 3}\n  m_Center: {x: 0, y: 1, z: 0}\n")
			add(54, "Rigidbody", "  m_Mass: 2\n  m_IsKinematic: 0\n")
		case 5: // the transform comes last
			ids = append(ids[1:], ids[0])
		}
		cs := ""
		for _, id := range ids {
			cs += fmt.Sprintf("  - component: {fileID: %d}\n", id)
		}
		act := 0
		if n.active {
			act = 1
		}
		gos = append(gos, fmt.Sprintf("--- !u!1 &%d\nGameObject:\n%s  serializedVersion: 6\n  m_Component:\n%s  m_Layer: 0\n  m_Name: %s\n  m_TagString: Untagged\n  m_StaticEditorFlags: 0\n  m_IsActive: %d\n", f.id(i, 1), head19, cs, n.name.yaml, act))

		father := int64(0)
		switch {
		case n.parent >= 0:
			father = f.id(n.parent, 4)
		case n.parent == -2:
			father = f.stripID(n.pInst, n.pNode)
			strip[[2]int{n.pInst, n.pNode}] = true
		}
		refs := f.childRefs(i)
		if n.noise == 3 {
			refs = append([]int64{f.id(i, 778)}, refs...)
		}
		ch := "  m_Children: []\n"
		if len(refs) > 0 {
			ch = "  m_Children:\n"
			for _, r := range refs {
				ch += fmt.Sprintf("  - {fileID: %d}\n", r)
			}
		}
		trs = append(trs, fmt.Sprintf("--- !u!4 &%d\nTransform:\n%s  m_GameObject: {fileID: %d}\n  m_LocalRotation: {x: %s, y: %s, z: %s, w: %s}\n  m_LocalPosition: {x: %s, y: %s, z: %s}\n  m_LocalScale: {x: %s, y: %s, z: %s}\n%s  m_Father: {fileID: %d}\n  m_RootOrder: 0\n  m_LocalEulerAnglesHint: {x: 0, y: 0, z: 0}\n",
			f.id(i, 4), head19, f.id(i, 1), ff(n.q[0]), ff(n.q[1]), ff(n.q[2]), ff(n.q[3]), ff(n.t[0]), ff(n.t[1]), ff(n.t[2]), ff(n.s[0]), ff(n.s[1]), ff(n.s[2]), ch, father))
	}
	for _, in := range f.insts {
		if in.parent == -2 {
			strip[[2]int{in.pInst, in.pNode}] = true
		}
	}
	for i, in := range f.insts {
		parent := int64(0)
		if in.listed || in.stripped {
			_, k := in.src.root()
			strip[[2]int{i, k}] = true
		}
		switch {
		case in.parent >= 0:
			parent = f.id(in.parent, 4)
		case in.parent == -2:
			parent = f.stripID(in.pInst, in.pNode)
		}
		mods := ""
		for _, m := range in.mods {
			ref := "{fileID: 0}"
			if strings.HasPrefix(m.ref, "{") {
				ref = m.ref
			} else if m.ref != "" {
				ref = fmt.Sprintf("{fileID: 2100000, guid: %s, type: 2}", m.ref)
			}
			mods += fmt.Sprintf("    - target: {fileID: %d, guid: %s, type: 3}\n      propertyPath: %s\n      value: %s\n      objectReference: %s\n", in.src.id(m.node, m.comp), in.src.guid, m.path, m.value, ref)
		}
		if mods == "" {
			mods = "    m_Modifications: []\n"
		} else {
			mods = "    m_Modifications:\n" + mods
		}
		insts = append(insts, fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n%s    m_RemovedComponents: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", f.instID(i), parent, mods, in.guid()))
		for k := 0; k < 8; k++ {
			if strip[[2]int{i, k}] {
				src, _ := in.src.root() // the file whose object it is
				if len(in.src.nodes) > 0 {
					src = in.src
				}
				insts = append(insts, fmt.Sprintf("--- !u!4 &%d stripped\nTransform:\n  m_CorrespondingSourceObject: {fileID: %d, guid: %s, type: 3}\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", f.stripID(i, k), src.id(k, 4), in.guid(), f.instID(i)))
				if in.stripped {
					insts = append(insts, fmt.Sprintf("--- !u!1 &%d stripped\nGameObject:\n  m_CorrespondingSourceObject: {fileID: %d, guid: %s, type: 3}\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", f.stripID(i, k)+50, src.id(k, 1), in.src.guid, f.instID(i)))
				}
			}
		}
	}
	return
}

func (f *file19) list() (docs []string) {
	g, t, k, in := f.docs()
	cat := func(ls ...[]string) {
		for _, l := range ls {
			docs = append(docs, l...)
		}
	}
	switch f.order {
	case 0:
		cat(g, t, k, in)
	case 1:
		cat(in, k, t, g)
	case 2:
		cat(t, in, g, k)
	case 3: // everything reversed
		cat(g, t, k, in)
		for i, j := 0, len(docs)-1; i < j; i, j = i+1, j-1 {
			docs[i], docs[j] = docs[j], docs[i]
		}
	}
	if f.oldPrefab {
		docs = append([]string{"--- !u!1001 &100100000\nPrefab:\n  m_ObjectHideFlags: 1\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: 0}\n    m_Modifications: []\n    m_RemovedComponents: []\n  m_SourcePrefab: {fileID: 0}\n  m_IsPrefabAsset: 1\n"}, docs...)
	}
	return
}

const intro19 = "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"
const settings19 = "--- !u!29 &1\nOcclusionCullingSettings:\n  serializedVersion: 2\n  m_OcclusionBakeSettings:\n    smallestOccluder: 5\n  m_SceneGUID: 00000000000000000000000000000000\n"

func (f *file19) text() string {
	s := intro19
	if strings.HasSuffix(f.path, ".unity") {
		s += settings19
	}
	s += strings.Join(f.list(), "")
	if f.wrap && strings.HasSuffix(s, "}\n") {
		s = strings.TrimSuffix(s, "}\n") + "\n }\n"
	}
	if f.noEOL {
		s = strings.TrimSuffix(s, "\n")
	}
	if f.crlf {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

// ---- what has to be seen

type x19 struct {
	n        node19
	name     string
	local    m4
	children []*x19
	loose    []*x19 // children in any place
}

func (n *node19) local() m4 {
	z := m4s(v3d{1, 1, -1})
	u := m4t(n.t).mul(m4q(n.q[0], n.q[1], n.q[2], n.q[3])).mul(m4s(n.s))
	return z.mul(u).mul(z)
}

func (f *file19) expand() (roots, byNode []*x19) {
	for _, n := range f.nodes {
		byNode = append(byNode, &x19{n: *n, name: n.name.name})
	}
	var instRoot []*x19
	var instNodes [][]*x19
	for _, in := range f.insts {
		r, ns := in.src.expand()
		instRoot = append(instRoot, r[0])
		instNodes = append(instNodes, ns)
		if in.gone {
			instRoot[len(instRoot)-1] = nil
			continue
		}
		for _, m := range in.mods {
			if m.comp == 99 {
				continue
			}
			x := ns[m.node]
			var v float64
			fmt.Sscan(m.value, &v)
			switch m.path {
			case "m_Name":
				x.name = strings.Trim(m.value, "'")
			case "m_IsActive":
				x.n.active = v != 0
			case "m_LocalPosition.x":
				x.n.t[0] = v
			case "m_LocalPosition.y":
				x.n.t[1] = v
			case "m_LocalPosition.z":
				x.n.t[2] = v
			case "m_LocalRotation.x":
				x.n.q[0] = v
			case "m_LocalRotation.y":
				x.n.q[1] = v
			case "m_LocalRotation.z":
				x.n.q[2] = v
			case "m_LocalRotation.w":
				x.n.q[3] = v
			case "m_LocalScale.x":
				x.n.s[0] = v
			case "m_LocalScale.y":
				x.n.s[1] = v
			case "m_LocalScale.z":
				x.n.s[2] = v
			case "m_Enabled":
				if m.comp == 23 {
					x.n.enabled = v != 0
				}
			case "m_Color.r", "m_Color.g", "m_Color.b":
				x.n.li[strings.IndexByte("rgb", m.path[8])] = v
			case "m_Intensity":
				x.n.li[3] = v
			case "m_Range":
				x.n.li[4] = v
			case "m_SpotAngle":
				x.n.li[5] = v
			case "m_Type":
				x.n.light = int(v) + 1
			case "m_Mesh":
				for k, id := range meshIDs19 {
					if strings.Contains(m.ref, fmt.Sprintf(": %d,", id)) {
						x.n.mesh = k
					}
				}
			case "m_Materials.Array.data[0]":
				x.n.mats = append([]string{strings.TrimPrefix(m.ref, "{fileID: 0}")}, x.n.mats[1:]...)
			case "m_Materials.Array.data[1]":
				x.n.mats = []string{x.n.mats[0], strings.TrimPrefix(m.ref, "{fileID: 0}")}
			}
		}
	}
	for i, x := range byNode {
		for _, id := range f.childRefs(i) {
			for k := range f.nodes {
				if f.id(k, 4) == id {
					x.children = append(x.children, byNode[k])
				}
			}
			for k, in := range f.insts {
				if _, rn := in.src.root(); in.parent == i && in.listed && !in.gone && f.stripID(k, rn) == id {
					x.children = append(x.children, instRoot[k])
				}
			}
		}
		for k, in := range f.insts {
			if in.parent == i && !in.listed && !in.gone {
				x.loose = append(x.loose, instRoot[k])
			}
		}
	}
	for i, n := range f.nodes {
		if n.parent == -1 {
			roots = append(roots, byNode[i])
		} else if n.parent == -2 {
			p := instNodes[n.pInst][n.pNode]
			p.loose = append(p.loose, byNode[i])
		}
	}
	for i, in := range f.insts {
		if in.gone {
			continue
		}
		if in.parent == -1 {
			roots = append(roots, instRoot[i])
		} else if in.parent == -2 {
			p := instNodes[in.pInst][in.pNode]
			p.loose = append(p.loose, instRoot[i])
		}
	}
	return
}

type seen19 struct {
	x      *x19
	world  m4
	depth  int
	active bool
}

func (d *diffs) tr19(p string, x *x19, tr, parent *unity.Transform, world m4, depth int, active bool, seen *[]seen19) {
	if tr == nil {
		d.add("%s: no transform", p)
		return
	}
	o := tr.GetGameObject()
	if o == nil {
		d.add("%s: the transform has no game object", p)
		return
	}
	p += "/" + x.name
	d.eq(p+" name", x.name, o.Name)
	d.eq(p+" active", x.n.active, o.IsActive != 0)
	if o.GetTransform() != tr {
		d.add("%s: the object's transform is another one", p)
	}
	if tr.GetParent() != parent {
		d.add("%s: GetParent %v", p, tr.GetParent())
	}
	l := x.n.local()
	w := world.mul(l)
	d.m4(p+" local matrix", l, tr.GetMatrix(), 1e-5)
	d.m4(p+" world matrix", w, tr.GetWorldMatrix(), 1e-4)
	active = active && x.n.active
	*seen = append(*seen, seen19{x, w, depth, active})

	var t2 *unity.Transform
	if !o.GetComponent(&t2) || t2 != tr {
		d.add("%s: GetComponent(Transform)", p)
	}
	var mf *unity.MeshFilter
	var mr *unity.MeshRenderer
	var li *unity.Light
	var mb []*unity.MonoBehaviour
	o.GetComponents(&mb)
	d.eq(p+" has a mesh filter", x.n.mesh != 0, o.GetComponent(&mf))
	d.eq(p+" has a renderer", x.n.mesh != 0, o.GetComponent(&mr))
	d.eq(p+" has a light", x.n.light != 0, o.GetComponent(&li))
	d.eq(p+" scripts", []int{0, 0, 0, 0, 2, 0, 0}[x.n.noise], len(mb))
	if len(mb) == 2 {
		var b *unity.MonoBehaviour
		d.eq(p+" first script", true, o.GetComponent(&b) && b == mb[0] && b != mb[1])
	}
	if mr != nil && x.n.mesh != 0 {
		d.eq(p+" renderer enabled", x.n.enabled, mr.Enabled != 0)
		var g []string
		for _, m := range mr.Materials {
			g = append(g, m.GUID)
		}
		d.eq(p+" materials", fmt.Sprint(x.n.mats), fmt.Sprint(g))
		if mr.GetGameObject() != o {
			d.add("%s: the renderer belongs to another object", p)
		}
	}
	if li != nil {
		d.eq(p+" light type", x.n.light-1, li.Type)
	}

	// children: the listed ones in order, the others anywhere
	got := tr.GetChildren()
	want := x.children
	loose := append([]*x19{}, x.loose...)
	if len(got) != len(want)+len(loose) {
		var names []string
		for _, c := range got {
			if g := c.GetGameObject(); g != nil {
				names = append(names, g.Name)
			}
		}
		d.add("%s: %d children %v, want %d", p, len(got), names, len(want)+len(loose))
		return
	}
	for _, c := range got {
		g := c.GetGameObject()
		if g == nil {
			d.add("%s: a child without a game object", p)
			continue
		}
		var xc *x19
		if len(want) > 0 && want[0].name == g.Name {
			xc, want = want[0], want[1:]
		} else {
			for i, l := range loose {
				if l.name == g.Name {
					xc = l
					loose = append(loose[:i:i], loose[i+1:]...)
					break
				}
			}
		}
		if xc == nil {
			d.add("%s: child %q in the wrong place", p, g.Name)
			continue
		}
		d.tr19(p, xc, c, tr, w, depth+1, active, seen)
	}
}

func (d *diffs) scene19(roots []*x19, s *unity.Scene) (seen []seen19) {
	if len(s.Objects) != len(roots) {
		var names []string
		for _, o := range s.Objects {
			names = append(names, o.Name)
		}
		d.add("%d root objects %q, want %d", len(s.Objects), names, len(roots))
		return
	}
	left := append([]*x19{}, roots...)
	for _, o := range s.Objects {
		found := false
		for i, x := range left {
			if x.name == o.Name {
				left = append(left[:i:i], left[i+1:]...)
				d.tr19("", x, o.GetTransform(), nil, m4id(), 0, true, &seen)
				found = true
				break
			}
		}
		if !found {
			d.add("unexpected root object %q", o.Name)
		}
	}
	return
}

// ---- converted document

type world19 struct {
	mats  map[string]*mat19
	fbx   [2]*fscene
	names map[int64]string // mesh ids of the FBX files
}

func centre(f *mqo.Face, o *mqo.Object) (c v3d) {
	for _, i := range f.Verts {
		c = c.add(v3g(o.Vertexes[i]))
	}
	return c.mul(1 / float64(len(f.Verts)))
}

// on the surface of the primitive, in its own space
func onPrimitive(k int, p v3d) bool {
	const e = 2e-4
	abs := func(x float64) float64 { return math.Abs(x) }
	eq := func(a, b float64) bool { return abs(a-b) < e }
	switch k {
	case 1:
		return eq(abs(p[0]), .5) && eq(abs(p[1]), .5) && eq(abs(p[2]), .5)
	case 2:
		return eq(math.Hypot(p[0], p[2]), .5) && eq(abs(p[1]), 1)
	case 3:
		return eq(p.len(), .5)
	case 4:
		y := math.Max(-.5, math.Min(.5, p[1]))
		return eq(p.sub(v3d{0, y, 0}).len(), .5)
	case 5:
		return eq(p[1], 0) && eq(abs(p[0]), 5) && eq(abs(p[2]), 5)
	case 6:
		return eq(p[2], 0) && eq(abs(p[0]), .5) && eq(abs(p[1]), .5)
	}
	return false
}

var size19 = []v3d{{}, {1, 1, 1}, {1, 2, 1}, {1, 1, 1}, {1, 2, 1}, {10, 0, 10}, {1, 1, 0}}

// outward direction at a point of the surface in the primitive's space
func outward(k int, p v3d) v3d {
	switch k {
	case 5:
		return v3d{0, 1, 0}
	case 6: // seen from -z in Unity, +z here
		return v3d{0, 0, 1}
	case 2:
		if math.Abs(p[1]) > .99 {
			return v3d{0, p[1], 0}
		}
		return v3d{p[0], 0, p[2]}
	case 4:
		return p.sub(v3d{0, math.Max(-.5, math.Min(.5, p[1])), 0})
	}
	return p
}

func (d *diffs) primitive(p string, k int, world m4, o *mqo.Object) {
	inv, ok := world.inv()
	if !ok {
		panic("engine: singular transform")
	}
	lo, hi := v3d{9, 9, 9}, v3d{-9, -9, -9}
	var local []v3d
	for i, v := range o.Vertexes {
		q := inv.apply(v3g(v).mul(1. / unit19))
		local = append(local, q)
		if !onPrimitive(k, q) {
			d.add("%s: vertex %d %v is not on the %s", p, i, q, meshNames19[k])
			return
		}
		for a := range q {
			lo[a], hi[a] = math.Min(lo[a], q[a]), math.Max(hi[a], q[a])
		}
	}
	if !hi.sub(lo).near(size19[k], 1e-3) {
		d.add("%s: %s of size %v", p, meshNames19[k], hi.sub(lo))
	}
	edges := map[[2]int]int{}
	for i, f := range o.Faces {
		if len(f.Verts) < 3 || len(f.UVs) != len(f.Verts) {
			d.add("%s: face %d has %d vertices and %d UVs", p, i, len(f.Verts), len(f.UVs))
			return
		}
		for j, v := range f.Verts {
			if v < 0 || v >= len(local) {
				d.add("%s: face %d vertex %d", p, i, v)
				return
			}
			edges[[2]int{v, f.Verts[(j+1)%len(f.Verts)]}]++
		}
		// clockwise faces are front faces
		var n, c v3d
		for j, v := range f.Verts {
			a, b := local[v], local[f.Verts[(j+1)%len(f.Verts)]]
			n = n.add(a.cross(b))
			c = c.add(a)
		}
		c = c.mul(1 / float64(len(f.Verts)))
		if n.len() < 1e-6 || n.dot(outward(k, c)) >= 0 {
			d.add("%s: face %d %v does not look outwards", p, i, f.Verts)
			return
		}
	}
	for e, n := range edges {
		if n != 1 {
			d.add("%s: edge %v used %d times in one direction", p, e, n)
			return
		}
		if k <= 4 && edges[[2]int{e[1], e[0]}] != 1 {
			d.add("%s: the surface is open at edge %v", p, e)
			return
		}
	}
	if len(o.Faces) == 0 {
		d.add("%s: no faces", p)
	}
}

func (w *world19) uvScale(guid string) [2]float64 {
	if m := w.mats[guid]; m != nil && m.tex != "" {
		return m.scale
	}
	return [2]float64{1, 1}
}

func (d *diffs) mqo19(w *world19, seen []seen19, doc *mqo.Document) {
	if len(doc.Materials) == 0 {
		d.add("no materials")
	}
	used := map[string]int{}
	material := func(p, guid string, idx int) {
		if idx < 0 || idx >= len(doc.Materials) {
			d.add("%s: material index %d", p, idx)
			return
		}
		if k, ok := used[guid]; ok && k != idx {
			d.add("%s: material %s is both %d and %d", p, guid, k, idx)
		}
		for g, k := range used {
			if g != guid && k == idx {
				d.add("%s: materials %s and %s are both %d", p, g, guid, idx)
			}
		}
		used[guid] = idx
		m := doc.Materials[idx]
		if guid == defaultMat19 {
			d.eq(p+" material name", "UnityDefaultMaterial", m.Name)
		}
		if s := w.mats[guid]; s != nil {
			d.eq(p+" material name", s.name, m.Name)
			for a, g := range []float32{m.Color.X, m.Color.Y, m.Color.Z, m.Color.W} {
				d.f32(fmt.Sprintf("%s color %d", p, a), float32(s.color[a]), g, 1e-6)
			}
			if s.emission != nil {
				e := v3d(*s.emission)
				if m.EmissionColor == nil {
					d.add("%s: no emission color", p)
				} else {
					d.v3d(p+" emission", e, m.EmissionColor, 1e-6)
				}
			} else if m.EmissionColor != nil && m.EmissionColor.Len() > 0 {
				d.add("%s: emission %v", p, m.EmissionColor)
			}
		}
	}
	k := 0
	next := func() *mqo.Object {
		if k < len(doc.Objects) {
			k++
			return doc.Objects[k-1]
		}
		return nil
	}
	world := m4s(v3d{unit19, unit19, unit19})
	for _, s := range seen {
		p := "object " + s.x.name
		o := next()
		if o == nil {
			d.add("%s is missing", p)
			return
		}
		name := s.x.name
		n := s.x.n
		vis := s.active
		switch {
		case n.mesh == meshFBX19:
			name += "(FBX)"
		case n.mesh != 0:
			name += "(" + meshNames19[n.mesh] + ")"
			vis = vis && n.enabled
		}
		d.eq(p+" name", name, o.Name)
		d.eq(p+" depth", s.depth, o.Depth)
		d.eq(p+" visible", vis, o.Visible)
		l := n.local()
		for a := 0; a < 3; a++ {
			l[a][3] *= unit19
		}
		d.m4(p+" local transform", l, o.GetLocalTransform(), 1e-4)
		if n.light > 0 {
			li, _ := o.Extra["light"].(map[string]interface{})
			if li == nil {
				d.add("%s: no light", p)
			} else {
				d.eq(p+" light type", []string{"", "spot", "directional", "point"}[n.light], fmt.Sprint(li["type"]))
				d.eq(p+" light intensity", fmt.Sprint(n.li[3]), fmt.Sprint(li["intensity"]))
				d.eq(p+" light range", fmt.Sprint(n.li[4]), fmt.Sprint(li["range"]))
				d.eq(p+" light cone", fmt.Sprint(n.li[5], 20), fmt.Sprint(li["outerConeAngle"], li["innerConeAngle"]))
				d.eq(p+" light color", fmt.Sprint(n.li[:3]), fmt.Sprint(li["color"]))
			}
		} else if o.Extra["light"] != nil {
			d.add("%s: a light", p)
		}
		if n.mesh == 0 {
			if len(o.Vertexes) != 0 || len(o.Faces) != 0 {
				d.add("%s: %d vertices", p, len(o.Vertexes))
			}
			continue
		}
		if n.mesh != meshFBX19 {
			d.primitive(p, n.mesh, s.world, o)
			if !d.empty() {
				return
			}
			lo, hi := [2]float64{1e9, 1e9}, [2]float64{-1e9, -1e9}
			g := ""
			if len(n.mats) > 0 {
				g = n.mats[0]
			}
			for _, f := range o.Faces {
				if len(n.mats) > 0 {
					material(p, g, f.Material)
				} else if f.Material >= 0 && f.Material < len(doc.Materials) {
					d.add("%s: has the material %d, its renderer has none", p, f.Material)
				}
				for _, uv := range f.UVs {
					for a, x := range []float64{float64(uv.X), float64(uv.Y)} {
						lo[a], hi[a] = math.Min(lo[a], x), math.Max(hi[a], x)
					}
				}
				if !d.empty() {
					return
				}
			}
			sc := w.uvScale(g)
			for a := range lo {
				if !near(lo[a], 0, 1e-5) || !near(hi[a], sc[a], 1e-5) {
					d.add("%s: UV range %v..%v, texture scale %v", p, lo, hi, sc)
				}
			}
			continue
		}
		// an imported mesh: its own object below
		fbx := w.fbx[n.fbx]
		m := next()
		if m == nil {
			d.add("%s: the mesh is missing", p)
			return
		}
		d.eq(p+" mesh depth", s.depth+1, m.Depth)
		d.eq(p+" mesh visible", s.active && n.enabled, m.Visible)
		mi := -1
		for i, x := range fbx.models {
			if x.name == w.names[n.fbxID] {
				mi = i
			}
		}
		d.eq(p+" mesh name", fbx.models[mi].name, m.Name)
		g := fbx.geoms[fbx.models[mi].geom]
		f := 0.01
		if fbx.unit != 0 {
			f *= fbx.unit
		}
		if len(m.Vertexes) != len(g.verts) || len(m.Faces) != len(g.polys) {
			d.add("%s: mesh of %d vertices and %d faces", p, len(m.Vertexes), len(m.Faces))
			return
		}
		tr := world.mul(s.world).mul(m4s(v3d{-f, f, -f})).mul(fbx.coord())
		for i, v := range g.verts {
			d.v3d(fmt.Sprintf("%s mesh vertex %d", p, i), tr.apply(v), m.Vertexes[i], 1e-4)
		}
		order := []int32{}
		corner := 0
		for i, poly := range g.polys {
			fc := m.Faces[i]
			// clockwise here, counterclockwise there
			turn := -1
			for t := range poly {
				same := len(fc.Verts) == len(poly)
				for j := 0; same && j < len(poly); j++ {
					same = fc.Verts[(t+len(poly)-j)%len(poly)] == poly[j]
				}
				if same {
					turn = t
				}
			}
			if turn < 0 {
				d.add("%s: mesh face %d is %v, want %v reversed", p, i, fc.Verts, poly)
				return
			}
			mat := int32(0)
			if g.mat != nil && g.mat.mapping == "ByPolygon" {
				mat = g.mat.ints[i]
			}
			if mat < 0 {
				corner += len(poly)
				continue
			}
			pos := -1
			for q, o := range order {
				if o == mat {
					pos = q
				}
			}
			if pos < 0 {
				pos = len(order)
				order = append(order, mat)
			}
			sc := [2]float64{1, 1}
			if pos < len(n.mats) {
				material(p, n.mats[pos], fc.Material)
				sc = w.uvScale(n.mats[pos])
			}
			if g.uv != nil {
				if len(fc.UVs) != len(poly) {
					d.add("%s: mesh face %d has %d UVs", p, i, len(fc.UVs))
					return
				}
				for j := range poly {
					u, v := g.uv.data[2*corner], g.uv.data[2*corner+1]
					uv := fc.UVs[(turn+len(poly)-j)%len(poly)]
					if !near(u*sc[0], float64(uv.X), 1e-5) || !near((1-v)*sc[1], float64(uv.Y), 1e-5) {
						d.add("%s: mesh face %d UV %d = %v, want %v scaled by %v", p, i, j, uv, [2]float64{u, 1 - v}, sc)
					}
					corner++
				}
			}
		}
	}
	if o := next(); o != nil {
		d.add("an additional object %q", o.Name)
	}
}

// ---- files on disk

var fbxGUIDs19 = []string{"fbfbfbfbfbfbfbfbfbfbfbfbfbfbfbfb", "fcfcfcfcfcfcfcfcfcfcfcfcfcfcfcfc"}

type case19 struct {
	files  []*file19 // the scene last
	mats   []*mat19
	tex    map[string][2]string // GUID: path, contents
	fbx    [2]*fscene
	upper  bool
	names  map[int64]string
	save   bool
	raw    map[string]string // texts that replace those of files
	damage string
}

func (c *case19) Describe() string {
	s := c.damage
	for i := len(c.files) - 1; i >= 0; i-- {
		f := c.files[i]
		t := c.raw[f.path]
		if t == "" {
			t = f.text()
		}
		s += "\n# " + f.path + "\n" + t
	}
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func (m *mat19) text() string {
	texEnv := func(name, guid string, sc [2]float64) string {
		ref := "{fileID: 0}"
		if guid != "" {
			ref = "{fileID: 2800000, guid: " + guid + ", type: 3}"
		}
		return fmt.Sprintf("    - %s:\n        m_Texture: %s\n        m_Scale: {x: %s, y: %s}\n        m_Offset: {x: 0, y: 0}\n", name, ref, ff(sc[0]), ff(sc[1]))
	}
	s := intro19 + "--- !u!21 &2100000\nMaterial:\n  serializedVersion: 6\n  m_Name: " + m.name + "\n  m_Shader: {fileID: 46, guid: 0000000000000000f000000000000000, type: 0}\n  m_ShaderKeywords: _EMISSION\n  stringTagMap: {}\n  disabledShaderPasses: []\n  m_SavedProperties:\n    serializedVersion: 3\n    m_TexEnvs:\n"
	s += texEnv("_BumpMap", m.bump, [2]float64{1, 1}) + texEnv("_DetailMask", "", [2]float64{3, 3}) + texEnv("_MainTex", m.tex, m.scale)
	s += "    m_Floats:\n    - _Glossiness: 0.5\n    - _Mode: 0\n    m_Colors:\n"
	s += fmt.Sprintf("    - _Color: {r: %s, g: %s, b: %s, a: %s}\n", ff(m.color[0]), ff(m.color[1]), ff(m.color[2]), ff(m.color[3]))
	e := [3]float64{}
	if m.emission != nil {
		e = *m.emission
	}
	return s + fmt.Sprintf("    - _EmissionColor: {r: %s, g: %s, b: %s, a: 1}\n", ff(e[0]), ff(e[1]), ff(e[2]))
}

func (c *case19) write(dir string) string {
	put := func(path, guid, text, meta string) {
		p := filepath.Join(dir, filepath.FromSlash(path))
		os.MkdirAll(filepath.Dir(p), 0o755)
		writeFile(p, []byte(text))
		writeFile(p+".meta", []byte("fileFormatVersion: 2\nguid: "+guid+"\n"+meta))
	}
	for _, f := range c.files {
		t := c.raw[f.path]
		if t == "" {
			t = f.text()
		}
		put(f.path, f.guid, t, "DefaultImporter:\n  externalObjects: {}\n")
	}
	for i, m := range c.mats {
		put(fmt.Sprintf("Assets/Materials/%d.mat", i), m.guid, m.text(), "NativeFormatImporter:\n  mainObjectFileID: 2100000\n")
	}
	for g, t := range c.tex {
		put(t[0], g, t[1], "TextureImporter:\n  mipmaps: {a: 1}\n")
	}
	for k, fbx := range c.fbx {
		if fbx == nil {
			continue
		}
		p := fmt.Sprintf("Assets/Models/%d/m.fbx", k)
		if c.upper && k == 0 {
			p = "Assets/Models/M.FBX"
		}
		meta := "ModelImporter:\n  serializedVersion: 23\n  fileIDToRecycleName:\n    100000: //RootNode\n"
		for id := int64(4300000); id < 4300010; id += 2 {
			if n, ok := c.names[id]; ok {
				meta += fmt.Sprintf("    %d: %s\n", id, n)
			}
		}
		put(p, fbxGUIDs19[k], string(encodeFBX(fbx.nodes(), binOpt{version: 7400, footer: 1})), meta)
	}
	return filepath.Join(dir, "Assets")
}

func (c *case19) world() *world19 {
	w := &world19{mats: map[string]*mat19{}, fbx: c.fbx, names: c.names}
	for _, m := range c.mats {
		w.mats[m.guid] = m
	}
	return w
}

// counted19 stops a scene that is loaded without end
type counted19 struct {
	unity.Assets
	opens int
}

func (c *counted19) Open(p string) (fs.File, error) {
	if c.opens++; c.opens > 5000 {
		return nil, fs.ErrNotExist
	}
	return c.Assets.Open(p)
}

func (c *case19) check(t *T) {
	dir := t.Dir()
	as := c.write(dir)
	a, err := unity.OpenAssets(as)
	t.Must(err == nil, "open", "opening the project: %v", err)
	defer a.Close()
	main := c.files[len(c.files)-1]
	if c.damage != "" {
		count := &counted19{Assets: a}
		s, err := unity.LoadScene(count, main.path)
		t.Must(count.opens < 5000, "endless", "the files of the project were opened %d times", count.opens)
		if err == nil && s == nil {
			t.Fail("none", "no scene and no error")
		}
		if err == nil {
			for _, o := range s.Objects {
				walk19(o.GetTransform(), 0)
			}
			doc, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: true}).Convert(s)
			t.Must(err != nil || doc != nil, "none", "no document and no error")
		}
		t.OK()
		return
	}
	s, err := unity.LoadScene(a, main.path)
	t.Must(err == nil, "load", "loading the scene: %v", err)
	d := &diffs{}
	roots, _ := main.expand()
	if strings.HasSuffix(main.path, ".unity") {
		_, err := unity.LoadScene(a, "Assets/Scenes/other.unity")
		t.Expect(err != nil, "other scene", "a scene that does not exist was loaded")
		only, err := unity.LoadScene(a, "")
		if t.Expect(err == nil && only != nil, "only scene", "the only scene is not found without a name: %v", err) {
			d.scene19(roots, only)
		}
	}
	seen := d.scene19(roots, s)
	t.Expect(d.empty(), "scene", "scene: %s", d)
	if !d.empty() {
		return
	}
	doc, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: c.save}).Convert(s)
	t.Must(err == nil, "convert", "converting: %v", err)
	d.mqo19(c.world(), seen, doc)
	t.Expect(d.empty(), "converted", "converted: %s", d)

	// the scene is as before
	d2 := &diffs{}
	d2.scene19(roots, s)
	t.Expect(d2.empty(), "scene after", "scene after the conversion: %s", d2)

	src := filepath.Dir(a.GetSourcePath())
	if c.save {
		for _, m := range doc.Materials {
			for _, s := range c.mats {
				if s.name != m.Name {
					continue
				}
				for _, x := range [][2]string{{s.tex, m.Texture}, {s.bump, m.BumpTexture}} {
					want, ok := c.tex[x[0]]
					if !ok {
						t.Expect(x[1] == "", "texture", "material %s has the texture %q", m.Name, x[1])
						continue
					}
					b, err := os.ReadFile(filepath.Join(src, filepath.FromSlash(x[1])))
					t.Expect(x[1] != "" && err == nil && string(b) == want[1], "texture", "material %s texture %q: %v, %q", m.Name, x[1], err, b)
				}
			}
		}
	} else {
		_, err := os.Stat(filepath.Join(src, "saved_textures"))
		t.Expect(err != nil, "saved", "textures were saved")
	}
	t.State(fmt.Sprint(len(doc.Objects), len(doc.Materials), doc.Objects[0].Name))
	t.OK()
}

func walk19(tr *unity.Transform, depth int) {
	if tr == nil || depth > 50 {
		return
	}
	tr.GetGameObject()
	tr.GetWorldMatrix()
	for _, c := range tr.GetChildren() {
		walk19(c, depth+1)
	}
}

// ---- generators

var names19 = []yname19{{"obj%d", "obj%d"}, {"%d", "%d"}, {"\"\\u30AA\\u30D6 %d\"", "オブ %d"}, {"'a: b %d'", "a: b %d"}, {"007%d", "007%d"}, {"1.%d0", "1.%d0"}, {"Cube (%d)", "Cube (%d)"}}

func name19(k, i int) yname19 {
	n := names19[k]
	return yname19{fmt.Sprintf(n.yaml, i), fmt.Sprintf(n.name, i)}
}

var trans19 = []v3d{{0, 0, 0}, {1, 2, 3}, {-0.5, 0, 2.25}}
var quats19 = [][4]float64{{0, 0, 0, 1}, {0.5, -0.5, 0.5, 0.5}, {0, 0.6, 0, 0.8}, {0.1, 0.3, -0.7, 0.6403124}, {-0.70710677, 0, 0, 0.7071068}}
var scales19 = []v3d{{1, 1, 1}, {2, 2, 2}, {1, 0.5, 3}}

var mats19 = []*mat19{
	{guid: "11111111111111111111111111111111", name: "Red", color: [4]float64{1, 0, 0, 1}, scale: [2]float64{1, 1}},
	{guid: "22222222222222222222222222222222", name: "Tex", color: [4]float64{0.5, 0.25, 1, 0.5}, tex: "cccccccccccccccccccccccccccccccc", scale: [2]float64{2, 3}, emission: &[3]float64{0, 0.5, 1}},
	{guid: "33333333333333333333333333333333", name: "NoTex", color: [4]float64{1, 1, 1, 1}, scale: [2]float64{4, 4}, bump: "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee"},
	{guid: "44444444444444444444444444444444", name: "Tex Twice", color: [4]float64{0, 0.125, 0, 0.75}, tex: "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee", scale: [2]float64{2, 2}, emission: &[3]float64{0.25, 0, 0}, bump: "cccccccccccccccccccccccccccccccc"},
}
var tex19 = map[string][2]string{
	"cccccccccccccccccccccccccccccccc": {"Assets/Tex/a.png", "texture a"},
	"eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee": {"Assets/Tex2/a.png", "texture of the same name"},
}

func matList19(k int) []string {
	a, b, n := mats19[0].guid, mats19[1].guid, mats19[2].guid
	return [][]string{{a}, {b}, {n}, {defaultMat19}, {b, a}, {missingMat19}, {}, {mats19[3].guid}, {defaultMat19, b}, {"", a}}[k]
}

func plain19(i int) *node19 {
	return &node19{name: name19(0, i), active: true, parent: -1, q: quats19[0], s: scales19[0], enabled: true, li: [6]float64{1, 0.5, 0.25, 2.5, 12, 40}}
}

func base19(k int) int64 {
	return []int64{100000, 8679921383154000000, -4611686018427000000}[k]
}

func node19gen(c *Chooser, i int, n *node19) {
	p := fmt.Sprint("node ", i, " ")
	n.name = name19(c.Choose(p+"name", len(names19)), i)
	n.active = !c.Flag(p + "inactive")
	n.t = Pick(c, p+"position", trans19...)
	n.q = Pick(c, p+"rotation", quats19...)
	n.s = Pick(c, p+"scale", scales19...)
	n.mesh = c.Choose(p+"mesh", 7)
	if n.mesh != 0 {
		n.enabled = !c.Flag(p + "renderer disabled")
		n.mats = matList19(c.Choose(p+"materials", 10))
	}
	n.light = c.Choose(p+"light", 4)
	n.noise = c.Choose(p+"noise", 6)
}

func genHier19(nodes int) func(c *Chooser) any {
	return func(c *Chooser) any {
		f := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity"}
		for i := 0; i < nodes; i++ {
			n := plain19(i)
			if i > 0 {
				n.parent = c.Free(fmt.Sprint("parent ", i), i+1) - 1
			}
			f.nodes = append(f.nodes, n)
		}
		f.base = base19(c.Choose("ids", 3))
		f.order = c.Choose("document order", 4)
		f.rev = c.Flag("children reversed")
		f.crlf = c.Flag("crlf")
		f.noEOL = c.Flag("no final newline")
		f.wrap = c.Flag("wrapped")
		for i, n := range f.nodes {
			node19gen(c, i, n)
		}
		return &case19{files: []*file19{f}, mats: mats19, tex: tex19}
	}
}

func prefab19(guid, path string, k int) *file19 {
	f := &file19{guid: guid, path: path}
	for i := 0; i < 3; i++ {
		n := plain19(k*10 + i)
		n.parent = i - 1
		f.nodes = append(f.nodes, n)
	}
	f.nodes[2].parent = 0
	f.nodes[0].t = v3d{0, 1, 0}
	f.nodes[1].mesh = 1
	f.nodes[1].mats = []string{mats19[0].guid, mats19[1].guid}
	f.nodes[1].t = v3d{3, 0, 0.5}
	f.nodes[2].q = quats19[2]
	f.nodes[2].mesh = 6
	f.nodes[2].light = 1
	f.nodes[2].mats = []string{mats19[1].guid}
	return f
}

var mods19 = []mod19{
	{0, 1, "m_Name", "Renamed", ""},
	{1, 1, "m_Name", "1234", ""},
	{2, 1, "m_Name", "007", ""},
	{1, 1, "m_Name", "'x: y'", ""},
	{0, 1, "m_IsActive", "0", ""},
	{2, 1, "m_IsActive", "0", ""},
	{0, 4, "m_LocalPosition.x", "7", ""},
	{0, 4, "m_LocalPosition.y", "-0.5", ""},
	{1, 4, "m_LocalPosition.z", "1e-3", ""},
	{0, 4, "m_LocalScale.y", "2.5", ""},
	{2, 4, "m_LocalScale.x", "3", ""},
	{1, 4, "m_LocalScale.z", "4", ""},
	{1, 23, "m_Enabled", "0", ""},
	{1, 23, "m_Materials.Array.data[0]", "", mats19[2].guid},
	{1, 23, "m_Materials.Array.data[1]", "", mats19[2].guid},
	{0, 99, "m_Name", "nothing", ""},
	{0, 4, "m_Unknown.x", "7", ""},
	{0, 4, "m_RootOrder", "3", ""},
	{1, 4, "m_LocalPosition.z", "0", ""},
	{1, 4, "m_LocalPosition.x", "0", ""},
	{0, 4, "m_LocalPosition.y", "0", ""},
	{2, 4, "m_LocalPosition.x", "-0.123456789012345", ""},
	{1, 4, "m_LocalPosition.y", "+1.5e+1", ""},
	{2, 4, "m_LocalScale.z", "0.0100000000001", ""},
	{0, 4, "m_LocalScale.x", "-1", ""},
	{2, 23, "m_Materials.Array.data[0]", "", "{fileID: 0}"},
	{1, 23, "m_Materials.Array.data[1]", "", "{fileID: 0}"},
	{2, 23, "m_Materials.Array.data[0]", "", mats19[3].guid},
	{2, 33, "m_Mesh", "", "{fileID: 10207, guid: " + builtin19 + ", type: 0}"},
	{1, 33, "m_Mesh", "", "{fileID: 10206, guid: " + builtin19 + ", type: 0}"},
	{2, 108, "m_Color.r", "0.5", ""},
	{2, 108, "m_Color.g", "0", ""},
	{2, 108, "m_Color.b", "0.75", ""},
	{2, 108, "m_Color.a", "0.5", ""},
	{2, 108, "m_Intensity", "0", ""},
	{2, 108, "m_Range", "3.25", ""},
	{2, 108, "m_SpotAngle", "55", ""},
	{2, 108, "m_Type", "2", ""},
	{2, 108, "m_Enabled", "0", ""},
	{2, 1, "m_IsActive", "1", ""},
	{1, 1, "m_TagString", "Player", ""},
	{0, 1, "m_Layer", "5", ""},
	{1, 1, "m_Name", "", ""},
}

func pickMods19(c *Chooser, label string) (r []mod19) {
	for i := 0; i < 2; i++ {
		k := c.Choose(fmt.Sprint(label, " override ", i), len(mods19)+2)
		if k == 0 {
			break
		}
		if k == len(mods19)+1 { // a rotation has four parts
			q := quats19[1]
			for a, n := range []string{"x", "y", "z", "w"} {
				r = append(r, mod19{0, 4, "m_LocalRotation." + n, ff(q[a]), ""})
			}
			continue
		}
		r = append(r, mods19[k-1])
	}
	return
}

// two overrides of one instance, in both orders, before and after instances of prefabs that are not there
func genOverrides19(c *Chooser) any {
	inner := prefab19("a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1", "Assets/Prefabs/inner.prefab", 1)
	scene := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity", nodes: []*node19{plain19(0)}, base: 30000000}
	inner.base = 100000
	inner.nodes[2].active = !c.Flag("an inactive child")
	gone := &inst19{src: inner, parent: c.Choose("missing place", 2) - 1, gone: true}
	in := &inst19{src: inner, parent: 0, listed: true}
	i := c.Free("override 1", len(mods19))
	j := c.Free("override 2", len(mods19)+1)
	in.mods = append(in.mods, mods19[i])
	if j > 0 {
		in.mods = append(in.mods, mods19[j-1])
	}
	other := &inst19{src: inner, parent: 0, listed: true, mods: []mod19{{0, 1, "m_Name", "Other", ""}}}
	pick := c.Choose
	if i == 0 && j == 0 {
		pick = c.Free
	}
	scene.insts = [][]*inst19{{in, other}, {other, in}, {gone, in, other}, {in, gone, other}, {in, other, gone}}[pick("instances", 5)]
	return &case19{files: []*file19{inner, scene}, mats: mats19, tex: tex19}
}

// one part of a scene with n elements
func genSizes19(c *Chooser) any {
	kind := c.Free("section", 9)
	max := []int{300, 130, 300, 130, 130, 33, 600, 33, 300}[kind]
	var ns []int
	for _, n := range sizesAll {
		if n <= max {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	inner := prefab19("a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1", "Assets/Prefabs/inner.prefab", 1)
	inner.base = 100000
	f := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity", base: 30000000}
	files := []*file19{f}
	f.order = c.Free("document order", 4)
	node := func(parent int) *node19 {
		x := plain19(len(f.nodes))
		x.parent = parent
		x.t = trans19[len(f.nodes)%3]
		if len(f.nodes)%3 == 1 {
			x.mesh, x.mats = 1+len(f.nodes)%6, matList19(len(f.nodes)%10)
		}
		f.nodes = append(f.nodes, x)
		return x
	}
	what := ""
	switch kind {
	case 0:
		what = "children"
		node(-1)
		for i := 0; i < n; i++ {
			node(0)
		}
	case 1:
		what = "depth"
		for i := 0; i < n; i++ {
			node(i - 1)
		}
	case 2:
		what = "roots"
		for i := 0; i < n; i++ {
			node(-1)
		}
	case 3:
		what = "instances"
		node(-1)
		files = []*file19{inner, f}
		for i := 0; i < n; i++ {
			f.insts = append(f.insts, &inst19{src: inner, parent: i%2 - 1, listed: i%2 == 1, mods: []mod19{{0, 1, "m_Name", fmt.Sprint("Instance", i), ""}, {1, 4, "m_LocalPosition.x", ff(float64(i) / 4), ""}}})
		}
	case 4:
		what = "overrides"
		node(-1)
		files = []*file19{inner, f}
		in := &inst19{src: inner, parent: 0, listed: true}
		for i := 0; i < n; i++ {
			in.mods = append(in.mods, []mod19{{0, 4, "m_LocalPosition.x", ff(float64(i) / 4), ""}, {1, 4, "m_LocalScale.y", ff(float64(i%9 + 1)), ""}, {2, 1, "m_Name", fmt.Sprint("n", i), ""}, {1, 23, "m_Materials.Array.data[0]", "", mats19[i/4%4].guid}}[i%4])
		}
		f.insts = []*inst19{in, {src: inner, parent: -1}}
	case 5:
		what = "materials of a renderer"
		x := node(-1)
		x.mesh, x.mats = 1, nil
		for i := 0; i < n; i++ {
			x.mats = append(x.mats, mats19[i%4].guid)
		}
		node(0)
	case 6:
		what = "name"
		x := node(-1)
		x.name = yname19{strings.Repeat("n", n), strings.Repeat("n", n)}
		x = node(0)
		x.name = yname19{"\"" + strings.Repeat("\\u30AA", n) + "\"", strings.Repeat("オ", n)}
	case 7:
		what = "levels of prefabs"
		if n > 12 {
			n = 6 + n%7
		}
		files = nil
		for i := 0; i < n; i++ {
			p := prefab19(fmt.Sprintf("%032x", 0xabc0000+i), fmt.Sprintf("Assets/Prefabs/p%d.prefab", i), i+1)
			p.base = int64(100000 + 3000000*i)
			if i > 0 {
				p.insts = []*inst19{{src: files[i-1], parent: i % 3, listed: true}}
			}
			files = append(files, p)
		}
		f.base = 900000000
		node(-1)
		f.insts = []*inst19{{src: files[n-1], parent: 0, listed: true}}
		files = append(files, f)
	case 8:
		what = "lights and boxes"
		for i := 0; i < n; i++ {
			x := node(i/3 - 1)
			x.light, x.noise = i%4, i%6
			x.active = i%7 != 3
			x.name = name19(i%len(names19), i)
		}
	}
	_ = what
	return &case19{files: files, mats: mats19, tex: tex19}
}

// prefabs in prefabs in prefabs
func genDeep19(c *Chooser) any {
	n := c.Free("levels", 4) + 2
	var files []*file19
	for i := 0; i < n; i++ {
		f := prefab19(strings.Repeat(fmt.Sprintf("5%x", 10+i), 16), fmt.Sprintf("Assets/Prefabs/p%d.prefab", i), i+1)
		f.base = int64(100000 + 3000000*i)
		if i > 0 {
			f.insts = []*inst19{{src: files[i-1], parent: c.Free(fmt.Sprint("place ", i), 3), listed: !c.Flag(fmt.Sprint("not listed ", i))}}
			if c.Flag(fmt.Sprint("twice ", i)) {
				f.insts = append(f.insts, &inst19{src: files[i-1], parent: 0, listed: true, mods: []mod19{{0, 1, "m_Name", "Again", ""}}})
			}
			if i > 1 && c.Flag(fmt.Sprint("the innermost also ", i)) {
				f.insts = append(f.insts, &inst19{src: files[0], parent: 1, listed: true, mods: []mod19{{0, 1, "m_Name", "Innermost", ""}, {2, 4, "m_LocalPosition.x", "5", ""}}})
			}
		}
		files = append(files, f)
	}
	scene := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity", nodes: []*node19{plain19(0)}, base: 90000000}
	scene.nodes[0].t = trans19[1]
	scene.insts = []*inst19{{src: files[n-1], parent: c.Free("scene place", 2) - 1, listed: true}}
	if scene.insts[0].parent < 0 {
		scene.insts[0].listed = false
	}
	return &case19{files: append(files, scene), mats: mats19, tex: tex19}
}

func genPrefab19(c *Chooser) any {
	inner := prefab19("a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1", "Assets/Prefabs/inner.prefab", 1)
	outer := prefab19("b2b2b2b2b2b2b2b2b2b2b2b2b2b2b2b2", "Assets/Prefabs/outer.prefab", 2)
	variant := &file19{guid: "c3c3c3c3c3c3c3c3c3c3c3c3c3c3c3c3", path: "Assets/Prefabs/variant.prefab"}
	scene := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity"}
	for i := 0; i < 2; i++ {
		n := plain19(i)
		n.t = trans19[1+i]
		n.q = quats19[1+i]
		scene.nodes = append(scene.nodes, n)
	}
	scene.nodes[1].parent = 0
	if c.Flag("ids overlap") {
		inner.base, outer.base, scene.base = 100000, 100000, 100000
	} else {
		inner.base, outer.base, scene.base = 100000, 2000000, 30000000
	}
	variant.base = 40000000
	inner.oldPrefab = c.Flag("old prefab header")
	for i, f := range []*file19{scene, inner, outer} {
		f.order = c.Choose(fmt.Sprint("document order ", i), 4)
	}
	scene.rev = c.Flag("children reversed")
	scene.crlf = c.Flag("crlf")

	kind := c.Free("kind", 5)
	files := []*file19{inner}
	place := func(in *inst19, label string) {
		in.parent = c.Free(label+" place", 3) - 1
		if in.parent >= 0 {
			in.listed = !c.Flag(label + " not listed")
		}
		in.stripped = c.Flag(label + " stripped objects")
	}
	first := &inst19{src: inner, mods: pickMods19(c, "first")}
	place(first, "first")
	scene.insts = []*inst19{first}
	switch kind {
	case 1: // two instances, the second anywhere
		second := &inst19{src: inner, mods: pickMods19(c, "second")}
		place(second, "second")
		if k := c.Free("second below the first", 4); k > 0 {
			second.parent, second.pInst, second.pNode, second.listed = -2, 0, k-1, false
		}
		scene.insts = append(scene.insts, second)
		// siblings are told apart by their names
		if len(second.mods) == 0 || second.mods[0].path != "m_Name" || second.mods[0].node != 0 {
			second.mods = append([]mod19{{0, 1, "m_Name", "Second", ""}}, second.mods...)
		}
		for _, m := range second.mods[1:] {
			if m.path == "m_Name" && m.node == 0 {
				return nil
			}
		}
	case 2: // an object of the scene below one of the instance
		n := plain19(5)
		n.parent, n.pInst, n.pNode = -2, 0, c.Free("below", 3)
		n.mesh, n.mats = 5, []string{mats19[0].guid}
		n.t = trans19[1]
		scene.nodes = append(scene.nodes, n)
		if c.Flag("with a child") {
			m := plain19(6)
			m.parent = len(scene.nodes) - 1
			m.mesh = 1
			scene.nodes = append(scene.nodes, m)
		}
	case 3: // nested
		nested := &inst19{src: inner, parent: c.Free("nested place", 3), mods: pickMods19(c, "nested")}
		nested.listed = !c.Flag("nested not listed")
		outer.insts = []*inst19{nested}
		first.src = outer
		files = append(files, outer)
		if k := c.Free("added", 3); k > 0 { // an object below one of the outer prefab
			n := plain19(5)
			n.parent, n.pInst, n.pNode = -2, 0, k-1
			n.mesh = 1
			scene.nodes = append(scene.nodes, n)
		}
	case 4: // a variant
		variant.insts = []*inst19{{src: inner, parent: -1, mods: pickMods19(c, "variant"), stripped: c.Flag("variant stripped")}}
		if len(first.mods) > 0 {
			return nil
		}
		first.src = variant
		first.listed, first.stripped = false, false
		files = append(files, variant)
	}
	return &case19{files: append(files, scene), mats: mats19, tex: tex19}
}

func genPrim19(c *Chooser) any {
	f := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/s.unity", base: 100000}
	save := c.FreeFlag("save textures")
	for i := 0; i < 2; i++ {
		n := plain19(i)
		n.mesh = c.Free(fmt.Sprint("mesh ", i), 6) + 1
		n.mats = matList19([]int{0, 1, 2, 7}[c.Free(fmt.Sprint("materials ", i), 4)])
		n.t = Pick(c, fmt.Sprint("position ", i), trans19...)
		n.q = Pick(c, fmt.Sprint("rotation ", i), quats19...)
		n.s = Pick(c, fmt.Sprint("scale ", i), scales19...)
		n.parent = i - 1
		f.nodes = append(f.nodes, n)
	}
	return &case19{files: []*file19{f}, mats: mats19, tex: tex19, save: save}
}

func genFBX19(c *Chooser) any {
	f := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/s.unity", base: 100000}
	k := c.Free("mesh", 3)
	var fbx [2]*fscene
	for z := range fbx {
		fbx[z] = &fscene{}
	}
	for z, s := range fbx {
		p := Pick2(z, "", "second file ")
		for i := 0; i < 2; i++ {
			m := &fsMeshes[[]int{2, 3, 0}[(k+i+z)%3]]
			g := &fsGeom{id: int64(100 + i), name: fmt.Sprint("g", i), verts: m.verts, polys: m.polys}
			g.uv = fsUV(m, 2)
			g.mat = fsMatLayer(m, 1, 2)
			if len(m.polys) > 1 {
				g.mat = fsMatLayer(m, Pick(c, fmt.Sprint(p, "material layer ", i), 2, 1, 4), 2)
				if g.mat == nil { // a face without a material
					g.mat = &fsLayer{"ByPolygon", "IndexToDirect", nil, []int32{1, -1, 0}}
				}
			}
			s.geoms = append(s.geoms, g)
			md := &fsModel{id: int64(10 + i + 5*z), name: fmt.Sprint("Mesh", i), kind: "Mesh", parent: -1, geom: i}
			md.t = Pick(c, fmt.Sprint(p, "model position ", i), fsTrans[:2]...)
			s.models = append(s.models, md)
		}
		switch c.Choose(p+"unit", 3) {
		case 1:
			s.unit = 100
		case 2:
			s.noGlob = true
		}
	}
	cs := &case19{files: []*file19{f}, mats: mats19, tex: tex19, fbx: fbx, names: map[int64]string{4300000: "Mesh0", 4300002: "Mesh1"}}
	cs.upper = c.Flag("upper case name")
	for i := 0; i < 3; i++ {
		n := plain19(i)
		n.parent = Pick2(i, -1, 0, 0)
		n.t = Pick(c, fmt.Sprint("position ", i), trans19...)
		n.q = Pick(c, fmt.Sprint("rotation ", i), quats19...)
		n.s = Pick(c, fmt.Sprint("scale ", i), scales19...)
		n.active = !c.Flag(fmt.Sprint("inactive ", i))
		n.enabled = !c.Flag(fmt.Sprint("disabled ", i))
		switch c.Free(fmt.Sprint("mesh ", i), 4) {
		case 0:
			n.mesh, n.fbxID = meshFBX19, 4300000
		case 1:
			n.mesh, n.fbxID = meshFBX19, 4300002
		case 2:
			n.mesh = 1
		case 3:
			n.mesh, n.fbx, n.fbxID = meshFBX19, 1, 4300000+2*int64(k%2)
		}
		n.mats = Pick(c, fmt.Sprint("materials ", i), []string{mats19[0].guid, mats19[1].guid}, []string{mats19[1].guid, mats19[0].guid})
		f.nodes = append(f.nodes, n)
	}
	return cs
}

// Damaged files: every document and line in turn.
func genDamage19(c *Chooser) any {
	inner := prefab19("a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1", "Assets/Prefabs/inner.prefab", 1)
	inner.base = 100000
	inner.nodes[1].light = 1
	scene := &file19{guid: "f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0", path: "Assets/Scenes/s.unity", base: 3000000}
	scene.nodes = []*node19{plain19(0), plain19(1), plain19(2)}
	scene.nodes[1].parent = 0
	scene.nodes[1].mesh, scene.nodes[1].mats = 2, matList19(1)
	scene.nodes[1].noise = 6
	scene.nodes[2].parent, scene.nodes[2].pInst, scene.nodes[2].pNode = -2, 0, 1
	scene.insts = []*inst19{{src: inner, parent: 1, listed: true, mods: []mod19{mods19[0], mods19[6], mods19[13]}}, {src: inner, parent: -1}}
	cs := &case19{files: []*file19{inner, scene}, mats: mats19, tex: tex19, raw: map[string]string{}}
	target := []*file19{scene, inner}[c.Free("file", 2)]
	text := target.text()
	switch c.Free("damage", 10) {
	case 0: // a document is missing
		docs := target.list()
		k := c.Free("document", len(docs))
		text = strings.Replace(text, docs[k], "", 1)
		cs.damage = fmt.Sprintf("document %d removed from %s", k, target.path)
	case 1: // a document is empty
		docs := target.list()
		k := c.Free("document", len(docs))
		text = strings.Replace(text, docs[k], docs[k][:strings.IndexByte(docs[k], '\n')+1], 1)
		cs.damage = fmt.Sprintf("document %d emptied in %s", k, target.path)
	case 2: // a line is missing
		lines := strings.SplitAfter(text, "\n")
		k := c.Free("line", len(lines)-1)
		text = strings.Join(append(append([]string{}, lines[:k]...), lines[k+1:]...), "")
		cs.damage = fmt.Sprintf("line %d removed from %s: %q", k, target.path, lines[k])
	case 3: // a line's value is gone, or something else
		lines := strings.SplitAfter(text, "\n")
		k := c.Free("line", len(lines)-1)
		p := strings.Index(lines[k], ": ")
		if q := strings.Index(lines[k], "- {"); q >= 0 {
			p = q
		}
		if p < 0 {
			return nil
		}
		v := FreePick(c, "value", "", "-1", "{fileID: 0}", "{fileID: 99}", "[]", "[1, {a: b}]", "\"", "{", "99999999999999999999", "NaN", "~")
		cs.damage = fmt.Sprintf("line %d of %s: %q becomes %q", k, target.path, lines[k], v)
		lines[k] = lines[k][:p+2] + v + "\n"
		text = strings.Join(lines, "")
	case 4: // the file ends early
		k := c.Free("length", len(text)/7) * 7
		text = text[:k] + "\n"
		cs.damage = fmt.Sprintf("%s ends after %d bytes", target.path, k)
	case 5: // a document twice
		docs := target.list()
		k := c.Free("document", len(docs))
		text += docs[k]
		cs.damage = fmt.Sprintf("document %d twice in %s", k, target.path)
	case 6: // a reference to something else in the file
		ids := []int64{target.id(0, 1), target.id(0, 4), target.id(1, 1), target.id(1, 4), target.id(1, 23), scene.instID(0), 1}
		parts := strings.Split(text, "{fileID: ")
		k := c.Free("reference", len(parts)-1) + 1
		id := FreePick(c, "id", ids...)
		e := strings.IndexAny(parts[k], ",}")
		cs.damage = fmt.Sprintf("reference %d of %s becomes %d", k, target.path, id)
		parts[k] = fmt.Sprint(id) + parts[k][e:]
		text = strings.Join(parts, "{fileID: ")
	case 7: // the prefab contains itself, or the scene does
		src := c.Free("of", 2)
		docs := (&file19{guid: "x", path: "x.prefab", base: 7000000, insts: []*inst19{{src: []*file19{inner, scene}[src], parent: -1}}}).list()
		text += strings.Join(docs, "")
		cs.damage = fmt.Sprintf("%s contains an instance of %s", target.path, []*file19{inner, scene}[src].path)
	case 8:
		text = FreePick(c, "text", "\n", "---", "--- \n", "--- !u!1 &\nGameObject:\n", "--- !u!1 &5", "%TAG", "%TAG !u!\n--- !u!1 &5\n", "--- !\n", "--- !!\n", "a: b\n", "\x00\xff", "--- !u!1 &5 stripped\nGameObject:\n  m_Component:\n  -\n  - component:\n")
		cs.damage = fmt.Sprintf("%s is %q", target.path, text)
		text = strings.Replace(text, "--- !u!", intro19+"--- !u!", 1)
	}
	if k := c.Free("cycle", 5); k > 0 && len(cs.damage) == 0 { // prefabs that contain each other
		var fs []*file19
		for i := 0; i <= k; i++ {
			f := prefab19(strings.Repeat(fmt.Sprintf("6%x", 2+i), 16), fmt.Sprintf("Assets/Prefabs/c%d.prefab", i), i+1)
			f.base = int64(100000 + 3000000*i)
			fs = append(fs, f)
		}
		for i, f := range fs {
			f.insts = []*inst19{{src: fs[(i+1)%len(fs)], parent: 0}}
		}
		back := c.Free("back to", k+1)
		fs[k].insts[0].src = fs[back]
		scene.insts = append(scene.insts, &inst19{src: fs[0], parent: -1})
		cs.files = append(append([]*file19{inner}, fs...), scene)
		cs.raw[scene.path] = scene.text()
		cs.damage = fmt.Sprintf("prefabs 0 to %d contain each other, the last contains %d", k, back)
		return cs
	}
	if len(cs.damage) == 0 { // overrides of other things
		m := mod19{1, FreePick(c, "target", 1, 4, 23, 33, 108, 82), "", FreePick(c, "value", "1", "x", "", "1e99", "-1", "[]"), FreePick(c, "ref", "", mats19[0].guid)}
		m.path = FreePick(c, "path", "m_Name", "m_IsActive", "m_Enabled", "m_LocalPosition", "m_LocalPosition.q", "m_LocalPosition.x.y", "m_LocalRotation.w", "m_Materials", "m_Mesh", "m_Father", "m_Component", "m_Children", "m_Color.r", "m_Volume", "", ".", "m_GameObject")
		m.path += FreePick(c, "suffix", "", ".Array.data[0]", ".Array.data[9]", ".Array.data[-1]", ".Array.data[", ".Array.data[x]", ".Array.size")
		inner.nodes[1].noise = 1
		scene.insts[0].mods = []mod19{m}
		target, text = scene, scene.text()
		cs.damage = fmt.Sprintf("override %+v", m)
	}
	cs.raw[target.path] = text
	return cs
}

func init() {
	check := func(t *T, c any) { c.(*case19).check(t) }
	Register(&Property{ID: "C19", Level: "model_checking", Scenarios: []*Scenario{
		{Name: "hierarchy", Quick: 2, Thorough: 2, Gen: genHier19(3), Check: check, What: "every forest of three objects; documents in four orders, names, transforms, primitives, renderers, materials, lights, unknown components and dangling references"},
		{Name: "hierarchy-4", Quick: -1, Thorough: 2, Gen: genHier19(4), Check: check, What: "every forest of four objects"},
		{Name: "prefabs", Quick: 1, Thorough: 2, Gen: genPrefab19, Check: check, What: "instances at the root, below scene objects and below objects of other instances; nested prefabs; variants; overrides of names, activity, transforms, renderers and materials; two independent instances; overlapping ids"},
		{Name: "overrides", Quick: 0, Thorough: 1, Gen: genOverrides19, Check: check, What: "every ordered pair of overrides of one instance; instances of missing prefabs among others"},
		{Name: "deep-prefabs", Quick: 0, Thorough: 2, Gen: genDeep19, Check: check, What: "prefabs nested up to five levels, at every object"},
		{Name: "primitives", Quick: 0, Thorough: 2, Gen: genPrim19, Check: check, What: "pairs of built-in meshes with every material: closed surfaces looking outwards, of the right size, with scaled UVs; saved textures"},
		{Name: "models", Quick: 1, Thorough: 2, Gen: genFBX19, Check: check, What: "meshes of FBX files: selection by name, unit, renderer materials in order of use, UVs"},
		{Name: "sizes", Gen: genSizes19, Check: check, What: "children, depth, roots, instances, overrides, materials, names of n elements, n around every power of two, in four document orders"},
		{Name: "damage", Quick: 0, Thorough: 0, Gen: genDamage19, Check: check, What: "every document or line removed, emptied or replaced, every reference redirected, files that end early, prefabs that contain themselves"},
	}})
}
