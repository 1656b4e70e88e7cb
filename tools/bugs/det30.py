# C30: output made to depend on map iteration
c='converter/'
def g(i,f,a,b): bug('r%02d'%i,'C30',(f,a,b))
g(1,c+'glbanim.go','	sort.Strings(names)\n','')
g(2,c+'mqo2gltf.go','	sort.Strings(m.ExtensionsUsed)\n','	_ = sort.Strings\n')
g(3,c+'vrmconfig.go','			return result[i] < result[j]\n','			return false\n')
g(4,'mqo/mqo_writer.go','	sort.Strings(names)\n	for _, name := range names {','	for _, name := range names {') if False else None
g(5,c+'mmd2mqo.go','''	pmVerts := make([]int, len(vmap))
	for pmv, mqv := range vmap {
		pmVerts[mqv] = pmv
	}
	for mqv, pmv := range pmVerts {
''','''	for pmv, mqv := range vmap {
''')
g(6,c+'glbanim.go','		for _, name := range names {\n','		for name := range set {\n') if False else None
g(7,'mqo/bone_plugin.go','''	for i, o := range mqo.Objects {
		id := o.UID
		if id <= 0 {
			id = i + 1
		}
		if objs[id] {
			p.Obj = append(p.Obj, BoneObj{ID: id})
		}
	}
''','''	for id := range objs {
		p.Obj = append(p.Obj, BoneObj{ID: id})
	}
''')
g(8,c+'glbanim.go','for i := len(boneNodes) - 1; i >= 0; i-- {\n		b := bones[boneNodes[i]]\n		boneToNode[b.Name] = int(boneNodes[i])','for n, b := range bones {\n		boneToNode[b.Name] = int(n)')
g(9,'mqo/mqo_writer.go','''				sort.Strings(names)
''','')
g(10,'mqo/mqo_writer.go','''			sort.Strings(names)
			for _''','''			for _''')
