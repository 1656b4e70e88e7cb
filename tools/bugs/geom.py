M4='geom/matrix4.go';E='geom/euler.go';U='geom/utils.go';V3='geom/vector3.go';QT='geom/quaternion.go'
bug('g01-detsign','C21',(M4,'	if mat.Det() < 0 {\n		scale.X = -scale.X','	if mat.Det() < -0.001 {\n		scale.X = -scale.X'))
bug('g02-trace0','C21',(M4,'if trace > 0 {','if trace > -0.9 {'))
bug('g03-m22','C21',(M4,'} else if m22 > m33 {','} else if m22 > m33 || m22 > m11 {'))
bug('g04-halfturn-sign','C21',(M4,'''			(m13 + m31) / Element(s),
			(m23 + m32) / Element(s),
			0.25 * Element(s),
			(m21 - m12) / Element(s),''','''			(m13 + m31) / Element(s),
			(m23 + m32) / Element(s),
			0.25 * Element(s),
			(m12 - m21) / Element(s),'''))
bug('g05-tinydet','C21',(M4,'	if det == 0 {\n		return r','	if Abs(det) < 1e-6 {\n		return r'))
bug('g06-gimbal','C21',(E,'			ret.X = 0\n			ret.Z = Element(math.Atan2(-m12, m22))','			ret.X = 0\n			ret.Z = Element(math.Atan2(m12, m22))'))
bug('g07-gimbal-neg','C21',(E,'''		if math.Abs(m32) < 1-eps {''','''		if m32 < 1-eps {'''))
bug('g08-eps','C21',(E,'const eps = 0.0000005','const eps = 0.0005'))
bug('g09-norm-inplace','C21',(QT,'func (v *Vector4) Scale(s Element) *Vector4 {\n	return &Vector4{X: v.X * s, Y: v.Y * s, Z: v.Z * s, W: v.W * s}','func (v *Vector4) Scale(s Element) *Vector4 {\n	if s == 1 {\n		return v\n	}\n	return &Vector4{X: v.X * s, Y: v.Y * s, Z: v.Z * s, W: v.W * s}'))
bug('g10-clone-ident','C21',(M4,'	r := *m\n	return &r','	return m'))
bug('g11-mulident','C21',(M4,'	r := &Matrix4{}\n\n	r[0] = a[0]*b[0]','	if *a == *NewMatrix4() {\n		return b\n	}\n	r := &Matrix4{}\n\n	r[0] = a[0]*b[0]'))
bug('g12-transscale','C21',(M4,'m[12] * s, m[13] * s, m[14] * s, m[15],','m[12] * s, m[13] * s, m[14] * s, m[15] * s,'))
bug('g13-tri-collinear','C22',(U,'const eps = 0.00001','const eps = 0'))
bug('g14-tri-edges','C22',(U,'	checkEdges := true','	checkEdges := len(poly) < 8'))
bug('g15-tri-convexfast','C22',(U,'	// O(N*N)...','''	convex := true
	for i := range poly {
		if poly[(i+1)%len(poly)].Sub(poly[i]).Cross(poly[(i+2)%len(poly)].Sub(poly[(i+1)%len(poly)])).Dot(n) > 0 && i < len(poly)-2 {
			convex = false
		}
	}
	if convex {
		for i := 0; i < len(poly)-2; i++ {
			dst = append(dst, [3]int{0, i + 1, i + 2})
		}
		return dst
	}
	// O(N*N)...'''))
bug('g16-tri-normal','C22',(U,'n = n.Add(v2.Sub(poly[0]).Cross(v1.Sub(poly[0])))','n = n.Add(v2.Cross(v1))'))
bug('g17-tri-dup','C22',(U,'	if *p == *a || *p == *b || *p == *c {\n		return false','	if *p == *a || *p == *c {\n		return false'))
bug('g18-tri-quad','C22',(U,'	n := &Vector3{}\n	ii :=','	if len(poly) == 4 && poly[2].Sub(poly[0]).LenSqr() < poly[3].Sub(poly[1]).LenSqr()/16 {\n		return [][3]int{{0, 1, 2}, {0, 2, 3}}\n	}\n	n := &Vector3{}\n	ii :='))
bug('g19-tri-order','C22',(U,'					dst = append(dst, [3]int{i0, i1, i2})\n','					if i0 > i2 && i0 > i1 {\n						i0, i1, i2 = i1, i2, i0\n					}\n					if count == 3 && i0 > i1 {\n						i0, i1 = i1, i0\n					}\n					dst = append(dst, [3]int{i0, i1, i2})\n'))
bug('g20-tri-first3','C22',(U,'if v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n) >= 0 {','if v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n) > 0 {'))
bug('g21-cross','C21 C22',(V3,'Len() Element {\n	return Element(math.Sqrt(float64(v.X*v.X + v.Y*v.Y + v.Z*v.Z)))','Len() Element {\n	return Element(math.Hypot(math.Hypot(float64(v.X), float64(v.Y)), math.Abs(float64(v.Z))/1))'))
bug('g22-normalize-neg','C21',(V3,'	} else {\n		v.X = 1\n	}','	} else {\n		v.Y = 1\n	}'))
bug('g23-qinv','C21',(QT,'return &Quaternion{X: -v.X, Y: -v.Y, Z: -v.Z, W: v.W}','return &Quaternion{X: v.X, Y: v.Y, Z: v.Z, W: -v.W}'))
bug('g24-euler-wrap','C21',(E,'	cx := math.Cos(float64(v.X / 2))','	if v.X > math.Pi {\n		v.X -= 2 * math.Pi\n	}\n	cx := math.Cos(float64(v.X / 2))'))
