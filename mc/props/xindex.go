package props

import "sort"

// xindex finds the entries whose first coordinate is close to a given one.
type xindex struct {
	l []struct {
		x  float64
		id int
	}
}

func (ix *xindex) add(p v3d, id int) {
	ix.l = append(ix.l, struct {
		x  float64
		id int
	}{p[0], id})
}

func (ix *xindex) sort() {
	sort.SliceStable(ix.l, func(i, j int) bool { return ix.l[i].x < ix.l[j].x })
}

// near lists the identifiers in increasing order, each once.
func (ix *xindex) near(p v3d, tol float64) (r []int) {
	for i := sort.Search(len(ix.l), func(i int) bool { return ix.l[i].x >= p[0]-2*tol }); i < len(ix.l) && ix.l[i].x <= p[0]+2*tol; i++ {
		r = append(r, ix.l[i].id)
	}
	sort.Ints(r)
	k := 0
	for i, x := range r {
		if i == 0 || x != r[k-1] {
			r[k] = x
			k++
		}
	}
	return r[:k]
}
