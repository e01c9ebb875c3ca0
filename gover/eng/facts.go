package eng

import (
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Dom is a set of bytes.
type Dom [4]uint64

// FullDom is the set of all bytes.
var FullDom = Dom{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (d Dom) Has(b int64) bool { return b >= 0 && b < 256 && d[b>>6]>>(uint(b)&63)&1 == 1 }
func (d *Dom) Set(b int64)     { d[b>>6] |= 1 << (uint(b) & 63) }
func (d Dom) And(e Dom) Dom {
	return Dom{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]}
}
func (d Dom) Or(e Dom) Dom {
	return Dom{d[0] | e[0], d[1] | e[1], d[2] | e[2], d[3] | e[3]}
}
func (d Dom) Empty() bool { return d == Dom{} }
func (d Dom) Min() int64 {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return int64(i*64 + bits.TrailingZeros64(d[i]))
		}
	}
	return 256
}
func (d Dom) Max() int64 {
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			return int64(i*64 + 63 - bits.LeadingZeros64(d[i]))
		}
	}
	return -1
}

// RangeDom is lo..hi.
func RangeDom(lo, hi int64) Dom {
	var d Dom
	for b := max(lo, 0); b <= hi && b < 256; b++ {
		d.Set(b)
	}
	return d
}

const inf = int64(1) << 60

// Facts is what is known on a path.
type Facts struct {
	nabs int // facts that a byte is absent
	nsum int // sums among the variables
	t    *TT
	dom  map[*Term]Dom
	lit  map[*Term]bool
	rep  map[*Term]*Term
	iset map[*Term][]int64 // finite sets of values
	vars []*Term
	idx  map[*Term]int
	m    []int64 // (n+1)x(n+1), v_i - v_j <= m[i][j]; index 0 is zero
	cap  int
	Bad  bool
	own  uint8 // which parts are not shared
}

const (
	ownDom = 1 << iota
	ownLit
	ownRep
	ownZone
)

// NewFacts returns no facts.
func NewFacts(t *TT) *Facts {
	return &Facts{t: t, dom: map[*Term]Dom{}, lit: map[*Term]bool{}, rep: map[*Term]*Term{}, idx: map[*Term]int{}, m: []int64{0}, cap: 1, own: 15}
}

// Clone shares everything until it is written.
func (f *Facts) Clone() *Facts {
	f.own = 0
	g := *f
	return &g
}

func (f *Facts) wDom() {
	if f.own&ownDom == 0 {
		n := make(map[*Term]Dom, len(f.dom)+4)
		for k, v := range f.dom {
			n[k] = v
		}
		f.dom = n
		f.own |= ownDom
	}
}

func (f *Facts) wLit() {
	if f.own&ownLit == 0 {
		n := make(map[*Term]bool, len(f.lit)+4)
		for k, v := range f.lit {
			n[k] = v
		}
		f.lit = n
		f.own |= ownLit
	}
}

// values returns the values a term may have, if they are known to be few.
func (f *Facts) values(x *Term) []int64 {
	x = f.canon(x)
	if k, ok := x.IsK(); ok {
		return []int64{k}
	}
	return f.iset[x]
}

func (f *Facts) setISet(x *Term, vs []int64) {
	n := make(map[*Term][]int64, len(f.iset)+1)
	for k, v := range f.iset {
		n[k] = v
	}
	n[x] = vs
	f.iset = n
	if len(vs) == 0 {
		f.Bad = true
		return
	}
	i := f.addVar(x)
	f.addDiff(i, 0, vs[len(vs)-1])
	f.addDiff(0, i, -vs[0])
}

func unionI(a, b []int64) []int64 {
	var r []int64
	for len(a) > 0 || len(b) > 0 {
		switch {
		case len(b) == 0 || len(a) > 0 && a[0] < b[0]:
			r = append(r, a[0])
			a = a[1:]
		case len(a) == 0 || b[0] < a[0]:
			r = append(r, b[0])
			b = b[1:]
		default:
			r = append(r, a[0])
			a, b = a[1:], b[1:]
		}
	}
	return r
}

func hasI(a []int64, k int64) bool {
	for _, x := range a {
		if x == k {
			return true
		}
	}
	return false
}

func (f *Facts) wRep() {
	if f.own&ownRep == 0 {
		n := make(map[*Term]*Term, len(f.rep)+4)
		for k, v := range f.rep {
			n[k] = v
		}
		f.rep = n
		f.own |= ownRep
	}
}

func (f *Facts) wZone() {
	if f.own&ownZone == 0 {
		ni := make(map[*Term]int, len(f.idx)+4)
		for k, v := range f.idx {
			ni[k] = v
		}
		f.idx = ni
		f.vars = append([]*Term(nil), f.vars...)
		f.m = append([]int64(nil), f.m...)
		f.own |= ownZone
	}
}

func isByteAt(a *Term) bool { return a.op == OAt && a.srt == SInt && a.args[0].srt == SStr }

// Dom of a byte atom.
func (f *Facts) Dom(a *Term) Dom {
	d, ok := f.dom[a]
	if !ok {
		d = FullDom
	}
	b := a.args[0]
	if c := f.t.Class[b]; c != nil {
		d = d.And(*c)
	}
	if f.nabs > 0 {
		for l, v := range f.lit {
			if !v || l.op != OUF || l.args[0] != b || !strings.HasPrefix(l.s, "absent:") {
				continue
			}
			if f.hiDiff(l.args[1], a.args[1]) <= 0 && f.hiDiff(a.args[1], l.args[2]) < 0 {
				k, _ := strconv.Atoi(l.s[len("absent:"):])
				d[k>>6] &^= 1 << (uint(k) & 63)
			}
		}
	}
	return d
}

// maxLen bounds every length (assumption: no object is larger than 2^50 bytes).
const maxLen = int64(1) << 50

func (f *Facts) natural(a *Term) (lo, hi int64) {
	switch a.op {
	case OAt:
		if isByteAt(a) {
			d := f.Dom(a)
			return d.Min(), d.Max()
		}
	case OMLen:
		for l, v := range f.lit {
			if v && l.op == OHas && l.args[0] == a.args[0] {
				return 1, maxLen
			}
		}
		return 0, maxLen
	case OLen:
		return 0, maxLen
	case OLin:
		return -inf, inf
	case OUF:
		switch {
		case len(a.s) > 4 && a.s[:4] == "mod:":
			return 0, a.k - 1
		}
	case OIte:
		l1, h1 := f.Bounds(a.args[1])
		l2, h2 := f.Bounds(a.args[2])
		return min(l1, l2), max(h1, h2)
	}
	return -inf, inf
}

func (f *Facts) at(i, j int) *int64 { return &f.m[i*f.cap+j] }

func (f *Facts) addVar(a *Term) int {
	if i, ok := f.idx[a]; ok {
		return i
	}
	f.wZone()
	n := len(f.vars) + 1
	if n+1 > f.cap {
		nc := f.cap*2 + 6
		nm := make([]int64, nc*nc)
		for i := 0; i < n; i++ {
			copy(nm[i*nc:i*nc+n], f.m[i*f.cap:i*f.cap+n])
		}
		f.m = nm
		f.cap = nc
	}
	f.vars = append(f.vars, a)
	f.idx[a] = n
	for i := 0; i < n; i++ {
		*f.at(i, n) = inf
		*f.at(n, i) = inf
	}
	*f.at(n, n) = 0
	lo, hi := f.natural(a)
	for i := 0; i < n; i++ {
		if hi < inf {
			if z := *f.at(0, i); z < inf {
				*f.at(n, i) = hi + z
			}
		}
		if lo > -inf {
			if z := *f.at(i, 0); z < inf {
				*f.at(i, n) = z - lo
			}
		}
	}
	return n
}

// addDiff adds v_i - v_j <= c and closes.
func (f *Facts) addDiff(i, j int, c int64) {
	if *f.at(i, j) <= c {
		return
	}
	if r := *f.at(j, i); r < inf && c+r < 0 {
		f.Bad = true
		return
	}
	f.wZone()
	n := len(f.vars) + 1
	for a := 0; a < n; a++ {
		x := *f.at(a, i)
		if x >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			y := *f.at(j, b)
			if y >= inf {
				continue
			}
			if z := x + c + y; z < *f.at(a, b) {
				*f.at(a, b) = z
			}
		}
	}
}

func (f *Facts) atomHi(a *Term) int64 {
	_, h := f.natural(a)
	if i, ok := f.idx[a]; ok {
		h = min(h, *f.at(i, 0))
	}
	return h
}

func (f *Facts) atomLo(a *Term) int64 {
	l, _ := f.natural(a)
	if i, ok := f.idx[a]; ok && *f.at(0, i) < inf {
		l = max(l, -*f.at(0, i))
	}
	return l
}

// sums splits a linear term into a difference of variables of the zone, of
// which one at least is the sum of two atoms.
func (f *Facts) sums(at []*Term, co []int64) (pos, neg *Term, ok bool) {
	var n [2]int
	if len(at) < 2 || len(at) > 4 {
		return
	}
	for i := range at {
		if co[i] != 1 && co[i] != -1 || isByteAt(at[i]) {
			return nil, nil, false
		}
		n[(1-co[i])/2]++
	}
	if n[0] > 2 || n[1] > 2 || n[0] < 2 && n[1] < 2 {
		return nil, nil, false
	}
	pos, neg = f.t.Zero, f.t.Zero
	for i := range at {
		if co[i] == 1 {
			pos = f.t.Add(pos, at[i])
		} else {
			neg = f.t.Add(neg, at[i])
		}
	}
	return pos, neg, true
}

// zvar is the index of a variable of the zone, 0 for zero.
func (f *Facts) zvar(x *Term) (int, bool) {
	if x == f.t.Zero {
		return 0, true
	}
	i, ok := f.idx[x]
	return i, ok
}

// addSum makes a variable of the zone of an atom or a sum of two.
func (f *Facts) addSum(x *Term) int {
	if x == f.t.Zero {
		return 0
	}
	if i, ok := f.idx[x]; ok && x.op != OLin {
		return i
	}
	i := f.addVar(x)
	if x.op != OLin {
		return i
	}
	f.nsum++
	_, at, _ := x.lin()
	for k, a := range at {
		b := at[1-k]
		j := f.addVar(a)
		if h := f.atomHi(b); h < 1<<30 {
			f.addDiff(i, j, h)
		}
		if l := f.atomLo(b); l > -1<<30 {
			f.addDiff(j, i, -l)
		}
	}
	return i
}

// exact is canon which also gives numbers for terms over more than two
// variables.
func (f *Facts) exact(x *Term) *Term {
	x = f.canon(x)
	if _, at, _ := x.lin(); len(at) > 2 {
		if k, ok := f.fixed(x, f.t.Zero); ok {
			return f.t.Int(k)
		}
	}
	return x
}

// refresh gives the sums among the variables what is now known of their terms.
func (f *Facts) refresh() *Facts {
	if f.nsum == 0 {
		return f
	}
	f = f.Clone()
	f.propagate()
	return f
}

// propagate does it in place.
func (f *Facts) propagate() {
	for i, x := range f.vars {
		if f.Bad {
			return
		}
		if x.op != OLin {
			continue
		}
		_, at, _ := x.lin()
		for k, a := range at {
			j, ok := f.idx[a]
			if !ok {
				continue
			}
			if h := f.atomHi(at[1-k]); h < 1<<30 {
				f.addDiff(i+1, j, h)
			}
			if l := f.atomLo(at[1-k]); l > -1<<30 {
				f.addDiff(j, i+1, -l)
			}
		}
	}
}

// hi returns an upper bound of a linear term.
func (f *Facts) hi(x *Term) int64 {
	if f.t.Deep {
		x = f.canon(x)
	}
	h := f.hi1(x)
	if f.nsum > 0 {
		k, at, co := x.lin()
		if len(at) == 1 && (co[0] == 1 || co[0] == -1) || len(at) == 2 && co[0]*co[1] == -1 {
			// the same with a further term on both sides
			pos, neg := f.t.Zero, f.t.Zero
			for i := range at {
				if co[i] == 1 {
					pos = at[i]
				} else {
					neg = at[i]
				}
			}
			for i, v := range f.vars {
				if v.op != OLin {
					continue
				}
				_, vs, _ := v.lin()
				for n, u := range vs {
					if w := vs[1-n]; w == pos {
						if j, ok := f.zvar(f.t.Add(neg, u)); ok {
							if d := *f.at(i+1, j); d < inf {
								h = min(h, k+d)
							}
						}
					} else if w == neg {
						if j, ok := f.zvar(f.t.Add(pos, u)); ok {
							if d := *f.at(j, i+1); d < inf {
								h = min(h, k+d)
							}
						}
					}
				}
			}
		}
		if pos, neg, ok := f.sums(at, co); ok {
			if i, ok := f.zvar(pos); ok {
				if j, ok := f.zvar(neg); ok {
					if d := *f.at(i, j); d < inf {
						h = min(h, k+d)
					}
				}
			}
		}
		if f.t.Deep && len(at) > 2 && h > 0 {
			h = min(h, f.hiSums(x))
		}
		if len(at) > 2 {
			// a variable which is equal to a sum
			for i, v := range f.vars {
				if v.op != OLin {
					continue
				}
				b, u := f.plain(i + 1)
				if b == nil {
					continue
				}
				for j, a := range at {
					if a != b {
						continue
					}
					y := f.t.AddK(f.t.LinComb(f.t.LinComb(x, -co[j], b), co[j], v), -u*co[j])
					if _, ya, _ := y.lin(); len(ya) < len(at) {
						if f.t.Deep {
							h = min(h, f.hi(y))
						} else {
							h = min(h, f.hi1(y))
						}
					}
				}
			}
		}
	}
	return h
}

// hiSums bounds a sum of three or four terms by way of the sums known.
func (f *Facts) hiSums(x *Term) int64 {
	k, at, co := x.lin()
	h := int64(inf)
	if len(at) == 4 {
		for i, a := range at {
			u := inf
			if co[i] == 1 {
				u = f.atomHi(a)
			} else if co[i] == -1 {
				u = -f.atomLo(a)
			}
			if u < 1<<55 {
				if l := f.hiSums(f.t.LinComb(x, -co[i], a)); l < inf {
					h = min(h, l+u)
				}
			}
		}
		return h
	}
	if len(at) != 3 {
		return h
	}
	for i, v := range f.vars {
		if v.op != OLin {
			continue
		}
		_, vs, _ := v.lin()
		for n := range vs {
			for m, a := range at {
				if a != vs[n] || co[m] != 1 && co[m] != -1 {
					continue
				}
				// a+z = v; the others are b, of the same sign, and c
				b, c := (m+1)%3, (m+2)%3
				if co[b] != co[m] {
					b, c = c, b
				}
				if co[b] != co[m] || co[c] != -co[m] {
					continue
				}
				j, ok := f.idx[at[c]]
				if !ok {
					continue
				}
				z := vs[1-n]
				var d, e int64
				if co[m] == 1 {
					d, e = *f.at(i+1, j), f.hi1(f.t.SubI(at[b], z))
				} else {
					d, e = *f.at(j, i+1), f.hi1(f.t.SubI(z, at[b]))
				}
				if d < inf && e < inf {
					h = min(h, k+d+e)
				}
			}
		}
	}
	return h
}

func (f *Facts) hi1(x *Term) int64 {
	k, at, co := x.lin()
	if len(at) == 0 {
		return k
	}
	if len(at) == 1 && co[0] == 1 {
		h := f.atomHi(at[0])
		if h >= inf {
			return inf
		}
		return k + h
	}
	// pair the atoms of opposite unit coefficients
	left := append([]int64(nil), co...)
	sum := k
	// a map which has a key is not empty
	for i, a := range at {
		if a.op != OMLen || left[i] >= 0 {
			continue
		}
		for j, b := range at {
			if b.op != OIte || b.args[0].op != OHas || b.args[0].args[0] != a.args[0] {
				continue
			}
			switch {
			case left[j] < 0 && b.args[1] == f.t.Zero && b.args[2] == f.t.One: // put
				c := min(-left[i], -left[j])
				sum -= c
				left[i] += c
				left[j] += c
			case left[j] > 0 && b.args[1] == f.t.One && b.args[2] == f.t.Zero: // del
				c := min(-left[i], left[j])
				left[i] += c
				left[j] -= c
			}
		}
	}
	for i := range at {
		if left[i] <= 0 {
			continue
		}
		vi, ok := f.idx[at[i]]
		if !ok {
			continue
		}
		for left[i] > 0 {
			best, bj := inf, -1
			for j := range at {
				if left[j] >= 0 {
					continue
				}
				vj, ok := f.idx[at[j]]
				if !ok {
					continue
				}
				if d := *f.at(vi, vj); d < inf {
					// worth only if better than the separate bounds
					s := inf
					if h, l := f.atomHi(at[i]), f.atomLo(at[j]); h < inf && l > -inf {
						s = h - l
					}
					if d <= s && (bj < 0 || d < best) {
						best, bj = d, j
					}
				}
			}
			if bj < 0 {
				break
			}
			c := min(left[i], -left[bj])
			sum += c * best
			left[i] -= c
			left[bj] += c
		}
	}
	for i := range at {
		switch {
		case left[i] > 0:
			h := f.atomHi(at[i])
			if h >= inf || h > inf/left[i] {
				return inf
			}
			sum += left[i] * h
		case left[i] < 0:
			l := f.atomLo(at[i])
			if l <= -inf || -l > inf/-left[i] {
				return inf
			}
			sum += left[i] * l
		}
	}
	if sum > inf {
		return inf
	}
	return sum
}

// Bounds of an int term.
func (f *Facts) Bounds(x *Term) (lo, hi int64) {
	hi = f.hi(x)
	lo = f.hi(f.t.MulK(x, -1))
	if lo >= inf {
		lo = -inf
	} else {
		lo = -lo
	}
	return
}

// canon rewrites an int term with the facts of the zone.
func (f *Facts) canon(x *Term) *Term {
	k, at, co := x.lin()
	if f.nsum > 0 && len(at) == 2 && co[0] == 1 && co[1] == 1 {
		if i, ok := f.idx[f.t.Add(at[0], at[1])]; ok {
			if b, u := f.plain(i); b != nil {
				return f.canon(f.t.AddK(b, u+k))
			}
		} else {
			// a sum of terms which are equal to those of a known one
			for i, s := range f.vars {
				if s.op != OLin {
					continue
				}
				b, u := f.plain(i + 1)
				if b == nil {
					continue
				}
				_, sat, _ := s.lin()
				for o := 0; o < 2; o++ {
					k0, ok0 := f.apart(at[0], sat[o])
					k1, ok1 := f.apart(at[1], sat[1-o])
					if ok0 && ok1 {
						return f.canon(f.t.AddK(b, u+k+k0+k1))
					}
				}
			}
		}
	}
	if f.t.Deep && len(at) > 1 {
		for i, v := range f.vars {
			if v.op != OLin {
				continue
			}
			if b, u := f.plain(i + 1); b != nil {
				d := f.t.AddK(f.t.SubI(v, b), -u) // nothing
				for _, y := range []*Term{f.t.Add(x, d), f.t.SubI(x, d)} {
					if _, ya, _ := y.lin(); len(ya) < len(at) {
						return f.canon(y)
					}
				}
			}
		}
	}
	r := x
	ch := false
	for i, a := range at {
		b := f.canonAtom(a)
		if b != a {
			if !ch {
				r = f.t.Int(k)
				for j := 0; j < i; j++ {
					r = f.t.LinComb(r, co[j], at[j])
				}
				ch = true
			}
			r = f.t.LinComb(r, co[i], b)
		} else if ch {
			r = f.t.LinComb(r, co[i], a)
		}
	}
	return r
}

// plain gives the variable which a sum among the variables is equal to, up to
// a number.
func (f *Facts) plain(i int) (*Term, int64) {
	for j, b := range f.vars {
		if u, l := *f.at(i, j+1), *f.at(j+1, i); b.op != OLin && u < inf && l < inf && u == -l {
			return b, u
		}
	}
	return nil, 0
}

// apart gives the difference between two variables, if it is known.
func (f *Facts) apart(a, b *Term) (int64, bool) {
	if a == b {
		return 0, true
	}
	i, ok := f.idx[a]
	j, ok2 := f.idx[b]
	if !ok || !ok2 {
		return 0, false
	}
	u, l := *f.at(i, j), *f.at(j, i)
	return u, u < inf && l < inf && u == -l
}

func (f *Facts) canonAtom(a *Term) *Term {
	if isByteAt(a) {
		if d := f.Dom(a); bits.OnesCount64(d[0])+bits.OnesCount64(d[1])+bits.OnesCount64(d[2])+bits.OnesCount64(d[3]) == 1 {
			return f.t.Int(d.Min())
		}
	}
	i, ok := f.idx[a]
	if !ok {
		return a
	}
	if u, l := *f.at(i, 0), *f.at(0, i); u < inf && l < inf && u == -l {
		return f.t.Int(u)
	}
	best := a
	var off int64
	for j, b := range f.vars {
		if b.id < best.id && b.op != OLin {
			if u, l := *f.at(i, j+1), *f.at(j+1, i); u < inf && l < inf && u == -l {
				best, off = b, u
			}
		}
	}
	if best == a {
		return a
	}
	return f.t.AddK(best, off)
}

// norm rewrites with the known equalities.
func (f *Facts) norm(a *Term) *Term {
	if len(f.rep) == 0 {
		return a
	}
	memo := map[*Term]*Term{}
	return f.t.Subst(a, func(x *Term) *Term {
		if r, ok := f.rep[x]; ok {
			return f.norm(r)
		}
		return nil
	}, memo)
}

// eval decides a boolean term. When it cannot, it returns an undecided atom.
func (f *Facts) eval(b *Term) (val bool, atom *Term) {
	switch b.op {
	case OTrue:
		return true, nil
	case OFalse:
		return false, nil
	case ONot:
		v, a := f.eval(b.args[0])
		return !v, a
	case OIte:
		c, a := f.eval(b.args[0])
		if a == nil {
			if c {
				return f.eval(b.args[1])
			}
			return f.eval(b.args[2])
		}
		// both branches may agree
		v1, a1 := f.eval(b.args[1])
		v2, a2 := f.eval(b.args[2])
		if a1 == nil && a2 == nil && v1 == v2 {
			return v1, nil
		}
		return false, a
	}
	if v, ok := f.lit[b]; ok {
		return v, nil
	}
	switch b.op {
	case OLe0:
		lo, hi := f.Bounds(b.args[0])
		if hi <= 0 {
			return true, nil
		}
		if lo > 0 {
			return false, nil
		}
	case OEq0:
		d := b.args[0]
		lo, hi := f.Bounds(d)
		if lo > 0 || hi < 0 {
			return false, nil
		}
		if lo == 0 && hi == 0 {
			return true, nil
		}
		if k, at, co := d.lin(); len(at) == 1 && (co[0] == 1 || co[0] == -1) {
			if vs, ok := f.iset[at[0]]; ok && !hasI(vs, -k*co[0]) {
				return false, nil
			}
			if !isByteAt(at[0]) {
				break
			}
			if !f.Dom(at[0]).Has(-k * co[0]) {
				return false, nil
			}
		}
	case OEq:
		return f.evalEq(b)
	case OHas:
		return f.evalHas(b)
	case OUF:
		if b.s == "incin" {
			for l, v := range f.lit {
				if v && l.op == OUF && l.s == "incin" && l.args[0] == b.args[0] && f.hiDiff(b.args[1], l.args[1]) <= 0 && f.hiDiff(l.args[2], b.args[2]) <= 0 {
					return true, nil
				}
			}
		}
	}
	if len(f.rep) > 0 {
		if n := f.norm(b); n != b {
			return f.eval(n)
		}
	}
	return false, b
}

func (f *Facts) evalHas(b *Term) (bool, *Term) {
	m, k := b.args[0], b.args[1]
	switch m.op {
	case OEmpty:
		return false, nil
	case OPut, ODel:
		eq := f.seqEq(k, m.args[1])
		v, a := f.eval(eq)
		if a == nil && v {
			return m.op == OPut, nil
		}
		known, ok := f.lit[b]
		if a != nil {
			if ok {
				return known, nil
			}
			return false, a
		}
		v, a = f.eval(f.t.has(m.args[0], k))
		if a != nil && ok {
			return known, nil
		}
		return v, a
	}
	if l, h := f.Bounds(f.mlen(m)); h <= 0 && l == 0 {
		return false, nil
	}
	if len(f.rep) > 0 {
		if n := f.norm(b); n != b {
			return f.eval(n)
		}
	}
	return false, b
}

// mlen is the number of keys of a map content.
func (f *Facts) mlen(m *Term) *Term {
	t := f.t
	switch m.op {
	case OEmpty:
		return t.Zero
	case OPut:
		return t.Add(f.mlen(m.args[0]), t.Ite(t.has(m.args[0], m.args[1]), t.Zero, t.One))
	case ODel:
		return t.SubI(f.mlen(m.args[0]), t.Ite(t.has(m.args[0], m.args[1]), t.One, t.Zero))
	}
	return t.mk(OMLen, SInt, 0, "", []*Term{m}, nil)
}

// seqEq is the equality of two non-int terms, simplified with the facts.
func (f *Facts) seqEq(a, b *Term) *Term {
	if upperNot(a, b) || upperNot(b, a) {
		return f.t.False
	}
	t := f.t
	if a == b {
		return t.True
	}
	if !a.srt.seq() {
		return t.Eq(a, b)
	}
	if a.srt != b.srt {
		panic("sorts")
	}
	d := t.SubI(t.Len(a), t.Len(b))
	lo, hi := f.Bounds(d)
	if lo > 0 || hi < 0 {
		return t.False
	}
	if a == t.Empty(a.srt) || b == t.Empty(b.srt) {
		return t.EqI(d, t.Zero)
	}
	// strip equal segments on both ends
	as, bs := a.segs(), b.segs()
	as, bs = append([]*Term(nil), as...), append([]*Term(nil), bs...)
	for len(as) > 0 && len(bs) > 0 {
		x, y := as[0], bs[0]
		if x == y || f.sameSeg(x, y) {
			as, bs = as[1:], bs[1:]
			continue
		}
		if x.op == OLit && y.op == OLit {
			n := min(len(x.s), len(y.s))
			if x.s[:n] != y.s[:n] {
				return t.False
			}
			if n < len(x.s) {
				as[0] = t.Lit(x.s[n:])
				bs = bs[1:]
				continue
			}
			if n < len(y.s) {
				bs[0] = t.Lit(y.s[n:])
				as = as[1:]
				continue
			}
		}
		// parts of the same atom with the same start
		b1, lo1, hi1 := t.asSub(x)
		b2, lo2, hi2 := t.asSub(y)
		if b1 == b2 && b1.op != OLit && f.isZero(t.SubI(lo1, lo2)) {
			if f.hi(t.SubI(hi1, hi2)) <= 0 {
				as = as[1:]
				bs[0] = t.rawSub(b1, hi1, hi2)
				if len(bs[0].segs()) == 0 {
					bs = bs[1:]
				}
				continue
			}
			if f.hi(t.SubI(hi2, hi1)) <= 0 {
				bs = bs[1:]
				as[0] = t.rawSub(b1, hi2, hi1)
				continue
			}
		}
		// a one byte segment against a literal
		if c := f.litByteEq(x, y); c != nil {
			v, at := f.eval(c)
			if at == nil {
				if !v {
					return t.False
				}
				nx, ny := f.dropByte(x), f.dropByte(y)
				as, bs = as[1:], bs[1:]
				if nx != nil {
					as = append([]*Term{nx}, as...)
				}
				if ny != nil {
					bs = append([]*Term{ny}, bs...)
				}
				continue
			}
			if lit := x.op == OLit && len(x.s) <= 16 || y.op == OLit && len(y.s) <= 16; lit && (len(as) == 1 || len(bs) == 1) && f.isZero(d) {
				nx, ny := f.dropByte(x), f.dropByte(y)
				as, bs = as[1:], bs[1:]
				if nx != nil {
					as = append([]*Term{nx}, as...)
				}
				if ny != nil {
					bs = append([]*Term{ny}, bs...)
				}
				return t.And(c, f.seqEq(t.Cat(a.srt, as...), t.Cat(a.srt, bs...)))
			}
		}
		break
	}
	for len(as) > 0 && len(bs) > 0 {
		x, y := as[len(as)-1], bs[len(bs)-1]
		if x == y || f.sameSeg(x, y) {
			as, bs = as[:len(as)-1], bs[:len(bs)-1]
			continue
		}
		break
	}
	a, b = t.Cat(a.srt, as...), t.Cat(a.srt, bs...)
	if a == b {
		return t.True
	}
	if a == t.Empty(a.srt) || b == t.Empty(b.srt) {
		return t.EqI(t.Len(a), t.Len(b))
	}
	if d2 := t.SubI(t.Len(a), t.Len(b)); d2 != d {
		if lo, hi := f.Bounds(d2); lo > 0 || hi < 0 {
			return t.False
		}
	}
	// literal against an atom of known length
	if a.op == OLit {
		a, b = b, a
	}
	if b.op == OLit && len(b.s) <= 64 && (a.op == OSub || a.op == OSym) {
		if f.isZero(t.SubI(t.Len(a), t.Int(int64(len(b.s))))) {
			ba, lo, _ := t.asSub(a)
			r := t.True
			for i := len(b.s) - 1; i >= 0; i-- {
				at := t.mk(OAt, SInt, 0, "", []*Term{ba, t.AddK(lo, int64(i))}, nil)
				r = t.And(t.EqI(at, t.Int(int64(b.s[i]))), r)
			}
			return r
		}
	}
	return t.Eq(a, b)
}

// litByteEq compares the first bytes of a literal and of a part of an atom
// known not to be empty.
func (f *Facts) litByteEq(x, y *Term) *Term {
	if x.op != OLit {
		x, y = y, x
	}
	if x.op != OLit || x.s == "" {
		return nil
	}
	switch y.op {
	case OUnit:
		return f.t.EqI(y.args[0], f.t.Int(int64(x.s[0])))
	case OSub, OSym:
		if lo, _ := f.Bounds(f.t.Len(y)); lo < 1 {
			return nil
		}
		b, l, _ := f.t.asSub(y)
		at := f.t.mk(OAt, SInt, 0, "", []*Term{b, l}, nil)
		return f.t.EqI(at, f.t.Int(int64(x.s[0])))
	}
	return nil
}

func (f *Facts) dropByte(x *Term) *Term {
	switch x.op {
	case OLit:
		if len(x.s) == 1 {
			return nil
		}
		return f.t.Lit(x.s[1:])
	case OUnit:
		return nil
	}
	b, l, h := f.t.asSub(x)
	l = f.t.AddK(l, 1)
	if f.isZero(f.t.SubI(l, h)) {
		return nil
	}
	return f.t.rawSub(b, l, h)
}

func (f *Facts) isZero(d *Term) bool {
	if k, ok := d.IsK(); ok {
		return k == 0
	}
	if lo, hi := f.Bounds(d); lo == 0 && hi == 0 {
		return true
	}
	v, a := f.eval2(f.t.EqI(d, f.t.Zero))
	return a == nil && v
}

func (f *Facts) eval2(b *Term) (bool, *Term) {
	if v, ok := f.lit[b]; ok {
		return v, nil
	}
	switch b {
	case f.t.True:
		return true, nil
	case f.t.False:
		return false, nil
	}
	return false, b
}

func hasItoa(x *Term) bool {
	if x.op == OCat {
		for _, a := range x.args {
			if a.op == OItoa {
				return true
			}
		}
	}
	return x.op == OItoa
}

// itoas simplifies the numbers written in a text.
func (f *Facts) itoas(x *Term) *Term {
	return f.t.Subst(x, func(y *Term) *Term {
		if y.op == OItoa {
			return f.t.Itoa(f.canon(y.args[0]))
		}
		return nil
	}, map[*Term]*Term{})
}

func (f *Facts) sameSeg(x, y *Term) bool {
	t := f.t
	if x.op == OItoa && y.op == OItoa || x.op == OUnit && y.op == OUnit && x.args[0].srt == SInt {
		return f.isZero(t.SubI(x.args[0], y.args[0]))
	}
	if x.op == OUF && y.op == OUF && x.s == y.s && len(x.args) == len(y.args) {
		for i := range x.args {
			if !f.same(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	}
	b1, lo1, hi1 := t.asSub(x)
	b2, lo2, hi2 := t.asSub(y)
	if b1 == b2 && (x.op == OSub || y.op == OSub) {
		return f.isZero(t.SubI(lo1, lo2)) && f.isZero(t.SubI(hi1, hi2))
	}
	return false
}

// same tells whether two terms are known to be equal.
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.srt != b.srt {
		return false
	}
	switch a.srt {
	case SInt:
		return f.isZero(f.t.SubI(a, b))
	case SBool:
		va, aa := f.eval(a)
		vb, ab := f.eval(b)
		if aa == nil && ab == nil {
			return va == vb
		}
		return false
	case SMap:
		if na, nb := f.norm(a), f.norm(b); na == nb {
			return true
		}
		if a.op == b.op && (a.op == OPut || a.op == ODel || a.op == OGet) {
			for i := range a.args {
				if !f.same(a.args[i], b.args[i]) {
					return false
				}
			}
			return true
		}
		v, at := f.eval(f.t.Eq(a, b))
		return at == nil && v
	}
	if a.op == b.op && a.op == OUF && a.s == b.s && len(a.args) == len(b.args) {
		ok := true
		for i := range a.args {
			if !f.same(a.args[i], b.args[i]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	v, at := f.eval(f.seqEq(a, b))
	return at == nil && v
}

// mapSimp drops the updates which change nothing.
func (f *Facts) mapSimp(m *Term) *Term {
	switch m.op {
	case OPut:
		c, v := f.mapSimp(m.args[0]), m.args[2]
		if v.srt == SMap {
			v = f.mapSimp(v)
		}
		if v.op == OGet && v.args[0] == c && v.args[1] == m.args[1] {
			if has, a := f.eval(f.t.has(c, m.args[1])); a == nil && has {
				return c
			}
		}
		return f.t.put(c, m.args[1], v)
	case ODel:
		c := f.mapSimp(m.args[0])
		if has, a := f.eval(f.t.has(c, m.args[1])); a == nil && !has {
			return c
		}
		return f.t.del(c, m.args[1])
	}
	return m
}

func (f *Facts) evalEq(b *Term) (bool, *Term) {
	x, y := b.args[0], b.args[1]
	if len(f.rep) > 0 {
		nx, ny := f.norm(x), f.norm(y)
		if nx == ny {
			return true, nil
		}
		x, y = nx, ny
	}
	if x.srt.seq() {
		if hasItoa(x) || hasItoa(y) {
			x, y = f.itoas(x), f.itoas(y)
		}
		n := f.seqEq(x, y)
		if n == b {
			return false, b
		}
		if n.op == OEq {
			if v, ok := f.lit[n]; ok {
				return v, nil
			}
			return false, n
		}
		return f.eval(n)
	}
	if x.srt == SMap {
		x, y = f.mapSimp(x), f.mapSimp(y)
		if x == y {
			return true, nil
		}
		if x.op == OPut && y.op == OPut && f.same(x, y) {
			return true, nil
		}
	}
	n := f.t.Eq(x, y)
	if n != b {
		if v, ok := f.lit[n]; ok {
			return v, nil
		}
		if n.op != OEq {
			return f.eval(n)
		}
	}
	return false, n
}

// Assume adds a fact.
func (f *Facts) Assume(b *Term, val bool) {
	if f.Bad {
		return
	}
	if val && b.op == OUF && strings.HasPrefix(b.s, "absent:") {
		f.nabs++
	}
	t := f.t
	switch b.op {
	case OTrue, OFalse:
		if (b.op == OTrue) != val {
			f.Bad = true
		}
		return
	case ONot:
		f.Assume(b.args[0], !val)
		return
	case OIte:
		// conjunctions
		if val && b.args[2] == t.False {
			f.Assume(b.args[0], true)
			f.Assume(b.args[1], true)
			return
		}
		if val && b.args[1] == t.False {
			f.Assume(b.args[0], false)
			f.Assume(b.args[2], true)
			return
		}
		if !val && b.args[1] == t.True {
			f.Assume(b.args[0], false)
			f.Assume(b.args[2], false)
			return
		}
		if c, a := f.eval(b.args[0]); a == nil {
			if c {
				f.Assume(b.args[1], val)
			} else {
				f.Assume(b.args[2], val)
			}
			return
		}
	}
	if v, a := f.eval(b); a == nil {
		if v != val {
			f.Bad = true
		} else if t.Deep && b.op == OLe0 {
			// what follows from sums may not be in the zone
			d := b.args[0]
			if !val {
				d = t.AddK(t.MulK(d, -1), 1)
			}
			f.assumeLe0(d)
		}
		return
	}
	switch b.op {
	case OLe0:
		d := b.args[0]
		if !val {
			d = t.AddK(t.MulK(d, -1), 1)
		}
		f.assumeLe0(d)
		f.wLit()
		f.lit[b] = val
		f.absents()
	case OEq0:
		f.assumeEq0(b.args[0], val)
		f.wLit()
		f.lit[b] = val
		f.absents()
	case OEq:
		x, y := f.norm(b.args[0]), f.norm(b.args[1])
		n := t.Eq(x, y)
		if x.srt.seq() {
			n = f.seqEq(x, y)
			if n.op != OEq {
				f.Assume(n, val)
				f.wLit()
				f.lit[b] = val
				return
			}
		}
		f.wLit()
		f.lit[b] = val
		f.lit[n] = val
		if val {
			x, y = n.args[0], n.args[1]
			if x.srt.seq() {
				f.Assume(t.EqI(t.Len(x), t.Len(y)), true)
				if f.Bad {
					return
				}
				// the length known, the bytes may be
				if m := f.seqEq(f.norm(x), f.norm(y)); m != n && m.op != OEq {
					f.Assume(m, true)
					return
				}
			}
			if x.op != OSym && y.op == OSym {
				x, y = y, x
			}
			// replace x by y
			if y.op == OSym && x.op == OSym && y.id > x.id {
				x, y = y, x
			}
			if (x.op == OSym || x.op == OGet || x.op == OUF || x.op == OSub) && !contains(y, x) {
				f.wRep()
				f.rep[x] = y
				f.renorm()
			}
		}
	case OHas:
		n := f.norm(b)
		f.wLit()
		f.lit[b] = val
		f.lit[n] = val
		if val && n.args[0].op != OPut && n.args[0].op != ODel {
			f.Assume(t.Le(t.One, f.mlen(n.args[0])), true)
		}
	default:
		f.wLit()
		f.lit[b] = val
	}
}

// renorm rewrites the literals after a new equality.
func (f *Facts) renorm() {
	f.wLit()
	type kv struct {
		k *Term
		v bool
	}
	var add []kv
	for _, k := range sortedTerms(f.lit) {
		if n := f.norm(k); n != k {
			add = append(add, kv{n, f.lit[k]})
		}
	}
	sort.Slice(add, func(i, j int) bool { return add[i].k.id < add[j].k.id })
	for _, a := range add {
		if a.k.op == OTrue || a.k.op == OFalse {
			if (a.k.op == OTrue) != a.v {
				f.Bad = true
			}
			continue
		}
		if v, ok := f.lit[a.k]; ok && v != a.v {
			f.Bad = true
		}
		f.lit[a.k] = a.v
		if a.k.op == OHas && a.v && a.k.args[0].op != OPut && a.k.args[0].op != ODel {
			f.Assume(f.t.Le(f.t.One, f.mlen(a.k.args[0])), true)
		}
	}
}

func contains(a, x *Term) bool {
	if a == x {
		return true
	}
	for _, b := range a.args {
		if contains(b, x) {
			return true
		}
	}
	return false
}

// absents checks the bytes against what is absent where they are.
func (f *Facts) absents() {
	if f.nabs == 0 || f.Bad {
		return
	}
	for a := range f.dom {
		if f.Dom(a).Empty() {
			f.Bad = true
			return
		}
	}
}

func (f *Facts) assumeLe0(d *Term) {
	k, at, co := d.lin()
	switch {
	case len(at) == 1 && isByteAt(at[0]):
		var keep Dom
		dm := f.Dom(at[0])
		for b := int64(0); b < 256; b++ {
			if dm.Has(b) && co[0]*b+k <= 0 {
				keep.Set(b)
			}
		}
		f.setDom(at[0], keep)
		if i, ok := f.idx[at[0]]; ok {
			f.addDiff(i, 0, keep.Max())
			f.addDiff(0, i, -keep.Min())
		}
	case len(at) == 1:
		i := f.addVar(at[0])
		if co[0] > 0 {
			f.addDiff(i, 0, floorDiv(-k, co[0]))
		} else {
			f.addDiff(0, i, floorDiv(-k, -co[0]))
		}
		// bounds which are excluded
		for !f.Bad {
			if u := *f.at(i, 0); u < inf {
				if v, ok := f.lit[f.t.EqI(at[0], f.t.Int(u))]; ok && !v {
					f.addDiff(i, 0, u-1)
					continue
				}
			}
			if l := *f.at(0, i); l < inf {
				if v, ok := f.lit[f.t.EqI(at[0], f.t.Int(-l))]; ok && !v {
					f.addDiff(0, i, l-1)
					continue
				}
			}
			if u, l := *f.at(i, 0), *f.at(0, i); u == -l {
				f.rekey()
			}
			break
		}
	case len(at) == 2 && co[0] == 1 && co[1] == -1:
		i, j := f.addVar(at[0]), f.addVar(at[1])
		f.addDiff(i, j, -k)
		f.known(at[0], at[1])
	case len(at) == 2 && co[0] == -1 && co[1] == 1:
		i, j := f.addVar(at[1]), f.addVar(at[0])
		f.addDiff(i, j, -k)
		f.known(at[1], at[0])
	default:
		if pos, neg, ok := f.sums(at, co); ok && len(at) > 2 {
			i, j := f.addSum(pos), f.addSum(neg)
			f.addDiff(i, j, -k)
			if f.Bad {
				return
			}
		}
		// bounds propagation: co_i a_i <= -k - min(rest)
		for i := range at {
			rest := f.t.LinComb(d, -co[i], at[i])
			lo, _ := f.Bounds(rest)
			if lo <= -inf {
				continue
			}
			if isByteAt(at[i]) {
				f.assumeLe0(f.t.AddK(f.t.MulK(at[i], co[i]), lo))
				continue
			}
			v := f.addVar(at[i])
			if co[i] > 0 {
				f.addDiff(v, 0, floorDiv(-lo, co[i]))
			} else {
				f.addDiff(0, v, floorDiv(-lo, -co[i]))
			}
		}
	}
}

// known adds the lower bound of a-b which follows from the sums.
func (f *Facts) known(a, b *Term) {
	if f.t.Deep && f.nsum > 0 && !f.Bad {
		if h := f.hi(f.t.SubI(b, a)); h < inf {
			f.addDiff(f.addVar(b), f.addVar(a), h)
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (f *Facts) setDom(a *Term, d Dom) {
	if d.Empty() {
		f.Bad = true
		return
	}
	if f.Dom(a) == d {
		return
	}
	f.wDom()
	f.dom[a] = d
}

func (f *Facts) assumeEq0(d *Term, val bool) {
	k, at, co := d.lin()
	if len(at) == 1 && isByteAt(at[0]) && (co[0] == 1 || co[0] == -1) {
		b := -k * co[0]
		dm := f.Dom(at[0])
		if val {
			var o Dom
			if dm.Has(b) {
				o.Set(b)
			}
			f.setDom(at[0], o)
			if i, ok := f.idx[at[0]]; ok && !f.Bad {
				f.addDiff(i, 0, b)
				f.addDiff(0, i, -b)
			}
		} else {
			if dm.Has(b) {
				dm[b>>6] &^= 1 << (uint(b) & 63)
			}
			f.setDom(at[0], dm)
		}
		return
	}
	if val {
		f.assumeLe0(d)
		if !f.Bad {
			f.assumeLe0(f.t.MulK(d, -1))
		}
		if !f.Bad {
			if f.nsum > 0 {
				f.propagate()
			}
			f.rekey()
		}
		return
	}
	if len(at) == 1 && (co[0] == 1 || co[0] == -1) {
		if vs, ok := f.iset[at[0]]; ok {
			b := -k * co[0]
			var n []int64
			for _, v := range vs {
				if v != b {
					n = append(n, v)
				}
			}
			f.setISet(at[0], n)
			return
		}
	}
	lo, hi := f.Bounds(d)
	if lo == 0 {
		f.assumeLe0(f.t.AddK(f.t.MulK(d, -1), 1))
	} else if hi == 0 {
		f.assumeLe0(f.t.AddK(d, 1))
	}
}

// rekey gives what is known of a byte to the same byte at its new index.
func (f *Facts) rekey() {
	type kv struct {
		k *Term
		d Dom
	}
	var add []kv
	for _, k := range sortedTerms(f.dom) {
		d := f.dom[k]
		if i := f.canon(k.args[1]); i != k.args[1] {
			add = append(add, kv{f.t.mk(OAt, SInt, 0, "", []*Term{k.args[0], i}, nil), d})
		}
	}
	sort.Slice(add, func(i, j int) bool { return add[i].k.id < add[j].k.id })
	for _, a := range add {
		f.setDom(a.k, a.d.And(f.Dom(a.k)))
	}
}

// constDiff tells whether x-y is a constant.
func constDiff(x, y *Term) (int64, bool) {
	kx, ax, cx := x.lin()
	ky, ay, cy := y.lin()
	if len(ax) != len(ay) {
		return 0, false
	}
	for i := range ax {
		if ax[i] != ay[i] || cx[i] != cy[i] {
			return 0, false
		}
	}
	return kx - ky, true
}

// hiDiff bounds x - y.
func (f *Facts) hiDiff(x, y *Term) int64 {
	kx, ax, cx := x.lin()
	ky, ay, cy := y.lin()
	if len(ax) <= 1 && len(ay) <= 1 && (len(ax) == 0 || cx[0] == 1) && (len(ay) == 0 || cy[0] == 1) {
		k := kx - ky
		switch {
		case len(ax) == 0 && len(ay) == 0:
			return k
		case len(ay) == 0:
			if h := f.atomHi(ax[0]); h < inf {
				return h + k
			}
			return inf
		case len(ax) == 0:
			if l := f.atomLo(ay[0]); l > -inf {
				return k - l
			}
			return inf
		case ax[0] == ay[0]:
			return k
		}
		r := inf
		if h, l := f.atomHi(ax[0]), f.atomLo(ay[0]); h < inf && l > -inf {
			r = h - l
		}
		if i, ok := f.idx[ax[0]]; ok {
			if j, ok := f.idx[ay[0]]; ok {
				r = min(r, *f.at(i, j))
			}
		}
		if r >= inf {
			return inf
		}
		return r + k
	}
	return f.hi(f.t.SubI(x, y))
}

// fixed gives the difference between two numbers, if it is known.
func (f *Facts) fixed(x, y *Term) (int64, bool) {
	h := f.hiDiff(x, y)
	if h >= inf || h <= -inf || f.hiDiff(y, x) != -h {
		return 0, false
	}
	return h, true
}

// sortedTerms makes the order of term creation independent of map iteration.
func sortedTerms[V any](m map[*Term]V) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
