// Package eng is a deductive verifier for Go: symbolic execution of go/ssa
// between cut points, inductive invariants at every cut point, and proof
// obligations discharged by a decision procedure and by an SMT solver.
package eng

import (
	"fmt"
	"strings"
)

// Sort of a term.
type Sort uint8

const (
	SInt Sort = iota
	SBool
	SStr  // byte sequence (strings and contents of byte slices)
	SSeqI // sequence of integers
	SSeqS // sequence of strings
	SMap  // content of a map
	SOp   // opaque value
)

func (s Sort) String() string {
	return [...]string{"Int", "Bool", "Str", "SeqI", "SeqS", "Map", "Op"}[s]
}

func (s Sort) seq() bool { return s == SStr || s == SSeqI || s == SSeqS }

// Op of a term.
type Op uint8

const (
	OSym  Op = iota
	OLin     // k + sum co[i]*args[i]
	OAt      // args: seq atom, index
	OLen     // length of a seq atom
	OMLen    // number of keys of a map
	OUF      // uninterpreted function s(args)
	OIte     // args: cond, a, b
	OTrue
	OFalse
	ONot
	OLe0   // lin <= 0
	OEq0   // lin == 0
	OEq    // args a, b of any sort but int and bool
	OHas   // args: map, key
	OLit   // literal bytes s
	OCat   // concatenation
	OSub   // args: atom, lo, hi
	OUnit  // one element sequence
	OItoa  // decimal text of an int
	OEmpty // empty map
	OPut   // map, key, value
	ODel   // map, key
	OGet   // map, key: value
)

// Term is a hash-consed term.
type Term struct {
	id   int
	op   Op
	srt  Sort
	k    int64
	s    string
	args []*Term
	co   []int64
	self []*Term
}

// TT is a table of terms.
type TT struct {
	Deep bool // bound sums of more terms

	tab  map[string]*Term
	n    int
	nsym map[string]int
	True, False,
	Zero, One, EmptyStr, EmptySeqI, EmptySeqS, MEmpty *Term
	// class of the bytes of a symbol, by symbol
	Class map[*Term]*Dom
	// tags of symbols
	Tag map[*Term]string
}

// NewTT returns an empty table.
func NewTT() *TT {
	t := &TT{tab: map[string]*Term{}, nsym: map[string]int{}, Class: map[*Term]*Dom{}, Tag: map[*Term]string{}}
	t.True = t.mk(OTrue, SBool, 0, "", nil, nil)
	t.False = t.mk(OFalse, SBool, 0, "", nil, nil)
	t.Zero = t.Int(0)
	t.One = t.Int(1)
	t.EmptyStr = t.Lit("")
	t.EmptySeqI = t.mk(OCat, SSeqI, 0, "", nil, nil)
	t.EmptySeqS = t.mk(OCat, SSeqS, 0, "", nil, nil)
	t.MEmpty = t.mk(OEmpty, SMap, 0, "", nil, nil)
	return t
}

func (t *TT) mk(op Op, srt Sort, k int64, s string, args []*Term, co []int64) *Term {
	var buf [160]byte
	b := append(buf[:0], byte(op), byte(srt))
	b = app64(b, k)
	for i, a := range args {
		b = app64(b, int64(a.id))
		if co != nil {
			b = app64(b, co[i])
		}
	}
	b = append(b, '|')
	b = append(b, s...)
	if x, ok := t.tab[string(b)]; ok {
		return x
	}
	t.n++
	x := &Term{id: t.n, op: op, srt: srt, k: k, s: s, args: append([]*Term(nil), args...), co: append([]int64(nil), co...)}
	t.tab[string(b)] = x
	return x
}

func app64(b []byte, k int64) []byte {
	return append(b, byte(k), byte(k>>8), byte(k>>16), byte(k>>24), byte(k>>32), byte(k>>40), byte(k>>48), byte(k>>56))
}

// Sym returns the symbol with a name.
func (t *TT) Sym(srt Sort, name string) *Term { return t.mk(OSym, srt, 0, name, nil, nil) }

// Fresh returns a new symbol.
func (t *TT) Fresh(srt Sort, hint string) *Term {
	t.nsym[hint]++
	return t.Sym(srt, fmt.Sprintf("%s#%d", hint, t.nsym[hint]))
}

// Int returns a constant.
func (t *TT) Int(k int64) *Term { return t.mk(OLin, SInt, k, "", nil, nil) }

// IsK tells whether a is a constant integer.
func (a *Term) IsK() (int64, bool) {
	if a.op == OLin && len(a.args) == 0 {
		return a.k, true
	}
	return 0, false
}

// lin decomposes an int term.
func (a *Term) lin() (int64, []*Term, []int64) {
	if a.op == OLin {
		return a.k, a.args, a.co
	}
	if a.self == nil {
		a.self = []*Term{a}
	}
	return 0, a.self, one
}

var one = []int64{1}

// LinComb returns x + c*y.
func (t *TT) LinComb(x *Term, c int64, y *Term) *Term {
	if c == 0 {
		return x
	}
	kx, ax, cx := x.lin()
	ky, ay, cy := y.lin()
	if len(ay) == 0 {
		if ky == 0 {
			return x
		}
		if len(ax) == 1 && cx[0] == 1 && kx+c*ky == 0 {
			return ax[0]
		}
		return t.mk(OLin, SInt, kx+c*ky, "", ax, cx)
	}
	// the atoms are sorted by id
	var ab [8]*Term
	var cb [8]int64
	at, co := ab[:0], cb[:0]
	i, j := 0, 0
	for i < len(ax) || j < len(ay) {
		switch {
		case j == len(ay) || i < len(ax) && ax[i].id < ay[j].id:
			at, co = append(at, ax[i]), append(co, cx[i])
			i++
		case i == len(ax) || ay[j].id < ax[i].id:
			at, co = append(at, ay[j]), append(co, c*cy[j])
			j++
		default:
			if k := cx[i] + c*cy[j]; k != 0 {
				at, co = append(at, ax[i]), append(co, k)
			}
			i++
			j++
		}
	}
	k := kx + c*ky
	if k == 0 && len(at) == 1 && co[0] == 1 {
		return at[0]
	}
	if len(at) == 0 {
		return t.Int(k)
	}
	return t.mk(OLin, SInt, k, "", at, co)
}

func (t *TT) Add(x, y *Term) *Term        { return t.LinComb(x, 1, y) }
func (t *TT) SubI(x, y *Term) *Term       { return t.LinComb(x, -1, y) }
func (t *TT) AddK(x *Term, k int64) *Term { return t.LinComb(x, k, t.One) }
func (t *TT) MulK(x *Term, k int64) *Term { return t.LinComb(t.Zero, k, x) }
func (t *TT) UF(srt Sort, f string, args ...*Term) *Term {
	if f == "incin" {
		return t.incIn(args[0], args[1], args[2])
	}
	return t.mk(OUF, srt, 0, f, args, nil)
}

// incIn tells whether a sequence of numbers is strictly increasing, between lo
// and hi.
func (t *TT) incIn(s, lo, hi *Term) *Term {
	seg := s.segs()
	if len(seg) == 0 {
		return t.True
	}
	if x := seg[len(seg)-1]; x.op == OUnit {
		v := x.args[0]
		return t.And(t.incIn(t.Cat(s.srt, seg[:len(seg)-1]...), lo, v), t.And(t.Le(lo, v), t.Lt(v, hi)))
	}
	return t.mk(OUF, SBool, 0, "incin", []*Term{s, lo, hi}, nil)
}

// Bool constants.
func (t *TT) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

// Not negates.
func (t *TT) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return t.False
	case OFalse:
		return t.True
	case ONot:
		return a.args[0]
	}
	return t.mk(ONot, SBool, 0, "", []*Term{a}, nil)
}

// Le returns x <= y.
func (t *TT) Le(x, y *Term) *Term {
	d := t.SubI(x, y)
	if k, ok := d.IsK(); ok {
		return t.Bool(k <= 0)
	}
	// canonical form: the first coefficient is positive, else use the negation:
	// d <= 0 <=> not (-d+1 <= 0)
	_, _, co := d.lin()
	if co[0] < 0 {
		return t.Not(t.mk(OLe0, SBool, 0, "", []*Term{t.AddK(t.MulK(d, -1), 1)}, nil))
	}
	return t.mk(OLe0, SBool, 0, "", []*Term{d}, nil)
}

// Lt returns x < y.
func (t *TT) Lt(x, y *Term) *Term { return t.Le(t.AddK(x, 1), y) }

// EqI returns x == y for ints.
func (t *TT) EqI(x, y *Term) *Term {
	d := t.SubI(x, y)
	if k, ok := d.IsK(); ok {
		return t.Bool(k == 0)
	}
	_, _, co := d.lin()
	if co[0] < 0 {
		d = t.MulK(d, -1)
	}
	return t.mk(OEq0, SBool, 0, "", []*Term{d}, nil)
}

// EqB returns x == y for booleans.
func (t *TT) EqB(x, y *Term) *Term {
	if x == y {
		return t.True
	}
	switch {
	case x == t.True:
		return y
	case y == t.True:
		return x
	case x == t.False:
		return t.Not(y)
	case y == t.False:
		return t.Not(x)
	}
	if x == t.Not(y) {
		return t.False
	}
	return t.Ite(x, y, t.Not(y))
}

// Eq returns x == y for the remaining sorts.
func (t *TT) Eq(x, y *Term) *Term {
	if x == y {
		return t.True
	}
	switch x.srt {
	case SInt:
		return t.EqI(x, y)
	case SBool:
		return t.EqB(x, y)
	}
	if x.op == OLit && y.op == OLit {
		return t.Bool(x.s == y.s)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(OEq, SBool, 0, "", []*Term{x, y}, nil)
}

// Ite returns a conditional term.
func (t *TT) Ite(c, a, b *Term) *Term {
	switch {
	case c == t.True || a == b:
		return a
	case c == t.False:
		return b
	case c.op == ONot:
		return t.Ite(c.args[0], b, a)
	case a == t.True && b == t.False:
		return c
	case a == t.False && b == t.True:
		return t.Not(c)
	}
	return t.mk(OIte, a.srt, 0, "", []*Term{c, a, b}, nil)
}

// And, Or via Ite.
func (t *TT) And(a, b *Term) *Term { return t.Ite(a, b, t.False) }
func (t *TT) Or(a, b *Term) *Term  { return t.Ite(a, t.True, b) }

// Lit is a literal byte string.
func (t *TT) Lit(s string) *Term { return t.mk(OLit, SStr, 0, s, nil, nil) }

// segs returns the segments of a sequence.
func (a *Term) segs() []*Term {
	if a.op == OCat {
		return a.args
	}
	if a.op == OLit && a.s == "" {
		return nil
	}
	return []*Term{a}
}

// Unit is a sequence of one element.
func (t *TT) Unit(srt Sort, x *Term) *Term {
	if srt == SStr {
		if k, ok := x.IsK(); ok {
			return t.Lit(string([]byte{byte(k)}))
		}
	}
	if x.op == OAt && x.args[0].srt == srt && x.args[0].op != OLit {
		return t.mk(OSub, srt, 0, "", []*Term{x.args[0], x.args[1], t.AddK(x.args[1], 1)}, nil)
	}
	return t.mk(OUnit, srt, 0, "", []*Term{x}, nil)
}

// rawSub builds a segment of an atom without any check but syntactic ones.
func (t *TT) rawSub(b, lo, hi *Term) *Term {
	if lo == hi {
		return t.Empty(b.srt)
	}
	if k, ok := lo.IsK(); ok && k == 0 && hi == t.atomLen(b) {
		return b
	}
	return t.mk(OSub, b.srt, 0, "", []*Term{b, lo, hi}, nil)
}

// Empty returns the empty sequence of a sort.
func (t *TT) Empty(srt Sort) *Term {
	switch srt {
	case SStr:
		return t.EmptyStr
	case SSeqI:
		return t.EmptySeqI
	}
	return t.EmptySeqS
}

func (t *TT) atomLen(b *Term) *Term {
	switch b.op {
	case OLit:
		return t.Int(int64(len(b.s)))
	case OUnit:
		return t.One
	}
	return t.mk(OLen, SInt, 0, "", []*Term{b}, nil)
}

// Len is the length of a sequence.
func (t *TT) Len(a *Term) *Term {
	switch a.op {
	case OLit:
		return t.Int(int64(len(a.s)))
	case OUnit:
		return t.One
	case OSub:
		return t.SubI(a.args[2], a.args[1])
	case OCat:
		r := t.Zero
		for _, x := range a.args {
			r = t.Add(r, t.Len(x))
		}
		return r
	}
	return t.atomLen(a)
}

// asSub views a segment as a part of an atom.
func (t *TT) asSub(a *Term) (b, lo, hi *Term) {
	if a.op == OSub {
		return a.args[0], a.args[1], a.args[2]
	}
	return a, t.Zero, t.atomLen(a)
}

// Cat concatenates.
func (t *TT) Cat(srt Sort, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, s := range p.segs() {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.op == OLit && s.op == OLit {
					out[n-1] = t.Lit(l.s + s.s)
					continue
				}
				if l.op == OSub || s.op == OSub {
					b1, lo1, hi1 := t.asSub(l)
					b2, lo2, hi2 := t.asSub(s)
					if b1 == b2 && hi1 == lo2 {
						out[n-1] = t.rawSub(b1, lo1, hi2)
						continue
					}
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return t.Empty(srt)
	}
	if len(out) == 1 {
		return out[0]
	}
	return t.mk(OCat, srt, 0, "", out, nil)
}

// Itoa is the decimal text of an integer.
func (t *TT) Itoa(x *Term) *Term {
	if k, ok := x.IsK(); ok {
		return t.Lit(fmt.Sprint(k))
	}
	return t.mk(OItoa, SStr, 0, "", []*Term{x}, nil)
}

// map constructors, syntactic only.
func (t *TT) put(m, k, v *Term) *Term { return t.mk(OPut, SMap, 0, "", []*Term{m, k, v}, nil) }
func (t *TT) del(m, k *Term) *Term    { return t.mk(ODel, SMap, 0, "", []*Term{m, k}, nil) }
func (t *TT) has(m, k *Term) *Term    { return t.mk(OHas, SBool, 0, "", []*Term{m, k}, nil) }
func (t *TT) get(s Sort, m, k *Term) *Term {
	return t.mk(OGet, s, 0, "", []*Term{m, k}, nil)
}

// Subst replaces symbols (and other atoms) by terms.
func (t *TT) Subst(a *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[a]; ok {
		return r
	}
	if r := f(a); r != nil {
		memo[a] = r
		return r
	}
	if len(a.args) == 0 {
		return a
	}
	na := make([]*Term, len(a.args))
	ch := false
	for i, x := range a.args {
		na[i] = t.Subst(x, f, memo)
		if na[i] != x {
			ch = true
		}
	}
	r := a
	if ch {
		r = t.rebuild(a, na)
	}
	memo[a] = r
	return r
}

func (t *TT) rebuild(a *Term, na []*Term) *Term {
	switch a.op {
	case OLin:
		r := t.Int(a.k)
		for i, x := range na {
			r = t.LinComb(r, a.co[i], x)
		}
		return r
	case OLen:
		return t.Len(na[0])
	case ONot:
		return t.Not(na[0])
	case OLe0:
		return t.Le(na[0], t.Zero)
	case OEq0:
		return t.EqI(na[0], t.Zero)
	case OEq:
		return t.Eq(na[0], na[1])
	case OIte:
		return t.Ite(na[0], na[1], na[2])
	case OCat:
		return t.Cat(a.srt, na...)
	case OSub:
		b, lo, hi := na[0], na[1], na[2]
		if b.op == OLit {
			if l, ok := lo.IsK(); ok {
				if h, ok := hi.IsK(); ok && 0 <= l && l <= h && h <= int64(len(b.s)) {
					return t.Lit(b.s[l:h])
				}
			}
		}
		if b.op == OSub {
			return t.rawSub(b.args[0], t.Add(b.args[1], lo), t.Add(b.args[1], hi))
		}
		return t.rawSub(b, lo, hi)
	case OAt:
		b, i := na[0], na[1]
		if b.op == OSub {
			return t.mk(OAt, a.srt, 0, "", []*Term{b.args[0], t.Add(b.args[1], i)}, nil)
		}
		if b.op == OLit {
			if k, ok := i.IsK(); ok && k >= 0 && k < int64(len(b.s)) {
				return t.Int(int64(b.s[k]))
			}
		}
	case OUnit:
		return t.Unit(a.srt, na[0])
	case OUF:
		if a.s == "incin" {
			return t.incIn(na[0], na[1], na[2])
		}
	case OItoa:
		return t.Itoa(na[0])
	}
	return t.mk(a.op, a.srt, a.k, a.s, na, a.co)
}

func (a *Term) String() string {
	var sb strings.Builder
	a.str(&sb, 0)
	return sb.String()
}

func (a *Term) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("…")
		return
	}
	list := func(open, sep, close string) {
		sb.WriteString(open)
		for i, x := range a.args {
			if i > 0 {
				sb.WriteString(sep)
			}
			x.str(sb, d+1)
		}
		sb.WriteString(close)
	}
	switch a.op {
	case OSym:
		sb.WriteString(a.s)
	case OLin:
		first := true
		for i, x := range a.args {
			if a.co[i] != 1 {
				fmt.Fprintf(sb, "%+d*", a.co[i])
			} else if !first {
				sb.WriteString("+")
			}
			first = false
			x.str(sb, d+1)
		}
		if a.k != 0 || first {
			if first {
				fmt.Fprintf(sb, "%d", a.k)
			} else {
				fmt.Fprintf(sb, "%+d", a.k)
			}
		}
	case OAt:
		a.args[0].str(sb, d+1)
		sb.WriteString("[")
		a.args[1].str(sb, d+1)
		sb.WriteString("]")
	case OSub:
		a.args[0].str(sb, d+1)
		sb.WriteString("[")
		a.args[1].str(sb, d+1)
		sb.WriteString(":")
		a.args[2].str(sb, d+1)
		sb.WriteString("]")
	case OLit:
		s := a.s
		if len(s) > 40 {
			s = s[:40] + "…"
		}
		fmt.Fprintf(sb, "%q", s)
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case ONot:
		list("!(", ",", ")")
	case OLe0:
		list("(", "", "<=0)")
	case OEq0:
		list("(", "", "==0)")
	case OEq:
		list("(", "==", ")")
	case OCat:
		list("cat(", "+", ")")
	case OUF:
		list(a.s+"(", ",", ")")
	default:
		n := map[Op]string{OLen: "len", OMLen: "mlen", OIte: "ite", OHas: "has", OUnit: "unit", OItoa: "itoa", OEmpty: "empty", OPut: "put", ODel: "del", OGet: "get"}[a.op]
		list(n+"(", ",", ")")
	}
}
