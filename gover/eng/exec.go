package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// forkReq is raised by an instruction that needs the value of an atom. The
// instruction is executed again on both sides.
type forkReq struct{ atom *Term }

// endPath is raised when a path is over (infeasible, panicked).
type endPath struct{ why string }

// Eng is one proof context.
type Eng struct {
	deadline time.Time
	Unroll   bool // no cut points: every loop is unrolled to its end
	Pairs    bool // look for differences of any two numbers in the states joined
	p        *Prog
	t        *TT
	base     map[int]*Obj // globals after initialization
	gaddr    map[*ssa.Global]int
	nbase    int

	cuts    map[string]*Cut
	order   []*Cut
	queue   []*Cut
	verify  bool
	initing bool

	Obl        map[string]*Obligation
	Unsup      []string
	Steps      int64
	Paths      int64
	Funcs      map[string]bool // functions executed
	Assumed    map[string]bool // contracts used
	smt        *SMT
	MaxStep    int64
	Forks      map[string]int // choices by place, for -stats
	Reached    map[string]int
	Verbose    bool
	fresh      int
	stop       error
	harness    string
	edges      []*edge
	optErr     types.Type
	ghostTypes map[string]types.Type
	Opaque     map[string]bool          // specification functions kept uninterpreted
	Ctl        map[string]bool          // fields of other modules whose constants are kept apart at cut points
	Contracts  map[string]*ssa.Function // what a function of the repository is replaced with
	Used       map[string]bool          // contracts of the repository relied on
	Trace      string
	Watch      int
	DumpZone   bool
	MaxFail    int
}

// Obligation aggregates the checks made for an assertion.
type Obligation struct {
	ID       string
	N        int // instances
	Simpl    int // decided by the simplifier
	SMT      int // decided by the SMT solver
	Failures []Failure
}

// Failure of an obligation.
type Failure struct {
	ID    string
	Where string
	Trail string
	Goal  string
	Model string
	Cut   string
}

// New makes a proof context.
func New(p *Prog) *Eng {
	e := &Eng{p: p, t: NewTT(), base: map[int]*Obj{}, gaddr: map[*ssa.Global]int{}, cuts: map[string]*Cut{}, Obl: map[string]*Obligation{}, Funcs: map[string]bool{}, Assumed: map[string]bool{}, Reached: map[string]int{}, Opaque: map[string]bool{}, Contracts: map[string]*ssa.Function{}, Used: map[string]bool{}, MaxStep: 200_000_000, MaxFail: 5}
	return e
}

func (e *Eng) errType() types.Type {
	if e.optErr == nil {
		// a stand-in for the dynamic type of errors made by libraries
		e.optErr = types.NewNamed(types.NewTypeName(token.NoPos, nil, "libraryError", nil), types.NewStruct(nil, nil), nil)
	}
	return e.optErr
}

// mkErr makes an error value from its text.
func (e *Eng) mkErr(text *Term) IfaceV { return IfaceV{T: e.errType(), V: text} }

func (s *State) decide(c *Term) bool {
	v, a := s.f.eval(c)
	if a != nil {
		panic(forkReq{a})
	}
	return v
}

// must adds an obligation of memory safety and goes on assuming it.
func (s *State) must(id string, c *Term) {
	s.e.oblige(s, id, c)
	s.f.Assume(c, true)
	if s.f.Bad {
		panic(endPath{"failed " + id})
	}
}

func (e *Eng) oblige(s *State, id string, c *Term) {
	if e.initing {
		if v, a := s.f.eval(c); a != nil || !v {
			panic(unsupported("initialization: cannot establish %s", id))
		}
		return
	}
	if !e.verify {
		return
	}
	o := e.Obl[id]
	if o == nil {
		o = &Obligation{ID: id}
		e.Obl[id] = o
	}
	o.N++
	v, a := s.f.eval(c)
	if a == nil && v {
		o.Simpl++
		return
	}
	if len(o.Failures) < e.MaxFail {
		var model string
		if a != nil && e.smt != nil {
			ok, m := e.smt.Prove(s.f, c)
			if ok {
				o.SMT++
				return
			}
			model = m
		}
		o.Failures = append(o.Failures, Failure{ID: id, Where: s.where(), Trail: s.trailText(), Goal: c.String(), Model: model, Cut: s.from.name()})
	} else {
		o.Failures = append(o.Failures, Failure{ID: id})
	}
}

func (s *State) where() string {
	var w []string
	for i := len(s.fr) - 1; i >= 0; i-- {
		f := s.fr[i]
		pos := ""
		for k := min(f.ip, len(f.blk.Instrs)-1); k >= 0; k-- {
			if p := f.blk.Instrs[k].Pos(); p.IsValid() {
				q := s.e.p.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", shortFile(q.Filename), q.Line)
				break
			}
		}
		w = append(w, fmt.Sprintf("%s (%s b%d)", f.fn.Name(), pos, f.blk.Index))
	}
	return strings.Join(w, " < ")
}

func shortFile(f string) string {
	p := strings.Split(f, "/")
	if len(p) > 2 {
		p = p[len(p)-2:]
	}
	return strings.Join(p, "/")
}

func (s *State) trailText() string {
	var w []string
	for _, x := range s.trailT {
		t := x.atom.String()
		if !x.val {
			t = "!" + t
		}
		w = append(w, t)
	}
	if len(w) > 30 {
		w = w[len(w)-30:]
	}
	return strings.Join(w, " & ")
}

// value of an SSA operand.
func (s *State) val(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return s.e.constVal(x)
	case *ssa.Global:
		return PtrV{Obj: s.e.global(x)}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{B: x}
	case *ssa.FreeVar:
		fr := s.top()
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	}
	r, ok := s.top().regs[v]
	if !ok {
		panic(unsupported("no value for %s in %s", v.Name(), s.top().fn))
	}
	return r
}

func (e *Eng) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.t.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return e.t.Lit(constant.StringVal(c.Value))
	case constant.Int:
		if k, ok := constant.Int64Val(c.Value); ok {
			return e.t.Int(k)
		}
	}
	return e.t.UF(SOp, "const:"+c.Value.ExactString())
}

func (e *Eng) global(g *ssa.Global) int {
	if id, ok := e.gaddr[g]; ok {
		return id
	}
	e.nbase--
	o := &Obj{ID: e.nbase, Kind: KCell, Typ: g.Type().Underlying().(*types.Pointer).Elem(), Site: g.String()}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), e.p.Spec) {
		o.Frame = "global " + g.String()
	}
	inSrc := g.Pkg != nil && e.p.inSource(g.Pkg.Pkg.Path())
	if inSrc {
		o.Val = e.zero(o.Typ)
	} else {
		o.Val = e.libGlobal(g)
	}
	e.base[o.ID] = o
	e.gaddr[g] = o.ID
	return o.ID
}

func (e *Eng) libGlobal(g *ssa.Global) Value {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Interface); ok {
		texts := map[string]string{"io.EOF": "EOF", "io.ErrUnexpectedEOF": "unexpected EOF"}
		if x, ok := texts[name]; ok {
			return e.mkErr(e.t.Lit(x))
		}
		return e.mkErr(e.t.UF(SStr, "text:"+name))
	}
	if p, ok := t.(*types.Pointer); ok && e.isOpaque(p.Elem()) {
		return e.t.UF(SOp, name)
	}
	return e.zero(t)
}

// load through a pointer.
func (s *State) load(p PtrV) Value {
	o := s.deref(p)
	if o.Kind == KSeq {
		panic(unsupported("load of a whole backing"))
	}
	return pathGet(o.Val, p.Path)
}

// elemPtr is a pointer to an element of a scalar backing: encoded in a PtrV
// whose Path starts with the marker byte 0xFF and NilC holds the index.
const elemMark = "\xff\xff"

func (s *State) deref(p PtrV) *Obj {
	if p.Obj == 0 {
		s.must("nil", s.e.t.False)
	}
	if p.NilC != nil && p.Path != elemMark {
		s.must("nil", s.e.t.Not(p.NilC))
	}
	return s.obj(p.Obj)
}

func (s *State) frameCheck(o *Obj) {
	if o.Frame == "" && s.e.verify && !s.e.initing && !s.inSpec(s.top().fn) {
		s.e.oblige(s, "frame", s.e.t.True)
	}
	if o.Frame != "" && !s.e.initing {
		s.e.oblige(s, "frame: writes "+o.Frame, s.e.t.False)
	}
}

func (s *State) store(p PtrV, v Value) {
	o := s.deref(p)
	s.frameCheck(o)
	if o.Kind == KSeq {
		panic(unsupported("store into a backing"))
	}
	n := *o
	n.Val = pathSet(o.Val, p.Path, v)
	if o.ID < 0 {
		if s.e.initing {
			s.e.base[o.ID] = &n
			return
		}
		// a global written outside of initialization: it is a violation of the
		// frame, reported above; keep going with the new value in the state.
	}
	s.setObj(&n)
}

// seqElem reads an element of a sequence.
func (s *State) seqAt(c *Term, i *Term) *Term {
	t := s.e.t
	i = s.f.canon(i)
	esrt := SInt
	if c.srt == SSeqS {
		esrt = SStr
	}
	segs := c.segs()
	if len(segs) > 1 {
		for n, g := range segs {
			l := t.Len(g)
			if n == len(segs)-1 || s.decide(t.Lt(i, l)) {
				return s.seqAt(g, i)
			}
			i = s.f.canon(t.SubI(i, l))
		}
	}
	switch c.op {
	case OLit:
		if k, ok := i.IsK(); ok && k >= 0 && k < int64(len(c.s)) {
			return t.Int(int64(c.s[k]))
		}
		return t.mk(OAt, SInt, 0, "", []*Term{c, i}, nil)
	case OUnit:
		return c.args[0]
	case OSub:
		return s.e.rangeAt(t.mk(OAt, esrt, 0, "", []*Term{c.args[0], s.f.canon(t.Add(c.args[1], i))}, nil))
	}
	return s.e.rangeAt(t.mk(OAt, esrt, 0, "", []*Term{c, i}, nil))
}

func (e *Eng) rangeAt(a *Term) *Term { return a }

// seqSub is c[lo:hi]; the bounds are known to be correct.
func (s *State) seqSub(c *Term, lo, hi *Term) *Term {
	t := s.e.t
	lo, hi = s.f.canon(lo), s.f.canon(hi)
	if lo == hi {
		return t.Empty(c.srt)
	}
	if k, ok := lo.IsK(); ok && k == 0 && s.f.isZero(t.SubI(hi, t.Len(c))) {
		return c
	}
	segs := c.segs()
	if len(segs) > 1 {
		var out []*Term
		for n, g := range segs {
			l := t.Len(g)
			last := n == len(segs)-1
			// [lo,hi) within g: from min(lo,l) to min(hi,l)
			var a, b *Term
			if s.within(lo, l) {
				a = lo
			} else {
				a = l
			}
			if last || s.within(hi, l) {
				b = hi
			} else {
				b = l
			}
			if a != b {
				out = append(out, s.seqSub(g, a, b))
			}
			if b == hi {
				break
			}
			if a == l {
				lo = s.f.canon(t.SubI(lo, l))
			} else {
				lo = t.Zero
			}
			hi = s.f.canon(t.SubI(hi, l))
		}
		return t.Cat(c.srt, out...)
	}
	switch c.op {
	case OLit:
		if a, ok := lo.IsK(); ok {
			if b, ok := hi.IsK(); ok {
				return t.Lit(c.s[a:b])
			}
		}
	case OUnit:
		if s.f.isZero(t.SubI(hi, lo)) {
			return t.Empty(c.srt)
		}
		return c
	case OSub:
		return t.rawSub(c.args[0], s.f.canon(t.Add(c.args[1], lo)), s.f.canon(t.Add(c.args[1], hi)))
	case OCat:
		return c
	}
	return t.rawSub(c, lo, hi)
}

// within tells whether x is at most l; when it is known to be at least l the
// answer does not matter, and no choice is made.
func (s *State) within(x, l *Term) bool {
	t := s.e.t
	c := t.Le(x, l)
	if _, at := s.f.eval(c); at != nil {
		if v, at := s.f.eval(t.Le(l, x)); at == nil && v {
			return false
		}
	}
	return s.decide(c)
}

func (s *State) cat(srt Sort, parts ...*Term) *Term {
	t := s.e.t
	var out []*Term
	for _, p := range parts {
		for _, x := range p.segs() {
			if n := len(out); n > 0 && (out[n-1].op == OSub || x.op == OSub) {
				b1, _, hi1 := t.asSub(out[n-1])
				b2, lo2, _ := t.asSub(x)
				if b1 == b2 && hi1 != lo2 && s.f.isZero(t.SubI(hi1, lo2)) {
					_, lo1, _ := t.asSub(out[n-1])
					_, _, hi2 := t.asSub(x)
					out[n-1] = t.rawSub(b1, lo1, hi2)
					continue
				}
			}
			out = append(out, x)
		}
	}
	return t.Cat(srt, out...)
}

// sliceSeq returns the content of a slice of scalars.
func (s *State) sliceSeq(v SliceV, srt Sort) *Term {
	if v.Obj == 0 {
		return s.e.t.Empty(srt)
	}
	o := s.obj(v.Obj)
	if o.Kind != KSeq {
		// concrete backing
		return s.concSeq(v, srt)
	}
	return s.seqSub(o.Val.(*Term), v.Off, s.e.t.Add(v.Off, v.Len))
}

func (s *State) concSeq(v SliceV, srt Sort) *Term {
	arr := pathGet(s.obj(v.Obj).Val, v.Path).(*StructV)
	lo, ok1 := v.Off.IsK()
	n, ok2 := v.Len.IsK()
	if !ok1 || !ok2 {
		panic(unsupported("slice of an array with symbolic bounds"))
	}
	var parts []*Term
	for i := lo; i < lo+n; i++ {
		parts = append(parts, s.e.t.Unit(srt, arr.F[i].(*Term)))
	}
	return s.e.t.Cat(srt, parts...)
}

// newSeq allocates a slice with a content.
func (s *State) newSeq(elem types.Type, c *Term, site string) SliceV {
	o := s.newObj(KSeq, elem, c, site)
	l := s.f.canon(s.e.t.Len(c))
	return SliceV{Obj: o.ID, Off: s.e.t.Zero, Len: l, Cap: l}
}

// wrap puts the result of an operation in the range of its type.
func (s *State) wrap(x *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	var lo, hi int64
	switch b.Kind() {
	case types.Uint8:
		lo, hi = 0, 255
	case types.Uint16:
		lo, hi = 0, 65535
	case types.Uint32:
		lo, hi = 0, 1<<32-1
	case types.Int8:
		lo, hi = -128, 127
	case types.Int16:
		lo, hi = -32768, 32767
	case types.Int32, types.UntypedRune:
		lo, hi = -1<<31, 1<<31-1
	case types.Uint64, types.Uint, types.Uintptr:
		l, _ := s.f.Bounds(x)
		if l >= 0 {
			return x
		}
		return s.e.t.UF(SInt, "wrap:"+b.Name(), x)
	default:
		l, h := s.f.Bounds(x)
		if l > -inf && h < inf {
			return x
		}
		// sums with unbounded ints wrap around
		if x.op == OSym || x.op == OUF || x.op == OAt || x.op == OLen {
			return x
		}
		return s.e.t.UF(SInt, "wrap:"+b.Name(), x)
	}
	l, h := s.f.Bounds(x)
	if l >= lo && h <= hi {
		return x
	}
	if lo == 0 {
		return s.e.modK(x, hi+1)
	}
	return s.e.t.UF(SInt, "wrap:"+b.Name(), x)
}

// modK is x mod k (euclidean).
func (e *Eng) modK(x *Term, k int64) *Term {
	if c, ok := x.IsK(); ok {
		return e.t.Int(((c % k) + k) % k)
	}
	return e.t.mk(OUF, SInt, k, fmt.Sprintf("mod:%d", k), []*Term{x}, nil)
}

func (s *State) binop(op token.Token, x, y Value, xt types.Type, rt types.Type) Value {
	t := s.e.t
	switch op {
	case token.EQL:
		return s.equal(x, y)
	case token.NEQ:
		return t.Not(s.equal(x, y))
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operator %s on %T", op, x))
	}
	if a.srt == SStr {
		switch op {
		case token.ADD:
			return s.cat(SStr, a, b)
		}
		if a.op == OLit && b.op == OLit {
			switch op {
			case token.LSS:
				return t.Bool(a.s < b.s)
			case token.LEQ:
				return t.Bool(a.s <= b.s)
			case token.GTR:
				return t.Bool(a.s > b.s)
			case token.GEQ:
				return t.Bool(a.s >= b.s)
			}
		}
		panic(unsupported("string operator %s", op))
	}
	if a.srt != SInt {
		panic(unsupported("operator %s on %v", op, a.srt))
	}
	switch op {
	case token.ADD:
		return s.wrap(t.Add(a, b), rt)
	case token.SUB:
		return s.wrap(t.SubI(a, b), rt)
	case token.MUL:
		if k, ok := b.IsK(); ok {
			return s.wrap(t.MulK(a, k), rt)
		}
		if k, ok := a.IsK(); ok {
			return s.wrap(t.MulK(b, k), rt)
		}
	case token.LSS:
		return t.Lt(a, b)
	case token.LEQ:
		return t.Le(a, b)
	case token.GTR:
		return t.Lt(b, a)
	case token.GEQ:
		return t.Le(b, a)
	case token.QUO, token.REM:
		ka, oka := a.IsK()
		k, ok := b.IsK()
		if !ok {
			s.must("div", t.Not(t.EqI(b, t.Zero)))
		} else if k == 0 {
			s.must("div", t.False)
		}
		if ok && oka {
			if op == token.QUO {
				return t.Int(ka / k)
			}
			return t.Int(ka % k)
		}
		if lo, _ := s.f.Bounds(a); ok && k > 0 && lo >= 0 {
			if op == token.QUO {
				return s.div(a, k)
			}
			return s.e.modK(a, k)
		}
		return t.UF(SInt, op.String(), a, b)
	case token.SHL:
		if k, ok := b.IsK(); ok && k < 31 {
			return s.wrap(t.MulK(a, 1<<uint(k)), rt)
		}
	case token.SHR:
		if k, ok := b.IsK(); ok && k < 31 {
			if lo, _ := s.f.Bounds(a); lo >= 0 {
				if ka, ok := a.IsK(); ok {
					return t.Int(ka >> uint(k))
				}
				return s.div(a, int64(1)<<uint(k))
			}
		}
	case token.AND:
		if k, ok := b.IsK(); ok && k >= 0 && k&(k+1) == 0 {
			if lo, _ := s.f.Bounds(a); lo >= 0 {
				return s.e.modK(a, k+1)
			}
		}
		if ka, ok := a.IsK(); ok {
			if kb, ok := b.IsK(); ok {
				return t.Int(ka & kb)
			}
		}
	}
	if ka, ok := a.IsK(); ok {
		if kb, ok := b.IsK(); ok {
			switch op {
			case token.OR:
				return t.Int(ka | kb)
			case token.XOR:
				return t.Int(ka ^ kb)
			}
		}
	}
	return t.UF(SInt, "op"+op.String(), a, b)
}

// div is a / k of a value that is not negative: not above a, and below it
// when a is positive and k is not 1.
func (s *State) div(a *Term, k int64) *Term {
	t := s.e.t
	q := t.mk(OUF, SInt, k, fmt.Sprintf("div:%d", k), []*Term{a}, nil)
	lo, _ := s.f.Bounds(a)
	s.f.Assume(t.Le(t.Zero, q), true)
	if lo >= 1 && k > 1 {
		s.f.Assume(t.Lt(q, a), true)
	} else {
		s.f.Assume(t.Le(q, a), true)
	}
	return q
}

// equal compares two values.
func (s *State) equal(x, y Value) *Term {
	t := s.e.t
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported("comparison of %T and %T", x, y))
		}
		if a.srt.seq() {
			return s.f.seqEq(a, b)
		}
		return t.Eq(a, b)
	case PtrV:
		b := y.(PtrV)
		if a.Path == elemMark || b.Path == elemMark {
			panic(unsupported("comparison of element pointers"))
		}
		if a.Obj == 0 {
			a, b = b, a
		}
		if b.Obj == 0 {
			if a.Obj == 0 {
				return t.True
			}
			if a.NilC != nil {
				return a.NilC
			}
			return t.False
		}
		if a.Obj == b.Obj && a.Path == b.Path && a.NilC == b.NilC {
			return t.True
		}
		if a.NilC == nil || b.NilC == nil {
			if a.Obj != b.Obj || a.Path != b.Path {
				return t.False
			}
			if a.NilC != nil {
				return t.Not(a.NilC)
			}
			return t.Not(b.NilC)
		}
		if a.Obj != b.Obj || a.Path != b.Path {
			return t.And(a.NilC, b.NilC)
		}
		return t.EqB(a.NilC, b.NilC)
	case SliceV:
		b := y.(SliceV)
		if a.Obj == 0 || b.Obj == 0 {
			return t.Bool(a.Obj == 0 && b.Obj == 0)
		}
	case MapV:
		b := y.(MapV)
		if a.Obj == 0 || b.Obj == 0 {
			return t.Bool(a.Obj == b.Obj)
		}
	case FuncV:
		b := y.(FuncV)
		na := a.Fn == nil && a.Intr == ""
		nb := b.Fn == nil && b.Intr == ""
		return t.Bool(na == nb && (na || a.Fn == b.Fn))
	case IfaceV:
		b := y.(IfaceV)
		if a.T == nil || b.T == nil {
			return t.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return t.False
		}
		if a.T == s.e.errType() {
			// identity of errors: only the unique ones are compared in this code
			return t.Eq(a.V.(*Term), b.V.(*Term))
		}
		return s.equal(a.V, b.V)
	case *StructV:
		b := y.(*StructV)
		r := t.True
		for i := len(a.F) - 1; i >= 0; i-- {
			r = t.And(s.equal(a.F[i], b.F[i]), r)
		}
		return r
	}
	panic(unsupported("comparison of %T and %T", x, y))
}

func (s *State) set(v ssa.Value, x Value) {
	s.top().regs[v] = x
}

// step executes one instruction. It returns true when the control reached the
// entry of another block.
func (s *State) step() (jumped bool) {
	fr := s.top()
	in := fr.blk.Instrs[fr.ip]
	t := s.e.t
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := s.newObj(KCell, x.Type().Underlying().(*types.Pointer).Elem(), nil, s.e.p.Fset.Position(x.Pos()).String())
		o.Val = s.e.zero(o.Typ)
		s.set(x, PtrV{Obj: o.ID})
	case *ssa.BinOp:
		s.set(x, s.binop(x.Op, s.val(x.X), s.val(x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		s.unop(x)
	case *ssa.Call:
		if s.doCall(x, x.Common()) {
			return false
		}
	case *ssa.ChangeInterface:
		s.set(x, s.val(x.X))
	case *ssa.ChangeType:
		s.set(x, s.val(x.X))
	case *ssa.Convert:
		s.set(x, s.convert(s.val(x.X), x.X.Type(), x.Type()))
	case *ssa.Defer:
		c := x.Common()
		d := deferred{call: x, fn: s.callee(c)}
		for _, a := range c.Args {
			d.args = append(d.args, s.val(a))
		}
		fr.defer_ = append(fr.defer_, d)
	case *ssa.Extract:
		s.set(x, s.val(x.Tuple).(TupleV)[x.Index])
	case *ssa.Field:
		s.set(x, s.val(x.X).(*StructV).F[x.Field])
	case *ssa.FieldAddr:
		p := s.val(x.X).(PtrV)
		s.deref(p)
		s.set(x, PtrV{Obj: p.Obj, Path: pathAdd(p.Path, x.Field)})
	case *ssa.If:
		c, a := s.f.eval(s.val(x.Cond).(*Term))
		if a != nil {
			if s.tryMerge(a) {
				return true
			}
			panic(forkReq{a})
		}
		i := 1
		if c {
			i = 0
		}
		if s.ghostEnd(x.Cond, c) {
			return false
		}
		s.jump(fr.blk.Succs[i])
		return true
	case *ssa.Index:
		if a, ok := s.val(x.X).(*Term); ok {
			i := s.val(x.Index).(*Term)
			s.inBounds(i, t.Len(a))
			if s.ghostLoad(a, i) {
				break // the transducer runs first, then this instruction again
			}
		}
		s.set(x, s.index(s.val(x.X), s.val(x.Index).(*Term)))
	case *ssa.IndexAddr:
		s.indexAddr(x)
	case *ssa.Jump:
		s.jump(fr.blk.Succs[0])
		return true
	case *ssa.Lookup:
		s.lookup(x)
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, s.val(b))
		}
		s.set(x, f)
	case *ssa.MakeInterface:
		s.set(x, IfaceV{T: x.X.Type(), V: s.val(x.X)})
	case *ssa.MakeMap:
		o := s.newObj(KMap, x.Type(), t.MEmpty, s.e.p.Fset.Position(x.Pos()).String())
		s.set(x, MapV{Obj: o.ID})
	case *ssa.MakeSlice:
		s.makeSlice(x)
	case *ssa.MapUpdate:
		s.mapSet(s.val(x.Map).(MapV), s.val(x.Key), s.val(x.Value))
	case *ssa.Next:
		s.nextIter(x)
	case *ssa.Panic:
		s.must("panic", t.False)
	case *ssa.Range:
		s.rangeIter(x)
	case *ssa.Return:
		s.ret(x)
		return false
	case *ssa.RunDefers:
		if n := len(fr.defer_); n > 0 {
			d := fr.defer_[n-1]
			fr.defer_ = fr.defer_[:n-1]
			s.callValue(d.fn, d.args, d.call, "discard", true)
			return false
		}
	case *ssa.Slice:
		s.slice(x)
	case *ssa.Store:
		s.storeInstr(x)
	case *ssa.TypeAssert:
		s.typeAssert(x)
	default:
		panic(unsupported("instruction %T", in))
	}
	if s.again {
		s.again = false
		return false
	}
	fr.ip++
	return false
}

func (s *State) jump(b *ssa.BasicBlock) {
	fr := s.top()
	from := fr.blk
	fr.blk = b
	fr.pred = from
	fr.ip = 0
	// phis
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
	}
	if len(ph) == 0 {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	vals := make([]Value, len(ph))
	for i, p := range ph {
		vals[i] = s.val(p.Edges[pi])
	}
	for i, p := range ph {
		fr.regs[p] = vals[i]
	}
	fr.ip = len(ph)
}

func (s *State) unop(x *ssa.UnOp) {
	t := s.e.t
	v := s.val(x.X)
	switch x.Op {
	case token.MUL:
		p := v.(PtrV)
		if p.Path == elemMark {
			o := s.obj(p.Obj)
			c := o.Val.(*Term)
			if s.ghostLoad(c, p.NilC) {
				return // the transducer runs first, then this instruction again
			}
			s.set(x, s.seqAt(c, p.NilC))
			return
		}
		s.set(x, s.load(p))
		return
	case token.NOT:
		s.set(x, t.Not(v.(*Term)))
		return
	case token.SUB:
		s.set(x, s.wrap(t.MulK(v.(*Term), -1), x.Type()))
		return
	case token.XOR:
		s.set(x, t.UF(SInt, "not", v.(*Term)))
		return
	}
	panic(unsupported("operator %s", x.Op))
}

func (s *State) inBounds(i, n *Term) {
	t := s.e.t
	s.must("index", t.Le(t.Zero, i))
	s.must("index", t.Lt(i, n))
}

func (s *State) index(v Value, i *Term) Value {
	switch a := v.(type) {
	case *Term:
		s.inBounds(i, s.e.t.Len(a))
		return s.seqAt(a, i)
	case *StructV:
		s.inBounds(i, s.e.t.Int(int64(len(a.F))))
		return s.pick(a, i)
	}
	panic(unsupported("index of %T", v))
}

// pick selects an element of a concrete array; i is in bounds.
func (s *State) pick(a *StructV, i *Term) Value {
	if k, ok := s.f.canon(i).IsK(); ok {
		return a.F[k]
	}
	for k := 0; k < len(a.F)-1; k++ {
		if s.decide(s.e.t.EqI(i, s.e.t.Int(int64(k)))) {
			return a.F[k]
		}
	}
	return a.F[len(a.F)-1]
}

func (s *State) indexAddr(x *ssa.IndexAddr) {
	i := s.f.canon(s.val(x.Index).(*Term))
	switch a := s.val(x.X).(type) {
	case PtrV: // pointer to array
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		s.deref(a)
		s.inBounds(i, s.e.t.Int(n))
		s.set(x, PtrV{Obj: a.Obj, Path: pathAdd(a.Path, s.konst(i, n))})
	case SliceV:
		s.inBounds(i, a.Len)
		if a.Obj == 0 {
			panic(endPath{"nil slice"})
		}
		o := s.obj(a.Obj)
		j := s.f.canon(s.e.t.Add(a.Off, i))
		if o.Kind == KSeq {
			s.set(x, PtrV{Obj: a.Obj, Path: elemMark, NilC: j})
			return
		}
		arr := pathGet(o.Val, a.Path).(*StructV)
		s.set(x, PtrV{Obj: a.Obj, Path: pathAdd(a.Path, s.konst(j, int64(len(arr.F))))})
	default:
		panic(unsupported("address of an element of %T", a))
	}
}

// konst makes an index constant, by cases.
func (s *State) konst(i *Term, n int64) int {
	if k, ok := i.IsK(); ok {
		return int(k)
	}
	for k := int64(0); k < n-1; k++ {
		if s.decide(s.e.t.EqI(i, s.e.t.Int(k))) {
			return int(k)
		}
	}
	return int(n - 1)
}

func (s *State) storeInstr(x *ssa.Store) {
	p := s.val(x.Addr).(PtrV)
	v := s.val(x.Val)
	if p.Path == elemMark {
		o := s.obj(p.Obj)
		s.frameCheck(o)
		c := o.Val.(*Term)
		t := s.e.t
		i := p.NilC
		n := *o
		n.Val = s.cat(c.srt, s.seqSub(c, t.Zero, i), t.Unit(c.srt, v.(*Term)), s.seqSub(c, t.AddK(i, 1), t.Len(c)))
		s.setObj(&n)
		return
	}
	s.store(p, v)
}

func (s *State) makeSlice(x *ssa.MakeSlice) {
	t := s.e.t
	l, c := s.val(x.Len).(*Term), s.val(x.Cap).(*Term)
	s.must("slice", t.And(t.Le(t.Zero, l), t.Le(l, c)))
	el := x.Type().Underlying().(*types.Slice).Elem()
	srt, ok := elemSort(el)
	if !ok {
		k, isk := l.IsK()
		if !isk || k > 1024 {
			panic(unsupported("make of a slice of %v with a symbolic length", el))
		}
		v := &StructV{}
		for i := int64(0); i < k; i++ {
			v.F = append(v.F, s.e.zero(el))
		}
		o := s.newObj(KCell, types.NewArray(el, k), v, "make")
		s.set(x, SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: l})
		return
	}
	var content *Term
	if k, isk := l.IsK(); isk && k <= 64 {
		z := s.e.zero(el).(*Term)
		content = t.Empty(srt)
		for i := int64(0); i < k; i++ {
			content = t.Cat(srt, content, t.Unit(srt, z))
		}
	} else {
		content = t.UF(srt, "zeros", l)
		s.f.Assume(t.EqI(t.Len(content), l), true)
	}
	o := s.newObj(KSeq, el, content, "make")
	s.set(x, SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: c})
}

func (s *State) slice(x *ssa.Slice) {
	t := s.e.t
	lo := t.Zero
	if x.Low != nil {
		lo = s.val(x.Low).(*Term)
	}
	var hi *Term
	if x.High != nil {
		hi = s.val(x.High).(*Term)
	}
	switch a := s.val(x.X).(type) {
	case *Term: // string
		n := t.Len(a)
		if hi == nil {
			hi = n
		}
		s.must("slice", t.Le(t.Zero, lo))
		s.must("slice", t.Le(lo, hi))
		s.must("slice", t.Le(hi, n))
		s.set(x, s.seqSub(a, lo, hi))
	case SliceV:
		if hi == nil {
			hi = a.Len
		}
		cp := a.Cap
		if x.Max != nil {
			mx := s.val(x.Max).(*Term)
			s.must("slice", t.Le(mx, a.Cap))
			s.must("slice", t.Le(hi, mx))
			cp = mx
		}
		s.must("slice", t.Le(t.Zero, lo))
		s.must("slice", t.Le(lo, hi))
		if hi != a.Len {
			if v, at := s.f.eval(t.Le(hi, a.Len)); at != nil || !v {
				// reslicing beyond the length: allowed up to the capacity, but
				// the bytes there are outside of what the engine tracks
				s.must("slice", t.Le(hi, a.Cap))
				if v, at := s.f.eval(t.Le(hi, a.Len)); at != nil || !v {
					panic(unsupported("slice extended beyond its length (%v <= %v)", hi, a.Len))
				}
			}
		}
		if a.Obj == 0 {
			s.set(x, a)
			return
		}
		s.set(x, SliceV{Obj: a.Obj, Path: a.Path, Off: s.f.canon(t.Add(a.Off, lo)), Len: s.f.exact(t.SubI(hi, lo)), Cap: s.f.canon(t.SubI(cp, lo))})
	case PtrV: // array
		n := t.Int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		s.deref(a)
		if hi == nil {
			hi = n
		}
		s.must("slice", t.And(t.Le(t.Zero, lo), t.And(t.Le(lo, hi), t.Le(hi, n))))
		s.set(x, SliceV{Obj: a.Obj, Path: a.Path, Off: lo, Len: t.SubI(hi, lo), Cap: t.SubI(n, lo)})
	default:
		panic(unsupported("slice of %T", a))
	}
}

func (s *State) convert(v Value, from, to types.Type) Value {
	t := s.e.t
	fu, tu := from.Underlying(), to.Underlying()
	if fs, ok := fu.(*types.Slice); ok {
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if es, ok := elemSort(fs.Elem()); ok && es == SStr {
				return s.sliceSeq(v.(SliceV), SStr)
			}
		}
		panic(unsupported("conversion from %v to %v", from, to))
	}
	fb, ok1 := fu.(*types.Basic)
	if !ok1 {
		panic(unsupported("conversion from %v to %v", from, to))
	}
	if ts, ok := tu.(*types.Slice); ok {
		if es, ok := elemSort(ts.Elem()); ok && es == SStr && fb.Info()&types.IsString != 0 {
			return s.newSeq(ts.Elem(), v.(*Term), "convert")
		}
		panic(unsupported("conversion from %v to %v", from, to))
	}
	tb, ok2 := tu.(*types.Basic)
	if !ok2 {
		panic(unsupported("conversion from %v to %v", from, to))
	}
	switch {
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return s.wrap(v.(*Term), to)
	case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		x := v.(*Term)
		if lo, hi := s.f.Bounds(x); lo >= 0 && hi < 0x80 {
			return t.Unit(SStr, x)
		}
		return t.UF(SStr, "utf8", x)
	}
	panic(unsupported("conversion from %v to %v", from, to))
}

// maps

func (s *State) mapContent(m MapV) *Term {
	if m.Obj == 0 {
		return s.e.t.MEmpty
	}
	o := s.obj(m.Obj)
	if o.Moved != nil {
		return s.mapContent(*o.Moved)
	}
	c := o.Val.(*Term)
	if m.Key != nil {
		return s.mget(c, m.Key, SMap)
	}
	return c
}

// mget is the value of a key known to be present.
func (s *State) mget(c, k *Term, srt Sort) *Term {
	for {
		switch c.op {
		case OPut:
			if s.decide(s.keyEq(c.args[1], k)) {
				return c.args[2]
			}
			c = c.args[0]
			continue
		case ODel:
			if s.decide(s.keyEq(c.args[1], k)) {
				return s.e.t.get(srt, c.args[0], k)
			}
			c = c.args[0]
			continue
		}
		return s.f.norm(s.e.t.get(srt, c, k))
	}
}

func (s *State) keyEq(a, b *Term) *Term {
	if a.srt.seq() {
		return s.f.seqEq(a, b)
	}
	return s.e.t.Eq(a, b)
}

// mput simplifies nested updates.
func (s *State) mput(c, k, v *Term) *Term {
	if c.op == OPut {
		if b, a := s.f.eval(s.keyEq(c.args[1], k)); a == nil && b {
			return s.mput(c.args[0], k, v)
		}
	}
	return s.e.t.put(c, k, v)
}

func (s *State) mdel(c, k *Term) *Term {
	if c.op == OEmpty && k == s.e.t.Empty(k.srt) {
		return c
	}
	// kept even when there may be no such key: see the joins
	if has, a := s.f.eval(s.e.t.has(c, k)); k == s.e.t.Empty(k.srt) && a == nil && !has {
		return c
	}
	return s.e.t.del(c, k)
}

// normMap carries out the deletions of a map.
func (s *State) normMap(c *Term) *Term {
	switch c.op {
	case OPut:
		v := c.args[2]
		if v.srt == SMap {
			v = s.normMap(v)
		}
		m := s.normMap(c.args[0])
		if m == c.args[0] && v == c.args[2] {
			return c
		}
		return s.mput(m, c.args[1], v)
	case ODel:
		return s.mdelNow(s.normMap(c.args[0]), c.args[1])
	}
	return c
}

func (s *State) mdelNow(c, k *Term) *Term {
	switch c.op {
	case OEmpty:
		return c
	case OPut:
		if s.decide(s.keyEq(c.args[1], k)) {
			return s.mdelNow(c.args[0], k)
		}
		return s.e.t.put(s.mdelNow(c.args[0], k), c.args[1], c.args[2])
	}
	if !s.decide(s.e.t.has(c, k)) {
		return c
	}
	return s.e.t.del(c, k)
}

func keyTerm(v Value) *Term {
	k, ok := v.(*Term)
	if !ok {
		panic(unsupported("map key %T", v))
	}
	return k
}

func (s *State) setMapContent(m MapV, c *Term) {
	o := s.obj(m.Obj)
	if o.Moved != nil {
		s.setMapContent(*o.Moved, c)
		return
	}
	s.frameCheck(o)
	n := *o
	if m.Key != nil {
		n.Val = s.mput(o.Val.(*Term), m.Key, c)
	} else {
		n.Val = c
	}
	if o.ID < 0 && s.e.initing {
		s.e.base[o.ID] = &n
		return
	}
	s.setObj(&n)
}

func (s *State) mapSet(m MapV, key, v Value) {
	if m.Obj == 0 {
		s.must("nil map", s.e.t.False)
	}
	k := keyTerm(key)
	m = s.resolveView(m)
	c := s.mapContent(m)
	switch x := v.(type) {
	case *Term:
		s.setMapContent(m, s.mput(c, k, x))
	case MapV:
		if x.Obj == 0 {
			panic(unsupported("nil map stored in a map"))
		}
		o := s.obj(x.Obj)
		if x.Key != nil || o.Moved != nil || m.Key != nil {
			panic(unsupported("map stored twice in maps"))
		}
		s.setMapContent(m, s.mput(c, k, o.Val.(*Term)))
		n := *o
		n.Moved = &MapV{Obj: m.Obj, Key: k}
		s.setObj(&n)
	default:
		panic(unsupported("map value %T", v))
	}
}

func (s *State) resolveView(m MapV) MapV {
	for {
		o := s.obj(m.Obj)
		if o.Moved == nil {
			return m
		}
		m = *o.Moved
	}
}

func (s *State) mapDelete(m MapV, key Value) {
	if m.Obj == 0 {
		return
	}
	k := keyTerm(key)
	m = s.resolveView(m)
	s.setMapContent(m, s.mdel(s.mapContent(m), k))
}

func (s *State) mapLookup(m MapV, key Value, mt *types.Map) (Value, *Term) {
	t := s.e.t
	k := keyTerm(key)
	if m.Obj == 0 {
		return s.e.zero(mt.Elem()), t.False
	}
	m = s.resolveView(m)
	c := s.mapContent(m)
	// constant keys of constant maps
	if !s.decide(t.has(c, k)) {
		return s.e.zero(mt.Elem()), t.False
	}
	if _, ok := mt.Elem().Underlying().(*types.Map); ok {
		if m.Key != nil {
			panic(unsupported("maps nested more than twice"))
		}
		return MapV{Obj: m.Obj, Key: k}, t.True
	}
	srt, ok := scalarSort(mt.Elem())
	if !ok {
		panic(unsupported("map of %v", mt.Elem()))
	}
	return s.mget(c, k, srt), t.True
}

func (s *State) lookup(x *ssa.Lookup) {
	switch a := s.val(x.X).(type) {
	case *Term:
		i := s.val(x.Index).(*Term)
		s.inBounds(i, s.e.t.Len(a))
		if s.ghostLoad(a, i) {
			return // the transducer runs first, then this instruction again
		}
		s.set(x, s.seqAt(a, i))
	case MapV:
		v, ok := s.mapLookup(a, s.val(x.Index), x.X.Type().Underlying().(*types.Map))
		if x.CommaOk {
			s.set(x, TupleV{v, ok})
		} else {
			s.set(x, v)
		}
	default:
		panic(unsupported("lookup in %T", a))
	}
}

func (s *State) typeAssert(x *ssa.TypeAssert) {
	t := s.e.t
	v := s.val(x.X).(IfaceV)
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.T != nil && types.Implements(v.T, it)
		r = v
		if !ok {
			r = IfaceV{}
		}
	} else {
		ok = v.T != nil && types.Identical(v.T, x.AssertedType)
		r = v.V
		if !ok {
			r = s.e.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		s.set(x, TupleV{r, t.Bool(ok)})
		return
	}
	s.must("type assertion", t.Bool(ok))
	s.set(x, r)
}

// map and string iteration

// An iterator object holds a StructV{content, position, keys}.
func (s *State) rangeIter(x *ssa.Range) {
	t := s.e.t
	switch a := s.val(x.X).(type) {
	case MapV:
		c := s.mapContent(a)
		// the order of the keys of a map is any permutation: an arbitrary
		// sequence which enumerates the keys
		keys := t.UF(SSeqS, "keys", c)
		if mt := x.X.Type().Underlying().(*types.Map); mt != nil {
			if ks, ok := elemSort(mt.Key()); !ok || ks != SSeqS {
				panic(unsupported("range over a map with keys of type %v", mt.Key()))
			}
		}
		s.f.Assume(t.EqI(t.Len(keys), s.f.mlen(c)), true)
		o := s.newObj(KIter, x.X.Type(), &StructV{F: []Value{c, t.Zero, keys, a}}, "range")
		s.set(x, IterV{o.ID})
	default:
		panic(unsupported("range over %T", a))
	}
}

func (s *State) nextIter(x *ssa.Next) {
	if x.IsString {
		panic(unsupported("range over a string"))
	}
	t := s.e.t
	it := s.val(x.Iter).(IterV)
	o := s.obj(it.Obj)
	f := o.Val.(*StructV).F
	c, i, keys, m := f[0].(*Term), f[1].(*Term), f[2].(*Term), f[3].(MapV)
	if s.mapContent(m) != c {
		panic(unsupported("map modified while iterating"))
	}
	tup := x.Type().(*types.Tuple)
	if !s.decide(t.Lt(i, t.Len(keys))) {
		s.set(x, TupleV{t.False, s.zeroOr(tup.At(1).Type()), s.zeroOr(tup.At(2).Type())})
		return
	}
	k := s.seqAt(keys, i)
	var v Value
	mt := o.Typ.Underlying().(*types.Map)
	s.f.Assume(t.has(c, k), true)
	if b, ok := tup.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		v, _ = s.mapLookup(m, k, mt)
	}
	n := *o
	n.Val = &StructV{F: []Value{c, s.f.canon(t.AddK(i, 1)), keys, m}}
	s.setObj(&n)
	s.set(x, TupleV{t.True, k, v})
}

func (s *State) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return s.e.zero(t)
}

func (s *State) ret(x *ssa.Return) {
	fr := s.top()
	var v Value
	switch len(x.Results) {
	case 0:
	case 1:
		v = s.val(x.Results[0])
	default:
		tv := make(TupleV, len(x.Results))
		for i, r := range x.Results {
			tv[i] = s.val(r)
		}
		v = tv
	}
	s.fr = s.fr[:len(s.fr)-1]
	if len(s.fr) == 0 {
		return
	}
	up := s.top()
	switch fr.retTo {
	case "ghost", "discard":
		// the caller runs its instruction again
		return
	case "pre":
		p := map[string]Value{fr.preKey: v}
		for k, x := range up.pre {
			p[k] = x
		}
		up.pre = p
		return
	}
	if c, ok := fr.call.(*ssa.Call); ok && c != nil {
		up.regs[c] = v
	}
	up.ip++
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// PrintForks prints where choices are made.
func (e *Eng) PrintForks() {
	var ks []string
	for k := range e.Forks {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return e.Forks[ks[i]] > e.Forks[ks[j]] })
	for i, k := range ks {
		if i == 60 {
			break
		}
		fmt.Printf("FORK %d %.250s\n", e.Forks[k], k)
	}
}
