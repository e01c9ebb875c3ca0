package eng

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (s *State) extIface(iv IfaceV, method string, args []Value) (Value, bool) {
	return nil, false
}

func (s *State) intrinsicFunc(f FuncV, args []Value) Value {
	panic(unsupported("function %s", f.Intr))
}

func (s *State) gvCall2(name string, args []Value, instr ssa.CallInstruction, setRes func(Value) bool) bool {
	t := s.e.t
	maybe := func(typ types.Type, v Value) bool {
		n := s.litArg(args[0])
		c := s.newObj(KCell, typ, v, "input "+n)
		return setRes(PtrV{Obj: c.ID, NilC: s.fresh(SBool, n+".nil")})
	}
	elem := func() types.Type { return instr.Value().Type().(*types.Pointer).Elem() }
	switch name {
	case "MaybeStr":
		d := s.fresh(SStr, s.litArg(args[0]))
		s.f.Assume(t.Le(t.Len(d), t.Int(maxLen)), true)
		return maybe(elem(), d)
	case "MaybeU8":
		d := s.fresh(SInt, s.litArg(args[0]))
		s.f.Assume(t.Le(t.Zero, d), true)
		s.f.Assume(t.Le(d, t.Int(255)), true)
		return maybe(elem(), d)
	case "MaybeTime":
		return maybe(elem(), s.fresh(SOp, s.litArg(args[0])))
	case "MaybeSD":
		o := s.newObj(KMap, elem(), s.fresh(SMap, s.litArg(args[0])), "input "+s.litArg(args[0]))
		return maybe(elem(), MapV{Obj: o.ID})
	case "UFInt", "UFBool", "UFStr":
		var ts []*Term
		for _, a := range s.concElems(args[1].(SliceV)) {
			x, ok := a.(IfaceV).V.(*Term)
			if !ok {
				panic(unsupported("argument of gv.%s", name))
			}
			if x.srt.seq() {
				x = s.strArg(x)
			} else {
				x = s.slotTerm(x)
			}
			ts = append(ts, x)
		}
		if f := s.litArg(args[0]); f == "strconv.ParseUint" && ts[0].op == OLit {
			if v, err := strconv.ParseUint(ts[0].s, 10, 62); err == nil {
				return setRes(t.Int(int64(v)))
			}
		} else if f == "strconv.ParseUint.ok" && ts[0].op == OLit {
			if _, err := strconv.ParseUint(ts[0].s, 10, 62); err == nil {
				return setRes(t.True)
			}
		}
		srt := map[string]Sort{"UFInt": SInt, "UFBool": SBool, "UFStr": SStr}[name]
		return setRes(t.UF(srt, s.litArg(args[0]), ts...))
	case "Havoc":
		b := args[0].(SliceV)
		if b.Obj == 0 {
			return setRes(nil)
		}
		o := *s.obj(b.Obj)
		d := s.fresh(SStr, "stale")
		o.Val = d
		s.setObj(&o)
		return setRes(nil)
	case "Proof":
		return setRes(t.True)
	case "Known":
		return setRes(t.Bool(s.baseOf(args[0]).op == OLit))
	case "AssumeAbsent":
		base := s.baseOf(args[0])
		b, ok := s.f.canon(args[3].(*Term)).IsK()
		if lo, k1 := s.f.canon(args[1].(*Term)).IsK(); ok && k1 && base.op == OLit {
			if hi, k2 := s.f.canon(args[2].(*Term)).IsK(); k2 {
				if i := strings.IndexByte(base.s[lo:hi], byte(b)); i >= 0 {
					panic(endPath{"excluded"})
				}
				return setRes(nil)
			}
		}
		if base.op != OSym || !ok {
			panic(unsupported("argument of gv.AssumeAbsent"))
		}
		s.f.Assume(t.UF(SBool, fmt.Sprintf("absent:%d", b), base, s.f.canon(args[1].(*Term)), s.f.canon(args[2].(*Term))), true)
		return setRes(nil)
	case "GhostSkip":
		g := &s.ghosts[s.findGhost(s.baseOf(args[0]))]
		g.Idx = s.f.canon(t.Add(g.Idx, args[2].(*Term)))
		return setRes(nil)
	case "Clone":
		return setRes(s.cloneV(args[0], map[int]int{}))
	}
	panic(unsupported("gv.%s", name))
}

// cloneV is a deep copy of a value.
func (s *State) cloneV(v Value, done map[int]int) Value {
	ref := func(id int) int {
		if id <= 0 {
			return id
		}
		if n, ok := done[id]; ok {
			return n
		}
		o := s.obj(id)
		n := s.newObj(o.Kind, o.Typ, nil, "copy of "+o.Site)
		done[id] = n.ID
		c := *n
		c.Val = o.Val
		if o.Kind == KCell {
			c.Val = s.cloneV(o.Val, done)
		}
		s.setObj(&c)
		return n.ID
	}
	switch x := v.(type) {
	case PtrV:
		x.Obj = ref(x.Obj)
		return x
	case SliceV:
		x.Obj = ref(x.Obj)
		return x
	case MapV:
		if x.Obj == 0 {
			return x
		}
		x = s.resolveView(x)
		if x.Key != nil {
			panic(unsupported("copy of a nested map"))
		}
		return MapV{Obj: ref(x.Obj)}
	case IfaceV:
		if x.V != nil {
			x.V = s.cloneV(x.V, done)
		}
		return x
	case *StructV:
		n := &StructV{F: make([]Value, len(x.F))}
		for i := range n.F {
			n.F[i] = s.cloneV(x.F[i], done)
		}
		return n
	case *Term:
		return x
	}
	panic(unsupported("copy of %T", v))
}

// tryContract returns the contract of a function, or nil.
func (s *State) tryContract(name string, fn *ssa.Function, args []Value) func() Value {
	h := contracts[name]
	if h == nil {
		return nil
	}
	return func() Value {
		s.e.Assumed[name] = true
		return h(s, args)
	}
}

func (s *State) contract(name string, fn *ssa.Function, args []Value) Value {
	h := contracts[name]
	if h == nil {
		panic(unsupported("no contract for %s", name))
	}
	s.e.Assumed[name] = true
	return h(s, args)
}

// fmtCall gives fmt.Errorf and fmt.Sprintf their meaning for the verbs in use.
func (s *State) fmtCall(name string, args []Value) (res Value, again bool) {
	if name != "fmt.Errorf" && name != "fmt.Sprintf" {
		return nil, false
	}
	t := s.e.t
	f, ok := args[0].(*Term)
	if !ok || f.op != OLit {
		// a format made of several parts
		panic(unsupported("format %v", args[0]))
	}
	vals := s.concElems(args[1].(SliceV))
	var parts []*Term
	n := 0
	format := f.s
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			parts = append(parts, t.Lit(format))
			break
		}
		if i > 0 {
			parts = append(parts, t.Lit(format[:i]))
		}
		if i+1 >= len(format) {
			panic(unsupported("format %q", f.s))
		}
		verb := format[i+1]
		format = format[i+2:]
		if verb == '%' {
			parts = append(parts, t.Lit("%"))
			continue
		}
		if n >= len(vals) {
			panic(unsupported("format %q: missing argument", f.s))
		}
		iv, ok := vals[n].(IfaceV)
		if !ok || iv.T == nil {
			panic(unsupported("format %q: argument %d", f.s, n))
		}
		x, again := s.fmtArg(verb, iv, n)
		if again {
			return nil, true
		}
		parts = append(parts, x)
		n++
	}
	s.top().pre = nil
	r := s.cat(SStr, parts...)
	if name == "fmt.Errorf" {
		return s.e.mkErr(r), false
	}
	return r, false
}

func (s *State) fmtArg(verb byte, iv IfaceV, n int) (*Term, bool) {
	t := s.e.t
	if iv.T == s.e.errType() {
		if verb == 's' || verb == 'v' {
			return iv.V.(*Term), false
		}
		panic(unsupported("verb %%%c of an error", verb))
	}
	if verb == 's' || verb == 'v' {
		for _, m := range []string{"Error", "String"} {
			sel := types.NewMethodSet(iv.T).Lookup(nil, m)
			if sel == nil {
				continue
			}
			if sg := sel.Type().(*types.Signature); sg.Params().Len() != 0 || sg.Results().Len() != 1 {
				continue
			}
			fn := s.e.p.SSA.MethodValue(sel)
			v, ok := s.preCall(fmt.Sprintf("%d.%s", n, m), fn, []Value{iv.V})
			if !ok {
				return nil, true
			}
			return v.(*Term), false
		}
	}
	switch u := iv.T.Underlying().(type) {
	case *types.Basic:
		x := iv.V.(*Term)
		switch {
		case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			return t.Itoa(s.f.canon(x)), false
		case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			return x, false
		}
	case *types.Slice:
		if es, ok := elemSort(u.Elem()); ok && es == SStr && verb == 's' {
			return s.sliceSeq(iv.V.(SliceV), SStr), false
		}
	}
	return nil, func() bool { panic(unsupported("verb %%%c of %v", verb, iv.T)) }()
}

var contracts = map[string]func(s *State, a []Value) Value{}

func init() {
	t := func(v Value) *Term { return v.(*Term) }
	uf := func(srt Sort, name string) func(s *State, a []Value) Value {
		return func(s *State, a []Value) Value {
			var ts []*Term
			for _, x := range a {
				ts = append(ts, s.f.norm(t(x)))
			}
			return s.e.t.UF(srt, name, ts...)
		}
	}
	parses := func(s *State, l, x *Term) bool {
		if l.op == OLit && x.op == OLit {
			_, err := time.Parse(l.s, x.s)
			return err == nil
		}
		return s.decide(s.e.t.UF(SBool, "time.Parse.ok", l, x))
	}
	contracts["time.Parse"] = func(s *State, a []Value) Value {
		l, x := t(a[0]), s.strArg(t(a[1]))
		if parses(s, l, x) {
			return TupleV{s.e.t.UF(SOp, "time.Parse", l, x), IfaceV{}}
		}
		return TupleV{s.e.t.UF(SOp, "zero:time.Time"), s.e.mkErr(s.e.t.UF(SStr, "time.Parse.error", l, x))}
	}
	contracts["time.ParseInLocation"] = func(s *State, a []Value) Value {
		l, x, loc := t(a[0]), s.strArg(t(a[1])), t(a[2])
		s.must("nil location", s.e.t.Not(s.e.t.Eq(loc, s.e.nilOp())))
		if parses(s, l, x) {
			return TupleV{s.e.t.UF(SOp, "time.ParseInLocation", l, x, loc), IfaceV{}}
		}
		return TupleV{s.e.t.UF(SOp, "zero:time.Time"), s.e.mkErr(s.e.t.UF(SStr, "time.Parse.error", l, x))}
	}
	contracts["strconv.Itoa"] = func(s *State, a []Value) Value { return s.e.t.Itoa(s.f.canon(t(a[0]))) }
	contracts["sort.Strings"] = func(s *State, a []Value) Value {
		x := a[0].(SliceV)
		if x.Obj == 0 || x.Len == s.e.t.Zero {
			return nil
		}
		c := s.sliceSeq(x, SSeqS)
		o := s.obj(x.Obj)
		if v, ok := o.Val.(*Term); !ok || o.Kind != KSeq || x.Off != s.e.t.Zero || !s.f.isZero(s.e.t.SubI(s.e.t.Len(v), x.Len)) {
			panic(unsupported("sort.Strings of a part of a slice: %v %v %v", o.Val, x.Off, x.Len))
		}
		s.frameCheck(o)
		n := *o
		n.Val = s.sorted(s.strArg(c))
		s.setObj(&n)
		return nil
	}
	contracts["(time.Time).AddDate"] = uf(SOp, "AddDate")
	contracts["(time.Time).In"] = func(s *State, a []Value) Value {
		s.must("nil location", s.e.t.Not(s.e.t.Eq(t(a[1]), s.e.nilOp())))
		return s.e.t.UF(SOp, "In", t(a[0]), t(a[1]))
	}
	contracts["(time.Time).Format"] = uf(SStr, "Format")
	contracts["(time.Time).Year"] = uf(SInt, "Year")
	contracts["time.Now"] = func(s *State, a []Value) Value { return s.fresh(SOp, "now") }
	contracts["strings.ToUpper"] = func(s *State, a []Value) Value { return s.toUpper(s.f.norm(t(a[0]))) }
	contracts["errors.New"] = func(s *State, a []Value) Value { return s.e.mkErr(t(a[0])) }
}

// strArg is the canonical form of an argument.
func (s *State) strArg(x *Term) *Term {
	x = s.f.norm(x)
	if x.op == OSub {
		b, lo, hi := s.e.t.asSub(x)
		if lo == s.e.t.Zero && hi != s.e.t.Len(b) && s.f.isZero(s.e.t.SubI(hi, s.e.t.Len(b))) {
			return b
		}
		lo, hi = s.f.canon(lo), s.f.canon(hi)
		if l, ok := s.knownBytes(b, lo, hi); ok {
			return l
		}
		return s.e.t.rawSub(b, lo, hi)
	}
	return x
}

// knownBytes is a short part of a text of which every byte is known.
func (s *State) knownBytes(b, lo, hi *Term) (*Term, bool) {
	t := s.e.t
	n, ok := t.SubI(hi, lo).IsK()
	if !ok || n < 1 || n > 4 || b.srt != SStr {
		return nil, false
	}
	l := make([]byte, n)
	for i := range l {
		c, ok := s.f.canon(t.mk(OAt, SInt, 0, "", []*Term{b, s.f.canon(t.AddK(lo, int64(i)))}, nil)).IsK()
		if !ok {
			return nil, false
		}
		l[i] = byte(c)
	}
	return t.Lit(string(l)), true
}

// nilOp is the nil opaque pointer.
func (e *Eng) nilOp() *Term { return e.t.UF(SOp, "nil") }

// toUpper is exact for ASCII strings of at most 5 bytes. Any other string has
// an upper case form which is no such string, unless it has one of the letters
// I and S (the upper case forms of U+0131 and U+017F).
func (s *State) toUpper(x *Term) *Term {
	e := s.e.t
	if x.op == OLit {
		return e.Lit(strings.ToUpper(x.s))
	}
	n := s.f.canon(e.Len(x))
	other := e.UF(SStr, upperOther, x)
	if !s.decide(e.Le(n, e.Int(5))) {
		return other
	}
	var parts []*Term
	for i := int64(0); ; i++ {
		if s.decide(e.Le(n, e.Int(i))) {
			break
		}
		c := s.seqAt(x, e.Int(i))
		if !s.decide(e.Le(c, e.Int(127))) {
			return other
		}
		if s.decide(e.Le(e.Int('a'), c)) && s.decide(e.Le(c, e.Int('z'))) {
			c = e.AddK(c, -32)
		}
		parts = append(parts, e.Unit(SStr, c))
	}
	return s.cat(SStr, parts...)
}

const upperOther = "strings.ToUpper.other"

// upperNot tells that an upper case form which is not ASCII cannot be a literal.
func upperNot(a, b *Term) bool {
	return a.op == OUF && a.s == upperOther && b.op == OLit && len(b.s) <= 5 && !strings.ContainsAny(b.s, "IS")
}
