package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) callee(c *ssa.CallCommon) Value {
	if c.IsInvoke() {
		return s.val(c.Value)
	}
	return s.val(c.Value)
}

// doCall executes a call. It returns true when a frame was pushed.
func (s *State) doCall(x *ssa.Call, c *ssa.CallCommon) bool {
	var args []Value
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	return s.callValue(s.callee(c), args, x, "", false)
}

func (s *State) fresh(srt Sort, hint string) *Term {
	c := 0
	if s.from != nil {
		c = s.from.n
	}
	return s.e.t.Sym(srt, fmt.Sprintf("%s@%d.%d", hint, c, s.steps))
}

// callValue calls fn. instr is the call instruction (for its results). With
// again, the instruction is executed again after the call.
func (s *State) callValue(fn Value, args []Value, instr ssa.CallInstruction, retTo string, again bool) bool {
	c := instr.Common()
	setRes := func(v Value) bool {
		if call, ok := instr.(*ssa.Call); ok && retTo == "" {
			s.set(call, v)
		}
		return false
	}
	if c.IsInvoke() {
		iv, ok := fn.(IfaceV)
		if !ok {
			panic(unsupported("invoke on %T", fn))
		}
		if iv.T == nil {
			s.must("nil", s.e.t.False)
		}
		if iv.T == s.e.errType() {
			if c.Method.Name() == "Error" {
				return setRes(iv.V)
			}
			panic(unsupported("method %s of a library error", c.Method.Name()))
		}
		if r, ok := s.extIface(iv, c.Method.Name(), args); ok {
			return setRes(r)
		}
		m := s.e.p.SSA.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			panic(unsupported("no method %s of %v", c.Method.Name(), iv.T))
		}
		return s.enter(m, append([]Value{iv.V}, args...), nil, instr, retTo, setRes)
	}
	f, ok := fn.(FuncV)
	if !ok {
		panic(unsupported("call of %T", fn))
	}
	switch {
	case f.B != nil:
		return setRes(s.builtin(f.B, args, c))
	case f.Intr != "":
		return setRes(s.intrinsicFunc(f, args))
	case f.Fn == nil:
		s.must("nil", s.e.t.False)
	}
	return s.enter(f.Fn, args, f.Bind, instr, retTo, setRes)
}

func (s *State) enter(fn *ssa.Function, args, bind []Value, instr ssa.CallInstruction, retTo string, setRes func(Value) bool) bool {
	name := fn.String()
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == s.e.p.Spec+"/gv" {
		if fn.Name() == "init" {
			return setRes(nil)
		}
		return s.gvCall(fn.Name(), args, instr, setRes)
	}
	if s.e.Opaque[name] {
		srt, ok := scalarSort(fn.Signature.Results().At(0).Type())
		if !ok {
			panic(unsupported("opaque %s", name))
		}
		var ts []*Term
		for i, a := range args {
			switch a := a.(type) {
			case *Term:
				ts = append(ts, s.slotTerm(a))
			case SliceV:
				es, ok := elemSort(fn.Params[i].Type().Underlying().(*types.Slice).Elem())
				if !ok {
					panic(unsupported("opaque %s", name))
				}
				ts = append(ts, s.slotTerm(s.sliceSeq(a, es)))
			default:
				panic(unsupported("opaque %s", name))
			}
		}
		return setRes(s.e.t.UF(srt, fn.String(), ts...))
	}
	if g := s.e.Contracts[name]; g != nil {
		if !replaces(g, fn, len(args)) {
			panic(unsupported("the contract of %s has another signature", name))
		}
		s.e.Used[name] = true
		if len(args) > 0 && len(g.Params) > 0 {
			if _, ok := g.Params[0].Type().Underlying().(*types.Interface); ok {
				if _, is := args[0].(IfaceV); !is {
					args = append([]Value{IfaceV{T: fn.Signature.Recv().Type(), V: args[0]}}, args[1:]...)
				}
			}
		}
		fn, name = g, g.String()
	}
	src := fn.Pkg == nil && len(fn.Blocks) > 0 || fn.Pkg != nil && s.e.p.inSource(fn.Pkg.Pkg.Path())
	if src && fn.Pkg == nil && fn.Origin() != nil {
		src = false
	}
	if src && fn.Pkg == nil && fn.Signature.Recv() != nil {
		// a wrapper: only for types of the source
		if h := s.tryContract(name, fn, args); h != nil {
			return setRes(h())
		}
	}
	if !src {
		if fn.Name() == "init" {
			return setRes(nil)
		}
		if r, again := s.fmtCall(name, args); again {
			s.again = true
			return false
		} else if r != nil {
			s.e.Assumed[name] = true
			return setRes(r)
		}
		return setRes(s.contract(name, fn, args))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("%s has no body", name))
	}
	s.pushFrame(fn, args, bind, instr, retTo)
	return true
}

// replaces tells whether g can stand for fn. A receiver or a result may have
// another type: that of a model.
func replaces(g, fn *ssa.Function, nargs int) bool {
	if len(g.Params) != nargs || g.Signature.Results().Len() != fn.Signature.Results().Len() {
		return false
	}
	gp, fp := g.Signature.Params(), fn.Signature.Params()
	off := gp.Len() - fp.Len()
	if off < 0 || off > 1 {
		return false
	}
	for i := 0; i < fp.Len(); i++ {
		if !types.Identical(gp.At(i+off).Type(), fp.At(i).Type()) {
			return false
		}
	}
	return true
}

func (s *State) pushFrame(fn *ssa.Function, args, bind []Value, instr ssa.CallInstruction, retTo string) {
	if len(s.fr) > 40 {
		panic(unsupported("recursion in %s", fn))
	}
	for _, f := range s.fr {
		if f.fn == fn && !strings.HasSuffix(fn.Name(), "init") {
			panic(unsupported("recursion in %s", fn))
		}
	}
	s.e.Funcs[fn.String()] = true
	fr := &Frame{fn: fn, info: s.e.p.fnInfo(fn), blk: fn.Blocks[0], regs: map[ssa.Value]Value{}, call: instr, bind: bind, retTo: retTo}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	s.fr = append(s.fr, fr)
}

// runMethod pushes a call whose result is kept for the instruction in
// progress, which is executed again.
func (s *State) preCall(key string, fn *ssa.Function, args []Value) (Value, bool) {
	fr := s.top()
	if v, ok := fr.pre[key]; ok {
		return v, true
	}
	s.pushFrame(fn, args, nil, nil, "pre")
	s.top().preKey = key
	return nil, false
}

func (s *State) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	t := s.e.t
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case *Term:
			return s.f.canon(t.Len(a))
		case SliceV:
			return a.Len
		case MapV:
			return s.mapLen(s.mapContent(a))
		case PtrV:
			return t.Int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *StructV:
			return t.Int(int64(len(a.F)))
		}
	case "cap":
		if a, ok := args[0].(SliceV); ok {
			return a.Cap
		}
	case "append":
		return s.appendB(args, c)
	case "copy":
		return s.copyB(args, c)
	case "delete":
		s.mapDelete(args[0].(MapV), args[1])
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, x := range args[1:] {
			y := x.(*Term)
			if s.decide(t.Le(r, y)) == (b.Name() == "max") {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		s.deref(args[0].(PtrV))
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

// mapLen decides the size of a map, by cases on the presence of keys.
func (s *State) mapLen(c *Term) *Term {
	t := s.e.t
	switch c.op {
	case OPut:
		n := s.mapLen(c.args[0])
		if s.decide(t.has(c.args[0], c.args[1])) {
			return n
		}
		return t.AddK(n, 1)
	case ODel:
		n := s.mapLen(c.args[0])
		if s.decide(t.has(c.args[0], c.args[1])) {
			return t.AddK(n, -1)
		}
		return n
	}
	return s.f.mlen(c)
}

func (s *State) appendB(args []Value, c *ssa.CallCommon) Value {
	t := s.e.t
	a := args[0].(SliceV)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	srt, scalar := elemSort(el)
	if !scalar {
		b, ok := args[1].(SliceV)
		if !ok {
			panic(unsupported("append of %T", args[1]))
		}
		v := &StructV{F: append(s.concElems(a), s.concElems(b)...)}
		if len(v.F) == 0 {
			return a
		}
		o := s.newObj(KCell, types.NewArray(el, int64(len(v.F))), v, "append")
		n := t.Int(int64(len(v.F)))
		return SliceV{Obj: o.ID, Off: t.Zero, Len: n, Cap: n}
	}
	var add *Term
	switch b := args[1].(type) {
	case *Term:
		add = b
	case SliceV:
		add = s.sliceSeq(b, srt)
	default:
		panic(unsupported("append of %T", b))
	}
	if add == t.Empty(srt) {
		return a
	}
	old := s.sliceSeq(a, srt)
	content := s.cat(srt, old, add)
	if a.Obj != 0 {
		o := s.obj(a.Obj)
		if o.Kind != KSeq {
			// backed by an array: only when it is full
			if v, at := s.f.eval(t.Le(a.Cap, a.Len)); at != nil || !v {
				panic(unsupported("append to a part of an array"))
			}
			return s.grown(el, content)
		}
		// The backing array may be reused when there is room: that overwrites
		// what follows the slice in it.
		full, at := s.f.eval(t.Le(a.Cap, a.Len))
		if at != nil || !full {
			s.frameCheck(o)
			end := t.Add(a.Off, a.Len)
			if v, at := s.f.eval(t.Le(t.Len(o.Val.(*Term)), end)); (at != nil || !v) && !s.onlyUpTo(a.Obj, end) {
				// something follows the slice: it is overwritten when the
				// capacity allows
				rest := t.SubI(t.Len(o.Val.(*Term)), end)
				n := *o
				// in place: the elements after the slice
				w := s.cat(srt, s.seqSub(o.Val.(*Term), t.Zero, end), add)
				fits, at2 := s.f.eval(t.Le(t.Len(add), rest))
				switch {
				case at2 == nil && fits:
					w = s.cat(srt, w, s.seqSub(o.Val.(*Term), t.Add(end, t.Len(add)), t.Len(o.Val.(*Term))))
					n.Val = w
					s.setObj(&n)
					return SliceV{Obj: a.Obj, Off: a.Off, Len: s.f.canon(t.Add(a.Len, t.Len(add))), Cap: a.Cap}
				default:
					panic(unsupported("append over live elements"))
				}
			}
		}
	}
	return s.grown(el, content)
}

// grown is the result of an append which allocates.
func (s *State) grown(el types.Type, content *Term) Value {
	t := s.e.t
	o := s.newObj(KSeq, el, content, "append")
	l := s.f.canon(t.Len(content))
	// the capacity is unknown
	cp := s.fresh(SInt, "cap")
	s.f.Assume(t.Le(l, cp), true)
	s.f.Assume(t.Le(l, t.Int(maxLen)), true)
	return SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: cp}
}

// onlyUpTo tells that no live slice sees the elements of an object from end
// on (they can be overwritten: a slice which is extended beyond its length is
// not supported).
func (s *State) onlyUpTo(id int, end *Term) bool {
	t := s.e.t
	ok := true
	seen := map[int]bool{}
	var queue []int
	ref := func(id int) {
		if id != 0 && !seen[id] {
			seen[id] = true
			queue = append(queue, id)
		}
	}
	var val func(v Value)
	vals := func(vs []Value) {
		for _, v := range vs {
			val(v)
		}
	}
	val = func(v Value) {
		switch x := v.(type) {
		case nil, *Term:
		case *StructV:
			vals(x.F)
		case PtrV:
			if x.Obj == id {
				ok = false
			}
			ref(x.Obj)
		case SliceV:
			if x.Obj == id {
				if v, at := s.f.eval(t.Le(t.Add(x.Off, x.Len), end)); at != nil || !v {
					ok = false
				}
			}
			ref(x.Obj)
		case MapV:
			ref(x.Obj)
		case IfaceV:
			val(x.V)
		case FuncV:
			vals(x.Bind)
			vals(x.IArgs)
		case TupleV:
			vals(x)
		case IterV:
			ref(x.Obj)
		default:
			ok = false
		}
	}
	for _, fr := range s.fr {
		lv := liveAfter(fr)
		for k, r := range fr.info.regs {
			if lv.has(k) {
				val(fr.regs[r])
			}
		}
		vals(fr.bind)
		vals(fr.retVals)
		for _, v := range fr.pre {
			val(v)
		}
		for _, d := range fr.defer_ {
			val(d.fn)
			vals(d.args)
		}
	}
	for _, g := range s.ghosts {
		val(g.Spec)
	}
	for id := range s.heap {
		if id < 0 {
			ref(id)
		}
	}
	for ok && len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		val(s.obj(id).Val)
		if m := s.obj(id).Moved; m != nil {
			val(*m)
		}
	}
	return ok
}

func (s *State) concElems(a SliceV) []Value {
	if a.Obj == 0 {
		return nil
	}
	arr, ok := pathGet(s.obj(a.Obj).Val, a.Path).(*StructV)
	lo, ok1 := a.Off.IsK()
	n, ok2 := a.Len.IsK()
	if !ok || !ok1 || !ok2 {
		panic(unsupported("slice of structures with symbolic bounds"))
	}
	return append([]Value(nil), arr.F[lo:lo+n]...)
}

func (s *State) copyB(args []Value, c *ssa.CallCommon) Value {
	t := s.e.t
	d := args[0].(SliceV)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	srt, ok := elemSort(el)
	if !ok {
		panic(unsupported("copy of %v", el))
	}
	var src *Term
	switch b := args[1].(type) {
	case *Term:
		src = b
	case SliceV:
		src = s.sliceSeq(b, srt)
	}
	n := t.Len(src)
	if !s.decide(t.Le(n, d.Len)) {
		n = d.Len
	}
	if n == t.Zero || d.Obj == 0 {
		return t.Zero
	}
	o := s.obj(d.Obj)
	if o.Kind != KSeq {
		panic(unsupported("copy to an array"))
	}
	s.frameCheck(o)
	cur := o.Val.(*Term)
	nn := *o
	nn.Val = s.cat(srt, s.seqSub(cur, t.Zero, d.Off), s.seqSub(src, t.Zero, n), s.seqSub(cur, t.Add(d.Off, n), t.Len(cur)))
	s.setObj(&nn)
	return s.f.canon(n)
}

// ghostLoad steps the transducer attached to the sequence when its next byte
// is read. It returns true when a frame was pushed.
func (s *State) ghostLoad(c, i *Term) bool {
	if len(s.ghosts) == 0 {
		return false
	}
	t := s.e.t
	if c.op != OSym && c.op != OSub && (c.op != OUF || c.srt != SSeqS) {
		return false
	}
	b, lo, _ := t.asSub(c)
	at := t.Add(lo, i)
	for k := range s.ghosts {
		g := &s.ghosts[k]
		if g.On && g.Base == b && s.f.isZero(t.SubI(at, g.Idx)) {
			s.ghostStep(k)
			s.again = true
			return true
		}
	}
	return false
}

func (s *State) ghostStep(k int) {
	t := s.e.t
	g := &s.ghosts[k]
	esrt := SInt
	if g.Base.srt == SSeqS {
		esrt = SStr
	}
	x := t.mk(OAt, esrt, 0, "", []*Term{g.Base, s.f.canon(g.Idx)}, nil)
	if i, ok := s.f.canon(g.Idx).IsK(); ok && g.Base.op == OLit && i >= 0 && i < int64(len(g.Base.s)) {
		x = t.Int(int64(g.Base.s[i]))
	}
	g.Idx = s.f.canon(t.AddK(g.Idx, 1))
	iv := g.Spec.(IfaceV)
	m := s.e.p.SSA.LookupMethod(iv.T, nil, "Step")
	s.pushFrame(m, []Value{iv.V, x}, nil, nil, "ghost")
}

// ghostEnd makes the transducers of an input read its end, when the code
// finds that it is there: it keeps their outcomes apart in what follows.
func (s *State) ghostEnd(cond ssa.Value, c bool) bool {
	if len(s.ghosts) == 0 {
		return false
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || s.inSpec(s.top().fn) {
		return false
	}
	eq := b.Op == token.EQL && c || b.Op == token.NEQ && !c
	if !eq && !((b.Op == token.LSS || b.Op == token.GTR) && !c) && !((b.Op == token.GEQ || b.Op == token.LEQ) && c) {
		return false
	}
	if bt, ok := b.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	for k := range s.ghosts {
		g := &s.ghosts[k]
		if g.Done || !g.On || !eq && g.Base.srt != SSeqS || !s.f.isZero(s.e.t.SubI(s.e.t.Len(g.Base), g.Idx)) {
			continue
		}
		g.Done = true
		iv := g.Spec.(IfaceV)
		s.pushFrame(s.e.p.SSA.LookupMethod(iv.T, nil, "Finish"), []Value{iv.V}, nil, nil, "ghost")
		return true
	}
	return false
}

func (s *State) inSpec(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), s.e.p.Spec)
}

func (s *State) findGhost(base *Term) int {
	for k := range s.ghosts {
		if s.ghosts[k].Base == base {
			return k
		}
	}
	panic(unsupported("no transducer on %v", base))
}

func (s *State) litArg(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.op != OLit {
		panic(unsupported("literal expected"))
	}
	return t.s
}

func (s *State) baseOf(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case SliceV:
		if x.Obj == 0 {
			return s.e.t.EmptyStr
		}
		if o := s.obj(x.Obj); o.Kind == KSeq && x.Off == s.e.t.Zero {
			if c, ok := o.Val.(*Term); ok && (c.op == OSym || c.op == OUF && c.srt == SSeqS) && s.f.isZero(s.e.t.SubI(s.e.t.Len(c), x.Len)) {
				return c
			}
		}
		return s.sliceSeq(x, SStr)
	}
	panic(unsupported("input %T", v))
}

// gvCall gives the specification vocabulary its meaning.
func (s *State) gvCall(name string, args []Value, instr ssa.CallInstruction, setRes func(Value) bool) bool {
	t := s.e.t
	switch name {
	case "Loop":
		s.looped = true
		return setRes(t.Bool(s.decide(s.fresh(SBool, "loop"))))
	case "Bytes":
		d := s.fresh(SStr, s.litArg(args[0]))
		o := s.newObj(KSeq, types.Typ[types.Uint8], d, "input "+s.litArg(args[0]))
		o.Frame = "the caller's buffer"
		cp := s.fresh(SInt, "cap."+s.litArg(args[0]))
		l := t.Len(d)
		s.f.Assume(t.Le(l, cp), true)
		s.f.Assume(t.Le(l, t.Int(maxLen)), true)
		return setRes(SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: cp})
	case "Str":
		d := s.fresh(SStr, s.litArg(args[0]))
		s.f.Assume(t.Le(t.Len(d), t.Int(maxLen)), true)
		return setRes(d)
	case "Bool":
		return setRes(s.fresh(SBool, s.litArg(args[0])))
	case "Int":
		d := s.fresh(SInt, s.litArg(args[0]))
		s.f.Assume(t.Le(args[1].(*Term), d), true)
		s.f.Assume(t.Le(d, args[2].(*Term)), true)
		return setRes(d)
	case "Assume":
		c := args[0].(*Term)
		if v, a := s.f.eval(c); (a != nil || v && s.e.t.Deep) && !hasIte(c, map[*Term]bool{}) {
			s.f.Assume(c, true)
			if s.f.Bad {
				panic(endPath{"assumption"})
			}
		} else if !s.decide(c) {
			panic(endPath{"assumption"})
		}
		return setRes(nil)
	case "Assert":
		id := s.litArg(args[0])
		c := args[1].(*Term)
		s.e.oblige(s, id, c)
		s.e.Reached[id]++
		return setRes(nil)
	case "Wanted":
		return setRes(t.Bool(s.wanted(args[0].(*Term))))
	case "Requires":
		s.must(s.litArg(args[0]), args[1].(*Term))
		return setRes(nil)
	case "Location":
		l := s.fresh(SOp, s.litArg(args[0]))
		return setRes(l)
	case "Native":
		return setRes(t.False)
	case "Unchanged":
		// the frame conditions reject every store into an input
		return setRes(t.True)
	case "IncIn":
		return setRes(t.UF(SBool, "incin", s.sliceSeq(args[0].(SliceV), SSeqI), args[1].(*Term), args[2].(*Term)))
	case "Ints":
		d := s.fresh(SSeqI, s.litArg(args[0]))
		o := s.newObj(KSeq, types.Typ[types.Int], d, "input "+s.litArg(args[0]))
		o.Frame = "the caller's integers"
		cp := s.fresh(SInt, "cap."+s.litArg(args[0]))
		l := t.Len(d)
		s.f.Assume(t.Le(l, cp), true)
		s.f.Assume(t.Le(l, t.Int(maxLen)), true)
		return setRes(SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: cp})
	case "Sorted", "SortedElements":
		m := args[0].(MapV)
		r := s.sorted(t.UF(SSeqS, "keys", s.mapContent(m)))
		s.f.Assume(t.EqI(t.Len(r), s.f.mlen(s.mapContent(m))), true)
		o := s.newObj(KSeq, types.Typ[types.String], r, "keys")
		l := s.f.canon(t.Len(r))
		return setRes(SliceV{Obj: o.ID, Off: t.Zero, Len: l, Cap: l})
	case "Ghost", "GhostStr", "GhostInts", "GhostStrs":
		b := s.baseOf(args[0])
		g := Ghost{Base: b, Idx: t.Zero, Spec: args[1], On: true}
		s.ghosts = append(s.ghosts, g)
		return setRes(nil)
	case "GhostMore", "GhostMoreStr", "GhostMoreInts", "GhostMoreStrs":
		g := s.ghosts[s.findGhost(s.baseOf(args[0]))]
		return setRes(t.Lt(g.Idx, t.Len(g.Base)))
	case "GhostStep", "GhostStepStr", "GhostStepInts", "GhostStepStrs":
		k := s.findGhost(s.baseOf(args[0]))
		s.top().ip++ // the frame pushed now returns after this instruction
		s.ghostStep(k)
		return true
	case "GhostRest", "GhostRestStr":
		k := s.findGhost(s.baseOf(args[0]))
		g := &s.ghosts[k]
		r := s.seqSub(g.Base, g.Idx, t.Len(g.Base))
		g.Idx = s.f.canon(t.Len(g.Base))
		return setRes(r)
	case "GhostEnd", "GhostEndStr", "GhostEndInts", "GhostEndStrs":
		if s.ghosts[s.findGhost(s.baseOf(args[0]))].Done {
			return setRes(nil)
		}
		fn := s.e.p.Pkgs[s.e.p.Spec+"/gv"].Func(name)
		s.pushFrame(fn, args, nil, instr, "")
		return true
	case "GhostOff", "GhostOffStrs":
		b := s.baseOf(args[0])
		for k := range s.ghosts {
			if s.ghosts[k].Base == b {
				s.ghosts = append(append([]Ghost(nil), s.ghosts[:k]...), s.ghosts[k+1:]...)
				break
			}
		}
		return setRes(nil)
	case "Same":
		return setRes(s.deepEq(args[0], args[1], 0))
	case "Mark":
		s.epoch++
		return setRes(nil)
	case "Fresh":
		return setRes(t.Bool(s.isFresh(args[0], args[1].(SliceV))))
	}
	return s.gvCall2(name, args, instr, setRes)
}

// deepEq is the deep equality of two values.
func (s *State) deepEq(a, b Value, d int) *Term {
	t := s.e.t
	if d > 20 {
		panic(unsupported("deep comparison"))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.srt != y.srt {
			return t.False
		}
		if s.f.same(x, y) {
			return t.True
		}
		if x.srt.seq() {
			return s.f.seqEq(x, y)
		}
		return t.Eq(s.f.norm(x), s.f.norm(y))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return t.False
		}
		if x.T == nil || y.T == nil {
			return t.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return t.False
		}
		return s.deepEq(x.V, y.V, d+1)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return t.False
		}
		if x.NilC != nil && x.NilC == y.NilC {
			// nil together
			if x.Obj == y.Obj && x.Path == y.Path {
				return t.True
			}
			if v, at := s.f.eval(x.NilC); at == nil && v {
				return t.True
			}
			n := x.NilC
			x.NilC, y.NilC = nil, nil
			return t.Or(n, s.deepEq(s.load(x), s.load(y), d+1))
		}
		nx, ny := s.decide(s.equal(x, PtrV{})), s.decide(s.equal(y, PtrV{}))
		if nx || ny {
			return t.Bool(nx == ny)
		}
		if x.Obj == y.Obj && x.Path == y.Path {
			return t.True
		}
		return s.deepEq(s.load(x), s.load(y), d+1)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return t.False
		}
		r := t.True
		for i := len(x.F) - 1; i >= 0; i-- {
			r = t.And(s.deepEq(x.F[i], y.F[i], d+1), r)
		}
		return r
	case MapV:
		y, ok := b.(MapV)
		if !ok || (x.Obj == 0) != (y.Obj == 0) {
			return t.False
		}
		cx, cy := s.mapContent(x), s.mapContent(y)
		if s.f.same(cx, cy) {
			return t.True
		}
		cx, cy = s.normMap(cx), s.normMap(cy)
		if s.f.same(cx, cy) {
			return t.True
		}
		return t.Eq(s.f.norm(cx), s.f.norm(cy))
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return t.False
		}
		if x.Obj == 0 || y.Obj == 0 {
			return t.EqI(x.Len, y.Len)
		}
		if s.obj(x.Obj).Kind == KSeq {
			srt := s.obj(x.Obj).Val.(*Term).srt
			return s.f.seqEq(s.sliceSeq(x, srt), s.sliceSeq(y, srt))
		}
		ex, ey := s.concElems(x), s.concElems(y)
		return s.deepEq(&StructV{ex}, &StructV{ey}, d+1)
	}
	if x, ok := a.(FuncV); ok {
		if y, ok := b.(FuncV); ok {
			nx, ny := x.Fn == nil && x.Intr == "", y.Fn == nil && y.Intr == ""
			if nx || ny {
				return t.Bool(nx == ny)
			}
		}
	}
	panic(unsupported("deep comparison of %T", a))
}

// reach collects the objects reachable from a value.
func (s *State) reach(v Value, seen map[int]bool) {
	switch x := v.(type) {
	case PtrV:
		s.reachObj(x.Obj, seen)
	case SliceV:
		s.reachObj(x.Obj, seen)
	case MapV:
		s.reachObj(x.Obj, seen)
	case IterV:
		s.reachObj(x.Obj, seen)
	case IfaceV:
		if x.V != nil {
			s.reach(x.V, seen)
		}
	case *StructV:
		for _, f := range x.F {
			s.reach(f, seen)
		}
	case TupleV:
		for _, f := range x {
			s.reach(f, seen)
		}
	case FuncV:
		for _, f := range x.Bind {
			s.reach(f, seen)
		}
		for _, f := range x.IArgs {
			s.reach(f, seen)
		}
	}
}

func (s *State) reachObj(id int, seen map[int]bool) {
	if id == 0 || seen[id] {
		return
	}
	o := s.obj(id)
	if o.Moved != nil {
		s.reachObj(o.Moved.Obj, seen)
		return
	}
	seen[id] = true
	if o.Kind == KCell || o.Kind == KIter {
		s.reach(o.Val, seen)
	}
}

func (s *State) isFresh(v Value, others SliceV) bool {
	mine := map[int]bool{}
	s.reach(v, mine)
	theirs := map[int]bool{}
	for _, o := range s.concElems(others) {
		s.reach(o, theirs)
	}
	for id := range mine {
		o := s.obj(id)
		if id < 0 || o.Epoch != s.epoch || theirs[id] {
			return false
		}
	}
	return true
}

// wanted tells whether the caller of the contract being executed uses its
// result i.
func (s *State) wanted(i *Term) bool {
	n, ok := i.IsK()
	if !ok {
		panic(unsupported("gv.Wanted"))
	}
	c, ok := s.top().call.(*ssa.Call)
	if !ok || s.top().retTo != "" {
		return true
	}
	for _, r := range *c.Referrers() {
		x, ok := r.(*ssa.Extract)
		if !ok || int64(x.Index) == n && len(*x.Referrers()) > 0 {
			return true
		}
	}
	return false
}

func hasIte(c *Term, seen map[*Term]bool) bool {
	if seen[c] {
		return false
	}
	seen[c] = true
	if c.op == OIte {
		return true
	}
	for _, a := range c.args {
		if hasIte(a, seen) {
			return true
		}
	}
	return false
}

// sorted is the sequence of strings with the elements of another in order.
func (s *State) sorted(c *Term) *Term {
	t := s.e.t
	if c.op == OUF && c.s == "sorted" {
		return c
	}
	r := t.UF(SSeqS, "sorted", c)
	s.f.Assume(t.EqI(t.Len(r), t.Len(c)), true)
	return r
}
