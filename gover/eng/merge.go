package eng

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Small regions between a branch and its join are executed on both sides and
// merged, when the states only differ by booleans and by pointers being nil.

type region struct {
	ok   bool
	join *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

// postdom computes the immediate post-dominator of every block.
func postdom(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	all := newBits(n)
	for i := 0; i < n; i++ {
		all.set(i)
	}
	pd := make([]bitset, n)
	for i, b := range fn.Blocks {
		pd[i] = append(bitset(nil), all...)
		if len(b.Succs) == 0 {
			pd[i] = newBits(n)
			pd[i].set(i)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			r := append(bitset(nil), pd[b.Succs[0].Index]...)
			for _, s := range b.Succs[1:] {
				for k := range r {
					r[k] &= pd[s.Index][k]
				}
			}
			r.set(i)
			for k := range r {
				if r[k] != pd[i][k] {
					pd[i] = r
					ch = true
					break
				}
			}
		}
	}
	count := func(b bitset) int {
		c := 0
		for i := 0; i < n; i++ {
			if b.has(i) {
				c++
			}
		}
		return c
	}
	// the immediate one is the strict post-dominator with the most post-dominators
	out := make([]int, n)
	for i := range out {
		out[i] = -1
		best := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].has(j) {
				if c := count(pd[j]); c > best {
					best, out[i] = c, j
				}
			}
		}
	}
	return out
}

func (e *Eng) region(fi *fnInfo, fn *ssa.Function, b *ssa.BasicBlock) *region {
	if r, ok := fi.regions[b.Index]; ok {
		return r
	}
	if fi.regions == nil {
		fi.regions = map[int]*region{}
	}
	r := &region{in: map[*ssa.BasicBlock]bool{}}
	fi.regions[b.Index] = r
	if len(fn.Blocks) > 150 {
		return r
	}
	if fi.pdom == nil {
		fi.pdom = postdom(fn)
	}
	j := fi.pdom[b.Index]
	if j < 0 {
		return r
	}
	r.join = fn.Blocks[j]
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == r.join || r.in[x] {
			continue
		}
		if fi.loop[x.Index] || x == b || len(r.in) > 16 || len(x.Instrs) > 40 {
			return r
		}
		r.in[x] = true
		for _, in := range x.Instrs {
			switch c := in.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.Store, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Lookup, *ssa.TypeAssert:
			case *ssa.Call:
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == e.p.Spec+"/gv" && f.Name() == "Same" {
					continue
				}
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				return r
			default:
				return r
			}
		}
		work = append(work, x.Succs...)
	}
	if fi.loop[j] && r.join.Dominates(b) {
		// the join is the head of the loop the branch is in
		return r
	}
	r.ok = true
	return r
}

type noMerge struct{}

// tryMerge executes the region of the branch in progress on both sides.
func (s *State) tryMerge(a *Term) (ok bool) {
	fr := s.top()
	r := s.e.region(fr.info, fr.fn, fr.blk)
	if !r.ok {
		return false
	}
	depth := len(s.fr)
	leaves := 0
	var m *State
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case noMerge, unsup:
					m = nil
				default:
					panic(x)
				}
			}
		}()
		base := s.clone()
		base.top().seen = s.top().seen
		m = base.split(a, r, depth, &leaves)
	}()
	if m == nil {
		return false
	}
	tr := s.trailT
	forks := s.forks
	*s = *m
	s.trailT = tr
	s.forks = forks
	return true
}

// split executes both sides of an atom up to the join. A nil result is a dead
// path.
func (s *State) split(a *Term, r *region, depth int, leaves *int) *State {
	if *leaves++; *leaves > 40 {
		panic(noMerge{})
	}
	x, y := s.clone(), s.clone()
	x.f.Assume(a, true)
	y.f.Assume(a, false)
	x.trailT = append(x.trailT, trailStep{a, true})
	y.trailT = append(y.trailT, trailStep{a, false})
	var mx, my *State
	if !x.f.Bad {
		mx = x.toJoin(r, depth, leaves)
	}
	if !y.f.Bad {
		my = y.toJoin(r, depth, leaves)
	}
	if mx == nil {
		return my
	}
	if my == nil {
		return mx
	}
	return s.merge(a, mx, my)
}

func (s *State) toJoin(r *region, depth int, leaves *int) (res *State) {
	var atom *Term
	dead := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case forkReq:
					s.again = false
					atom = y.atom
				case endPath:
					dead = true
				default:
					panic(x)
				}
			}
		}()
		for {
			if s.f.Bad {
				dead = true
				return
			}
			s.e.Steps++
			var jumped bool
			if x, ok := s.top().blk.Instrs[s.top().ip].(*ssa.If); ok {
				// nested branches are split here, not merged on their own
				c := s.decide(s.val(x.Cond).(*Term))
				i := 1
				if c {
					i = 0
				}
				s.jump(s.top().blk.Succs[i])
				jumped = true
			} else {
				jumped = s.step()
			}
			s.steps++
			if len(s.fr) != depth {
				panic(noMerge{})
			}
			if jumped {
				if s.top().blk == r.join {
					return
				}
				if !r.in[s.top().blk] {
					panic(noMerge{})
				}
			}
		}
	}()
	if dead {
		return nil
	}
	if atom != nil {
		return s.split(atom, r, depth, leaves)
	}
	return s
}

func (s *State) merge(c *Term, x, y *State) *State {
	fx, fy := x.top(), y.top()
	if fx.blk != fy.blk || fx.ip != fy.ip || len(x.ghosts) != len(y.ghosts) || x.next != y.next || x.epoch != y.epoch {
		panic(noMerge{})
	}
	for i := range x.ghosts {
		if x.ghosts[i].Idx != y.ghosts[i].Idx || x.ghosts[i].Done != y.ghosts[i].Done {
			panic(noMerge{})
		}
	}
	m := x.clone()
	m.f = s.f.Clone()
	fm := m.top()
	mergeReg := func(r ssa.Value, t types.Type) {
		vx, okx := fx.regs[r]
		vy, oky := fy.regs[r]
		if okx && oky {
			fm.regs[r] = s.mergeV(c, vx, vy)
		}
	}
	live := fm.info.live[fm.blk.Index]
	for i, r := range fm.info.regs {
		if live.has(i) {
			mergeReg(r, r.Type())
		}
	}
	for _, in := range fm.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mergeReg(p, p.Type())
	}
	ids := make([]int, 0, len(x.heap))
	for id := range x.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := i
		ox, oy := x.heap[id], y.heap[id]
		if oy == nil {
			panic(noMerge{})
		}
		if ox == oy {
			continue
		}
		if ox.Kind != oy.Kind || ox.Moved != nil || oy.Moved != nil {
			panic(noMerge{})
		}
		if st, ok := ox.Typ.(interface{ Underlying() types.Type }); ok {
			// the control state of a transducer is never symbolic
			u, _ := st.Underlying().(*types.Struct)
			vx, ok1 := ox.Val.(*StructV)
			vy, ok2 := oy.Val.(*StructV)
			if u != nil && ok1 && ok2 {
				for i := range vx.F {
					if vx.F[i] != vy.F[i] && isCtl(u, i) {
						panic(noMerge{})
					}
				}
			}
		}
		n := *ox
		n.Val = s.mergeV(c, ox.Val, oy.Val)
		m.setObj(&n)
	}
	for id := range y.heap {
		if x.heap[id] == nil {
			panic(noMerge{})
		}
	}
	m.steps = max(x.steps, y.steps)
	return m
}

func (s *State) mergeV(c *Term, a, b Value) Value {
	t := s.e.t
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x == y {
			return x
		}
		if x.srt == SBool && y.srt == SBool {
			return t.Ite(c, x, y)
		}
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			break
		}
		if x == y {
			return x
		}
		if x.Path == elemMark || y.Path == elemMark {
			break
		}
		if x.Obj != 0 && y.Obj != 0 && (x.Obj != y.Obj || x.Path != y.Path) {
			break
		}
		nilc := func(p PtrV) *Term {
			if p.Obj == 0 {
				return t.True
			}
			if p.NilC == nil {
				return t.False
			}
			return p.NilC
		}
		n := t.Ite(c, nilc(x), nilc(y))
		if x.Obj == 0 {
			x = y
		}
		return PtrV{Obj: x.Obj, Path: x.Path, NilC: n}
	case SliceV:
		if y, ok := b.(SliceV); ok && x == y {
			return x
		}
	case MapV:
		if y, ok := b.(MapV); ok && x == y {
			return x
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.T == nil) != (y.T == nil) || x.T != nil && !types.Identical(x.T, y.T) {
			break
		}
		if x.T == nil {
			return x
		}
		return IfaceV{T: x.T, V: s.mergeV(c, x.V, y.V)}
	case IterV:
		if y, ok := b.(IterV); ok && x == y {
			return x
		}
	case FuncV:
		y, ok := b.(FuncV)
		if ok && x.Fn == y.Fn && x.B == y.B && x.Intr == y.Intr && len(x.Bind) == len(y.Bind) && len(x.IArgs) == len(y.IArgs) && len(x.Bind)+len(x.IArgs) == 0 {
			return x
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			break
		}
		if x == y {
			return x
		}
		n := &StructV{F: make([]Value, len(x.F))}
		for i := range x.F {
			n.F[i] = s.mergeV(c, x.F[i], y.F[i])
		}
		return n
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			break
		}
		n := make(TupleV, len(x))
		for i := range x {
			n[i] = s.mergeV(c, x[i], y[i])
		}
		return n
	}
	panic(noMerge{})
}
