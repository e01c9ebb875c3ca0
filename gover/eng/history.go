package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// History decides, for a method with a pointer receiver, that its result does
// not depend on what the receiver went through before: every field is either
// never stored to by the method, or stored to before it is read, on every
// path. It returns the reasons why not.
//
// The receiver may only be used to load and store fields and to call methods
// with a known body.
type History struct {
	p       *Prog
	repo    string
	stored  map[int]bool
	early   map[int]string // fields read before they are stored
	bad     []string
	memo    map[*ssa.Function]*histSum
	globals map[*ssa.Global]bool // stored outside initialization
}

type histSum struct {
	busy   bool
	reads  map[int]string // read before a store
	writes map[int]bool   // stored on every path
}

// NewHistory starts an analysis.
func NewHistory(p *Prog, repo string) *History {
	h := &History{p: p, repo: repo, stored: map[int]bool{}, early: map[int]string{}, memo: map[*ssa.Function]*histSum{}, globals: map[*ssa.Global]bool{}}
	for _, fn := range p.Functions(func(path string) bool { return strings.HasPrefix(path, repo) }) {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil {
						h.globals[g] = true
					}
				}
			}
		}
	}
	return h
}

func rootGlobal(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X)
	case *ssa.IndexAddr:
		return rootGlobal(x.X)
	}
	return nil
}

// Check analyses a method; it returns the reasons why its result may depend on
// history.
func (h *History) Check(fn *ssa.Function) []string {
	s := h.sum(fn)
	st, ok := fn.Params[0].Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return []string{"the receiver is no struct"}
	}
	for f, where := range s.reads {
		name := st.Field(f).Name()
		if h.stored[f] {
			h.bad = append(h.bad, fmt.Sprintf("field %s may be read before it is stored: %s", name, where))
		} else if !h.immutable(st.Field(f).Type()) {
			h.bad = append(h.bad, fmt.Sprintf("field %s refers to memory which may change: %s", name, where))
		}
	}
	return h.bad
}

// immutable tells whether nothing reachable from a value of the type can be
// written by the library.
func (h *History) immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), h.repo)
	case *types.Interface:
		return true // year operators: values without state
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !h.immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (h *History) sum(fn *ssa.Function) *histSum {
	if s := h.memo[fn]; s != nil {
		if s.busy {
			h.bad = append(h.bad, "recursion in "+fn.String())
		}
		return s
	}
	s := &histSum{busy: true, reads: map[int]string{}, writes: map[int]bool{}}
	h.memo[fn] = s
	recv := fn.Params[0]
	// uses of the receiver
	for _, r := range *recv.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp, *ssa.BinOp, *ssa.If:
			_ = x
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				h.bad = append(h.bad, "the receiver is copied in "+fn.String())
			}
		case ssa.CallInstruction:
			c := x.Common()
			callee := c.StaticCallee()
			ok := callee != nil && len(callee.Blocks) > 0 && len(c.Args) > 0 && c.Args[0] == ssa.Value(recv)
			for i, a := range c.Args {
				if i > 0 && a == ssa.Value(recv) {
					ok = false
				}
			}
			if _, isCall := r.(*ssa.Call); !ok || !isCall {
				h.bad = append(h.bad, "the receiver escapes at "+h.p.Fset.Position(r.Pos()).String())
			}
		default:
			h.bad = append(h.bad, fmt.Sprintf("the receiver escapes at %s", h.p.Fset.Position(r.Pos())))
		}
	}
	// field of an address, and whether it is the whole field
	field := func(v ssa.Value) (int, bool, bool) {
		whole := true
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				if x.X == ssa.Value(recv) {
					return x.Field, whole, true
				}
				v, whole = x.X, false
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					return 0, false, false
				}
				v, whole = x.X, false
			default:
				return 0, false, false
			}
		}
	}
	// fields which only get constants: their values keep the states apart
	notConst := map[int]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if f, whole, ok := field(st.Addr); ok {
					if _, isC := histConst(st.Val); !isC || !whole {
						notConst[f] = true
					}
				}
			}
		}
	}
	flow := func(b *ssa.BasicBlock, d0 *histState, final bool) *histState {
		st := d0.clone()
		d2 := st.def
		read := func(f int, pos token.Pos) {
			if !d2[f] && final {
				if _, ok := s.reads[f]; !ok {
					s.reads[f] = h.p.Fset.Position(pos).String()
				}
			}
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if f, whole, ok := field(x.Addr); ok {
					h.stored[f] = true
					if whole {
						d2[f] = true
					}
					delete(st.cst, f)
					if n, ok := histConst(x.Val); ok && !notConst[f] {
						st.cst[f] = n
					}
				}
				if f, _, ok := field(x.Val); ok {
					h.stored[f] = true
					read(f, i.Pos())
				}
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if f, whole, ok := field(x.X); ok {
						read(f, x.Pos())
						delete(st.env, x)
						if n, ok := st.cst[f]; ok && whole {
							st.env[x] = n
						}
					}
					if g := rootGlobal(x.X); g != nil && h.globals[g] && final {
						h.bad = append(h.bad, "the variable "+g.String()+" is written outside initialization")
					}
					continue
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
				continue
			case ssa.CallInstruction:
				c := x.Common()
				if callee := c.StaticCallee(); callee != nil && len(callee.Blocks) > 0 && len(c.Args) > 0 && c.Args[0] == ssa.Value(recv) {
					cs := h.sum(callee)
					for f := range cs.reads {
						read(f, i.Pos())
					}
					for f := range cs.writes {
						d2[f] = true
					}
					st.cst = map[int]int64{}
				}
			}
			// addresses of fields used in any other way
			for _, op := range i.Operands(nil) {
				if *op == nil {
					continue
				}
				if f, _, ok := field(*op); ok {
					if _, isAddr := i.(*ssa.FieldAddr); !isAddr {
						h.stored[f] = true
						delete(st.cst, f)
						notConst[f] = true
						read(f, i.Pos())
					}
				}
			}
		}
		return st
	}
	if len(fn.Blocks) == 0 {
		h.bad = append(h.bad, "no body: "+fn.String())
		s.busy = false
		return s
	}
	type pt struct {
		b   *ssa.BasicBlock
		key string
	}
	in := map[pt]*histState{}
	var order, work []pt
	push := func(b *ssa.BasicBlock, st *histState) {
		p := pt{b, fmt.Sprint(st.cst)}
		old := in[p]
		if old == nil {
			in[p] = st
			order = append(order, p)
			work = append(work, p)
			return
		}
		if m := old.clone(); m.meet(st) {
			in[p] = m
			work = append(work, p)
		}
	}
	push(fn.Blocks[0], &histState{map[int]bool{}, map[int]int64{}, map[ssa.Value]int64{}})
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		out := flow(p.b, in[p], false)
		succs := p.b.Succs
		if br, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
			if cmp, ok := br.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
				x, okx := out.value(cmp.X)
				y, oky := out.value(cmp.Y)
				if okx && oky {
					if (x == y) == (cmp.Op == token.EQL) {
						succs = succs[:1]
					} else {
						succs = succs[1:]
					}
				}
			}
		}
		for _, nb := range succs {
			push(nb, out.clone())
		}
	}
	first := true
	for _, p := range order {
		out := flow(p.b, in[p], true).def
		if _, isRet := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.Return); isRet {
			if first {
				s.writes, first = out, false
			} else {
				for k := range s.writes {
					if !out[k] {
						delete(s.writes, k)
					}
				}
			}
		}
	}
	s.busy = false
	return s
}

// histState is what is known at a point of a method.
type histState struct {
	def map[int]bool        // fields stored on every path
	cst map[int]int64       // values of fields
	env map[ssa.Value]int64 // values of registers
}

func (s *histState) clone() *histState {
	c := &histState{map[int]bool{}, map[int]int64{}, map[ssa.Value]int64{}}
	for k, v := range s.def {
		c.def[k] = v
	}
	for k, v := range s.cst {
		c.cst[k] = v
	}
	for k, v := range s.env {
		c.env[k] = v
	}
	return c
}

// meet keeps what holds in both states; it tells whether something was lost.
func (s *histState) meet(o *histState) bool {
	ch := false
	for k := range s.def {
		if !o.def[k] {
			delete(s.def, k)
			ch = true
		}
	}
	for k, v := range s.env {
		if w, ok := o.env[k]; !ok || v != w {
			delete(s.env, k)
			ch = true
		}
	}
	return ch
}

func (s *histState) value(v ssa.Value) (int64, bool) {
	if n, ok := histConst(v); ok {
		return n, true
	}
	n, ok := s.env[v]
	return n, ok
}

func histConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}
