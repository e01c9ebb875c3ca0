package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program.
type Prog struct {
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package
	Fset  *token.FileSet
	info  map[*ssa.Function]*fnInfo
	enumF map[fieldKey]*enumVar
	Repo  string // import path prefix of the code under proof
	Spec  string
	enums []*enumVar
	compC map[*ssa.Function]map[*enumVar][]cmpC
}

type fieldKey struct {
	t *types.Struct
	i int
}

type cmpC struct {
	op  token.Token
	k   int64
	tgt *ssa.BasicBlock // where control goes when equal, if that is all the comparison decides
}

type enumVar struct {
	id   int
	name string
	cmps []cmpC
	cidx map[cmpC]int
}

// Load loads the packages matching the patterns in dir.
func Load(dir, repo, spec string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{SSA: prog, Pkgs: map[string]*ssa.Package{}, Fset: prog.Fset, info: map[*ssa.Function]*fnInfo{}, enumF: map[fieldKey]*enumVar{}, Repo: repo, Spec: spec, compC: map[*ssa.Function]map[*enumVar][]cmpC{}}
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
		if p.inSource(pk.Pkg.Path()) {
			pk.Build()
		}
	}
	p.findEnums()
	return p, nil
}

// inSource tells whether the functions of a package are executed from source.
func (p *Prog) inSource(path string) bool {
	return strings.HasPrefix(path, p.Repo) || strings.HasPrefix(path, p.Spec) ||
		strings.HasPrefix(path, "github.com/leodido/ragel-machinery")
}

// Functions returns the functions of the source packages, in a stable order.
func (p *Prog) Functions(f func(path string) bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Pkg != nil && f(fn.Pkg.Pkg.Path()) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// constWeb tells whether v is made of constants through phis.
func constWeb(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := constInt(v); ok {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if !constWeb(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// mixedPhis are the phis which are not made of constants only.
func mixedPhis(fn *ssa.Function) map[*ssa.Phi]bool {
	bad := map[*ssa.Phi]bool{}
	var mark func(ph *ssa.Phi)
	mark = func(ph *ssa.Phi) {
		if bad[ph] {
			return
		}
		bad[ph] = true
		for _, u := range *ph.Referrers() {
			if q, ok := u.(*ssa.Phi); ok {
				mark(q)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range ph.Edges {
				if _, ok := e.(*ssa.Phi); ok {
					continue
				}
				if _, ok := constInt(e); !ok {
					mark(ph)
					break
				}
			}
		}
	}
	return bad
}

// findEnums finds the struct fields which are only assigned constants and only
// compared with constants.
func (p *Prog) findEnums() {
	type fi struct {
		ok    bool
		cmps  []cmpC
		loads []ssa.Value
		st    bool
	}
	fields := map[fieldKey]*fi{}
	var keys []fieldKey
	fns := p.Functions(p.inSource)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				ft := st.Field(fa.Field).Type()
				if s, ok := scalarSort(ft); !ok || s != SInt {
					continue
				}
				k := fieldKey{st, fa.Field}
				x := fields[k]
				if x == nil {
					x = &fi{ok: true}
					fields[k] = x
					keys = append(keys, k)
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != ssa.Value(fa) || !constWeb(r.Val, map[ssa.Value]bool{}) {
							x.ok = false
						}
						x.st = true
					case *ssa.UnOp:
						for _, u := range *r.Referrers() {
							if c, ok := cmpOf(r, u); ok {
								x.cmps = append(x.cmps, c)
							} else if _, ok := u.(*ssa.DebugRef); !ok {
								x.ok = false
							}
						}
					case *ssa.DebugRef:
					default:
						x.ok = false
					}
				}
			}
		}
	}
	for _, k := range keys {
		x := fields[k]
		if !x.ok || !x.st || len(x.cmps) == 0 {
			continue
		}
		ev := &enumVar{id: len(p.enums), name: k.t.Field(k.i).Name(), cidx: map[cmpC]int{}}
		for _, c := range x.cmps {
			ev.add(c)
		}
		p.enums = append(p.enums, ev)
		p.enumF[k] = ev
	}
}

func (ev *enumVar) add(c cmpC) int {
	if i, ok := ev.cidx[c]; ok {
		return i
	}
	ev.cidx[c] = len(ev.cmps)
	ev.cmps = append(ev.cmps, c)
	return len(ev.cmps) - 1
}

func cmpOf(v ssa.Value, u ssa.Instruction) (cmpC, bool) {
	b, ok := u.(*ssa.BinOp)
	if !ok {
		return cmpC{}, false
	}
	switch b.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return cmpC{}, false
	}
	op := b.Op
	if op == token.NEQ {
		op = token.EQL
	}
	if b.X == v {
		if k, ok := constInt(b.Y); ok {
			return cmpC{op, k, eqTarget(b)}, true
		}
	}
	if b.Y == v {
		if k, ok := constInt(b.X); ok {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
			return cmpC{op, k, eqTarget(b)}, true
		}
	}
	return cmpC{}, false
}

// eqTarget returns the block which runs when both sides are equal.
func eqTarget(b *ssa.BinOp) *ssa.BasicBlock {
	if b.Op != token.EQL && b.Op != token.NEQ {
		return nil
	}
	var tgt *ssa.BasicBlock
	for _, r := range *b.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			if tgt != nil {
				return nil
			}
			tgt = r.Block().Succs[0]
			if b.Op == token.NEQ {
				tgt = r.Block().Succs[1]
			}
		default:
			return nil
		}
	}
	if tgt == nil {
		return nil
	}
	if _, ok := tgt.Instrs[0].(*ssa.Phi); ok {
		return nil
	}
	return tgt
}

func (c cmpC) test(v int64) bool {
	switch c.op {
	case token.EQL:
		return v == c.k
	case token.LSS:
		return v < c.k
	case token.LEQ:
		return v <= c.k
	case token.GTR:
		return v > c.k
	}
	return v >= c.k
}

type bitset []uint64

func newBits(n int) bitset { return make(bitset, (n+63)/64) }
func (b bitset) set(i int) { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) has(i int) bool {
	return i>>6 < len(b) && b[i>>6]>>(uint(i)&63)&1 == 1
}
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range c {
		if n := b[i] | c[i]; n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

// fnInfo is what the engine knows about a function.
type fnInfo struct {
	scc     []int
	fn      *ssa.Function
	regions map[int]*region
	pdom    []int
	big     bool
	cut     []bool
	loop    []bool
	regs    []ssa.Value
	regIdx  map[ssa.Value]int
	live    []bitset // live registers at block entry (after phis)
	web     map[ssa.Value]*enumVar
	webs    []*enumVar
	reach   map[*enumVar][]bitset // comparisons reachable from the block
	nblocks int
}

const bigBlocks = 150

// justReturns tells whether a block has nothing but a return.
func justReturns(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func startsWithPhi(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func (p *Prog) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := p.info[fn]; ok {
		return i
	}
	n := len(fn.Blocks)
	fi := &fnInfo{fn: fn, big: n > bigBlocks, cut: make([]bool, n), loop: make([]bool, n), regIdx: map[ssa.Value]int{}, web: map[ssa.Value]*enumVar{}, reach: map[*enumVar][]bitset{}, nblocks: n}
	p.info[fn] = fi
	// loop heads by depth first search
	state := make([]uint8, n)
	type it struct {
		b *ssa.BasicBlock
		i int
	}
	st := []it{{fn.Blocks[0], 0}}
	state[0] = 1
	for len(st) > 0 {
		x := &st[len(st)-1]
		if x.i < len(x.b.Succs) {
			s := x.b.Succs[x.i]
			x.i++
			switch state[s.Index] {
			case 0:
				state[s.Index] = 1
				st = append(st, it{s, 0})
			case 1:
				fi.loop[s.Index] = true
			}
		} else {
			state[x.b.Index] = 2
			st = st[:len(st)-1]
		}
	}
	for i, b := range fn.Blocks {
		// (values which differ by path are not joined: they are soon used)
		fi.cut[i] = fi.loop[i] || fi.big && len(b.Preds) > 1 && !startsWithPhi(b) && !justReturns(b)
	}
	// liveness
	reg := func(v ssa.Value) int {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			return -1
		}
		if i, ok := fi.regIdx[v]; ok {
			return i
		}
		i := len(fi.regs)
		fi.regIdx[v] = i
		fi.regs = append(fi.regs, v)
		return i
	}
	for _, pa := range fn.Params {
		reg(pa)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	nr := len(fi.regs)
	gen := make([]bitset, n)
	kill := make([]bitset, n)
	out := make([]bitset, n)
	fi.live = make([]bitset, n)
	var ops [10]*ssa.Value
	for i, b := range fn.Blocks {
		gen[i], kill[i], out[i], fi.live[i] = newBits(nr), newBits(nr), newBits(nr), newBits(nr)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue // phis are defined before the block entry we consider
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, o := range in.Operands(ops[:0]) {
				if *o == nil {
					continue
				}
				if r := reg(*o); r >= 0 && !kill[i].has(r) {
					gen[i].set(r)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				kill[i].set(reg(v))
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			for _, s := range b.Succs {
				// live into s minus its phis, plus the phi operands of this edge
				t := append(bitset(nil), fi.live[s.Index]...)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					r := fi.regIdx[ph]
					t[r>>6] &^= 1 << (uint(r) & 63)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, pr := range s.Preds {
						if pr == b {
							if r := reg(ph.Edges[pi]); r >= 0 {
								t.set(r)
							}
						}
					}
				}
				out[i].or(t)
			}
			t := append(bitset(nil), out[i]...)
			for k := range t {
				t[k] = t[k]&^kill[i][k] | gen[i][k]
			}
			if fi.live[i].or(t) {
				ch = true
			}
		}
	}
	// enum webs of phis
	bad := mixedPhis(fn)
	constWeb := func(v ssa.Value) bool {
		if ph, ok := v.(*ssa.Phi); ok {
			return !bad[ph]
		}
		_, ok := constInt(v)
		return ok
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if fi.web[ph] != nil || !constWeb(ph) {
				continue
			}
			if s, ok := scalarSort(ph.Type()); !ok || s != SInt {
				continue
			}
			seen := map[ssa.Value]bool{}
			var cs []cmpC
			okw := true
			var visit func(v ssa.Value)
			visit = func(v ssa.Value) {
				if seen[v] {
					return
				}
				seen[v] = true
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.Phi:
						if !constWeb(u) {
							okw = false
							return
						}
						visit(u)
					case *ssa.DebugRef:
					default:
						if c, ok := cmpOf(v, u); ok {
							cs = append(cs, c)
						} else if _, ok := u.(*ssa.Call); !ok {
							okw = okw && false
						}
					}
				}
				if p, ok := v.(*ssa.Phi); ok {
					for _, e := range p.Edges {
						if q, ok := e.(*ssa.Phi); ok {
							visit(q)
						}
					}
				}
			}
			visit(ph)
			if !okw || len(cs) == 0 {
				continue
			}
			ev := &enumVar{id: -1, name: ph.Name(), cidx: map[cmpC]int{}}
			for _, c := range cs {
				ev.add(c)
			}
			for v := range seen {
				fi.web[v] = ev
			}
			fi.webs = append(fi.webs, ev)
		}
	}
	return fi
}

// callCmps returns the comparisons with enum fields made by fn and its callees.
func (p *Prog) callCmps(fn *ssa.Function) map[*enumVar][]cmpC {
	if r, ok := p.compC[fn]; ok {
		return r
	}
	r := map[*enumVar][]cmpC{}
	p.compC[fn] = r
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if ev := p.enumF[fieldKey{fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), fa.Field}]; ev != nil {
					for _, u := range *fa.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							for _, w := range *ld.Referrers() {
								if c, ok := cmpOf(ld, w); ok {
									r[ev] = append(r[ev], c)
								}
							}
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && p.inSource(g.Pkg.Pkg.Path()) {
					for ev, cs := range p.callCmps(g) {
						r[ev] = append(r[ev], cs...)
					}
				}
			}
		}
	}
	return r
}

// reachCmps returns, for an enum variable, the comparisons reachable from each
// block of fn.
func (p *Prog) reachCmps(fn *ssa.Function, ev *enumVar) []bitset {
	fi := p.fnInfo(fn)
	if r, ok := fi.reach[ev]; ok {
		return r
	}
	n := len(fn.Blocks)
	r := make([]bitset, n)
	for i, b := range fn.Blocks {
		r[i] = newBits(len(ev.cmps))
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if fi.web[v] == ev || p.enumOfLoad(v) == ev {
						if c, ok := cmpOf(v, bo); ok {
							r[i].set(ev.cidx[c])
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && p.inSource(g.Pkg.Pkg.Path()) {
					for _, x := range p.callCmps(g)[ev] {
						r[i].set(ev.cidx[x])
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			for _, s := range fn.Blocks[i].Succs {
				if r[i].or(r[s.Index]) {
					ch = true
				}
			}
		}
	}
	fi.reach[ev] = r
	return r
}

func (p *Prog) enumOfLoad(v ssa.Value) *enumVar {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return p.enumF[fieldKey{fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), fa.Field}]
}

// isCtl tells whether a field is tagged as a control field of a specification.
func isCtl(st *types.Struct, i int) bool {
	return reflect.StructTag(st.Tag(i)).Get("gv") == "ctl"
}

// Lookup returns a function or, as TYPE.METHOD, a method of a pointer type.
func (p *Prog) Lookup(path, name string) *ssa.Function {
	tn, m, ok := strings.Cut(name, ".")
	if !ok {
		return p.Func(path, name)
	}
	pk := p.Pkgs[path]
	t, ok := pk.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	return p.SSA.LookupMethod(types.NewPointer(t.Type()), pk.Pkg, m)
}
