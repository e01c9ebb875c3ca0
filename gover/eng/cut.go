package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Cut is a program point with an inductive invariant: a template of the state
// over symbols, and facts about them.
type Cut struct {
	n     int
	key   string
	desc  string
	st    *State // template
	slots []*Term
	names []string
	f     *Facts
	joins int
	ver   int
	dirty bool
	rank  []int
	runs  int
	by    map[int]int // joins of each predecessor
	wide  int         // the largest of them
}

// widening is the stage of the widening: the largest number of joins from one
// predecessor, or a fraction of the number of all joins.
func (c *Cut) widening() int { return max(c.wide, c.joins/8) }

func (c *Cut) name() string {
	if c == nil {
		return "entry"
	}
	return fmt.Sprintf("cut %d (%s)", c.n, c.desc)
}

// walker visits a state in canonical order and rebuilds it.
type walker struct {
	s     *State
	e     *Eng
	key   strings.Builder
	f     func(t *Term, name string) *Term
	names []string
	ids   map[int]int
	out   map[int]*Obj
	n     int
	queue []int
	bld   bool
	enumR func(ev *enumVar) bitset
	tn    map[string]int
	whl   []bool // the answers of whole
}

func (w *walker) term(t *Term, name string) *Term { return w.f(t, name) }

func (w *walker) ref(id int, name string) int {
	if id == 0 {
		w.key.WriteString("0")
		return 0
	}
	if id < 0 {
		if _, ok := w.s.heap[id]; !ok {
			fmt.Fprintf(&w.key, "g%d", -id)
			return id
		}
	}
	if n, ok := w.ids[id]; ok {
		fmt.Fprintf(&w.key, "#%d", n)
		return n
	}
	var n int
	if id < 0 {
		n = id
	} else {
		w.n++
		n = w.n
	}
	w.ids[id] = n
	fmt.Fprintf(&w.key, "@%d", n)
	w.queue = append(w.queue, id)
	w.namesOf(id, name)
	return n
}

var objNames map[int]string

func (w *walker) namesOf(id int, name string) {}

func (w *walker) enum(ev *enumVar, x *Term) {
	w.enumKey(ev, x, w.enumR(ev))
}

// enumKey writes what the comparisons in r make of the value.
func (w *walker) enumKey(ev *enumVar, x *Term, r bitset) {
	x = w.s.f.canon(x)
	vs := w.s.f.iset[x]
	if k, ok := x.IsK(); ok {
		vs = []int64{k}
	}
	w.key.WriteString("e")
	if vs == nil {
		w.key.WriteString("?")
		return
	}
	done := map[string]bool{}
	for _, k := range vs {
		var b strings.Builder
		var tg []*ssa.BasicBlock
		for i, c := range ev.cmps {
			if r.has(i) && c.test(k) {
				if c.tgt == nil {
					fmt.Fprintf(&b, "%d,", i)
					continue
				}
				dup := false
				for _, t := range tg {
					dup = dup || t == c.tgt
				}
				if !dup {
					tg = append(tg, c.tgt)
					fmt.Fprintf(&b, "%s.%d,", c.tgt.Parent().Name(), c.tgt.Index)
				}
			}
		}
		done[b.String()] = true
	}
	for _, k := range sortedKeys(done) {
		w.key.WriteString("{" + k + "}")
	}
}

func (w *walker) value(v Value, t types.Type, name string) Value {
	switch x := v.(type) {
	case nil:
		w.key.WriteString("_")
		return nil
	case *Term:
		return w.term(x, name)
	case PtrV:
		if x.NilC != nil && x.Path != elemMark {
			if v, a := w.s.f.eval(x.NilC); a == nil {
				x.NilC = nil
				if v {
					x = PtrV{}
				}
			}
		}
		w.key.WriteString("p")
		n := w.ref(x.Obj, name)
		w.key.WriteString(x.Path)
		r := PtrV{Obj: n, Path: x.Path}
		if x.NilC != nil {
			w.key.WriteString("?")
			r.NilC = w.term(x.NilC, name+".nil")
		}
		return r
	case SliceV:
		w.key.WriteString("s")
		if x.Obj == 0 {
			w.key.WriteString("0")
			return x
		}
		n := w.ref(x.Obj, name)
		if x.Path == "" && w.whole(x) {
			w.key.WriteString("=")
			return SliceV{Obj: n, Off: x.Off, Cap: w.term(x.Cap, name+".cap")}
		}
		return SliceV{Obj: n, Path: x.Path, Off: w.term(x.Off, name+".off"), Len: w.term(x.Len, name+".len"), Cap: w.term(x.Cap, name+".cap")}
	case MapV:
		w.key.WriteString("m")
		if x.Obj != 0 {
			y := w.s.resolveView(x)
			if x.Key == nil {
				x = y
			} else if y.Obj != x.Obj {
				x = MapV{Obj: y.Obj, Key: x.Key}
			}
		}
		n := w.ref(x.Obj, name)
		r := MapV{Obj: n}
		if x.Key != nil {
			w.key.WriteString("v")
			r.Key = w.term(x.Key, name+".key")
		}
		return r
	case IfaceV:
		if x.T == nil {
			w.key.WriteString("i0")
			return x
		}
		fmt.Fprintf(&w.key, "i(%s)", x.T.String())
		return IfaceV{T: x.T, V: w.value(x.V, x.T, name)}
	case FuncV:
		if x.Fn != nil {
			fmt.Fprintf(&w.key, "f(%s", x.Fn.String())
		} else {
			fmt.Fprintf(&w.key, "f(%s", x.Intr)
		}
		r := FuncV{Fn: x.Fn, B: x.B, Intr: x.Intr}
		for i, b := range x.Bind {
			r.Bind = append(r.Bind, w.value(b, nil, fmt.Sprintf("%s.b%d", name, i)))
		}
		for i, b := range x.IArgs {
			r.IArgs = append(r.IArgs, w.value(b, nil, fmt.Sprintf("%s.a%d", name, i)))
		}
		w.key.WriteString(")")
		return r
	case TupleV:
		r := make(TupleV, len(x))
		for i, f := range x {
			var ft types.Type
			if tt, ok := t.(*types.Tuple); ok {
				ft = tt.At(i).Type()
			}
			r[i] = w.value(f, ft, fmt.Sprintf("%s.%d", name, i))
		}
		return r
	case IterV:
		w.key.WriteString("r")
		return IterV{w.ref(x.Obj, name)}
	case *StructV:
		r := &StructV{F: make([]Value, len(x.F))}
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		for i, f := range x.F {
			var ft types.Type
			nm := fmt.Sprintf("%s.%d", name, i)
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
				nm = name + "." + st.Field(i).Name()
				if tm, ok := f.(*Term); ok {
					if isCtl(st, i) {
						w.key.WriteString("c" + tm.String() + ";")
					} else if ev := w.e.p.enumF[fieldKey{st, i}]; ev != nil {
						w.enum(ev, tm)
						nm += "~e"
					} else if v, ok := tm.IsK(); ok && w.e.Ctl[st.Field(i).Pkg().Path()+"."+st.Field(i).Name()] {
						fmt.Fprintf(&w.key, "c%d;", v)
					}
				}
			} else if t != nil {
				if at, ok := t.Underlying().(*types.Array); ok {
					ft = at.Elem()
				}
			}
			r.F[i] = w.value(f, ft, nm)
		}
		return r
	}
	panic(unsupported("canonical form of %T", v))
}

// whole tells whether a slice is all of its object: its length is the length
// of the object then, which need not be generalised on its own.
func (w *walker) whole(x SliceV) (r bool) {
	if w.s.wholes != nil { // the same as when the cut point was made
		r = w.s.wholes[len(w.whl)]
		w.whl = append(w.whl, r)
		return r
	}
	defer func() { w.whl = append(w.whl, r) }()
	o := w.s.obj(x.Obj)
	c, ok := o.Val.(*Term)
	if o.Kind != KSeq || !ok || x.Off != w.e.t.Zero {
		return false
	}
	n := w.e.t.Len(c)
	return n == x.Len || w.s.f.canon(n) == w.s.f.canon(x.Len)
}

// fillLens sets the lengths of the slices which are all of their objects.
func (w *walker) fillLens(n *State) {
	f := func(v Value) Value {
		return mapSlices(v, func(x SliceV) SliceV {
			if x.Obj != 0 && x.Len == nil {
				o := w.out[x.Obj]
				if o == nil {
					o = w.s.obj(x.Obj)
				}
				x.Len = w.e.t.Len(o.Val.(*Term))
			}
			return x
		})
	}
	for _, fr := range n.fr {
		for r, v := range fr.regs {
			fr.regs[r] = f(v)
		}
		for i, b := range fr.bind {
			fr.bind[i] = f(b)
		}
		for k, v := range fr.pre {
			fr.pre[k] = f(v)
		}
		for _, d := range fr.defer_ {
			for i, a := range d.args {
				d.args[i] = f(a)
			}
		}
	}
	for i := range n.ghosts {
		n.ghosts[i].Spec = f(n.ghosts[i].Spec)
	}
	for _, o := range w.out {
		o.Val = f(o.Val)
	}
}

// mapSlices replaces the slices in a value.
func mapSlices(v Value, f func(SliceV) SliceV) Value {
	switch x := v.(type) {
	case SliceV:
		return f(x)
	case IfaceV:
		if x.T != nil {
			x.V = mapSlices(x.V, f)
		}
		return x
	case FuncV:
		for i, b := range x.Bind {
			x.Bind[i] = mapSlices(b, f)
		}
		for i, b := range x.IArgs {
			x.IArgs[i] = mapSlices(b, f)
		}
		return x
	case TupleV:
		for i, b := range x {
			x[i] = mapSlices(b, f)
		}
		return x
	case *StructV:
		for i, b := range x.F {
			x.F[i] = mapSlices(b, f)
		}
		return x
	}
	return v
}

// walk rebuilds the state at a cut point.
func (e *Eng) walk(s *State, f func(t *Term, name string) *Term) (*State, string, []string) {
	w := &walker{s: s, e: e, f: f, ids: map[int]int{}, out: map[int]*Obj{}}
	n := *s
	n.fr = nil
	n.trailT = nil
	n.forks = 0
	n.steps = 0
	w.enumR = func(ev *enumVar) bitset {
		r := newBits(len(ev.cmps))
		if ev.id < 0 {
			return r
		}
		for i, fr := range s.fr {
			if fr.fn.Pkg != nil && strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), e.p.Spec) && i < len(s.fr)-1 {
				continue
			}
			r.or(e.p.reachCmps(fr.fn, ev)[fr.blk.Index])
		}
		return r
	}
	top := len(s.fr) - 1
	for i, fr := range s.fr {
		g := &Frame{fn: fr.fn, info: fr.info, blk: fr.blk, ip: fr.ip, call: fr.call, retTo: fr.retTo, preKey: fr.preKey, regs: map[ssa.Value]Value{}}
		fmt.Fprintf(&w.key, "|%s:%d.%d", fr.fn.String(), fr.blk.Index, fr.ip)
		if i == top {
			for k, r := range fr.info.regs {
				if !fr.info.live[fr.blk.Index].has(k) {
					continue
				}
				v, ok := fr.regs[r]
				if !ok {
					continue
				}
				fmt.Fprintf(&w.key, ",%d", k)
				if ev := fr.info.web[r]; ev != nil {
					if tm, ok := v.(*Term); ok {
						w.enumKey(ev, tm, e.p.reachCmps(fr.fn, ev)[fr.blk.Index])
					}
				}
				if tm, ok := v.(*Term); ok && tm.srt == SBool {
					// outcomes which are known are kept apart
					if b, a := s.f.eval(tm); a == nil {
						fmt.Fprintf(&w.key, "b%t", b)
					}
				}
				nm := fmt.Sprintf("f%d.%s", i, r.Name())
				if fr.info.web[r] != nil {
					nm += "~e"
				}
				g.regs[r] = w.value(v, r.Type(), nm)
			}
		} else {
			// live after the call in progress
			lv := liveAfter(fr)
			for k, r := range fr.info.regs {
				if !lv.has(k) {
					continue
				}
				v, ok := fr.regs[r]
				if !ok {
					continue
				}
				fmt.Fprintf(&w.key, ",%d", k)
				g.regs[r] = w.value(v, r.Type(), fmt.Sprintf("f%d.%s", i, r.Name()))
			}
		}
		for bi, b := range fr.bind {
			g.bind = append(g.bind, w.value(b, fr.fn.FreeVars[bi].Type(), fmt.Sprintf("f%d.bind%d", i, bi)))
		}
		for _, k := range sortedKeys(fr.pre) {
			if g.pre == nil {
				g.pre = map[string]Value{}
			}
			w.key.WriteString("P" + k)
			g.pre[k] = w.value(fr.pre[k], nil, fmt.Sprintf("f%d.pre%s", i, k))
		}
		for di, d := range fr.defer_ {
			w.key.WriteString("D")
			nd := deferred{call: d.call, fn: w.value(d.fn, nil, "d")}
			for _, a := range d.args {
				nd.args = append(nd.args, w.value(a, nil, fmt.Sprintf("f%d.d%d", i, di)))
			}
			g.defer_ = append(g.defer_, nd)
		}
		n.fr = append(n.fr, g)
	}
	w.key.WriteString("|G")
	n.ghosts = make([]Ghost, len(s.ghosts))
	for i, g := range s.ghosts {
		ng := g
		ng.Base = w.term(g.Base, fmt.Sprintf("ghost%d.base", i))
		ng.Idx = w.term(g.Idx, fmt.Sprintf("ghost%d.idx", i))
		ng.Spec = w.value(g.Spec, nil, fmt.Sprintf("ghost%d.spec", i))
		w.key.WriteString("g")
		if g.Done {
			w.key.WriteString("d")
		}
		n.ghosts[i] = ng
	}
	// globals written
	var gl []int
	for id := range s.heap {
		if id < 0 {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		w.ref(id, "global")
	}
	if s.mon != nil {
		n.mon = map[string]*Term{}
		for _, k := range sortedKeys(s.mon) {
			w.key.WriteString("M" + k)
			n.mon[k] = w.term(s.mon[k], "mon."+k)
		}
	}
	for len(w.queue) > 0 {
		id := w.queue[0]
		w.queue = w.queue[1:]
		o := *s.obj(id)
		o.ID = w.ids[id]
		nm := w.objName(&o)
		fmt.Fprintf(&w.key, "|o%d.%d.%s", o.ID, o.Kind, o.Frame)
		if o.Typ != nil && o.Kind == KCell {
			w.key.WriteString(o.Typ.String())
		}
		if o.Epoch == s.epoch {
			w.key.WriteString("n")
			o.Epoch = 1
		} else {
			o.Epoch = 0
		}
		if o.Kind == KCell {
			o.Val = w.value(o.Val, o.Typ, nm)
		} else {
			o.Val = w.value(o.Val, nil, nm)
		}
		w.out[o.ID] = &o
	}
	w.fillLens(&n)
	n.wholes = w.whl
	n.epoch = 1
	n.heap = w.out
	n.ownH = true
	n.next = w.n
	return &n, w.key.String(), nil
}

// objName names an object by its type, so that it has the same name at
// different cut points.
func (w *walker) objName(o *Obj) string {
	ty := "seq"
	if o.Kind == KCell && o.Typ != nil {
		ty = types.TypeString(o.Typ, func(p *types.Package) string { return p.Name() })
	}
	if w.tn == nil {
		w.tn = map[string]int{}
	}
	w.tn[ty]++
	return fmt.Sprintf("%s#%d", ty, w.tn[ty])
}

func liveAfter(fr *Frame) bitset {
	// registers live just after instruction ip: those live out of the block and
	// used by the rest of the block
	fi := fr.info
	r := newBits(len(fi.regs))
	for _, s := range fr.blk.Succs {
		// (what is live after the phis, less the phis)
		t := append(bitset(nil), fi.live[s.Index]...)
		for _, in := range s.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			if k, ok := fi.regIdx[in.(ssa.Value)]; ok {
				t[k>>6] &^= 1 << (uint(k) & 63)
			}
		}
		r.or(t)
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for pi, p := range s.Preds {
				if p == fr.blk {
					if i, ok := fi.regIdx[ph.Edges[pi]]; ok {
						r.set(i)
					}
				}
			}
		}
	}
	var ops [10]*ssa.Value
	for k := len(fr.blk.Instrs) - 1; k >= fr.ip; k-- {
		in := fr.blk.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			if i, ok := fi.regIdx[v]; ok {
				r[i>>6] &^= 1 << (uint(i) & 63)
			}
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		for _, o := range in.Operands(ops[:0]) {
			if *o == nil {
				continue
			}
			if i, ok := fi.regIdx[*o]; ok {
				r.set(i)
			}
		}
	}
	return r
}

// slotTerm puts a slot in canonical form.
func (s *State) slotTerm(t *Term) *Term {
	switch t.srt {
	case SInt:
		return s.f.canon(s.f.norm(t))
	case SBool:
		if v, a := s.f.eval(t); a == nil {
			return s.e.t.Bool(v)
		}
		return s.f.norm(t)
	case SStr, SSeqI, SSeqS:
		if t.op != OSub || t.args[0].op != OSym {
			t = s.f.norm(t) // a part of the input stays where it is
		} else if lo, hi := s.f.canon(s.f.norm(t.args[1])), s.f.canon(s.f.norm(t.args[2])); lo != t.args[1] || hi != t.args[2] {
			t = s.e.t.rawSub(t.args[0], lo, hi)
		}
		if len(t.segs()) > 0 && s.f.isZero(s.e.t.Len(t)) {
			em := s.e.t.Empty(t.srt)
			if t.op == OSym && s.f.rep[t] == nil {
				s.f.wRep()
				s.f.rep[t] = em
				s.f.renorm()
			}
			return em
		}
		return t
	}
	return s.f.norm(t)
}

// arrive handles a state reaching a cut point.
func (e *Eng) arrive(s *State) {
	s.trim()
	var slots []*Term
	var names []string
	cs, key, _ := e.walk(s, func(t *Term, name string) *Term {
		t = s.slotTerm(t)
		slots = append(slots, t)
		names = append(names, name)
		return t
	})
	c := e.cuts[key]
	if c == nil {
		if e.verify {
			e.noteUnsup("verification reached a new cut point: " + s.where())
			return
		}
		c = &Cut{n: len(e.order) + 1, key: key, desc: s.where(), st: cs, names: names, rank: s.rank()}
		e.cuts[key] = c
		e.order = append(e.order, c)
		if e.traceMatch(c) {
			e.Trace = ""
			fmt.Printf("NEW CUT %d %s\n from %s\n path %s\n", c.n, c.desc, s.from.name(), s.trailText())
			for i, x := range slots {
				fmt.Printf("   %s = %v\n", names[i], x)
			}
			if s.from != nil {
				_ = 0
			}
		}
		e.join(c, slots, s.f, slots, s.f, s, true)
		e.push(c)
		return
	}
	if len(slots) != len(c.slots) {
		panic(unsupported("slots of a cut point differ"))
	}
	j := newAU(e, c, s, c.slots, slots, c.f, s.f)
	if j.subsumes() {
		if e.verify {
			o := e.Obl["invariant"]
			if o == nil {
				o = &Obligation{ID: "invariant"}
				e.Obl["invariant"] = o
			}
			o.N++
			o.Simpl++
			e.recordEdge(s, c, slots, names)
		}
		return
	}
	if e.verify {
		e.noteUnsup("invariant not inductive at " + c.name() + ": " + j.why())
		e.join(c, c.slots, c.f, slots, s.f, s, false)
		e.push(c)
		return
	}
	e.join(c, c.slots, c.f, slots, s.f, s, false)
	e.push(c)
}

// trim forgets the elements of the results of append which no live slice sees.
func (s *State) trim() {
	t := s.e.t
	for _, fr := range s.fr {
		lv := liveAfter(fr)
		for k, r := range fr.info.regs {
			x, ok := fr.regs[r].(SliceV)
			if !ok || !lv.has(k) || x.Obj <= 0 || x.Off != t.Zero {
				continue
			}
			o := s.obj(x.Obj)
			c, ok := o.Val.(*Term)
			if o.Kind != KSeq || !ok || o.Site != "append" || o.Frame != "" || t.Len(c) == x.Len || !s.onlyUpTo(x.Obj, x.Len) {
				continue
			}
			if v := s.firsts(c, x.Len); v != nil {
				n := *o
				n.Val = v
				s.setObj(&n)
			}
		}
	}
}

// firsts is a prefix of a sequence made of whole segments.
func (s *State) firsts(c, n *Term) *Term {
	t := s.e.t
	segs := c.segs()
	at := t.Zero
	for k, g := range segs {
		if s.f.isZero(t.SubI(at, n)) {
			return t.Cat(c.srt, segs[:k]...)
		}
		at = t.Add(at, t.Len(g))
	}
	return nil
}

func (e *Eng) noteUnsup(m string) {
	for _, x := range e.Unsup {
		if x == m {
			return
		}
	}
	if len(e.Unsup) < 50 {
		e.Unsup = append(e.Unsup, m)
	}
}

func (e *Eng) push(c *Cut) {
	if !c.dirty {
		c.dirty = true
		e.queue = append(e.queue, c)
	}
}

func (e *Eng) join(c *Cut, s1 []*Term, f1 *Facts, s2 []*Term, f2 *Facts, s *State, first bool) {
	if e.Watch == c.n {
		if e.DumpZone {
			for i, v := range f2.vars {
				for k := 0; k <= len(f2.vars); k++ {
					if b := *f2.at(i+1, k); b < 1<<30 && k != i+1 {
						w := "0"
						if k > 0 {
							w = f2.vars[k-1].String()
						}
						fmt.Printf("   Z %v - %s <= %d\n", v, w, b)
					}
				}
			}
		}
		fmt.Printf("JOIN %d ver %d from %s\n path %s\n", c.n, c.ver, s.from.name(), s.trailText())
		for i, x := range s2 {
			if c.names[i][0] == 'g' || c.names[i][0] == 's' || strings.HasPrefix(c.names[i], "o3") || strings.HasPrefix(c.names[i], "o7") || strings.HasPrefix(c.names[i], "o8") || strings.HasPrefix(c.names[i], "f0.t") || strings.HasPrefix(c.names[i], "o5") || strings.HasPrefix(c.names[i], "o1.p") || strings.HasPrefix(c.names[i], "o1.cs") {
				fmt.Printf("   %s = %v\n", c.names[i], x)
				if x.op == OAt {
					fmt.Printf("   in %x canon %v %x\n", f2.Dom(x), f2.canon(x.args[1]), f2.Dom(e.t.mk(OAt, SInt, 0, "", []*Term{x.args[0], f2.canon(x.args[1])}, nil)))
				}
			}
		}
	}
	j := newAU(e, c, s, s1, s2, f1, f2)
	j.first = first
	if e.Watch == -7 {
		x7, x8 := -1, -1
		for i := range s2 {
			if strings.HasPrefix(c.names[i], "o7") {
				x7 = i
			}
			if strings.HasPrefix(c.names[i], "o8") {
				x8 = i
			}
		}
		if x7 >= 0 && x8 >= 0 {
			a, b := s1[x7] == s1[x8], s2[x7] == s2[x8]
			if a && b && j.out[x7] != j.out[x8] {
				fmt.Printf("LOST %d ver %d %s\n %v\n %v\n %v\n %v\n", c.n, c.ver, c.name(), s1[x7], s2[x7], j.out[x7], j.out[x8])
			}
			if a && !b {
				fmt.Printf("ARRIVES %d ver %d %s from %s\n %v\n %v\n %v\n", c.n, c.ver, c.name(), s.from.name(), s1[x7], s2[x7], s2[x8])
			}
		}
	}
	c.slots = j.out
	c.f = j.facts()
	if e.Watch == c.n {
		for i, x := range c.slots {
			if x.op == OAt {
				fmt.Printf("   AFTER %s = %v in %x\n", c.names[i], x, c.f.Dom(x))
			}
		}
	}
	c.ver++
	c.joins++
	if !first {
		if c.by == nil {
			c.by = map[int]int{}
		}
		k := 0
		if s.from != nil {
			k = s.from.n
		}
		c.by[k]++
		c.wide = max(c.wide, c.by[k])
	}
	i := 0
	st, _, _ := e.walk(c.st, func(t *Term, name string) *Term {
		i++
		return c.slots[i-1]
	})
	c.st = st
	c.st.f = c.f
}

// au is an anti-unification of two vectors of slots.
type au struct {
	e          *Eng
	c          *Cut
	s1, s2     []*Term
	f1, f2     *Facts
	out        []*Term
	syms       []*Term
	sig1, sig2 map[*Term]*Term
	memo       map[[2]*Term]*Term
	ints       []*Term
	ro         bool
	roFail     bool
	g1, g2     *Term // ghost indices
	gb1, gb2   *Term
	first      bool
	enums      map[*Term]bool
}

func newAU(e *Eng, c *Cut, s *State, s1, s2 []*Term, f1, f2 *Facts) *au {
	j := &au{e: e, c: c, s1: s1, s2: s2, f1: f1, f2: f2, sig1: map[*Term]*Term{}, sig2: map[*Term]*Term{}, memo: map[[2]*Term]*Term{}}
	for i, n := range c.names {
		if strings.HasPrefix(n, "ghost") && strings.HasSuffix(n, ".idx") {
			j.g1, j.g2 = s1[i], s2[i]
			j.gb1, j.gb2 = s1[i-1], s2[i-1]
		}
	}
	j.first = len(s1) > 0 && &s1[0] == &s2[0]
	j.out = make([]*Term, len(s1))
	// ghost bases and indices first, so that everything is relative to them
	for i, n := range c.names {
		if strings.HasPrefix(n, "ghost") && (strings.HasSuffix(n, ".idx") || strings.HasSuffix(n, ".base")) {
			j.out[i] = j.au(s1[i], s2[i], 0)
		}
	}
	// without a ghost, the parts of the input first
	if j.g1 == nil && !j.first {
		for i := range s1 {
			if s1[i].op == OSub && s2[i].op == OSub {
				j.out[i] = j.au(s1[i], s2[i], 0)
			}
		}
	}
	// an empty text can be a part of the input anywhere: after the others; a
	// text may have grown by another one: after all of them
	grown := func(i int) bool {
		return s1[i].srt == SStr && s1[i].op == OCat && s2[i].op == OCat && len(s1[i].args) != len(s2[i].args)
	}
	for i := range s1 {
		if j.out[i] == nil && !grown(i) && !(s1[i].srt.seq() && (s1[i] == e.t.Empty(s1[i].srt)) != (s2[i] == e.t.Empty(s1[i].srt))) {
			j.out[i] = j.au(s1[i], s2[i], 0)
		}
	}
	for k := 0; k < 2; k++ {
		for i := range s1 {
			if j.out[i] == nil && (k == 1 || !grown(i)) {
				j.out[i] = j.au(s1[i], s2[i], 0)
			}
		}
	}
	return j
}

// prefix expresses a pair of texts, the second longer, as a known text
// followed by another one.
func (j *au) prefix(a, b *Term, d int) *Term {
	t := j.e.t
	cut := func(x, y *Term) *Term {
		xs, ys := x.segs(), y.segs()
		if y == t.Empty(y.srt) || len(ys) > len(xs) {
			return nil
		}
		for i := range ys {
			if xs[i] != ys[i] {
				return nil
			}
		}
		return t.Cat(x.srt, xs[len(ys):]...)
	}
	var v0, p0, q0 *Term
	n := 0
	for i, v := range j.out {
		if v == nil || v.srt != a.srt {
			continue
		}
		x, y := j.s1[i], j.s2[i]
		if x == y || y.op != OCat || x.op != OCat && x.op != OSym {
			continue
		}
		if p, q := cut(a, x), cut(b, y); p != nil && q != nil && p != q && len(y.args) > n {
			v0, p0, q0, n = v, p, q, len(y.args)
		}
	}
	if v0 != nil {
		return t.Cat(a.srt, v0, j.au(p0, q0, d+1))
	}
	return nil
}

// suffix expresses a pair of texts as a text followed by a known one.
func (j *au) suffix(a, b *Term, d int) *Term {
	t := j.e.t
	cut := func(x, y *Term) (*Term, bool) {
		xs, ys := x.segs(), y.segs()
		if y == t.Empty(y.srt) {
			return x, true
		}
		if len(ys) > len(xs) {
			return nil, false
		}
		for i := range ys {
			k := len(xs) - len(ys) + i
			if xs[k] == ys[i] {
				continue
			}
			// the first one may be the end of a literal
			if i == 0 && xs[k].op == OLit && ys[i].op == OLit && strings.HasSuffix(xs[k].s, ys[i].s) {
				l := t.Lit(strings.TrimSuffix(xs[k].s, ys[i].s))
				return t.Cat(x.srt, append(append([]*Term(nil), xs[:k]...), l)...), true
			}
			return nil, false
		}
		return t.Cat(x.srt, xs[:len(xs)-len(ys)]...), true
	}
	for _, v := range j.syms {
		x, y := j.sig1[v], j.sig2[v]
		if v.srt != SStr || x.op != OCat && y.op != OCat && x.op != OSym {
			continue
		}
		p, ok := cut(a, x)
		if !ok {
			continue
		}
		q, ok := cut(b, y)
		if !ok || p.op == OSym && q.op == OSym {
			if ok {
				if r := j.au(p, q, d+1); r != nil {
					return t.Cat(a.srt, r, v)
				}
			}
			continue
		}
		if p.op != OCat || q.op != OCat || len(p.args) != len(q.args) {
			continue
		}
		same := true
		for i := range p.args {
			if p.args[i].op != q.args[i].op || p.args[i].op == OLit && p.args[i] != q.args[i] {
				same = false
			}
		}
		if same {
			return t.Cat(a.srt, j.args(p, q, d), v)
		}
	}
	return nil
}

func (j *au) fresh(a, b *Term) *Term {
	if j.ro {
		j.roFail = true
		return a
	}
	v := j.e.t.Sym(a.srt, fmt.Sprintf("k%dv%d.%d", j.c.n, j.c.ver+1, len(j.syms)))
	j.syms = append(j.syms, v)
	j.sig1[v] = a
	j.sig2[v] = b
	j.memo[[2]*Term{a, b}] = v
	if a.srt == SInt {
		j.ints = append(j.ints, v)
	}
	ca, cb := j.e.t.Class[a], j.e.t.Class[b]
	if ca != nil && cb != nil {
		d := ca.Or(*cb)
		j.e.t.Class[v] = &d
	} else {
		delete(j.e.t.Class, v)
	}
	if t1, t2 := j.e.t.Tag[a], j.e.t.Tag[b]; t1 == t2 && t1 != "" {
		j.e.t.Tag[v] = t1
	} else {
		delete(j.e.t.Tag, v)
	}
	return v
}

func (j *au) au(a, b *Term, d int) *Term {
	t := j.e.t
	if v, ok := j.memo[[2]*Term{a, b}]; ok {
		return v
	}
	if d > 8 || a.srt != b.srt {
		return j.fresh(a, b)
	}
	switch a.srt {
	case SInt:
		return j.auInt(a, b, d)
	case SBool:
		if a == b && (a.op == OTrue || a.op == OFalse) {
			return a
		}
		if v, ok := j.memo[[2]*Term{t.Not(a), t.Not(b)}]; ok {
			return t.Not(v)
		}
		if a.op == ONot && b.op == ONot {
			return t.Not(j.au(a.args[0], b.args[0], d+1))
		}
		if a.op == b.op && a.s == b.s && a.k == b.k && len(a.args) == len(b.args) && !j.ro {
			switch a.op {
			case OEq, OHas, OUF:
				return j.args(a, b, d)
			case OIte:
				return j.args(a, b, d)
			}
		}
		return j.fresh(a, b)
	case SMap:
		if a.op == OEmpty && b.op == OEmpty {
			return a
		}
		if a.op == b.op && (a.op == OPut || a.op == ODel || a.op == OGet) {
			return j.args(a, b, d)
		}
		return j.fresh(a, b)
	case SOp:
		if a.op == OUF && b.op == OUF && a.s == b.s && len(a.args) == len(b.args) {
			return j.args(a, b, d)
		}
		return j.fresh(a, b)
	}
	// sequences
	if a == b && (a.op == OLit || a == t.Empty(a.srt)) {
		return a
	}
	if a.op == OSym && b.op == OSym {
		return j.fresh(a, b)
	}
	if a.op == b.op {
		switch a.op {
		case OSub:
			if a.args[0].isBase() && b.args[0].isBase() {
				return t.rawSub(j.au(a.args[0], b.args[0], d+1), j.au(a.args[1], b.args[1], d+1), j.au(a.args[2], b.args[2], d+1))
			}
		case OUF:
			if a.s == b.s && len(a.args) == len(b.args) {
				return j.args(a, b, d)
			}
		case OItoa, OUnit:
			return j.args(a, b, d)
		case OCat:
			if len(a.args) == len(b.args) {
				ok := true
				for i := range a.args {
					if a.args[i].op != b.args[i].op || a.args[i].op == OLit && a.args[i] != b.args[i] {
						ok = false
					}
				}
				if ok {
					return j.args(a, b, d)
				}
			}
		}
	}
	if (a.op == OCat || b.op == OCat) && a.srt == SStr && !j.first {
		if r := j.suffix(a, b, d); r != nil {
			return r
		}
		if r := j.prefix(a, b, d); r != nil {
			return r
		}
	}
	if j.e.Pairs && a.op == OCat && b.op == OCat {
		// the last segments are parts of the same input
		x, y := a.segs(), b.segs()
		m, n := len(x)-1, len(y)-1
		if x[m].op == OSub && y[n].op == OSub && x[m].args[0].op == OSym && y[n].args[0].op == OSym {
			if _, ok := j.memo[[2]*Term{x[m].args[0], y[n].args[0]}]; ok {
				return t.Cat(a.srt, j.au(t.Cat(a.srt, x[:m]...), t.Cat(a.srt, y[:n]...), d+1), j.au(x[m], y[n], d+1))
			}
		}
	}
	// the whole of an input against a part of it, nothing against a part
	ba, _, _ := t.asSub(a)
	bb, _, _ := t.asSub(b)
	if ba.isBase() && bb.isBase() && (a.op == OSub || b.op == OSub) {
		if _, ok := j.memo[[2]*Term{ba, bb}]; ok {
			_, l1, h1 := t.asSub(a)
			_, l2, h2 := t.asSub(b)
			return t.rawSub(j.au(ba, bb, d+1), j.au(l1, l2, d+1), j.au(h1, h2, d+1))
		}
	}
	if j.g1 != nil && !j.first {
		em := t.Empty(a.srt)
		if a == em && b.op == OSub && b.args[0] == j.gb2 {
			if lo, hi := j.known(b.args[1], b.args[2], true); lo != nil {
				return t.rawSub(j.au(j.gb1, j.gb2, d+1), lo, hi)
			}
			return t.rawSub(j.au(j.gb1, j.gb2, d+1), j.au(j.g1, b.args[1], d+1), j.au(j.g1, b.args[2], d+1))
		}
		if b == em && a.op == OSub && a.args[0] == j.gb1 {
			if lo, hi := j.known(a.args[1], a.args[2], false); lo != nil {
				return t.rawSub(j.au(j.gb1, j.gb2, d+1), lo, hi)
			}
			return t.rawSub(j.au(j.gb1, j.gb2, d+1), j.au(a.args[1], j.g2, d+1), j.au(a.args[2], j.g2, d+1))
		}
	}
	if (j.g1 == nil || a.srt == SSeqS) && !j.first {
		em := t.Empty(a.srt)
		if a == em && b.op == OSub && b.args[0].isBase() {
			if base := j.base(b.args[0], true); base != nil {
				if lo, hi := j.known(b.args[1], b.args[2], true); lo != nil {
					return t.rawSub(base, lo, hi)
				}
			}
		}
		if b == em && a.op == OSub && a.args[0].isBase() {
			if base := j.base(a.args[0], false); base != nil {
				if lo, hi := j.known(a.args[1], a.args[2], false); lo != nil {
					return t.rawSub(base, lo, hi)
				}
			}
		}
	}
	return j.fresh(a, b)
}

// base finds the known text which is x on one of the sides.
func (j *au) base(x *Term, second bool) *Term {
	var r *Term
	for p, v := range j.memo {
		y, o := p[0], p[1]
		if second {
			y, o = o, y
		}
		if y == x && o.isBase() && (r == nil || v.id < r.id) {
			r = v
		}
	}
	return r
}

// isBase tells whether a sequence can be the base of parts.
func (x *Term) isBase() bool { return x.op == OSym || x.op == OUF && x.srt == SSeqS }

func (j *au) args(a, b *Term, d int) *Term {
	na := make([]*Term, len(a.args))
	for i := range a.args {
		na[i] = j.au(a.args[i], b.args[i], d+1)
	}
	return j.e.t.rebuild(a, na)
}

func (j *au) auInt(a, b *Term, d int) *Term {
	t := j.e.t
	if a == b {
		if _, ok := a.IsK(); ok {
			return a
		}
	}
	for _, v := range j.ints {
		if k, ok := constDiff(a, j.sig1[v]); ok {
			if k2, ok := constDiff(b, j.sig2[v]); ok && k == k2 {
				return t.AddK(v, k)
			}
		}
	}
	ka, aa, ca := a.lin()
	kb, ab, cb := b.lin()
	if ka == kb && len(aa) == len(ab) && len(aa) > 0 {
		ok := true
		for i := range aa {
			if ca[i] != cb[i] || aa[i].op != ab[i].op {
				ok = false
				break
			}
			switch aa[i].op {
			case OLen:
				x, y := aa[i].args[0], ab[i].args[0]
				if x.op == OUF && y.op == OUF && x.s == y.s && len(x.args) == len(y.args) {
				} else if x.op != OSym || y.op != OSym {
					ok = false
				} else if _, m := j.memo[[2]*Term{x, y}]; !m && j.ro {
					ok = false
				}
			case OAt:
			case OUF:
				if aa[i].s != ab[i].s || aa[i].k != ab[i].k {
					ok = false
				}
			default:
				ok = false
			}
		}
		if ok {
			r := t.Int(ka)
			for i := range aa {
				r = t.LinComb(r, ca[i], j.args(aa[i], ab[i], d+1))
			}
			return r
		}
	}
	if r := j.diffs(a, b, aa, ca, ab, cb); r != nil {
		return r
	}
	if !j.first && ka != 0 && len(aa) == 1 && ca[0] == 1 && aa[0].op == OSym {
		return t.AddK(j.fresh(t.AddK(a, -ka), t.AddK(b, -ka)), ka)
	}
	return j.fresh(a, b)
}

// known finds known pairs of integers for the bounds of a text of one side
// which are equal on the other side.
func (j *au) known(lo, hi *Term, second bool) (*Term, *Term) {
	t := j.e.t
	var pl, ph, plo, pho *Term // expressions and their values on the other side
	for _, p := range j.ints {
		x, o := j.sig1[p], j.sig2[p]
		if second {
			x, o = o, x
		}
		if k, ok := constDiff(hi, x); ok && ph == nil {
			ph, pho = t.AddK(p, k), t.AddK(o, k)
		}
		k, ok := constDiff(lo, x)
		if !ok {
			continue
		}
		if pl == nil {
			pl, plo = t.AddK(p, k), t.AddK(o, k)
		}
		for _, q := range j.ints {
			y, u := j.sig1[q], j.sig2[q]
			if second {
				y, u = u, y
			}
			l, ok := constDiff(hi, y)
			if !ok {
				continue
			}
			if m, ok := constDiff(t.AddK(o, k), t.AddK(u, l)); ok && m == 0 {
				return t.AddK(p, k), t.AddK(q, l)
			}
		}
	}
	pair := func(x, o *Term) *Term {
		if second {
			return j.auInt(o, x, 1)
		}
		return j.auInt(x, o, 1)
	}
	switch {
	case pl != nil:
		return pl, pair(hi, plo)
	case ph != nil:
		return pair(lo, pho), ph
	}
	return nil, nil
}

// diffs expresses a pair of integers as a difference of two known ones.
func (j *au) diffs(a, b *Term, aa []*Term, ca []int64, ab []*Term, cb []int64) *Term {
	// the richer side guides the search
	at, co, second := aa, ca, false
	if len(ab) > len(aa) {
		at, co, second = ab, cb, true
	}
	t := j.e.t
	var pos, neg *Term
	if len(at) == 2 && co[0]+co[1] == 0 && (co[0] == 1 || co[0] == -1) {
		pos, neg = at[0], at[1]
		if co[0] < 0 {
			pos, neg = neg, pos
		}
	} else if !j.e.Pairs || j.first {
		return nil
	}
	type cand struct{ v, x1, x2 *Term }
	var cs []cand
	for _, v := range j.ints {
		cs = append(cs, cand{v, j.sig1[v], j.sig2[v]})
	}
	if j.gb1 != nil {
		if v, ok := j.memo[[2]*Term{j.gb1, j.gb2}]; ok {
			cs = append(cs, cand{t.Len(v), t.Len(j.gb1), t.Len(j.gb2)})
		}
	}
	side := func(c cand) *Term {
		if second {
			return c.x2
		}
		return c.x1
	}
	for _, p := range cs {
		if pos == nil {
		} else if _, ok := constDiff(pos, side(p)); !ok {
			continue
		}
		for _, q := range cs {
			if p.v == q.v {
				continue
			}
			if neg == nil {
			} else if _, ok := constDiff(neg, side(q)); !ok {
				continue
			}
			k1, ok := constDiff(a, t.LinComb(p.x1, -1, q.x1))
			if !ok {
				continue
			}
			if k2, ok := constDiff(b, t.LinComb(p.x2, -1, q.x2)); ok && k1 == k2 {
				return t.AddK(t.LinComb(p.v, -1, q.v), k1)
			}
		}
	}
	return nil
}

// subsumes tells whether the first state (the template of the cut) covers the
// second one.
func (j *au) subsumes() bool {
	seen := map[*Term]bool{}
	inv := map[*Term]*Term{} // template symbol -> term of the second state
	for _, v := range j.syms {
		a := j.sig1[v]
		if a.op != OSym || seen[a] {
			return j.notSub(1)
		}
		seen[a] = true
		inv[a] = j.sig2[v]
	}
	// the result must be the template up to the names
	memo := map[*Term]*Term{}
	sub := func(x *Term) *Term {
		return j.e.t.Subst(x, func(y *Term) *Term {
			if y.op == OSym {
				if r, ok := inv[y]; ok {
					return r
				}
			}
			return nil
		}, memo)
	}
	for v := range inv {
		if c := j.e.t.Class[v]; c != nil {
			d := j.e.t.Class[inv[v]]
			if d == nil || d.Or(*c) != *c {
				return j.notSub(2)
			}
		}
	}
	j.f2 = j.f2.refresh()
	f := j.c.f
	n := len(f.vars) + 1
	vt := make([]*Term, n)
	vt[0] = j.e.t.Zero
	for i, v := range f.vars {
		vt[i+1] = sub(v)
	}
	if f.nsum > 0 {
		j.f2 = withSums(j.f2, vt)
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a == b {
				continue
			}
			c := *f.at(a, b)
			if c >= inf || f.implied(a, b, c) {
				continue
			}
			if j.hiOf(j.f2, vt[a], vt[b]) > c && !j.via(f, vt, a, b, c) {
				if j.e.Watch == j.c.n && j.c.joins > 100 {
					fmt.Println("NOTSUB", a, b, c, j.hiOf(j.f2, vt[a], vt[b]), vt[a], vt[b])
				}
				return j.notSub(3)
			}
		}
	}
	for _, a := range sortedTerms(f.dom) {
		d := f.dom[a]
		x := sub(a)
		if x.op != OAt {
			if k, ok := x.IsK(); ok && d.Has(k) {
				continue
			}
			return j.notSub(4)
		}
		if e := j.domAt(j.f2, x); e.Or(d) != d {
			return j.notSub(5)
		}
	}
	for _, v := range sortedTerms(f.iset) {
		vs := f.iset[v]
		x := j.f2.values(sub(v))
		if x == nil || len(unionI(x, vs)) != len(vs) {
			return j.notSub(6)
		}
	}
	for _, l := range sortedTerms(f.lit) {
		v := f.lit[l]
		if r, a := j.f2.eval(sub(l)); a != nil || r != v {
			return j.notSub(7)
		}
	}
	return true
}

func (j *au) notSub(k int) bool {
	if j.e.Watch == j.c.n && j.c.joins > 100 {
		fmt.Println("NOTSUB case", k)
	}
	return false
}

func (j *au) domAt(f *Facts, x *Term) Dom {
	d := f.Dom(x)
	y := j.e.t.mk(OAt, SInt, 0, "", []*Term{x.args[0], f.canon(x.args[1])}, nil)
	if y != x {
		d = d.And(f.Dom(y))
	}
	return d
}

// via tells whether a bound of the template follows from two other ones, which
// the second state has.
func (j *au) via(f *Facts, vt []*Term, a, b int, c int64) bool {
	for k := range vt {
		if k == a || k == b {
			continue
		}
		d, e := *f.at(a, k), *f.at(k, b)
		if d < inf && e < inf && d+e <= c && j.hiOf(j.f2, vt[a], vt[k]) <= d && (b == 0 && f.implied(k, 0, e) || j.hiOf(j.f2, vt[k], vt[b]) <= e) {
			return true
		}
	}
	return false
}

// hiOf bounds x - y.
func (j *au) hiOf(f *Facts, x, y *Term) int64 {
	h := f.hiDiff(x, y)
	// a map with a key is not empty
	if y.op == OLin || y.op == OMLen {
		_ = y
	}
	return h
}

func (j *au) subst(sig map[*Term]*Term) func(*Term) *Term {
	memo := map[*Term]*Term{}
	return func(x *Term) *Term {
		return j.e.t.Subst(x, func(y *Term) *Term {
			if y.op == OSym {
				if r, ok := sig[y]; ok {
					return r
				}
			}
			return nil
		}, memo)
	}
}

func (j *au) mapLo(f *Facts, m *Term) int64 {
	if m.op == OPut {
		return 1
	}
	lo, _ := f.Bounds(f.mlen(m))
	return lo
}

var thresholds = []int64{-1, 0, 1, 2, 3, 4, 8, 9, 19, 31, 32, 33, 47, 48, 127, 128, 191, 254, 255, 256, 999, 65535}

var fewThresholds = []int64{-1, 0, 1, 255, 65535}

// withSums adds the sums among terms to the variables of the zone.
func withSums(f *Facts, xs []*Term) *Facts {
	f = f.Clone()
	for _, x := range xs {
		k, at, co := x.lin()
		if len(at) == 2 && co[0] == 1 && co[1] == 1 {
			f.addSum(f.t.AddK(x, -k))
		}
	}
	return f
}

// funcs returns the numbers in the slots which are values of a contract's
// function.
func (j *au) funcs() (us []*Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OUF && x.srt == SInt && strings.Contains(x.s, ".") {
			us = append(us, x)
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, x := range j.out {
		walk(x)
	}
	if len(us) > 4 {
		us = us[:4]
	}
	return
}

// keySeqs returns the sequences of the keys of maps in the slots.
func (j *au) keySeqs() (qs []*Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OUF && x.srt == SSeqS {
			qs = append(qs, x)
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, x := range j.out {
		walk(x)
	}
	return
}

// parts returns the parts of sequences in the slots whose bounds are numbers
// of the cut.
func (j *au) parts() (qs []*Term) {
	seen := map[*Term]bool{}
	for _, x := range j.out {
		if x.op == OSub && !seen[x] && x.args[1].op == OSym && x.args[2].op == OSym {
			seen[x] = true
			qs = append(qs, x)
		}
	}
	return
}

// sums finds the numbers and lengths such that the sum of two is a third one up
// to a constant, on both sides.
func (j *au) sums(f *Facts, sub1, sub2 func(*Term) *Term) {
	t := j.e.t
	ns := append([]*Term(nil), j.ints...)
	seen := map[*Term]bool{}
	for _, x := range j.syms {
		if (x.srt == SStr || x.srt == SSeqI) && !seen[x] {
			seen[x] = true
			ns = append(ns, t.Len(x))
		}
	}
	for i, a := range ns {
		for _, b := range ns[i+1:] {
			for _, c := range ns {
				if c == a || c == b {
					continue
				}
				k1, ok := j.f1.fixed(t.Add(sub1(a), sub1(b)), sub1(c))
				if !ok {
					continue
				}
				if k2, ok := j.f2.fixed(t.Add(sub2(a), sub2(b)), sub2(c)); ok && k1 == k2 {
					x, y := f.addSum(t.Add(a, b)), f.addSum(c)
					f.addDiff(x, y, k1)
					f.addDiff(y, x, -k1)
				}
			}
		}
	}
}

// facts joins the facts of both sides.
func (j *au) facts() *Facts {
	e, t := j.e, j.e.t
	f := NewFacts(t)
	vars := append([]*Term(nil), j.ints...)
	for _, v := range j.syms {
		if v.srt.seq() {
			vars = append(vars, t.Len(v))
		}
	}
	ks := j.keySeqs()
	for _, q := range ks {
		vars = append(vars, t.Len(q))
	}
	if len(ks) > 0 {
		for _, v := range j.syms {
			if v.srt == SMap {
				vars = append(vars, f.mlen(v))
			}
		}
	}
	// values of functions, and sums with them
	for _, u := range j.funcs() {
		for _, v := range j.ints {
			vars = append(vars, t.Add(u, v))
		}
		vars = append(vars, u)
	}
	j.f1, j.f2 = j.f1.refresh(), j.f2.refresh()
	sub1, sub2 := j.subst(j.sig1), j.subst(j.sig2)
	n := len(vars) + 1
	x1, x2 := make([]*Term, n), make([]*Term, n)
	x1[0], x2[0] = t.Zero, t.Zero
	for i, v := range vars {
		x1[i+1], x2[i+1] = sub1(v), sub2(v)
	}
	if vars[n-2].op == OUF {
		j.f1, j.f2 = withSums(j.f1, x1), withSums(j.f2, x2)
	}
	ub, lb := make([]int64, n), make([]int64, n)
	for i, v := range vars {
		l, h := f.natural(v)
		lb[i+1], ub[i+1] = l, h
	}
	vi := func(a int) int {
		if a == 0 {
			return 0
		}
		return f.addSum(vars[a-1])
	}
	bound := func(a, b int) int64 {
		h1 := j.f1.hiDiff(x1[a], x1[b])
		if h1 >= maxLen || j.first {
			return h1
		}
		h2 := j.f2.hiDiff(x2[a], x2[b])
		if h2 <= h1 || h2 >= maxLen {
			return max(h1, h2)
		}
		if j.c.widening() > 6 {
			th := thresholds
			if j.c.widening() > 12 {
				th = fewThresholds
			}
			if j.c.widening() > 40 {
				return inf
			}
			for _, k := range th {
				if h2 <= k {
					return k
				}
			}
			return inf
		}
		return h2
	}
	for a := 1; a < n; a++ {
		if vars[a-1].op == OLin {
			ub[a], lb[a] = inf, -inf
			continue
		}
		if h := bound(a, 0); h < maxLen && h < ub[a] {
			ub[a] = h
			f.addDiff(vi(a), 0, h)
		}
		if h := bound(0, a); h < maxLen && -h > lb[a] {
			lb[a] = -h
			f.addDiff(0, vi(a), h)
		}
	}
	for a := 1; a < n; a++ {
		for b := 1; b < n; b++ {
			if a == b {
				continue
			}
			h := bound(a, b)
			// skip what the bounds imply
			if (vars[a-1].op == OLin || vars[b-1].op == OLin) && h >= 1<<30 {
				continue
			}
			if h >= 1<<40 || ub[a] < inf && lb[b] > -inf && h >= ub[a]-lb[b] {
				continue
			}
			ai, bi := vi(a), vi(b)
			f.addDiff(ai, bi, h)
		}
	}
	// numbers which are the length of a part of a sequence
	parts := j.parts()
	for _, q := range parts {
		lo, hi := q.args[1], q.args[2]
		lo1, lo2, hi1, hi2 := sub1(lo), sub2(lo), sub1(hi), sub2(hi)
		for _, v := range j.ints {
			if v == lo || v == hi {
				continue
			}
			k1, ok1 := j.f1.fixed(t.Add(lo1, sub1(v)), hi1)
			if !ok1 {
				continue
			}
			k2, ok2 := j.f2.fixed(t.Add(lo2, sub2(v)), hi2)
			if !ok2 || k1 != k2 {
				continue
			}
			x, y := f.addSum(t.Add(lo, v)), f.addSum(hi)
			f.addDiff(x, y, k1)
			f.addDiff(y, x, -k1)
		}
	}
	if e.Pairs && !j.first {
		j.sums(f, sub1, sub2)
	}
	// enumerations
	for i, nm := range j.c.names {
		if !strings.HasSuffix(nm, "~e") || j.out[i].op != OSym {
			continue
		}
		v1, v2 := j.f1.values(j.s1[i]), j.f2.values(j.s2[i])
		if v1 == nil || v2 == nil || len(v1)+len(v2) > 2000 {
			continue
		}
		f.setISet(j.out[i], unionI(v1, v2))
	}
	// maps
	for _, v := range j.syms {
		if v.srt != SMap {
			continue
		}
		lo := min(j.mapLo(j.f1, j.sig1[v]), j.mapLo(j.f2, j.sig2[v]))
		if lo > 0 {
			f.Assume(t.Le(t.One, f.mlen(v)), true)
		}
		done := map[*Term]bool{}
		for _, k := range j.out {
			if k.srt != SStr || done[k] || len(done) > 24 {
				continue
			}
			done[k] = true
			k1, k2 := sub1(k), sub2(k)
			r1, a1 := j.f1.eval(t.has(j.sig1[v], k1))
			if a1 != nil {
				continue
			}
			r2, a2 := j.f2.eval(t.has(j.sig2[v], k2))
			if a2 != nil || r1 != r2 {
				continue
			}
			f.Assume(t.has(v, k), r1)
		}
	}
	// a key of an updated map: the cases of its presence are joined
	seen := map[*Term]bool{}
	for _, m := range j.out {
		if m.op != OPut || seen[m] {
			continue
		}
		seen[m] = true
		m1, m2 := sub1(m), sub2(m)
		done := map[*Term]bool{}
		for _, k := range j.out {
			if k.srt != SStr || k.op != OSub || done[k] || len(done) > 24 {
				continue
			}
			done[k] = true
			if _, a := f.eval(t.has(m, k)); a == nil {
				continue
			}
			r1, a1 := j.f1.eval(t.has(m1, sub1(k)))
			if a1 != nil {
				continue
			}
			r2, a2 := j.f2.eval(t.has(m2, sub2(k)))
			if a2 != nil || r1 != r2 {
				continue
			}
			f.Assume(t.has(m, k), r1)
		}
	}
	// increasing sequences
	los := append([]*Term{t.Zero}, j.ints...)
	isLo := map[*Term]bool{}
	for _, x := range los {
		isLo[x] = true
	}
	for _, x := range j.out {
		if x.srt != SInt || isLo[x] {
			continue
		}
		if _, at, co := x.lin(); len(at) == 1 && co[0] == 1 && at[0].op == OSym {
			isLo[x] = true
			los = append(los, x)
		}
	}
	for _, v := range j.syms {
		if v.srt != SSeqI {
			continue
		}
		for _, lo := range los {
			for _, hi := range j.ints {
				c := t.incIn(v, lo, hi)
				if _, a := f.eval(c); a == nil {
					continue
				}
				if r, a := j.f1.eval(t.incIn(j.sig1[v], sub1(lo), j.sig1[hi])); a != nil || !r {
					continue
				}
				if r, a := j.f2.eval(t.incIn(j.sig2[v], sub2(lo), j.sig2[hi])); a != nil || !r {
					continue
				}
				f.Assume(c, true)
			}
		}
	}
	// bytes
	j.ro = true
	var ds []*Term
	for a := range j.f1.dom {
		ds = append(ds, a)
	}
	sort.Slice(ds, func(i, k int) bool { return ds[i].id < ds[k].id })
	for _, a := range ds {
		d1 := j.f1.dom[a]
		base, idx := a.args[0], a.args[1]
		for _, bv := range j.syms {
			if j.sig1[bv] != base {
				continue
			}
			try := func(v, y1, y2 *Term) {
				k, ok := constDiff(idx, y1)
				if !ok || k > 5 || k < -5 {
					return
				}
				i2 := j.f2.canon(t.AddK(y2, k))
				b2 := j.sig2[bv]
				if b2.op != OSym {
					return
				}
				at2 := t.mk(OAt, SInt, 0, "", []*Term{b2, i2}, nil)
				d := d1.Or(j.domAt(j.f2, at2))
				if d == FullDom {
					return
				}
				f.setDom(t.mk(OAt, SInt, 0, "", []*Term{bv, t.AddK(v, k)}, nil), d)
			}
			for _, v := range j.ints {
				try(v, j.sig1[v], j.sig2[v])
			}
			try(t.Zero, t.Zero, t.Zero)
			for _, q := range parts {
				if q.args[0] != bv {
					continue
				}
				lo := q.args[1]
				for _, v := range j.ints {
					if v != lo && v != q.args[2] {
						try(t.Add(lo, v), t.Add(sub1(lo), sub1(v)), t.Add(sub2(lo), sub2(v)))
					}
				}
			}
		}
	}
	for _, x := range j.out {
		if x.op != OAt || x.args[0].op != OSym {
			continue
		}
		y1, y2 := sub1(x), sub2(x)
		if y1.op != OAt || y2.op != OAt {
			continue
		}
		if d := j.domAt(j.f1, y1).Or(j.domAt(j.f2, y2)); d != FullDom {
			f.setDom(x, d)
		}
	}
	// literals
	ls1, ls2 := lits(j.f1), lits(j.f2)
	for _, l1 := range ls1 {
		for _, l2 := range ls2 {
			if l1.op != l2.op || l1.s != l2.s || j.f1.lit[l1] != j.f2.lit[l2] || len(l1.args) != len(l2.args) {
				continue
			}
			if j.first && l1 != l2 {
				continue
			}
			j.roFail = false
			var r *Term
			if len(l1.args) == 0 {
				r = j.memo[[2]*Term{l1, l2}]
				if r == nil {
					continue
				}
			} else {
				r = j.args(l1, l2, 0)
			}
			if j.roFail {
				continue
			}
			f.Assume(r, j.f1.lit[l1])
			break
		}
	}
	j.ro = false
	_ = e
	return f
}

func lits(f *Facts) []*Term {
	var out []*Term
	for l := range f.lit {
		switch l.op {
		case OHas, OEq, OUF, OEq0, OSym:
			out = append(out, l)
		case OLe0:
			if _, at, _ := l.args[0].lin(); len(at) > 2 {
				out = append(out, l)
			}
		}
	}
	sort.Slice(out, func(i, k int) bool { return out[i].id < out[k].id })
	return out
}

// atCut tells whether the top frame is at a cut point.
func (s *State) atCut() bool {
	if s.e.Unroll {
		return false
	}
	fr := s.top()
	b := fr.blk.Index
	if fr.info.big && fr.info.cut[b] {
		return true
	}
	if !fr.info.loop[b] {
		return false
	}
	// loops are unrolled as long as no choice is made
	last, ok := fr.seen[fr.blk]
	if !ok {
		// a path which comes round from a cut point within the loop
		ok = fr.pred != nil && fr.blk.Dominates(fr.pred)
	}
	if ok && last != s.forks {
		return true
	}
	if fr.seen == nil {
		fr.seen = map[*ssa.BasicBlock]int{}
	}
	fr.seen[fr.blk] = s.forks
	return false
}

// run executes a state until every path reaches a cut point or its end.
func (e *Eng) run(s0 *State) {
	stack := []*State{s0}
	n := 0
	for len(stack) > 0 && e.stop == nil {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		fork := e.runPath(s)
		if fork == nil {
			e.Paths++
			continue
		}
		if e.Forks != nil {
			d := fork.String()
			if len(d) > 90 {
				d = d[:90]
			}
			e.Forks[s.where()+"  "+d]++
			e.Forks[s.where()]++
		}
		a := s.clone()
		s.f = s.f.Clone()
		a.f.Assume(fork, false)
		s.f.Assume(fork, true)
		s.forks++
		a.forks++
		s.trailT = append(s.trailT, trailStep{fork, true})
		a.trailT = append(a.trailT, trailStep{fork, false})
		if !a.f.Bad {
			stack = append(stack, a)
		}
		if !s.f.Bad {
			stack = append(stack, s)
		}
		if e.deadline.IsZero() {
		} else if n++; n%64 == 0 && time.Now().After(e.deadline) {
			e.stop = fmt.Errorf("time limit")
			e.noteUnsup("time limit reached")
			return
		}
		if len(stack) > 20000 {
			e.noteUnsup("too many paths from " + s.from.name())
			return
		}
	}
}

// runPath runs until a choice is needed.
func (e *Eng) runPath(s *State) (fork *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				s.again = false
				fork = x.atom
			case endPath:
			case unsup:
				e.noteUnsup(x.msg + " at " + s.where())
			default:
				panic(r)
			}
		}
	}()
	for len(s.fr) > 0 {
		e.Steps++
		if e.Steps > e.MaxStep {
			e.stop = fmt.Errorf("step limit")
			e.noteUnsup("step limit reached")
			return nil
		}
		if s.f.Bad {
			return nil
		}
		if s.step() {
			s.steps++
			if s.atCut() {
				e.arrive(s)
				return nil
			}
			continue
		}
		s.steps++
	}
	return nil
}

// before orders cut points: what lies upstream comes first.
func (c *Cut) before(d *Cut) bool {
	for i := 0; i < len(c.rank) && i < len(d.rank); i++ {
		if c.rank[i] != d.rank[i] {
			return c.rank[i] < d.rank[i]
		}
	}
	if len(c.rank) != len(d.rank) {
		return len(c.rank) > len(d.rank)
	}
	return c.n < d.n
}

func (s *State) rank() []int {
	var r []int
	for _, fr := range s.fr {
		r = append(r, fr.info.sccOrder()[fr.blk.Index])
	}
	return r
}

// sccOrder numbers the strongly connected components of the control flow graph
// in topological order.
func (fi *fnInfo) sccOrder() []int {
	if fi.scc != nil {
		return fi.scc
	}
	n := len(fi.fn.Blocks)
	comp := make([]int, n)
	low, num := make([]int, n), make([]int, n)
	on := make([]bool, n)
	var stack []int
	cnt, nc := 0, 0
	type fr struct{ v, i int }
	for root := 0; root < n; root++ {
		if num[root] != 0 {
			continue
		}
		st := []fr{{root, 0}}
		for len(st) > 0 {
			f := &st[len(st)-1]
			v := f.v
			if f.i == 0 {
				cnt++
				num[v], low[v] = cnt, cnt
				stack = append(stack, v)
				on[v] = true
			}
			if f.i < len(fi.fn.Blocks[v].Succs) {
				w := fi.fn.Blocks[v].Succs[f.i].Index
				f.i++
				if num[w] == 0 {
					st = append(st, fr{w, 0})
				} else if on[w] {
					low[v] = min(low[v], num[w])
				}
				continue
			}
			if f.i == 0 {
				f.i = 1
			}
			if low[v] == num[v] {
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = nc
					if w == v {
						break
					}
				}
				nc++
			}
			st = st[:len(st)-1]
			if len(st) > 0 {
				p := st[len(st)-1].v
				low[p] = min(low[p], low[v])
			}
		}
	}
	for i := range comp {
		comp[i] = nc - 1 - comp[i]
	}
	fi.scc = comp
	return comp
}

// Prove verifies a harness function.
func (e *Eng) Prove(fn *ssa.Function, deadline time.Time) {
	e.harness = fn.Name()
	s := &State{e: e, heap: map[int]*Obj{}, ownH: true, f: NewFacts(e.t)}
	s.pushFrame(fn, nil, nil, nil, "")
	e.prove(s, deadline, 0)
}

func (e *Eng) prove(start *State, deadline time.Time, round int) {
	e.deadline = deadline
	if round == 0 {
		e.run(start.clone())
	}
	for len(e.queue) > 0 && e.stop == nil {
		// the earliest cut point first
		k := 0
		for i, c := range e.queue {
			if c.before(e.queue[k]) {
				k = i
			}
		}
		c := e.queue[k]
		e.queue[k] = e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		c.dirty = false
		c.runs++
		if time.Now().After(deadline) {
			e.stop = fmt.Errorf("time limit")
			e.noteUnsup("time limit reached")
			return
		}
		e.run(c.instance())
	}
	if e.stop != nil {
		return
	}
	e.verify = true
	e.run(start.clone())
	for _, c := range e.order {
		if time.Now().After(deadline) {
			e.stop = fmt.Errorf("time limit")
			e.noteUnsup("time limit reached")
			return
		}
		e.run(c.instance())
	}
	if len(e.queue) > 0 && round < 8 {
		// joins are not monotonic: some invariant was not inductive
		e.verify = false
		e.Obl = map[string]*Obligation{}
		e.Unsup = nil
		e.edges = nil
		e.prove(start, deadline, round+1)
		return
	}
	e.terminates()
}

func (c *Cut) instance() *State {
	s := c.st.clone()
	s.f = c.f.Clone()
	s.from = c
	s.looped = false
	s.wholes = nil
	s.steps = 0
	s.forks = 0
	for _, fr := range s.fr {
		fr.seen = nil
		fr.pred = nil
	}
	return s
}

// Cuts returns the number of cut points.
func (e *Eng) Cuts() int { return len(e.order) }

// Dump prints the invariants.
func (e *Eng) Dump(n int) {
	for _, c := range e.order {
		if n > 0 && c.n != n {
			continue
		}
		fmt.Printf("CUT %d runs=%d joins=%d %s\n", c.n, c.runs, c.joins, c.desc)
		for i, s := range c.slots {
			fmt.Printf("   %s = %v\n", c.names[i], s)
		}
		for i, v := range c.f.vars {
			for k := 0; k <= len(c.f.vars); k++ {
				if b := *c.f.at(i+1, k); b < 1<<30 && k != i+1 && e.DumpZone {
					w := "0"
					if k > 0 {
						w = c.f.vars[k-1].String()
					}
					fmt.Printf("   %v - %s <= %d\n", v, w, b)
				}
			}
		}
		for l, v := range c.f.lit {
			fmt.Printf("   %v : %v\n", l, v)
		}
		for a, d := range c.f.dom {
			fmt.Printf("   %v in %x\n", a, d)
		}
	}
}

// Stats prints where the work goes.
func (e *Eng) Stats() {
	byRuns := map[int]int{}
	tot := 0
	byPlace := map[string]int{}
	for _, c := range e.order {
		byRuns[c.runs]++
		tot += c.runs
		d := c.desc
		if i := strings.Index(d, " < "); i > 0 {
			d = d[:i]
		}
		byPlace[d] += c.runs
	}
	fmt.Println("runs", tot, "queue", len(e.queue), byRuns)
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range byPlace {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
	for i, x := range l {
		if i > 25 {
			break
		}
		n := 0
		for _, c := range e.order {
			if strings.HasPrefix(c.desc, x.k) {
				n++
			}
		}
		fmt.Println(x.v, "runs", n, "cuts", x.k)
	}
}

// Keys prints the keys of the cut points at a place.
func (e *Eng) Keys(place string) {
	n := 0
	for _, c := range e.order {
		if strings.Contains(c.desc, place) {
			fmt.Println(c.n, c.key)
			if n++; n > 400 {
				return
			}
		}
	}
}

func (e *Eng) traceMatch(c *Cut) bool {
	if e.Trace == "" {
		return false
	}
	for i, x := range strings.Split(e.Trace, ";") {
		if i == 0 && !strings.Contains(c.desc, x) || i > 0 && !strings.Contains(c.key, x) {
			return false
		}
	}
	return true
}

// Worst prints the cut point with the most runs.
func (e *Eng) Worst() {
	var w *Cut
	for _, c := range e.order {
		if w == nil || c.runs > w.runs {
			w = c
		}
	}
	if w != nil {
		e.Dump(w.n)
		fmt.Println(w.key)
	}
}

// implied tells whether a bound between two variables follows from their own
// bounds, or from the assumption on lengths.
func (f *Facts) implied(a, b int, c int64) bool {
	if (a == 0 || b == 0) && f.vars[max(a, b)-1].op == OLin {
		// by the bound of a variable which is not constant
		for i, v := range f.vars {
			if u, l := *f.at(i+1, 0), *f.at(0, i+1); v.op == OLin || u == -l {
				continue
			}
			if d, e := *f.at(a, i+1), *f.at(i+1, b); a != i+1 && b != i+1 && d < inf && e < inf && d+e <= c {
				return true
			}
		}
		return false
	}
	if b == 0 {
		v := f.vars[a-1]
		return (v.op == OLen || v.op == OMLen) && c >= maxLen
	}
	if a == 0 {
		v := f.vars[b-1]
		return (v.op == OLen || v.op == OMLen) && c >= 0
	}
	u, l := *f.at(a, 0), *f.at(0, b)
	return u < inf && l < inf && c >= u+l
}

// why explains a failed subsumption.
func (j *au) why() string {
	for _, v := range j.syms {
		if j.sig1[v].op != OSym {
			return fmt.Sprintf("%v is not a symbol of the invariant (%v)", j.sig1[v], j.sig2[v])
		}
	}
	f := j.c.f
	inv := map[*Term]*Term{}
	for _, v := range j.syms {
		if inv[j.sig1[v]] != nil {
			return fmt.Sprintf("%v is both %v and %v", j.sig1[v], inv[j.sig1[v]], j.sig2[v])
		}
		inv[j.sig1[v]] = j.sig2[v]
	}
	sub := j.subst(inv)
	for _, a := range sortedTerms(f.dom) {
		d := f.dom[a]
		x := sub(a)
		if x.op != OAt {
			if k, ok := x.IsK(); ok && d.Has(k) {
				continue
			}
			return fmt.Sprintf("domain of %v = %v", a, x)
		}
		if e := j.domAt(j.f2, x); e.Or(d) != d {
			return fmt.Sprintf("domain of %v = %v: %x not in %x", a, x, e, d)
		}
	}
	for _, v := range sortedTerms(f.iset) {
		vs := f.iset[v]
		x := j.f2.values(sub(v))
		if x == nil || len(unionI(x, vs)) != len(vs) {
			return fmt.Sprintf("values of %v: %v not in %v", v, x, vs)
		}
	}
	for _, l := range sortedTerms(f.lit) {
		v := f.lit[l]
		if r, a := j.f2.eval(sub(l)); a != nil || r != v {
			return fmt.Sprintf("fact %v:%v = %v", l, v, sub(l))
		}
	}
	return j.bounds()
}

// bounds explains a failed comparison of bounds.
func (j *au) bounds() string {
	f := j.c.f
	inv := map[*Term]*Term{}
	for _, v := range j.syms {
		inv[j.sig1[v]] = j.sig2[v]
	}
	sub := j.subst(inv)
	n := len(f.vars) + 1
	vt := func(i int) *Term {
		if i == 0 {
			return j.e.t.Zero
		}
		return f.vars[i-1]
	}
	var vs []*Term
	for i := 0; i < n; i++ {
		vs = append(vs, sub(vt(i)))
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if c := *f.at(a, b); a != b && c < inf && !f.implied(a, b, c) {
				if h := j.hiOf(j.f2, sub(vt(a)), sub(vt(b))); h > c && !j.via(f, vs, a, b, c) {
					return fmt.Sprintf("bounds: %v - %v <= %d, got %v - %v <= %d", vt(a), vt(b), c, sub(vt(a)), sub(vt(b)), h)
				}
			}
		}
	}
	return "?"
}

// Deepen makes the arithmetic look further.
func (e *Eng) Deepen(on bool) { e.Pairs, e.t.Deep = on, on }
