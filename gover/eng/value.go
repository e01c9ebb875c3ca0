package eng

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

// Scalars (ints, bools, strings, opaque values) are *Term.
type (
	// StructV is an immutable struct or array value.
	StructV struct{ F []Value }
	// PtrV points into an object. Obj==0 is nil.
	PtrV struct {
		Obj  int
		Path string // encoded path
		// NilC, when not nil, is the condition under which the pointer is nil.
		NilC *Term
	}
	// SliceV is a slice. Obj==0 and Nil.
	SliceV struct {
		Obj           int
		Off, Len, Cap *Term
		// Path of the array inside the object (concrete backings)
		Path string
	}
	// MapV is a reference to a map: an object, or a view of a value of
	// another map. Obj==0 is nil.
	MapV struct {
		Obj int
		Key *Term // view: the key in the map Obj
	}
	// IfaceV holds a dynamic type and a value. T==nil is nil.
	IfaceV struct {
		T types.Type
		V Value
	}
	// ErrV is the value of an error made by fmt.Errorf, errors.New or a
	// library function: its text and identity.
	// FuncV is a function value. Fn==nil is nil.
	FuncV struct {
		Fn    *ssa.Function
		B     *ssa.Builtin
		Bind  []Value
		Intr  string // engine-made function
		IArgs []Value
	}
	// TupleV is a tuple.
	TupleV []Value
	// IterV iterates over a map or a string.
	IterV struct {
		Obj int // iterator object
	}
)

// ObjKind tells what an object holds.
type ObjKind uint8

const (
	KCell  ObjKind = iota // a variable: Val
	KSeq                  // backing of a slice of scalars: Seq content
	KMap                  // a map: content term
	KIter                 // map iterator: content, position
	KGhost                // ghost data of the engine
)

// Obj is a heap object; objects are immutable, stores replace them.
type Obj struct {
	ID    int
	Kind  ObjKind
	Typ   types.Type // type of the cell, element type of the backing, map type
	Val   Value      // cell: value; seq: *Term; map: *Term
	Frame string     // not empty: storing here violates this frame condition
	Site  string     // where it was allocated
	Epoch int        // allocation epoch
	Moved *MapV      // the map was stored as the value of another map
	Lib   bool
}

// Frame of a call.
type Frame struct {
	fn       *ssa.Function
	info     *fnInfo
	blk      *ssa.BasicBlock
	ip       int
	regs     map[ssa.Value]Value
	call     ssa.CallInstruction // in the caller, nil for ghost calls
	defer_   []deferred
	bind     []Value
	retTo    string                  // "", "discard"
	pred     *ssa.BasicBlock         // where it came from
	seen     map[*ssa.BasicBlock]int // visits of loop heads, forks at that time
	rundefer bool
	retVals  []Value
	pre      map[string]Value // results of calls made on behalf of an instruction
	preKey   string
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

func (fr *Frame) clone() *Frame {
	g := *fr
	g.regs = make(map[ssa.Value]Value, len(fr.regs)+8)
	for k, v := range fr.regs {
		g.regs[k] = v
	}
	if fr.seen != nil {
		g.seen = make(map[*ssa.BasicBlock]int, len(fr.seen))
		for k, v := range fr.seen {
			g.seen[k] = v
		}
	}
	g.defer_ = append([]deferred(nil), fr.defer_...)
	return &g
}

// Ghost is a transducer attached to an input.
type Ghost struct {
	Name string
	Base *Term // the input symbol
	Idx  *Term // next byte
	Spec Value // interface value of the stepper
	On   bool
	Done bool // it read the end of the input
}

// State of a path.
type State struct {
	e      *Eng
	fr     []*Frame
	heap   map[int]*Obj
	ownH   bool
	f      *Facts
	ghosts []Ghost
	wholes []bool // of the state of a cut point: which slices are whole objects
	forks  int
	steps  int
	next   int // next object id
	epoch  int
	from   *Cut
	trail  []string
	trailT []trailStep
	mon    map[string]*Term // engine monitors
	looped bool             // the path went through a loop of the harness
	again  bool             // the instruction pushed a frame and is executed again
}

type trailStep struct {
	atom *Term
	val  bool
}

func (s *State) clone() *State {
	g := *s
	s.ownH = false
	g.ownH = false
	g.f = s.f.Clone()
	g.fr = make([]*Frame, len(s.fr))
	for i, f := range s.fr {
		g.fr[i] = f.clone()
	}
	g.ghosts = append([]Ghost(nil), s.ghosts...)
	g.trailT = append([]trailStep(nil), s.trailT...)
	if s.mon != nil {
		g.mon = map[string]*Term{}
		for k, v := range s.mon {
			g.mon[k] = v
		}
	}
	return &g
}

func (s *State) top() *Frame { return s.fr[len(s.fr)-1] }

func (s *State) setObj(o *Obj) {
	if o.ID < 0 && s.e.initing {
		s.e.base[o.ID] = o
		return
	}
	if !s.ownH {
		n := make(map[int]*Obj, len(s.heap)+8)
		for k, v := range s.heap {
			n[k] = v
		}
		s.heap = n
		s.ownH = true
	}
	s.heap[o.ID] = o
}

func (s *State) newObj(kind ObjKind, typ types.Type, val Value, site string) *Obj {
	if s.e.initing {
		s.e.nbase--
		o := &Obj{ID: s.e.nbase, Kind: kind, Typ: typ, Val: val, Site: site, Frame: "package-level data"}
		s.setObj(o)
		return o
	}
	s.next++
	o := &Obj{ID: s.next, Kind: kind, Typ: typ, Val: val, Site: site, Epoch: s.epoch}
	s.setObj(o)
	return o
}

func (s *State) obj(id int) *Obj {
	o := s.heap[id]
	if o == nil {
		// globals live in the base heap of the engine
		o = s.e.base[id]
		if o == nil {
			panic(fmt.Sprintf("no object %d", id))
		}
	}
	return o
}

// Path encoding: two bytes per element.
func pathAdd(p string, i int) string { return p + string([]byte{byte(i >> 8), byte(i)}) }

func pathGet(v Value, p string) Value {
	for len(p) > 0 {
		i := int(p[0])<<8 | int(p[1])
		sv, ok := v.(*StructV)
		if !ok || i >= len(sv.F) {
			panic(unsupported("path into a value which is not a struct"))
		}
		v = sv.F[i]
		p = p[2:]
	}
	return v
}

func pathSet(v Value, p string, x Value) Value {
	if len(p) == 0 {
		return x
	}
	i := int(p[0])<<8 | int(p[1])
	sv, ok := v.(*StructV)
	if !ok || i >= len(sv.F) {
		panic(unsupported("path into a value which is not a struct"))
	}
	n := &StructV{F: append([]Value(nil), sv.F...)}
	n.F[i] = pathSet(sv.F[i], p[2:], x)
	return n
}

type unsup struct{ msg string }

func unsupported(format string, a ...interface{}) unsup { return unsup{fmt.Sprintf(format, a...)} }

// isOpaque tells whether values of a type are single opaque terms.
func (e *Eng) isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time", "time.Location", "sync.Mutex", "sync.RWMutex", "bufio.Reader":
			return true
		}
	}
	return false
}

// opaquePtr tells whether pointers of this type are opaque values.
func (e *Eng) opaquePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == "time.Location"
}

func elemSort(t types.Type) (Sort, bool) {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		if b.Info()&types.IsInteger != 0 {
			if b.Kind() == types.Uint8 {
				return SStr, true
			}
			return SSeqI, true
		}
		if b.Info()&types.IsString != 0 {
			return SSeqS, true
		}
	}
	return 0, false
}

func scalarSort(t types.Type) (Sort, bool) {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			return SInt, true
		case b.Info()&types.IsString != 0:
			return SStr, true
		case b.Info()&types.IsBoolean != 0:
			return SBool, true
		}
	}
	return 0, false
}

// zero returns the zero value of a type.
func (e *Eng) zero(t types.Type) Value {
	tt := e.t
	if e.isOpaque(t) {
		n := t.(*types.Named)
		if n.Obj().Pkg().Path() == "bytes" || n.Obj().Pkg().Path() == "strings" {
			return tt.EmptyStr
		}
		return tt.UF(SOp, "zero:"+n.Obj().Pkg().Path()+"."+n.Obj().Name())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return PtrV{}
		}
		s, ok := scalarSort(t)
		if !ok {
			return tt.UF(SOp, "zero:"+u.Name())
		}
		switch s {
		case SInt:
			return tt.Zero
		case SBool:
			return tt.False
		}
		return tt.EmptyStr
	case *types.Pointer:
		if e.opaquePtr(t) {
			return e.nilOp()
		}
		return PtrV{}
	case *types.Slice:
		return SliceV{Off: tt.Zero, Len: tt.Zero, Cap: tt.Zero}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return PtrV{}
	case *types.Struct:
		v := &StructV{F: make([]Value, u.NumFields())}
		for i := range v.F {
			v.F[i] = e.zero(u.Field(i).Type())
		}
		return v
	case *types.Array:
		if u.Len() > 4096 {
			panic(unsupported("array of %d elements", u.Len()))
		}
		v := &StructV{F: make([]Value, u.Len())}
		if u.Len() > 0 {
			z := e.zero(u.Elem())
			for i := range v.F {
				v.F[i] = z
			}
		}
		return v
	case *types.Tuple:
		v := make(TupleV, u.Len())
		for i := range v {
			v[i] = e.zero(u.At(i).Type())
		}
		return v
	}
	panic(unsupported("zero value of %v", t))
}
