package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Globals checks the frame condition of every function of the repository that
// is not an initializer: it writes no package-level variable, and nothing that
// is reachable from one. Addresses of package-level variables may only be
// loaded from, and references loaded from them only be read through. The
// result has an entry for every variable, with the violations of it.
func (p *Prog) Globals(repo string) map[string][]string {
	out := map[string][]string{}
	for path, pk := range p.Pkgs {
		if !strings.HasPrefix(path, repo) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				out[g.String()] = nil
			}
		}
	}
	for _, fn := range p.Functions(func(path string) bool { return strings.HasPrefix(path, repo) }) {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Name() == "init" || strings.HasPrefix(top.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repo) {
						continue
					}
					why := readOnly(repo, in, g, map[ssa.Value]bool{})
					if why != "" {
						out[g.String()] = append(out[g.String()], fmt.Sprintf("%s in %s: %s", why, fn, p.Fset.Position(in.Pos())))
					}
				}
			}
		}
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

// readOnly tells what is wrong with a use of a reference v in an instruction.
func readOnly(repo string, in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) string {
	uses := func(r ssa.Value) string {
		if seen[r] || !refers(r.Type()) {
			return ""
		}
		seen[r] = true
		for _, u := range *r.Referrers() {
			if why := readOnly(repo, u, r, seen); why != "" {
				return why
			}
		}
		return ""
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return uses(x)
		}
	case *ssa.FieldAddr:
		return uses(x)
	case *ssa.IndexAddr:
		return uses(x)
	case *ssa.Index:
		return uses(x)
	case *ssa.Field:
		return uses(x)
	case *ssa.Lookup:
		return uses(x)
	case *ssa.Extract:
		return uses(x)
	case *ssa.Range:
		return uses(x)
	case *ssa.Next:
		return uses(x)
	case *ssa.Slice:
		return uses(x)
	case *ssa.Phi:
		return uses(x)
	case *ssa.Store:
		if x.Addr == v {
			return "store"
		}
	case *ssa.MapUpdate:
		if x.Map == v {
			return "map update"
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && harmless(f) {
			return ""
		} else if f != nil && f.Pkg != nil && len(f.Blocks) > 0 && strings.HasPrefix(f.Pkg.Pkg.Path(), repo) {
			for i, a := range x.Call.Args {
				if a == v {
					if why := uses(f.Params[i]); why != "" {
						return why
					}
				}
			}
			return uses(x)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return ""
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && x.Call.Args[0] != v {
			return ""
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] != v {
			return ""
		}
	}
	return "the reference escapes"
}

// refers tells whether a value of the type gives access to memory which can be
// written through it.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	case *types.Interface, *types.Signature:
		return false // errors and functions: no memory of the library behind them
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// harmless tells whether a library function only reads what it is given.
func harmless(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		switch r.Type().String() {
		case "*regexp.Regexp", "*strings.Replacer":
			return true
		}
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "bytes", "strings", "unicode/utf8", "unicode", "strconv":
		return !strings.HasPrefix(f.Name(), "New") && !strings.HasPrefix(f.Name(), "Append")
	}
	return false
}
