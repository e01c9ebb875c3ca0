package eng

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Init executes the initialization of a package and of the packages it needs.
func (e *Eng) Init(path string) error {
	pk := e.p.Pkgs[path]
	if pk == nil {
		return fmt.Errorf("no package %s", path)
	}
	e.initing = true
	defer func() { e.initing = false }()
	s := &State{e: e, heap: map[int]*Obj{}, ownH: true, f: NewFacts(e.t)}
	s.pushFrame(pk.Func("init"), nil, nil, nil, "")
	for len(s.fr) > 0 {
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case forkReq:
						err = fmt.Errorf("initialization depends on %v at %s", x.atom, s.where())
					case unsup:
						err = fmt.Errorf("initialization: %s at %s", x.msg, s.where())
					default:
						panic(r)
					}
				}
			}()
			s.step()
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

// Func finds a function of a package.
func (p *Prog) Func(path, name string) *ssa.Function {
	pk := p.Pkgs[path]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}
