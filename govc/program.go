package main

import (
	"go/types"
)

// The program's parse tree stays opaque: of a function only the input names are read, and the main
// function of a program is the object its globalFunction field stands for.
func init() {
	symHooks["function"] = func(e *Engine, st *State, name string, t types.Type, owned bool) Val {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return Ptr{loc: st.alloc(e.symFunction(st, name, p.Elem())), elem: p.Elem(), field: -1}
		}
		return nil
	}
	callHooks["circuitcompiler.Program.GetMainCircuit"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		p := recv.(Ptr)
		s := st.get(p.loc).(*StructV)
		k(st, s.f[0])
	}
}

func (e *Engine) symFunction(st *State, name string, t types.Type) Val {
	u := t.Underlying().(*types.Struct)
	s := &StructV{typ: t, frozen: true}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Slice, *types.Basic:
			s.f = append(s.f, e.symVal(st, name+"."+u.Field(i).Name(), ft, false))
		default:
			s.f = append(s.f, NilV{})
		}
	}
	return s
}
