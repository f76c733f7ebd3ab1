package main

import (
	"go/ast"
	"go/types"
)

// In the proof-system package the elements of the three groups are read through their discrete
// logarithm to the generators: a *bn256.G1/G2/GT object holds an integer, meaningful modulo the
// group order. The models below are the group laws (P08) and the bilinearity of the pairing (P10).
var absGroups bool

func isAbsGroup(t types.Type) bool {
	if !absGroups {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "bn256" {
		return false
	}
	switch n.Obj().Name() {
	case "G1", "G2", "GT":
		return true
	}
	return false
}

// MarshalV is the encoding of a group element: equal encodings, equal elements.
type MarshalV struct {
	group string
	log   *Node
}

var absHooks = map[string]func(e *Engine, st *State, recv Val, args []Val, k EK){}

func (e *Engine) groupOrder(st *State) *Node {
	for _, p := range e.l.pkgs {
		if p.name == "bn256" {
			o := p.tpkg.Scope().Lookup("Order")
			v := st.get(e.globalLoc(st, o))
			return st.get(v.(Ptr).loc).(*BigV).v
		}
	}
	unsup("group order not found")
	return nil
}

// the affine x coordinate of the point with logarithm l
func xco(l, order *Node) *Node { return Fn("xco", SInt, Md(l, order)) }

func init() {
	nonneg := func(e *Engine, st *State, n *Node, what string) {
		e.obligation(st, what+" with a non-negative scalar", Le(Zero, n))
	}
	for _, g := range []string{"G1", "G2", "GT"} {
		g := g
		p := "bn256." + g + "."
		absHooks[p+"ScalarBaseMult"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
			n := e.val(st, args[0], "ScalarBaseMult")
			nonneg(e, st, n, "ScalarBaseMult")
			k(st, e.setBig(st, recv, n, "ScalarBaseMult"))
		}
		absHooks[p+"ScalarMult"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
			n := e.val(st, args[1], "ScalarMult")
			nonneg(e, st, n, "ScalarMult")
			k(st, e.setBig(st, recv, Mul(e.val(st, args[0], "ScalarMult"), n), "ScalarMult"))
		}
		absHooks[p+"Add"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
			k(st, e.setBig(st, recv, Add(e.val(st, args[0], "Add"), e.val(st, args[1], "Add")), "Add"))
		}
		absHooks[p+"Neg"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
			k(st, e.setBig(st, recv, Neg(e.val(st, args[0], "Neg")), "Neg"))
		}
		absHooks[p+"Marshal"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
			k(st, MarshalV{g, e.val(st, recv, "Marshal")})
		}
	}
	absHooks["bn256.G1.X"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		x := xco(e.val(st, recv, "X"), e.groupOrder(st))
		st.assume(Le(Zero, x))
		k(st, st.newBig(x, stOwned, bigTypeOf(e)))
	}
	absHooks["bn256.Pair"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		v := Mul(e.val(st, args[0], "Pair"), e.val(st, args[1], "Pair"))
		var t types.Type
		for _, p := range e.l.pkgs {
			if p.name == "bn256" {
				t = p.tpkg.Scope().Lookup("GT").Type()
			}
		}
		k(st, st.newBig(v, stOwned, t))
	}
	absHooks["bn256.PairingCheck"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		a, b := args[0].(SliceV), args[1].(SliceV)
		e.obligation(st, "PairingCheck with lists of one length", Le(a.ln, b.ln))
		var s *Node = Zero
		if a.ln.op == "num" {
			for i := int64(0); i < a.ln.k.Int64(); i++ {
				s = Add(s, Mul(e.val(st, e.readElem(st, a.arr, Add(a.off, NumI(i)), a.elem), "PairingCheck"), e.val(st, e.readElem(st, b.arr, Add(b.off, NumI(i)), b.elem), "PairingCheck")))
			}
		} else {
			unsup("PairingCheck of a list of unknown length")
		}
		k(st, Cong(e.groupOrder(st), s, Zero))
	}
}

func bigTypeOf(e *Engine) types.Type {
	for _, p := range e.l.pkgs {
		for _, i := range p.tpkg.Imports() {
			if i.Path() == "math/big" {
				return i.Scope().Lookup("Int").Type()
			}
		}
	}
	return nil
}

func init() {
	specFns["xco"] = func(v *Env, a []ast.Expr) Val {
		return xco(v.node(a[0]), v.e.groupOrder(v.state()))
	}
}
