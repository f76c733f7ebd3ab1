package main

import (
	"go/ast"
	"math/big"
)

// tval(t): the value an arbitrary assignment gives a token; constants (odd type) count 1, their
// value is the coefficient.
func init() {
	specFns["tval"] = func(v *Env, a []ast.Expr) Val {
		l := v.leaves(v.eval(a[0]))
		if len(l) != 2 {
			specFail("tval of a value with %d components", len(l))
		}
		return Ite(Eq(Bit(l[0], Zero), One), One, Fn("tokenvalue", SInt, l[0], l[1]))
	}
	specFns["bitand"] = func(v *Env, a []ast.Expr) Val { return bitAnd(v.node(a[0]), v.node(a[1])) }
	specFns["dvd"] = func(v *Env, a []ast.Expr) Val { return Dvd(v.node(a[0]), v.node(a[1])) }
	fnRebuild["dvd"] = func(a []*Node) *Node { return Dvd(a[0], a[1]) }
	fnAxioms["dvd"] = "(forall ((d Int) (a Int) (b Int)) (! (=> (and (|dvd| d a) (|dvd| a b)) (|dvd| d b)) :pattern ((|dvd| d a) (|dvd| a b))))"
	fnRebuild["bitand"] = func(a []*Node) *Node { return bitAnd(a[0], a[1]) }
	fnAxioms["bitand"] = "(forall ((a Int) (b Int)) (! (= (|bitand| a b) (|bitand| b a)) :pattern ((|bitand| a b))))"
	fnFacts["bitand"] = bitAndFacts
}

func bitAnd(a, b *Node) *Node {
	if isNum(a) && isNum(b) {
		return Num(new(big.Int).And(a.k, b.k))
	}
	if a == b {
		return a
	}
	if isNum(b) || (!isNum(a) && a.id > b.id) {
		a, b = b, a
	}
	return Fn("bitand", SInt, a, b)
}

// the parts of bitwise-and the code relies on: the low bit is the product of the low bits
func bitAndFacts(n *Node) []*Node {
	a, b := n.args[0], n.args[1]
	la, lb := Bit(a, Zero), Bit(b, Zero)
	return []*Node{
		Eq(Bit(n, Zero), Ite(And(Eq(la, One), Eq(lb, One)), One, Zero)),
		Imp(Eq(n, One), And(Eq(la, One), Eq(lb, One))),
		Imp(Or(Eq(a, Zero), Eq(b, Zero)), Eq(n, Zero)),
		Imp(Eq(a, One), And(Eq(n, lb), Eq(la, One))),
		Imp(Eq(b, One), And(Eq(n, la), Eq(lb, One))),
	}
}

// Dvd: d divides a (0 divides 0 only)
func Dvd(d, a *Node) *Node {
	if d == a || a == Zero {
		return True
	}
	if isNum(d) && isNum(a) {
		if d.k.Sign() == 0 {
			return False
		}
		return BoolN(new(big.Int).Rem(a.k, d.k).Sign() == 0)
	}
	return Fn("dvd", SBool, d, a)
}

// sort.Sort rearranges the elements of its argument: trusted (it only calls Len, Less and Swap;
// factors.Swap is verified to exchange two entries).
func (e *Engine) sortFactors(st *State, v Val) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.val
	}
	s, ok := v.(SliceV)
	if !ok || namedName(s.elem) != "factor" {
		return false
	}
	e.assumed["sort.Sort only rearranges its argument"] = true
	if s.arr == 0 {
		return true
	}
	a := st.arrComps(s.arr)
	if a.st != stOwned {
		e.fail(st, "sort.Sort on a shared slice")
	}
	if s.off != Zero {
		return false
	}
	val := func(a *ArrV) *Node {
		bv := BoundVar("so", SInt)
		t, id := Select(a.comps[0], bv), Select(a.comps[1], bv)
		tv := Ite(Eq(Bit(t, Zero), One), One, Fn("tokenvalue", SInt, t, id))
		return Sum(bv, Mul(Select(a.comps[2], bv), tv), s.ln)
	}
	before := val(a)
	n := e.havocVal(st, a).(*ArrV)
	st.set(s.arr, n)
	st.assume(Eq(val(n), before))
	return true
}
