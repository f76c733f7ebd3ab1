package main

import (
	"go/ast"
	"go/types"
)

// Tracked maps: presence and value as mathematical arrays over the key. Used where the specification
// file says "trackmaps"; elsewhere map contents are arbitrary up to a declared invariant.
type MapRef struct {
	loc       int
	nilb      *Node
	key, elem types.Type
}
type MapObj struct {
	key, elem types.Type
	has       *Node
	comps     []*Node
	size      *Node
	st        int
}

func (e *Engine) newMap(st *State, m *types.Map) Val {
	if !e.trackMaps {
		return &MapV{key: m.Key(), elem: m.Elem()}
	}
	var cs []*Node
	for _, s := range mapShape(m.Elem()) {
		cs = append(cs, ConstArr(defNode(s)))
	}
	return MapRef{loc: st.alloc(&MapObj{key: m.Key(), elem: m.Elem(), has: ConstArr(False), comps: cs, size: Zero, st: stOwned}), nilb: False, key: m.Key(), elem: m.Elem()}
}

func mapShape(t types.Type) (r []Sort) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Unsupported); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	return shape(t)
}

func (e *Engine) symMap(st *State, name string, m *types.Map, status int) Val {
	if !e.trackMaps {
		return &MapV{key: m.Key(), elem: m.Elem()}
	}
	o := &MapObj{key: m.Key(), elem: m.Elem(), st: status, has: Var("has_"+name, arrOf(SBool)), size: Var("size_"+name, SInt)}
	st.assume(Le(Zero, o.size))
	for i, s := range mapShape(m.Elem()) {
		o.comps = append(o.comps, Var(name+"#v"+itoa(i), arrOf(s)))
	}
	return MapRef{loc: st.alloc(o), nilb: Var("nil_"+name, SBool), key: m.Key(), elem: m.Elem()}
}

func (e *Engine) mapReadT(st *State, m MapRef, key *Node, k func(*State, Val, *Node)) {
	o := st.get(m.loc).(*MapObj)
	has := And(Not(m.nilb), Select(o.has, key))
	if b, ok := m.elem.Underlying().(*types.Basic); ok && len(o.comps) == 1 {
		_ = b
		k(st, Ite(has, Select(o.comps[0], key), st.zero(m.elem).(*Node)), has)
		return
	}
	e.branch(st, has, func(st *State) {
		if o.comps == nil {
			freshN++
			k(st, e.symVal(st, "mapval!"+itoa(freshN), m.elem, false), True)
			return
		}
		var c []*Node
		for _, x := range o.comps {
			c = append(c, Select(x, key))
		}
		v, _ := st.unflatten(c, m.elem)
		if sl, ok := v.(SliceV); ok && sl.arr != 0 && o.st == stOwned {
			a := *st.get(sl.arr).(*ArrV)
			a.mapped = true
			st.heap[sl.arr] = &a
		}
		k(st, v, True)
	}, func(st *State) { k(st, st.zero(m.elem), False) })
}

func (e *Engine) mapWriteT(st *State, m MapRef, key *Node, v Val) {
	e.obligation(st, "write to nil map", Not(m.nilb))
	o := *st.get(m.loc).(*MapObj)
	if o.st != stOwned {
		e.fail(st, "write to a shared map")
	}
	v = e.coerce(st, v, m.elem)
	e.freezeVal(st, v)
	o.size = Add(o.size, Ite(Select(o.has, key), Zero, One))
	o.has = Store(o.has, key, True)
	if o.comps != nil {
		fl := st.flatten(v, m.elem)
		cs := make([]*Node, len(o.comps))
		for i := range cs {
			cs[i] = Store(o.comps[i], key, fl[i])
		}
		o.comps = cs
	}
	st.set(m.loc, &o)
}

func (e *Engine) havocMap(st *State, o *MapObj) *MapObj {
	c := *o
	c.has = Fresh("hm", arrOf(SBool))
	c.size = Fresh("hs", SInt)
	st.assume(Le(Zero, c.size))
	c.comps = nil
	for i := range o.comps {
		c.comps = append(c.comps, Fresh("hm", arrOf(mapShape(o.elem)[i])))
	}
	return &c
}

func init() {
	specFns["handle"] = func(v *Env, a []ast.Expr) Val { return handleOf(v.eval(a[0])) }
	// all(k, body): no bounds
	specFns["all"] = func(v *Env, a []ast.Expr) Val {
		freshN++
		bv := BoundVar(a[0].(*ast.Ident).Name+itoa(freshN), SInt)
		return canonForall(bv, v.with(a[0].(*ast.Ident).Name, bv).bool(a[1]))
	}
	// fhash(list): what the hash of a list of factors is taken over
	specFns["fhash"] = func(v *Env, a []ast.Expr) Val {
		return fhash(v.state(), v.eval(a[0]))
	}
	callHooks["circuitcompiler.hashFactorsToBig"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		e.assumed["hashFactorsToBig: SHA-256 over the rendered list, read as collision-free with at least 16 decimal digits"] = true
		k(st, st.newBig(fhash(st, args[0]), stOwned, e.bigType()))
	}
	// carries(s, x): the string s is built from x by steps that lose it only through a hash collision
	specFns["carries"] = func(v *Env, a []ast.Expr) Val {
		if v.assuming { // says nothing to callers
			return True
		}
		x := v.node(a[1])
		return BoolN(carries(v.node(a[0]), false, func(n *Node, cut bool) bool { return n == x && !cut }))
	}
	// carrieslist(s, f): the same, of a hash taken over a list that includes f
	specFns["carrieslist"] = func(v *Env, a []ast.Expr) Val {
		if v.assuming {
			return True
		}
		h := fhash(v.state(), v.eval(a[1]))
		return BoolN(carries(v.node(a[0]), false, func(n *Node, cut bool) bool {
			if n.op != "fn" || n.name != "fhash" {
				return false
			}
			return contains(n.args[0], h.args[0]) && contains(n.args[1], h.args[1])
		}))
	}
}

// carries(s, is): an operand for which is() holds reaches s through formatting, digit truncation of
// hashes and combination of hashes.
func carries(s *Node, cut bool, is func(n *Node, cut bool) bool) bool {
	if is(s, cut) {
		return true
	}
	var as []*Node
	switch s.op {
	case "ite":
		return carries(s.args[1], cut, is) && carries(s.args[2], cut, is)
	case "fn":
		switch {
		case s.name == "substr":
			return s.args[1] == Zero && isNum(s.args[2]) && s.args[2].k.Int64() >= 16 && carries(s.args[0], true, is)
		case len(s.name) > 7 && s.name[:7] == "sprintf", s.name == "decimal", s.name == "bigXor", s.name == "itoa", s.name == "strcat":
			as = s.args
		}
	default:
		if s.sort == SInt && !isNum(s) {
			for _, m := range monosOf(s) {
				if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].a != s {
					as = append(as, m.fs[0].a)
				}
			}
		}
	}
	for _, y := range as {
		if carries(y, cut, is) {
			return true
		}
	}
	return false
}

func init() {
	// has(m, key)
	specFns["has"] = func(v *Env, a []ast.Expr) Val {
		m, ok := v.eval(a[0]).(MapRef)
		if !ok {
			specFail("has of something that is not a tracked map")
		}
		return And(Not(m.nilb), Select(v.state().get(m.loc).(*MapObj).has, v.node(a[1])))
	}
}

// pointer types of which slices hold the identity only
var handleTypes = map[string]bool{}

func handleOf(v Val) *Node {
	if p, ok := v.(Ptr); ok {
		return NumI(int64(p.loc))
	}
	if n, ok := v.(*Node); ok {
		return n
	}
	return Zero
}

func fhash(st *State, v Val) *Node {
	var c []*Node
	var ln *Node
	switch s := v.(type) {
	case SliceV:
		ln = s.ln
		if s.arr == 0 {
			c = []*Node{ConstArr(Zero), ConstArr(Zero), ConstArr(Zero)}
			break
		}
		for _, x := range st.clone().arrComps(s.arr).comps {
			c = append(c, Shift(x, s.off))
		}
	case specSlice:
		c, ln = s.comps, s.ln
	default:
		specFail("fhash of %T", s)
	}
	if ln == Zero { // every empty list hashes alike
		return Fn("fhash", SInt, ConstArr(Zero), ConstArr(Zero), Zero)
	}
	return Fn("fhash", SInt, c[1], c[2], ln)
}

// ofHash: the decimal rendering of a combination of hashes
func ofHash(s *Node) bool {
	if s.op != "fn" || s.name != "decimal" {
		return false
	}
	var in func(n *Node) bool
	in = func(n *Node) bool {
		if n.op == "fn" && n.name == "fhash" {
			return true
		}
		if n.op == "fn" && n.name != "bigXor" && n.name != "decimal" {
			return false
		}
		if n.op == "+" {
			for _, m := range monosOf(n) {
				if len(m.fs) == 1 && m.c.Sign() > 0 && in(m.fs[0].a) {
					return true
				}
			}
			return false
		}
		for _, a := range n.args {
			if in(a) {
				return true
			}
		}
		return false
	}
	return in(s)
}
