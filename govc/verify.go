package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

func mustBig(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad number " + s)
	}
	return b
}
func newBig() *big.Int { return new(big.Int) }

// ---- globals ----

// globalLoc evaluates a package variable's initialiser once; its value is read-only afterwards.
func (e *Engine) globalLoc(st *State, o types.Object) int {
	if l, ok := e.globals[o]; ok {
		return l
	}
	var p *Pkg
	for _, q := range e.l.pkgs {
		if q.tpkg == o.Pkg() {
			p = q
		}
	}
	if p == nil {
		// a variable of the standard library
		e.externals[o.Pkg().Path()+"."+o.Name()] = true
		e.nextLoc++
		l := e.nextLoc
		if isIface(o.Type()) {
			e.globalHeap[l] = IfaceV{isnil: False}
		} else {
			unsup("external variable %s.%s", o.Pkg().Path(), o.Name())
		}
		e.globals[o] = l
		return l
	}
	if e.mutGlobals[o] {
		unsup("mutable package variable %s", o.Name())
	}
	e.assumed["package variables keep their initial values (no function assigns them)"] = true
	gs := &State{eng: e, heap: map[int]Val{}, ghost: map[string]*Node{}}
	fr := &Frame{fi: &FuncInfo{pkg: p, key: p.name + ".init"}, vars: map[types.Object]int{}}
	gs.frames = []*Frame{fr}
	var loc int
	init := p.inits[o]
	sq, sr, sp := e.quiet, e.rec, e.curPos
	e.rec = nil
	if init == nil {
		loc = gs.alloc(gs.zero(o.Type()))
	} else {
		n := 0
		e.eval(gs, init, func(s2 *State, v Val) {
			n++
			gs = s2
			loc = gs.alloc(e.coerce(gs, v, o.Type()))
		})
		if n != 1 {
			unsup("initialiser of %s forks", o.Name())
		}
	}
	e.quiet, e.rec, e.curPos = sq, sr, sp
	for l, v := range gs.heap {
		switch x := v.(type) {
		case *BigV:
			v = &BigV{v: x.v, st: stFrozen}
		case *StructV:
			c := *x
			c.frozen = true
			v = &c
		case *ArrV:
			c := *x
			c.st = stFrozen
			v = &c
		case *MapObj:
			c := *x
			c.st = stFrozen
			v = &c
		}
		e.globalHeap[l] = v
	}
	e.globals[o] = loc
	return loc
}

// findMutGlobals collects package variables assigned by some function.
func (e *Engine) findMutGlobals() {
	for _, p := range e.l.pkgs {
		for _, f := range p.files {
			ast.Inspect(f, func(n ast.Node) bool {
				mark := func(x ast.Expr) {
					for {
						switch y := x.(type) {
						case *ast.Ident:
							if o := p.info.Uses[y]; o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
								if _, ok := o.(*types.Var); ok {
									e.mutGlobals[o] = true
								}
							}
							return
						case *ast.SelectorExpr:
							if o := p.info.Uses[y.Sel]; o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
								e.mutGlobals[o] = true
								return
							}
							x = y.X
						case *ast.IndexExpr:
							x = y.X
						case *ast.ParenExpr:
							x = y.X
						case *ast.StarExpr:
							x = y.X
						default:
							return
						}
					}
				}
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						if s.Tok.String() != ":=" {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(s.X)
				}
				return true
			})
		}
	}
}

// ---- symbolic parameters ----

func (e *Engine) symVal(st *State, name string, t types.Type, owned bool) Val {
	status := stFrozen
	if owned {
		status = stOwned
	}
	if h, ok := symHooks[namedName(t)]; ok {
		if v := h(e, st, name, t, owned); v != nil {
			return v
		}
	}
	if isBigPtr(t) {
		return st.newBig(Var(name, SInt), status, t.Underlying().(*types.Pointer).Elem())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Var(name, SBool)
		}
		n := Var(name, SInt)
		if u.Info()&types.IsUnsigned != 0 {
			st.assume(Le(Zero, n))
			hi := new(big.Int).Lsh(bigOne, 64)
			if u.Kind() == types.Uint8 {
				hi = big.NewInt(256)
			}
			st.assume(Lt(n, Num(hi)))
		} else if u.Info()&types.IsInteger != 0 {
			hi := new(big.Int).Lsh(bigOne, 63)
			st.assume(And(Le(Num(new(big.Int).Neg(hi)), n), Lt(n, Num(hi))))
		}
		return n
	case *types.Pointer:
		if isPool(t) {
			return PoolV{}
		}
		v := e.symVal(st, name, u.Elem(), owned)
		if s, ok := v.(*StructV); ok && !owned {
			c := *s
			c.frozen = true
			v = &c
		}
		return Ptr{loc: st.alloc(v), elem: u.Elem(), field: -1}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.symVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), owned))
		}
		e.ringAtom(st, s, name)
		return s
	case *types.Slice:
		sh := shape(u.Elem())
		comps := make([]*Node, len(sh))
		for i, srt := range sh {
			comps[i] = Var(fmt.Sprintf("%s#%d", name, i), arrOf(srt))
			if isNilComp(u.Elem(), i) {
				comps[i] = ConstArr(False)
				if srt != SBool {
					comps[i] = Var(fmt.Sprintf("%s#%d", name, i), arrOf(srt))
				}
			}
		}
		ln := Var("len_"+name, SInt)
		st.assume(Le(Zero, ln))
		st.assume(Lt(ln, NumI(1<<40)))
		nl := Var("nil_"+name, SBool)
		st.assume(Imp(nl, Eq(ln, Zero)))
		arr := st.alloc(&ArrV{elem: u.Elem(), comps: comps, st: status, ext: ln})
		return SliceV{arr: arr, off: Zero, ln: ln, nilb: nl, elem: u.Elem()}
	case *types.Map:
		return e.symMap(st, name, u, status)
	case *types.Interface:
		return IfaceV{isnil: Var("nil_"+name, SBool)}
	case *types.Signature, *types.Chan:
		return NilV{}
	}
	unsup("symbolic parameter of type %v", t)
	return nil
}

type PoolV struct{}

var symHooks = map[string]func(e *Engine, st *State, name string, t types.Type, owned bool) Val{}

// ---- contract application ----

func (e *Engine) env(st, old *State, ct *Contract, names map[string]Val, res []Val) *Env {
	return &Env{e: e, st: st, old: old, names: names, pkg: ct.fi.pkg, res: res, normRing: ct.ringatoms}
}

func (e *Engine) bigLeaves(st *State, v Val, f func(loc int)) {
	switch x := v.(type) {
	case Ptr:
		if x.loc == 0 {
			return
		}
		o := st.get(x.loc)
		if x.field >= 0 {
			o = o.(*StructV).f[x.field]
		}
		switch o := o.(type) {
		case *BigV:
			f(x.loc)
		case *StructV:
			for _, y := range o.f {
				e.bigLeaves(st, y, f)
			}
		}
	case *StructV:
		for _, y := range x.f {
			e.bigLeaves(st, y, f)
		}
	}
}

func (e *Engine) applyContract(st *State, ct *Contract, recv Val, args []Val, k EK) {
	if ct.fi == nil {
		unsup("contract %s has no function", ct.key)
	}
	if ct.aliasresult {
		unsup("%s returns one of its modified arguments", ct.key)
	}
	names := ct.names(recv, args)
	pre := e.env(st, st, ct, names, nil)
	for _, r := range ct.requires {
		e.obligation(st, "precondition of "+ct.key+": "+r.src, pre.bool(r.expr))
	}
	// nil pointers among arguments
	recvN, ps := paramNames(ct.fi)
	chk := func(name string, v Val) {
		if p, ok := v.(Ptr); ok && p.loc == 0 && namedName(p.elem) != "bnPool" { // pools may be nil: only their methods touch them
			e.fail(st, "nil argument "+name+" of "+ct.key)
			panic(abortFn{"nil argument"})
		}
	}
	if recv != nil {
		chk(recvN, recv)
	}
	for i, p := range ps {
		if i < len(args) {
			chk(p, args[i])
		}
	}
	// ownership and separation of the modified objects
	modLocs := map[int]bool{}
	var mods []Val
	for _, m := range ct.modifies {
		v := pre.eval(m.expr)
		mods = append(mods, v)
		seen := map[int]bool{}
		e.walkMod(st, v, func(loc int, obj Val) {
			if seen[loc] {
				e.fail(st, "components of "+m.src+" are distinct in call of "+ct.key)
			}
			seen[loc] = true
			modLocs[loc] = true
			switch o := obj.(type) {
			case *BigV:
				if o.st != stOwned {
					e.fail(st, "call of "+ct.key+" updates a shared value ("+m.src+")")
				}
			case *StructV:
				if o.frozen {
					e.fail(st, "call of "+ct.key+" updates a shared object ("+m.src+")")
				}
			case *MapObj:
				if o.st != stOwned {
					e.fail(st, "call of "+ct.key+" updates a shared map ("+m.src+")")
				}
			case *ArrV:
				if o.st != stOwned {
					e.fail(st, "call of "+ct.key+" updates a shared slice ("+m.src+")")
				}
			}
		})
	}
	if len(mods) > 0 {
		all := append([]Val{}, args...)
		if recv != nil {
			all = append(all, recv)
		}
		for _, a := range all {
			whole := false
			for _, m := range mods {
				if samePtr(a, m) {
					whole = true
				}
			}
			if whole {
				continue
			}
			e.bigLeaves(st, a, func(loc int) {
				if modLocs[loc] {
					e.fail(st, "partial overlap of arguments in call of "+ct.key)
				}
			})
		}
		if ct.noalias {
			for i := range all {
				for j := i + 1; j < len(all); j++ {
					if samePtr(all[i], all[j]) && isModPtr(all[i], mods) {
						e.fail(st, "arguments of "+ct.key+" must not alias")
					}
				}
			}
		}
	}
	// use facts about arguments that are only nameable before the update
	old := st.clone()
	pre = e.env(old, old, ct, names, nil)
	// effects
	for _, nf := range ct.nilfield {
		e.withNilField(st, ct, names, nf, func(s *StructV, loc, i int) {
			if q, ok := s.f[i].(Ptr); ok && q.loc == 0 {
				c := *s
				c.f = append([]Val{}, s.f...)
				c.f[i] = e.resultVal(st, s.typ.Underlying().(*types.Struct).Field(i).Type(), true)
				st.set(loc, &c)
			}
		})
	}
	for i := range mods {
		e.havocMod(st, mods[i])
	}
	e.storedArgs(st, recv, args, mods)
	if ct.ringresult {
		for _, m := range mods {
			e.walkMod(st, m, func(loc int, obj Val) {
				if s, ok := obj.(*StructV); ok {
					freshN++
					e.ringAtom(st, s, fmt.Sprintf("m!%d", freshN))
				}
			})
		}
	}
	for _, s := range ct.sets {
		tgt := e.env(st, old, ct, names, nil).eval(s.target)
		val := pre.node(s.val)
		e.setRing(st, tgt, val, s.reduced)
	}
	sig := ct.fi.obj.Type().(*types.Signature)
	nres := sig.Results().Len()
	finish := func(st *State, res []Val, ensure bool) {
		if ensure {
			post := e.env(st, old, ct, names, res)
			post.assuming = true
			for _, c := range ct.ensures {
				b := post.bool(c.expr)
				if !ct.ringresult {
					b = e.define(st, mods, b)
				}
				st.assume(b)
			}
			for _, c := range ct.yields {
				st.assume(post.bool(c.expr))
				e.assumed["mathematical reading of the contract of "+ct.key+": "+c.src] = true
			}
			for _, c := range ct.lemmas {
				st.assume(post.bool(c.expr))
				e.assumed["lemma at "+ct.key+": "+c.src] = true
			}
		}
		k(st, tuple(res))
	}
	build := func(st *State, nilIdx map[int]bool) {
		var res []Val
		allFresh, basicOnly, bigOnly := true, false, false
		for i := 0; i < nres; i++ {
			t := sig.Results().At(i).Type()
			if i < len(ct.returns) && !nilIdx[i] {
				res = append(res, e.env(st, old, ct, names, nil).eval(ct.returns[i].expr))
				continue
			}
			if nilIdx[i] || ct.noresult {
				res = append(res, e.zeroOr(st, t))
				continue
			}
			fr := ct.fresh || ct.freshIdx[i]
			v := e.resultVal(st, t, fr)
			res = append(res, v)
			if !fr && isRef(t) {
				if sl, ok := t.Underlying().(*types.Slice); ok && !isRef(sl.Elem()) {
					basicOnly = true
				} else if pt, ok := t.Underlying().(*types.Pointer); ok && isBigInt(pt.Elem()) {
					bigOnly = true
				} else {
					allFresh = false
				}
			}
		}
		if !allFresh {
			for _, a := range args {
				e.freezeVal(st, a)
			}
			if recv != nil {
				e.freezeVal(st, recv)
			}
		}
		if bigOnly { // the result may be one of the integers an argument refers to
			for _, a := range append([]Val{recv}, args...) {
				if a != nil {
					e.freezeKind(st, a, false, true)
				}
			}
		}
		if basicOnly { // the result may share a slice of plain values with an argument
			for _, a := range append([]Val{recv}, args...) {
				if a != nil {
					e.freezeKind(st, a, true, false)
				}
			}
		}
		finish(st, res, true)
	}
	// nil-result cases
	var rec func(st *State, i int, nilIdx map[int]bool)
	rec = func(st *State, i int, nilIdx map[int]bool) {
		if i == len(ct.nilres) {
			build(st, nilIdx)
			return
		}
		nc := ct.nilres[i]
		cond := e.env(st, old, ct, names, nil)
		cond.useOld = true
		c := cond.bool(nc.cond.expr)
		e.branch(st, c, func(st *State) {
			n := map[int]bool{nc.res: true}
			for k := range nilIdx {
				n[k] = true
			}
			rec(st, i+1, n)
		}, func(st *State) { rec(st, i+1, nilIdx) })
	}
	rec(st, 0, map[int]bool{})
}

// define replaces a havocked leaf by its value where a postcondition states it as an equation.
func (e *Engine) define(st *State, mods []Val, b *Node) *Node {
	eqs := []*Node{b}
	if b.op == "and" {
		eqs = b.args
	}
	var loc map[*Node]int
	drop := map[*Node]bool{}
	for _, q := range eqs {
		if q.op != "=" || q.args[0].sort != SInt {
			continue
		}
		if loc == nil {
			loc = map[*Node]int{}
			for _, m := range mods {
				e.walkMod(st, m, func(l int, obj Val) {
					if o, ok := obj.(*BigV); ok && o.v.op == "var" && isHavocName(o.v.name) {
						loc[o.v] = l
					}
				})
			}
		}
		t := Sub(q.args[0], q.args[1])
		for _, m := range monosOf(t) {
			if len(m.fs) != 1 || m.fs[0].e != 1 || m.c.CmpAbs(bigOne) != 0 {
				continue
			}
			a := m.fs[0].a
			l, ok := loc[a]
			if !ok {
				continue
			}
			rest := Sub(t, MulB(a, m.c))
			if contains(rest, a) {
				continue
			}
			bad := false // values havocked by the same call stay symbolic
			for o := range loc {
				if o != a && contains(rest, o) {
					bad = true
				}
			}
			if bad {
				continue
			}
			st.set(l, &BigV{v: MulB(rest, new(big.Int).Neg(m.c)), st: st.get(l).(*BigV).st})
			delete(loc, a)
			used := false // a defining equation of a variable that occurs nowhere else says nothing more
			for _, f := range st.pc {
				if contains(f, a) {
					used = true
				}
			}
			for _, f := range eqs {
				if f != q && contains(f, a) {
					used = true
				}
			}
			if !used {
				drop[q] = true
			}
			break
		}
	}
	if len(drop) == 0 {
		return b
	}
	var keep []*Node
	for _, q := range eqs {
		if !drop[q] {
			keep = append(keep, q)
		}
	}
	return And(keep...)
}

func isHavocName(s string) bool { return len(s) > 2 && s[:2] == "m!" }

// withNilField finds the field a nilfield clause "x.f" names.
func (e *Engine) withNilField(st *State, ct *Contract, names map[string]Val, nf Clause, f func(s *StructV, loc, i int)) {
	sel, ok := nf.expr.(*ast.SelectorExpr)
	if !ok {
		specFail("nilfield takes a field")
	}
	p, ok := e.env(st, st, ct, names, nil).eval(sel.X).(Ptr)
	if !ok || p.loc == 0 {
		return
	}
	s, ok := st.get(p.loc).(*StructV)
	if !ok {
		specFail("nilfield of a non-structure")
	}
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == sel.Sel.Name {
			f(s, p.loc, i)
			return
		}
	}
	specFail("no field %s", sel.Sel.Name)
}

func (e *Engine) zeroOr(st *State, t types.Type) Val { return st.zero(t) }

func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func samePtr(a, b Val) bool {
	x, ok1 := a.(Ptr)
	y, ok2 := b.(Ptr)
	if ok1 && ok2 {
		return x.loc == y.loc && x.field == y.field && x.loc != 0
	}
	s, ok1 := a.(SliceV)
	t, ok2 := b.(SliceV)
	return ok1 && ok2 && s.arr == t.arr && s.arr != 0
}
func isModPtr(a Val, mods []Val) bool {
	for _, m := range mods {
		if samePtr(a, m) {
			return true
		}
	}
	return false
}

// walkMod visits all objects whose contents a modifies clause covers.
func (e *Engine) walkMod(st *State, v Val, f func(loc int, obj Val)) {
	switch x := v.(type) {
	case Ptr:
		if x.loc == 0 {
			return
		}
		o := st.get(x.loc)
		f(x.loc, o)
		if s, ok := o.(*StructV); ok {
			for _, y := range s.f {
				e.walkMod(st, y, f)
			}
		}
	case *StructV:
		for _, y := range x.f {
			e.walkMod(st, y, f)
		}
	case SliceV:
		if x.arr != 0 {
			f(x.arr, st.get(x.arr))
		}
	case MapRef:
		f(x.loc, st.get(x.loc))
	}
}

// ringAtom gives the ring value of an unconstrained quadratic element a name of its own, so that
// formulas over it do not have to be expanded into coordinates.
func (e *Engine) ringAtom(st *State, s *StructV, name string) {
	if e.curContract != nil && e.curContract.ringatoms12 {
		if namedName(s.typ) == "gfP12" {
			e.ringAtom12(st, s, name)
		}
		return
	}
	if e.curContract == nil || !e.curContract.ringatoms || namedName(s.typ) != "gfP2" {
		return
	}
	x, ok1 := st.get(s.f[0].(Ptr).loc).(*BigV)
	y, ok2 := st.get(s.f[1].(Ptr).loc).(*BigV)
	if !ok1 || !ok2 || y.v.op != "var" || x.v.op != "var" {
		return
	}
	a := RingVar("ring(" + name + ")")
	atomLevel[a] = 2
	atomHalf[x.v] = true
	ringPivot[y.v] = Sub(a, Mul(TI, x.v))
}

// ringAtom12 names an unconstrained element A = y + OMEGA x of the top field. Its p^6-th power is
// y - OMEGA x (tower arithmetic), so with B = A^(p^6): y = (A+B)/2 and x = (A-B)/(2 OMEGA).
func (e *Engine) ringAtom12(st *State, s *StructV, name string) {
	if len(ringOfLeaves(st, s)) != 12 {
		return
	}
	for _, n := range ringOfLeaves(st, s) {
		if n.op != "var" || ringPivot[n] != nil {
			return
		}
	}
	a := RingVar("ring(" + name + ")")
	atomLevel[a] = 12
	b := Pow(a, Num(new(big.Int).Exp(towerP, big.NewInt(6), nil)))
	half := Num(new(big.Int).ModInverse(big.NewInt(2), towerP))
	c82 := Num(new(big.Int).ModInverse(big.NewInt(82), towerP))
	// 1/OMEGA = OMEGA TAU^2/(9+I) = OMEGA TAU^2 (9-I)/82
	oi := Mul(Mul(TOm, Mul(TTau, TTau)), Mul(c82, Sub(NumI(9), TI)))
	x, y := st.get(s.f[0].(Ptr).loc).(*StructV), st.get(s.f[1].(Ptr).loc).(*StructV)
	last := func(q *StructV) *Node { l := ringOfLeaves(st, q); return l[len(l)-1] }
	lx, ly := last(x), last(y)
	px := ringNorm(Mul(Mul(half, Sub(a, b)), oi))
	py := ringNorm(Mul(half, Add(a, b)))
	rx, ry := Sub(ringOf(st, x), lx), Sub(ringOf(st, y), ly)
	ringPivot[lx] = Sub(px, rx)
	ringPivot[ly] = Sub(py, ry)
	ringNormMemo = map[*Node]*Node{}
}

func ringOfLeaves(st *State, s *StructV) []*Node {
	var r []*Node
	for _, f := range s.f {
		switch o := st.get(f.(Ptr).loc).(type) {
		case *BigV:
			r = append(r, o.v)
		case *StructV:
			r = append(r, ringOfLeaves(st, o)...)
		}
	}
	return r
}

func (e *Engine) havocMod(st *State, v Val) {
	e.walkMod(st, v, func(loc int, obj Val) {
		switch o := obj.(type) {
		case *BigV:
			st.set(loc, &BigV{v: Fresh("m", SInt), st: o.st})
		case *ArrV:
			st.set(loc, e.havocVal(st, o))
		case *MapObj:
			st.set(loc, e.havocMap(st, o))
		case *StructV:
			st.set(loc, e.havocFields(st, o))
		case SliceV, TreeVal, EntriesV:
			st.set(loc, e.havocVal(st, o))
		default:
			unsup("call may modify a %T", obj)
		}
	})
}

// storedArgs: a modified container may now refer to what the other arguments refer to, which is
// therefore not updated in place any more.
func (e *Engine) storedArgs(st *State, recv Val, args, mods []Val) {
	bigs, deep := false, false
	elem := func(t types.Type) {
		switch {
		case isBigPtr(t):
			bigs = true
		case isRef(t):
			deep = true
		}
	}
	for _, m := range mods {
		e.walkMod(st, m, func(loc int, obj Val) {
			switch o := obj.(type) {
			case *ArrV:
				elem(o.elem)
			case *MapObj:
				elem(o.elem)
			case *StructV:
				for _, f := range o.f {
					switch f := f.(type) {
					case TreeVal, EntriesV:
						bigs = true
					case SliceV:
						elem(f.elem)
					}
				}
			}
		})
	}
	if !bigs && !deep {
		return
	}
	for _, a := range append([]Val{recv}, args...) {
		mod := a == nil
		for _, m := range mods {
			ra, ok1 := a.(MapRef)
			rm, ok2 := m.(MapRef)
			mod = mod || samePtr(a, m) || ok1 && ok2 && ra.loc == rm.loc
		}
		if !mod {
			e.freezeKind(st, a, false, !deep)
		}
	}
}

// havocFields forgets the fields of an object a callee may modify; objects behind pointer and map
// fields are visited by walkMod.
func (e *Engine) havocFields(st *State, o *StructV) *StructV {
	c := &StructV{typ: o.typ, frozen: o.frozen, f: append([]Val{}, o.f...)}
	for i, y := range o.f {
		switch y := y.(type) {
		case *Node:
			c.f[i] = Fresh("m", y.sort)
		case SliceV, TreeVal, EntriesV, IfaceV, *ArrV:
			c.f[i] = e.havocVal(st, y)
		case *StructV:
			c.f[i] = e.havocFields(st, y)
		case Ptr, MapRef, NilV, FuncV, *MapV:
		default:
			unsup("call may modify a %T", y)
		}
	}
	return c
}

// resultVal is an arbitrary value of a result type.
func (e *Engine) resultVal(st *State, t types.Type, fresh bool) Val {
	freshN++
	v := e.symVal(st, fmt.Sprintf("res!%d", freshN), t, fresh)
	return v
}

// setRing assigns the leaves of a tower element (or a big integer) so that it represents val.
func (e *Engine) setRing(st *State, tgt Val, val *Node, reduced bool) {
	p, ok := tgt.(Ptr)
	if !ok || p.loc == 0 {
		unsup("sets on %T", tgt)
	}
	o := st.get(p.loc)
	if b, ok := o.(*BigV); ok {
		if reduced {
			st.set(p.loc, &BigV{v: Md(val, towerPN), st: b.st})
		} else {
			f := Fresh("s", SInt)
			ringPivot[f] = ringNorm(val)
			st.set(p.loc, &BigV{v: f, st: b.st})
		}
		return
	}
	s := o.(*StructV)
	leaf := func(v Val, n *Node) {
		q := v.(Ptr)
		b := st.get(q.loc).(*BigV)
		if reduced {
			st.set(q.loc, &BigV{v: n, st: b.st})
			return
		}
		f := Fresh("s", SInt)
		ringPivot[f] = n
		st.set(q.loc, &BigV{v: f, st: b.st})
	}
	switch namedName(s.typ) {
	case "gfP2":
		leaf(s.f[0], Imc(val, towerPN))
		leaf(s.f[1], Rec(val, towerPN))
	case "gfP6":
		e.setRing(st, s.f[0], Tc(2, val), reduced)
		e.setRing(st, s.f[1], Tc(1, val), reduced)
		e.setRing(st, s.f[2], Tc(0, val), reduced)
	case "gfP12":
		e.setRing(st, s.f[0], Wc(1, val), reduced)
		e.setRing(st, s.f[1], Wc(0, val), reduced)
	default:
		unsup("sets on %v", s.typ)
	}
}

// ---- verification of one function against its contract ----

type FnResult struct {
	key       string
	obls      []*Obl
	err       string
	paths     int
	parts     int
	depends   []string
	inlined   []string
	externals []string
	assumed   []string
	trusted   string
	wall      time.Duration
	cached    bool
}

func (r *FnResult) failed() []*Obl {
	var f []*Obl
	for _, o := range r.obls {
		if !o.ok {
			f = append(f, o)
		}
	}
	return f
}
func (r *FnResult) ok() bool { return r.err == "" && len(r.failed()) == 0 }

func (e *Engine) verifyFn(ct *Contract, budget time.Duration) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{key: ct.key, trusted: ct.trusted}
	e.obls, e.fails, e.paths = nil, 0, 0
	e.depends, e.inlined, e.externals, e.assumed = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	e.curFn = ct.key
	e.curContract = ct
	ringPivot, ringNormMemo, atomHalf = map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]bool{}
	e.deadline = t0.Add(budget)
	e.quiet, e.rec = 0, nil
	e.trackMaps = ct.trackmaps
	for k := range handleTypes {
		delete(specialShape, k)
		delete(specialFlatten, k)
	}
	handleTypes = map[string]bool{}
	for _, h := range ct.handles {
		handleTypes[h] = true
		specialShape[h] = []Sort{SInt}
		specialFlatten[h] = func(st *State, v Val) []*Node { return []*Node{handleOf(v)} }
	}
	absGroups = ct.logs || (ct.fi != nil && ct.fi.pkg.name == "zkSNARK")
	defer func() {
		absGroups = false
		if x := recover(); x != nil {
			switch y := x.(type) {
			case Unsupported:
				res.err = "outside the verified subset: " + y.msg + " (at " + e.posStr(e.curPos) + ")"
			case specErr:
				res.err = "specification does not match the code: " + y.msg
			case abortFn:
				res.err = y.msg
			default:
				res.err = fmt.Sprintf("engine error: %v (at %s)", x, e.posStr(e.curPos))
				if os.Getenv("GOVC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
		res.obls = e.obls
		res.paths = e.paths
		res.depends, res.inlined = sortedKeys(e.depends), sortedKeys(e.inlined)
		res.externals, res.assumed = sortedKeys(e.externals), sortedKeys(e.assumed)
		res.wall = time.Since(t0)
	}()
	if ct.fi == nil {
		res.err = "function under contract no longer exists"
		return
	}
	if ct.trusted != "" || ct.inline {
		return
	}
	sig := ct.fi.obj.Type().(*types.Signature)
	// alias patterns
	type param struct {
		name string
		t    types.Type
	}
	var params []param
	rn, ps := paramNames(ct.fi)
	if sig.Recv() != nil {
		params = append(params, param{"recv:" + rn, sig.Recv().Type()})
	}
	for i, p := range ps {
		params = append(params, param{p, sig.Params().At(i).Type()})
	}
	isMod := map[int]bool{}
	amap := ct.aliasNames()
	for _, m := range ct.modifies {
		if id, ok := m.expr.(*ast.Ident); ok {
			for i, p := range params {
				if p.name == id.Name || p.name == "recv:"+id.Name || amap[id.Name] == p.name || "recv:"+amap[id.Name] == p.name {
					isMod[i] = true
				}
			}
		}
	}
	var parts [][]int
	n := len(params)
	var rec func(i int, cur []int)
	rec = func(i int, cur []int) {
		if i == n {
			parts = append(parts, append([]int{}, cur...))
			return
		}
		rec(i+1, append(cur, i))
		if ct.noalias {
			return
		}
		if _, isP := params[i].t.Underlying().(*types.Pointer); !isP || isPool(params[i].t) || namedName(params[i].t) == "AvlTree" {
			return
		}
		for j := 0; j < i; j++ {
			if cur[j] == j && types.Identical(params[j].t, params[i].t) {
				// aliasing matters when one of the class is modified
				rec(i+1, append(cur, j))
			}
		}
	}
	rec(0, nil)
	var keep [][]int
	for _, p := range parts {
		base := true
		good := true
		for i, r := range p {
			if r != i {
				base = false
				has := isMod[r] || isMod[i]
				for j, q := range p {
					if q == r && isMod[j] {
						has = true
					}
				}
				if !has {
					good = false
				}
			}
		}
		if base || good {
			keep = append(keep, p)
		}
	}
	returned := 0
	variants := 1 << len(ct.nilfield)
	for pv := 0; pv < len(keep)*variants; pv++ {
		pi, part, variant := pv, keep[pv/variants], pv%variants
		st := &State{eng: e, heap: map[int]Val{}, ghost: map[string]*Node{}}
		vals := make([]Val, n)
		for i, r := range part {
			if r != i {
				vals[i] = vals[r]
				continue
			}
			owned := isMod[i]
			for j, q := range part {
				if q == r && isMod[j] {
					owned = true
				}
			}
			nm := params[i].name
			if len(nm) > 5 && nm[:5] == "recv:" {
				nm = nm[5:]
			}
			if nm == "" {
				nm = "recv"
			}
			if ct.ringatoms {
				nm += "'" // ring names are tied to the variable, so they must not be shared with other contracts
			}
			vals[i] = e.symVal(st, nm, params[i].t, owned)
		}
		var recv Val
		args := vals
		if sig.Recv() != nil {
			recv, args = vals[0], vals[1:]
		}
		names := ct.names(recv, args)
		st.entryNames = names
		fr0 := &Frame{fi: ct.fi, vars: map[types.Object]int{}, sig: sig}
		st.frames = []*Frame{fr0}
		// components named in modifies (like r.x) become writable
		for _, m := range ct.modifies {
			if _, ok := m.expr.(*ast.Ident); !ok {
				v := e.env(st, st, ct, names, nil).eval(m.expr)
				e.walkMod(st, v, func(loc int, obj Val) {
					switch o := obj.(type) {
					case *BigV:
						st.heap[loc] = &BigV{v: o.v, st: stOwned}
					case *StructV:
						c := *o
						c.frozen = false
						st.heap[loc] = &c
					case *MapObj:
						c := *o
						c.st = stOwned
						st.heap[loc] = &c
					case *ArrV:
						c := *o
						c.st = stOwned
						st.heap[loc] = &c
					}
				})
			}
		}
		for i, nf := range ct.nilfield {
			if variant>>i&1 == 1 {
				e.withNilField(st, ct, names, nf, func(s *StructV, loc, i int) {
					c := *s
					c.f = append([]Val{}, s.f...)
					c.f[i] = Ptr{elem: s.typ.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Pointer).Elem(), field: -1}
					st.heap[loc] = &c
				})
			}
		}
		pre := e.env(st, st, ct, names, nil)
		contradiction := false
		for _, r := range ct.requires {
			b := pre.bool(r.expr)
			if b == False {
				contradiction = true
				break
			}
			st.assume(b)
		}
		if contradiction {
			if pi == 0 && !ct.requiresHas("same(") {
				e.obls = append(e.obls, &Obl{fn: ct.key, kind: "precondition satisfiable", ok: false, detail: "vacuous"})
			}
			continue
		}
		for _, r := range ct.uses {
			st.assume(pre.bool(r.expr))
			e.assumed["mathematical fact used by "+ct.key+": "+r.src] = true
		}
		if refute(st.pc, 1500).ok {
			if pi == 0 && !ct.requiresHas("same(") {
				e.obls = append(e.obls, &Obl{fn: ct.key, kind: "precondition satisfiable", ok: false, detail: "vacuous"})
			}
			continue
		}
		base := e.nextLoc
		st.allocBase = base
		old := st.clone()
		st.old = old
		old.old = old
		fr := &Frame{fi: ct.fi, vars: map[types.Object]int{}, sig: sig}
		e.bindParams(st, fr, ct.fi.pkg.info, ct.fi.decl.Type, ct.fi.decl.Recv, recv, args)
		st.frames = []*Frame{fr}
		e.runBody(st, ct.fi.decl.Body, ct.fi.decl.Type, sig.Results().Len(), func(st *State, rv []Val) {
			returned++
			e.paths++
			e.curPos = ct.fi.decl.Body.Rbrace
			for i := range rv {
				rv[i] = e.coerce(st, rv[i], sig.Results().At(i).Type())
			}
			e.checkPost(ct, st, old, names, rv, sig, base)
		})
	}
	if returned == 0 {
		e.obls = append(e.obls, &Obl{fn: ct.key, kind: "some path returns", ok: false, detail: "no path reaches a return"})
	}
	res.parts = len(keep)
	return
}

func (ct *Contract) hasNil(i int) bool {
	for _, nc := range ct.nilres {
		if nc.res == i {
			return true
		}
	}
	return false
}

func (e *Engine) checkPost(ct *Contract, st, old *State, names map[string]Val, rv []Val, sig *types.Signature, base int) {
	post := e.env(st, old, ct, names, rv)
	oldEnv := e.env(old, old, ct, names, nil)
	// results by identity
	for i, r := range ct.returns {
		want := oldEnv.eval(r.expr)
		if p, ok := rv[i].(Ptr); ok && p.loc == 0 && ct.hasNil(i) {
			continue // decided by the nil clause
		}
		if samePtr(rv[i], want) {
			e.obligation(st, "returns "+r.src, True)
		} else {
			e.obligation(st, "returns "+r.src, False)
		}
	}
	// nil results
	if ct.noresult {
		rv = nil
	}
	nilAllowed := map[int]bool{}
	for _, nc := range ct.nilres {
		c := oldEnv.bool(nc.cond.expr)
		if nc.res < len(rv) {
			isn := e.isNil(st, rv[nc.res])
			e.obligation(st, fmt.Sprintf("result %d is nil exactly when %s", nc.res, nc.cond.src), Iff(isn, c))
			if isn == True {
				nilAllowed[nc.res] = true
			}
		}
	}
	anyNil := false
	for i, v := range rv {
		if p, ok := v.(Ptr); ok && p.loc == 0 {
			if !nilAllowed[i] {
				e.obligation(st, fmt.Sprintf("result %d is not nil", i), False)
			}
			anyNil = true
		}
	}
	if anyNil {
		// postconditions that mention a nil result are skipped by evaluation under nil
	}
	// tower updates
	modAll := map[int]bool{}
	for _, m := range ct.modifies {
		v := oldEnv.eval(m.expr)
		seen := map[int]bool{}
		e.walkMod(old, v, func(loc int, obj Val) { modAll[loc] = true })
		e.walkMod(st, e.env(st, old, ct, names, nil).eval(m.expr), func(loc int, obj Val) {
			if seen[loc] {
				e.fail(st, "components of "+m.src+" stay distinct")
			}
			seen[loc] = true
			if !modAll[loc] && loc <= base {
				e.fail(st, "component of "+m.src+" now refers to another argument")
			}
			switch o := obj.(type) {
			case *BigV:
				if o.st != stOwned {
					e.fail(st, "component of "+m.src+" is shared or handed back to the pool on return")
				}
			}
		})
	}
	for _, s := range ct.sets {
		tgt := e.env(st, old, ct, names, nil).eval(s.target)
		val := oldEnv.node(s.val)
		got := post.toNode(tgt)
		e.obligation(st, "sets "+s.src, Cong(towerPN, got, val))
		if s.reduced {
			var cs []*Node
			for _, l := range post.leaves(tgt) {
				cs = append(cs, Le(Zero, l), Lt(l, towerPN))
			}
			e.obligation(st, "canonical representatives: "+s.src, And(cs...))
		}
	}
	for _, c := range ct.ensures {
		g := post.bool(c.expr)
		if len(st.hid) > 0 {
			c := c
			e.prover = func(st *State, g *Node) ProveResult { return e.proveHidden(st, c, g) }
			e.obligation(st.clone(), "ensures "+c.src, g)
			continue
		}
		e.obligation(st, "ensures "+c.src, g)
	}
	// frame: frozen objects cannot have been written (checked at each write)
	for i := range rv {
		t := sig.Results().At(i).Type()
		if i < len(ct.returns) || !isRef(t) {
			continue
		}
		if ct.fresh || ct.freshIdx[i] {
			e.walkDeep(st, rv[i], func(loc int, obj Val) {
				if loc <= base {
					e.fail(st, fmt.Sprintf("result %d is freshly allocated", i))
				}
				switch o := obj.(type) {
				case *BigV:
					if o.st != stOwned {
						e.fail(st, fmt.Sprintf("result %d is freshly allocated (holds a shared value)", i))
					}
				case *ArrV:
					if o.st != stOwned {
						e.fail(st, fmt.Sprintf("result %d is freshly allocated (shares a slice)", i))
					}
				}
			})
		} else {
			e.walkDeep(st, rv[i], func(loc int, obj Val) {
				if modAll[loc] && !ct.aliasresult {
					e.fail(st, fmt.Sprintf("result %d aliases a modified argument", i))
				}
				if b, ok := obj.(*BigV); ok && b.st == stDead {
					e.fail(st, fmt.Sprintf("result %d was handed back to the pool", i))
				}
			})
		}
	}
}

func (e *Engine) walkDeep(st *State, v Val, f func(loc int, obj Val)) {
	switch x := v.(type) {
	case Ptr:
		if x.loc == 0 {
			return
		}
		o := st.get(x.loc)
		f(x.loc, o)
		if s, ok := o.(*StructV); ok {
			for _, y := range s.f {
				e.walkDeep(st, y, f)
			}
		}
	case *StructV:
		for _, y := range x.f {
			e.walkDeep(st, y, f)
		}
	case SliceV:
		if x.arr != 0 {
			a := st.get(x.arr).(*ArrV)
			f(x.arr, a)
			for _, y := range a.expl {
				if p, ok := y.(Ptr); ok && p.loc != 0 {
					if _, isBig := st.get(p.loc).(*BigV); isBig {
						continue // elements are values: never updated in place once in a slice
					}
				}
				e.walkDeep(st, y, f)
			}
		}
	}
}

// mapRead/mapWrite: map contents are not tracked individually; a declared invariant relates
// every stored value to its key.
func (e *Engine) mapRead(st *State, m, key Val, t types.Type, k func(*State, Val, *Node)) {
	mt := t.Underlying().(*types.Map)
	if r, isT := m.(MapRef); isT {
		e.mapReadT(st, r, key.(*Node), k)
		return
	}
	ok := Fresh("present", SBool)
	e.branch(st, ok, func(st *State) {
		freshN++
		v := e.symVal(st, fmt.Sprintf("mapval!%d", freshN), mt.Elem(), false)
		if inv := e.mapInv(mt); inv != nil {
			st.assume(inv(e, st, key, v))
		}
		k(st, v, True)
	}, func(st *State) { k(st, st.zero(mt.Elem()), False) })
}

func (e *Engine) mapWrite(st *State, m, key, v Val, t types.Type) {
	mt := t.Underlying().(*types.Map)
	if _, isN := m.(NilV); isN {
		e.fail(st, "write to nil map")
	}
	if r, isT := m.(MapRef); isT {
		e.mapWriteT(st, r, key.(*Node), v)
		return
	}
	v = e.coerce(st, v, mt.Elem())
	if inv := e.mapInv(mt); inv != nil {
		e.obligation(st, "map invariant of "+mt.String(), inv(e, st, key, v))
	}
	e.freezeVal(st, v)
}

// mapInv finds the invariant declared by the function under verification for maps of this type.
// The declaration is only accepted if no other function touches a field of that name.
func (e *Engine) mapInv(mt *types.Map) func(e *Engine, st *State, key, v Val) *Node {
	ct := e.contracts[e.curFn]
	if ct == nil {
		return nil
	}
	for _, mi := range ct.mapinvs {
		ft := e.fieldType(ct, mi.field)
		if ft == nil || !types.Identical(ft, mt) {
			continue
		}
		cl := mi.cl
		return func(e *Engine, st *State, key, v Val) *Node {
			env := &Env{e: e, st: st, old: st.old, names: st.entryNames, pkg: ct.fi.pkg}
			return env.with("key", key).with("val", v).bool(cl.expr)
		}
	}
	return nil
}

// fieldType returns the type of a struct field used by this function alone, apart from the
// composite literals that create it empty.
func (e *Engine) fieldType(ct *Contract, name string) types.Type {
	var t types.Type
	p := ct.fi.pkg
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, isF := d.(*ast.FuncDecl)
			ast.Inspect(d, func(n ast.Node) bool {
				sel, ok := n.(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != name {
					return true
				}
				if s := p.info.Selections[sel]; s != nil {
					if !isF || fd != ct.fi.decl {
						unsup("field %s with a declared map invariant is also used elsewhere (%s)", name, e.posStr(sel.Pos()))
					}
					t = s.Type()
				}
				return true
			})
		}
	}
	return t
}

func sortObls(o []*Obl) { sort.SliceStable(o, func(i, j int) bool { return o[i].pos < o[j].pos }) }

func (e *Engine) bigType() types.Type {
	sig := e.l.findFunc("bn256.bnPool.Get").obj.Type().(*types.Signature)
	return sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
}

func (ct *Contract) requiresHas(s string) bool {
	for _, c := range ct.requires {
		for j := 0; j+len(s) <= len(c.src); j++ {
			if c.src[j:j+len(s)] == s {
				return true
			}
		}
	}
	return false
}
