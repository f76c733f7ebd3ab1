package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
)

type loopDesc struct {
	body  *ast.BlockStmt
	label string
	// cond evaluates the loop test; kt continues into the body, kf leaves
	cond func(st *State, kt, kf func(*State))
	post func(st *State, k func(*State))
	pre  func(st *State) // bind key/value variables at the head
	meas func(st *State) *Node
	idx  int // location of the hidden range index, 0 if none
	rng  Val
	spec *LoopSpec
	name string
	// entry is the state at loop entry, for atentry()
	entry *State
	// own: the variables the range clause declares, set at the head of every iteration
	own map[int]bool
	// skip: iterations that do nothing (absent keys of a tree)
	skip func(st *State) *Node
	// finite: the number of iterations is bounded by construction (range over a map)
	finite bool
}

func (e *Engine) loopSpec(st *State, s ast.Stmt) (*LoopSpec, string) {
	fi := st.top().fi
	n, ok := loopOrdinal(fi, s)
	if !ok {
		return nil, ""
	}
	c := e.contracts[fi.key]
	name := fi.key + " loop " + itoa(n)
	if c == nil {
		return nil, name
	}
	return c.loops[n], name
}

var idxVars = map[ast.Stmt]*types.Var{}

var loopOrd = map[*FuncInfo]map[ast.Stmt]int{}

func loopOrdinal(fi *FuncInfo, s ast.Stmt) (int, bool) {
	m, ok := loopOrd[fi]
	if !ok {
		m = map[ast.Stmt]int{}
		n := 0
		ast.Inspect(fi.decl, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.ForStmt:
				n++
				m[x] = n
			case *ast.RangeStmt:
				n++
				m[x] = n
			}
			return true
		})
		loopOrd[fi] = m
	}
	o, ok := m[s]
	return o, ok
}

func (e *Engine) execLoop(st *State, s ast.Stmt, label string, k SK) {
	spec, name := e.loopSpec(st, s)
	switch s := s.(type) {
	case *ast.ForStmt:
		e.exec(st, s.Init, func(st *State, o Out) {
			d := &loopDesc{body: s.Body, label: label, spec: spec, name: name}
			d.cond = func(st *State, kt, kf func(*State)) {
				if s.Cond == nil {
					kt(st)
					return
				}
				e.curPos = s.Cond.Pos()
				e.eval(st, s.Cond, func(st *State, v Val) { e.branch(st, v.(*Node), kt, kf) })
			}
			d.post = func(st *State, k func(*State)) {
				e.exec(st, s.Post, func(st *State, o Out) { k(st) })
			}
			if be, ok := s.Cond.(*ast.BinaryExpr); ok {
				d.meas = func(st *State) *Node {
					var r *Node
					e.eval(st, be.X, func(st *State, a Val) {
						e.eval(st, be.Y, func(st *State, b Val) {
							an, ok1 := a.(*Node)
							bn, ok2 := b.(*Node)
							if !ok1 || !ok2 || an.sort != SInt {
								return
							}
							switch be.Op {
							case token.LSS, token.LEQ:
								r = Sub(bn, an)
							case token.GTR, token.GEQ:
								r = Sub(an, bn)
							}
						})
					})
					return r
				}
			}
			e.runLoop(st, d, k)
		})
	case *ast.RangeStmt:
		if ce, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			if h := e.rangeCallHook(st, s, ce, label, spec, name, k); h {
				return
			}
		}
		e.eval(st, s.X, func(st *State, v Val) {
			d := &loopDesc{body: s.Body, label: label, spec: spec, name: name, rng: v}
			if m, ok := v.(MapRef); ok {
				e.rangeMap(st, s, d, m, k)
				return
			}
			var ln *Node
			var entries func(st *State, i *Node)
			switch v := v.(type) {
			case SliceV:
				ln = v.ln
			case EntriesV:
				ln, entries = e.rangeEntries(st, s, d, v)
			case *Node:
				if isString(e.typeOf(st, s.X)) {
					unsup("range over string")
				}
				ln = v
			default:
				unsup("range over %T", v)
			}
			d.idx = st.alloc(Zero)
			if n, ok := loopOrdinal(st.top().fi, s); ok { // idxN names the index of loop N in nested loops
				o := idxVars[s]
				if o == nil {
					o = types.NewVar(s.Pos(), nil, "idx"+itoa(n), types.Typ[types.Int])
					idxVars[s] = o
				}
				st.top().vars[o] = d.idx
			}
			d.cond = func(st *State, kt, kf func(*State)) {
				e.branch(st, Lt(st.get(d.idx).(*Node), ln), kt, kf)
			}
			d.post = func(st *State, k func(*State)) {
				st.set(d.idx, Add(st.get(d.idx).(*Node), One))
				k(st)
			}
			d.meas = func(st *State) *Node { return Sub(ln, st.get(d.idx).(*Node)) }
			// loop variables are shared across iterations (go 1.21 semantics)
			if s.Tok == token.DEFINE {
				d.own = map[int]bool{}
				for _, x := range []ast.Expr{s.Key, s.Value} {
					if id, ok := x.(*ast.Ident); ok && id.Name != "_" {
						e.declare(st, id, st.zeroLoose(e.info(st).Defs[id].Type()))
						if l, ok := e.varLoc(st, e.info(st).Defs[id]); ok {
							d.own[l] = true
						}
					}
				}
			}
			d.pre = func(st *State) {
				i := st.get(d.idx).(*Node)
				if entries != nil {
					entries(st, i)
					return
				}
				set := func(x ast.Expr, v Val) {
					if x == nil {
						return
					}
					if id, ok := x.(*ast.Ident); ok {
						if id.Name == "_" {
							return
						}
						l, _ := e.varLoc(st, e.info(st).ObjectOf(id))
						st.set(l, v)
						return
					}
					unsup("range assignment target")
				}
				set(s.Key, i)
				if sv, ok := v.(SliceV); ok && s.Value != nil {
					if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
						set(s.Value, e.readElem(st, sv.arr, Add(sv.off, i), sv.elem))
					}
				}
			}
			e.runLoop(st, d, k)
		})
	}
}

// rangeMap: any number of iterations, each with some key of the map, which the body leaves alone.
func (e *Engine) rangeMap(st *State, s *ast.RangeStmt, d *loopDesc, m MapRef, k SK) {
	if d.spec == nil {
		unsup("range over a map without invariant")
	}
	d.finite = true
	if s.Tok == token.DEFINE {
		for _, x := range []ast.Expr{s.Key, s.Value} {
			if id, ok := x.(*ast.Ident); ok && id.Name != "_" {
				e.declare(st, id, st.zeroLoose(e.info(st).Defs[id].Type()))
			}
		}
	}
	obj := st.get(m.loc)
	d.cond = func(st *State, kt, kf func(*State)) {
		if st.get(m.loc) != obj {
			unsup("range over a map that the body changes")
		}
		e.branch(st, And(Not(m.nilb), Fresh("more", SBool)), kt, kf)
	}
	d.pre = func(st *State) {
		key := Fresh("key", SInt)
		set := func(x ast.Expr, v Val) {
			if id, ok := x.(*ast.Ident); ok {
				if id.Name != "_" {
					l, _ := e.varLoc(st, e.info(st).ObjectOf(id))
					st.set(l, v)
				}
				return
			}
			unsup("range assignment target")
		}
		st.assume(Select(obj.(*MapObj).has, key))
		if s.Key != nil {
			set(s.Key, key)
		}
		if s.Value != nil {
			e.mapReadT(st, m, key, func(st2 *State, v Val, _ *Node) {
				set(s.Value, v)
			})
		}
	}
	e.runLoop(st, d, k)
}

// zeroLoose is a placeholder initial value for a range variable
func (st *State) zeroLoose(t types.Type) Val { return st.zero(t) }

func (e *Engine) rangeCallHook(st *State, s *ast.RangeStmt, ce *ast.CallExpr, label string, spec *LoopSpec, name string, k SK) bool {
	return false
}

func (e *Engine) loopBody(st *State, d *loopDesc, k SK) {
	if d.skip == nil {
		e.execBlock(st, d.body.List, k)
		return
	}
	e.branch(st, d.skip(st), func(st *State) { k(st, Out{}) }, func(st *State) { e.execBlock(st, d.body.List, k) })
}

const unrollLimit = 600

func (e *Engine) runLoop(st *State, d *loopDesc, k SK) {
	if d.spec == nil || len(d.spec.invs) == 0 {
		e.unroll(st, d, 0, k)
		return
	}
	e.invLoop(st, d, k)
}

func (d *loopDesc) leaves(o Out) (isBreak, isCont, isOut bool) {
	switch o.c {
	case cBreak:
		if o.label == "" || o.label == d.label {
			return true, false, false
		}
		return false, false, true
	case cContinue:
		if o.label == "" || o.label == d.label {
			return false, true, false
		}
		return false, false, true
	case cReturn:
		return false, false, true
	}
	return false, true, false
}

func (e *Engine) unroll(st *State, d *loopDesc, n int, k SK) {
	if n > unrollLimit {
		unsup("%s: no invariant and no concrete bound", d.name)
	}
	nb := 0
	d.cond(st, func(st *State) {
		nb++
		if n > 3 && len(st.pc) > 0 && nb > 0 && n > 64 && e.undecidedUnroll(st) {
			unsup("%s: no invariant and no concrete bound", d.name)
		}
		if d.pre != nil {
			d.pre(st)
		}
		e.loopBody(st, d, func(st *State, o Out) {
			b, c, out := d.leaves(o)
			switch {
			case b:
				k(st, Out{})
			case out:
				k(st, o)
			case c:
				if d.post == nil {
					e.unroll(st, d, n+1, k)
				} else {
					d.post(st, func(st *State) { e.unroll(st, d, n+1, k) })
				}
			}
		})
	}, func(st *State) { k(st, Out{}) })
}

func (e *Engine) undecidedUnroll(st *State) bool { return false }

// invLoop verifies a loop against its invariants: established on entry, preserved by an
// arbitrary iteration from a havocked state, assumed after the exit test fails.
func (e *Engine) invLoop(st *State, d *loopDesc, k SK) {
	base := e.nextLoc
	d.entry = st.clone()
	if e.nilWeak == nil {
		e.nilWeak = map[int]bool{}
	}
	check := func(st *State, what string) {
		if d.pre != nil && d.spec.bindKey {
			d.bindKeyOnly(st, e)
		}
		for _, inv := range d.spec.invs {
			g := e.specBool(st, inv.expr, d)
			if inv.hidden {
				if e.quiet == 0 {
					inv := inv
					e.prover = func(st *State, g *Node) ProveResult { return e.proveHidden(st, inv, g) }
					e.obligation(st.clone(), what+": "+inv.src, g)
				}
				continue
			}
			e.obligation(st, what+": "+inv.src, g)
		}
	}
	assumeInv := func(st *State) {
		for _, inv := range d.spec.invs {
			if inv.hidden {
				st.hid = append(st.hid, hidFact{inv.topName(), e.specBool(st, inv.expr, d)})
				continue
			}
			st.assume(e.specBool(st, inv.expr, d))
		}
		if d.idx != 0 {
			i := st.get(d.idx).(*Node)
			st.assume(Le(Zero, i))
			if sv, ok := d.rng.(SliceV); ok {
				st.assume(Le(i, sv.ln))
			}
			if en, ok := d.rng.(EntriesV); ok {
				st.assume(Le(i, en.t.bnd))
			}
		}
	}
	check(st, d.name+" invariant on entry")
	pos := e.curPos
	// discovery of the written locations
	W := map[int]bool{}
	weak := map[int]bool{}
	for _, x := range d.spec.general {
		m, ok := e.loopEnv(st, d).eval(x).(MapRef)
		if !ok {
			specFail("generalise of something that is not a tracked map")
		}
		W[m.loc] = true
	}
	for iter := 0; ; iter++ {
		if iter > 8 {
			unsup("%s: write set does not stabilise", d.name)
		}
		s1 := st.clone()
		e.havocSet(s1, W, weak)
		hv := map[int]Val{}
		for l := range W {
			hv[l] = s1.heap[l]
		}
		newWeak := false
		rec := map[int]bool{}
		e.rec = append(e.rec, rec)
		e.quiet++
		assumeInv(s1)
		d.cond(s1, func(s *State) {
			if d.pre != nil {
				d.pre(s)
			}
			e.loopBody(s, d, func(s *State, o Out) {
				_, c, _ := d.leaves(o)
				if c && d.post != nil {
					d.post(s, func(*State) {})
				}
				if c {
					for _, l := range e.ownMismatch(s, hv, base) {
						if !weak[l] {
							weak[l] = true
							newWeak = true
						}
					}
					for _, l := range e.nilMismatch(s, hv) {
						if !e.nilWeak[l] {
							e.nilWeak[l] = true
							newWeak = true
						}
					}
				}
			})
		}, func(*State) {})
		e.quiet--
		e.rec = e.rec[:len(e.rec)-1]
		grew := false
		for l := range rec {
			if l <= base && !W[l] && !d.own[l] {
				W[l] = true
				grew = true
			}
		}
		if !grew && !newWeak {
			break
		}
	}
	e.curPos = pos
	// the outer recorder must see the havoc writes too
	e.havocSet(st, W, weak)
	hv := map[int]Val{}
	for l := range W {
		hv[l] = st.heap[l]
	}
	assumeInv(st)
	e.curPos = pos
	var m0 *Node
	ends := 0
	if os.Getenv("GOVC_VACUITY") != "" && e.quiet == 0 {
		s0 := st.clone()
		defer func() {
			if ends == 0 {
				fmt.Println("VACUOUS", d.name)
				e.fail(s0, d.name+" VACUOUS: no path through the body")
			}
		}()
	}
	d.cond(st, func(st *State) {
		if d.spec.decreases != nil {
			m0 = e.specInt(st, d.spec.decreases, d)
		} else if d.meas != nil && e.quiet == 0 {
			m0 = d.meas(st)
		}
		my := m0
		if my != nil && e.quiet == 0 {
			e.obligation(st, d.name+" measure bounded below", Le(NumI(-1), my))
		} else if e.quiet == 0 && !d.finite {
			e.assumed["termination of "+d.name] = true
		}
		if d.pre != nil {
			d.pre(st)
		}
		e.loopBody(st, d, func(st *State, o Out) {
			ends++
			b, c, out := d.leaves(o)
			switch {
			case b:
				k(st, Out{})
			case out:
				k(st, o)
			case c:
				fin := func(st *State) {
					e.curPos = pos
					check(st, d.name+" invariant preserved")
					if len(e.ownMismatch(st, hv, base)) > 0 || len(e.nilMismatch(st, hv)) > 0 {
						e.fail(st, d.name+" ownership of loop variables preserved")
					}
					if my != nil && e.quiet == 0 {
						var m1 *Node
						if d.spec.decreases != nil {
							m1 = e.specInt(st, d.spec.decreases, d)
						} else {
							m1 = d.meas(st)
						}
						e.obligation(st, d.name+" measure decreases", Lt(m1, my))
					}
				}
				if d.post == nil {
					fin(st)
				} else {
					d.post(st, fin)
				}
			}
		})
	}, func(st *State) { k(st, Out{}) })
}

func (d *loopDesc) bindKeyOnly(st *State, e *Engine) {}

// havocSet replaces the contents of locations by arbitrary values of the same shape.
func (e *Engine) havocSet(st *State, W, weak map[int]bool) {
	var ls []int
	for l := range W {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	for _, l := range ls {
		if v, ok := st.heap[l]; ok {
			e.nilHavoc = e.nilWeak[l]
			nv := e.havocVal(st, v)
			e.nilHavoc = false
			if weak[l] {
				e.freezeVal(st, nv)
				if b, ok := nv.(*BigV); ok {
					nv = &BigV{v: b.v, st: stFrozen}
				}
			}
			// havocVal may itself have replaced heap contents (arrays)
			st.set(l, nv)
		}
	}
	if e.curContract != nil && e.curContract.ringatoms12 {
		var all []int
		for l, v := range st.heap {
			if s, ok := v.(*StructV); ok && namedName(s.typ) == "gfP12" {
				all = append(all, l)
			}
		}
		sort.Ints(all)
		for _, l := range all {
			freshN++
			e.ringAtom12(st, st.heap[l].(*StructV), "h!"+itoa(freshN))
		}
	}
}

func (e *Engine) havocVal(st *State, v Val) Val {
	switch v := v.(type) {
	case *Node:
		return Fresh("h", v.sort)
	case *BigV:
		return &BigV{v: freshLike(v.v), st: v.st, ro: v.ro}
	case SliceV:
		var a *ArrV
		if v.arr != 0 {
			a = st.get(v.arr).(*ArrV)
		}
		sh := shape(v.elem)
		comps := make([]*Node, len(sh))
		for i, s := range sh {
			comps[i] = Fresh("ha", s)
			if isNilComp(v.elem, i) && !e.nilHavoc {
				comps[i] = ConstArr(False)
			}
		}
		ln := Fresh("hl", SInt)
		st.assume(Le(Zero, ln))
		status := stOwned
		if a != nil {
			status = a.st
		}
		nl := Fresh("hn", SBool)
		st.assume(Imp(nl, Eq(ln, Zero)))
		for i := range comps {
			if comps[i].op == "var" {
				comps[i] = Fresh("ha", arrOf(sh[i]))
			}
		}
		arr := st.alloc(&ArrV{elem: v.elem, comps: comps, st: status, ext: ln, capx: false})
		return SliceV{arr: arr, off: Zero, ln: ln, nilb: nl, elem: v.elem}
	case *ArrV:
		a := st.arrComps2(v)
		c := *a
		sh := shape(v.elem)
		c.comps = make([]*Node, len(sh))
		for i, s := range sh {
			c.comps[i] = Fresh("ha", arrOf(s))
			if isNilComp(v.elem, i) {
				if a.comps[i] == ConstArr(False) && !e.nilHavoc {
					c.comps[i] = a.comps[i]
				}
			}
		}
		c.expl = nil
		return &c
	case Ptr:
		// a pointer variable: points to a fresh object of the same type
		if v.loc == 0 {
			if isBigInt(v.elem) {
				return st.newBig(Fresh("hb", SInt), stFrozen, v.elem)
			}
			unsup("havoc of nil pointer to %v", v.elem)
		}
		obj := st.get(v.loc)
		switch o := obj.(type) {
		case *BigV:
			return Ptr{loc: st.alloc(&BigV{v: freshLike(o.v), st: o.st}), elem: v.elem, field: -1}
		case *StructV:
			return Ptr{loc: st.alloc(e.havocVal(st, o)), elem: v.elem, field: -1}
		}
		unsup("havoc of pointer to %T", obj)
	case *StructV:
		c := &StructV{typ: v.typ, frozen: v.frozen}
		for _, f := range v.f {
			c.f = append(c.f, e.havocVal(st, f))
		}
		return c
	case IfaceV:
		return IfaceV{isnil: Fresh("hi", SBool)}
	case *MapV:
		return v
	case TreeVal:
		return e.havocTree(st, v)
	case EntriesV:
		return EntriesV{e.havocTree(st, v.t), v.desc, v.elem}
	case *MapObj:
		return e.havocMap(st, v)
	case MapRef:
		return v // checked by sameMaps when the body ends
	case NilV:
		return v
	case FuncV:
		return v
	}
	unsup("havoc of %T", v)
	return nil
}

func freshLike(n *Node) *Node {
	if n.ring {
		f := FreshRing("hr")
		atomLevel[f] = levelOf(n)
		return f
	}
	return Fresh("hb", n.sort)
}

// isNilComp tells whether component i of elements of type t is a pointer nil flag.
func isNilComp(t types.Type, i int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok && namedName(p.Elem()) == "RWMutex" {
		return false // locks are not modelled
	}
	if isBigPtr(t) {
		return i == 1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, sp := specialShape[namedName(p.Elem())]; sp {
			return false
		}
		return i == 0 || isNilComp2(p.Elem(), i-1)
	}
	return isNilComp2(t, i)
}
func isNilComp2(t types.Type, i int) bool {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for j := 0; j < s.NumFields(); j++ {
			n := len(shape(s.Field(j).Type()))
			if i < n {
				return isNilComp(s.Field(j).Type(), i)
			}
			i -= n
		}
	}
	return false
}

func (st *State) arrComps2(a *ArrV) *ArrV {
	if a.expl == nil && a.comps != nil {
		return a
	}
	l := st.alloc(a)
	return st.arrComps(l)
}

func itoa(n int) string {
	return NumI(int64(n)).k.String()
}

// walkOwned visits the owned heap objects directly referenced by a value.
func (e *Engine) walkRefs(st *State, v Val, f func(loc int, owned bool)) {
	switch v := v.(type) {
	case Ptr:
		if v.loc == 0 {
			return
		}
		switch o := st.get(v.loc).(type) {
		case *BigV:
			f(v.loc, o.st == stOwned)
		case *StructV:
			f(v.loc, !o.frozen)
			for _, x := range o.f {
				e.walkRefs(st, x, f)
			}
		}
	case SliceV:
		if v.arr != 0 {
			a := st.get(v.arr).(*ArrV)
			f(v.arr, a.st == stOwned)
			for _, x := range a.expl {
				e.walkRefs(st, x, f)
			}
		}
	case MapRef:
		f(v.loc, st.get(v.loc).(*MapObj).st == stOwned)
	case *StructV:
		for _, x := range v.f {
			e.walkRefs(st, x, f)
		}
	}
}

// freezeVal gives up write permission to everything a value references.
func (e *Engine) freezeVal(st *State, v Val) { e.freezeKind(st, v, false, false) }

func (e *Engine) freezeKind(st *State, v Val, arraysOnly, bigsOnly bool) {
	e.walkRefs(st, v, func(loc int, owned bool) {
		if !owned {
			return
		}
		if _, isArr := st.get(loc).(*ArrV); arraysOnly && !isArr {
			return
		}
		if _, isBig := st.get(loc).(*BigV); bigsOnly && !isBig {
			return
		}
		switch o := st.get(loc).(type) {
		case *BigV:
			st.set(loc, &BigV{v: o.v, st: stFrozen})
		case *StructV:
			c := *o
			c.frozen = true
			st.set(loc, &c)
		case *ArrV:
			c := *o
			c.st = stFrozen
			st.set(loc, &c)
		case *MapObj:
			c := *o
			c.st = stFrozen
			st.set(loc, &c)
		}
	})
}

// ownMismatch lists loop-modified locations whose current contents carry weaker ownership than
// the arbitrary state assumed at the loop head.
func (e *Engine) ownMismatch(st *State, hv map[int]Val, base int) []int {
	var bad []int
	seen := map[int]bool{}
	var ls []int
	for l := range hv {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	for _, l := range ls {
		old := hv[l]
		cur := st.heap[l]
		if !sameMaps(old, cur) {
			unsup("map variable assigned in a loop")
		}
		if b, ok := old.(*BigV); ok {
			if c, ok := cur.(*BigV); !ok || (b.st == stOwned && c.st != stOwned) {
				bad = append(bad, l)
			}
			continue
		}
		if a, ok := old.(*MapObj); ok {
			if c, ok := cur.(*MapObj); !ok || (a.st == stOwned && c.st != stOwned) {
				bad = append(bad, l)
			}
			continue
		}
		if a, ok := old.(*ArrV); ok {
			c, ok := cur.(*ArrV)
			if ok && a.uniq && !c.uniq {
				unsup("rows of a list of lists shared in a loop")
			}
			if !ok || (a.st == stOwned && c.st != stOwned) {
				bad = append(bad, l)
			}
			continue
		}
		anyOwned := false
		e.walkRefs(st, old, func(loc int, owned bool) { anyOwned = anyOwned || owned })
		if !anyOwned {
			continue
		}
		oldLocs := map[int]bool{}
		e.walkRefs(st, old, func(loc int, owned bool) { oldLocs[loc] = true })
		ok := true
		e.walkRefs(st, cur, func(loc int, owned bool) {
			if !owned || (loc <= base && !oldLocs[loc]) || seen[loc] {
				ok = false
			}
			seen[loc] = true
		})
		if !ok {
			bad = append(bad, l)
		}
	}
	return bad
}

// nilMismatch lists the locations whose elements were read as non-nil at the head of the loop and may hold
// a nil element at the end of the body.
func (e *Engine) nilMismatch(st *State, hv map[int]Val) []int {
	clean := func(a *ArrV) bool {
		a = st.clone().arrComps2(a)
		for i, c := range a.comps {
			if isNilComp(a.elem, i) && c != ConstArr(False) {
				return false
			}
		}
		return true
	}
	arrOfVal := func(v Val) *ArrV {
		switch x := v.(type) {
		case *ArrV:
			return x
		case SliceV:
			if x.arr != 0 {
				a, _ := st.get(x.arr).(*ArrV)
				return a
			}
		}
		return nil
	}
	var bad []int
	for l, old := range hv {
		var was *ArrV
		if s, ok := old.(SliceV); ok && s.arr != 0 {
			was, _ = st.get(s.arr).(*ArrV)
		} else {
			was, _ = old.(*ArrV)
		}
		if was == nil || !clean(was) {
			continue
		}
		if cur := arrOfVal(st.heap[l]); cur != nil && !clean(cur) {
			bad = append(bad, l)
		}
	}
	sort.Ints(bad)
	return bad
}

// sameMaps: the two values hold the same map objects at the same places.
func sameMaps(a, b Val) bool {
	switch x := a.(type) {
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x.loc == y.loc && x.nilb == y.nilb
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameMaps(x.f[i], y.f[i]) {
				return false
			}
		}
	case NilV:
		if _, ok := b.(MapRef); ok {
			return false
		}
	}
	return true
}
