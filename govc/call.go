package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
)

// evalCallee evaluates the callee and arguments now and returns a runner (used for defer).
func (e *Engine) evalCallee(st *State, c *ast.CallExpr, k func(st *State, run func(*State, EK))) {
	e.prepCall(st, c, k)
}

func (e *Engine) evalCall(st *State, c *ast.CallExpr, k EK) {
	e.prepCall(st, c, func(st *State, run func(*State, EK)) {
		e.curPos = c.Pos()
		run(st, k)
	})
}

func (e *Engine) prepCall(st *State, c *ast.CallExpr, k func(st *State, run func(*State, EK))) {
	info := e.info(st)
	// conversion
	if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
		e.eval(st, c.Args[0], func(st *State, v Val) {
			r := e.convert(st, v, e.typeOf(st, c.Args[0]), tv.Type)
			k(st, func(st *State, kk EK) { kk(st, r) })
		})
		return
	}
	fun := ast.Unparen(c.Fun)
	// builtins
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			e.builtin(st, b.Name(), c, func(st *State, v Val) { k(st, func(st *State, kk EK) { kk(st, v) }) })
			return
		}
	}
	// method call
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel, ok := info.Selections[se]; ok && sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			if ie, ok := ast.Unparen(se.X).(*ast.IndexExpr); ok && isTreePtr(e.typeOf(st, se.X)) && isSliceT(e.typeOf(st, ie.X)) && len(sel.Index()) == 1 {
				e.treeElemCall(st, c, ie, m, k)
				return
			}
			e.evalRecv(st, se, sel, m, func(st *State, recv Val) {
				e.evalArgs(st, c, m.Type().(*types.Signature), func(st *State, args []Val) {
					k(st, func(st *State, kk EK) { e.callMethod(st, m, recv, args, c, kk) })
				})
			})
			return
		}
		if f, ok := info.Uses[se.Sel].(*types.Func); ok {
			e.evalArgs(st, c, f.Type().(*types.Signature), func(st *State, args []Val) {
				k(st, func(st *State, kk EK) { e.callFunc(st, f, args, c, kk) })
			})
			return
		}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if f, ok := info.Uses[id].(*types.Func); ok {
			e.evalArgs(st, c, f.Type().(*types.Signature), func(st *State, args []Val) {
				k(st, func(st *State, kk EK) { e.callFunc(st, f, args, c, kk) })
			})
			return
		}
	}
	// function value
	e.eval(st, fun, func(st *State, fv Val) {
		f, ok := fv.(FuncV)
		if !ok {
			unsup("call of %T", fv)
		}
		sig := e.typeOf(st, fun).Underlying().(*types.Signature)
		e.evalArgs(st, c, sig, func(st *State, args []Val) {
			k(st, func(st *State, kk EK) {
				if f.fi != nil {
					e.callInfo(st, f.fi, f.recv, args, c, kk)
					return
				}
				e.callLit(st, f, sig, args, kk)
			})
		})
	})
}

func (e *Engine) evalRecv(st *State, se *ast.SelectorExpr, sel *types.Selection, m *types.Func, k EK) {
	rt := m.Type().(*types.Signature).Recv().Type()
	xt := e.typeOf(st, se.X)
	if _, isI := rt.Underlying().(*types.Interface); isI {
		e.eval(st, se.X, k)
		return
	}
	idx := sel.Index()[:len(sel.Index())-1]
	_, wantPtr := rt.Underlying().(*types.Pointer)
	_, havePtr := xt.Underlying().(*types.Pointer)
	if len(idx) == 0 {
		switch {
		case wantPtr == havePtr:
			e.eval(st, se.X, k)
		case wantPtr && !havePtr:
			if !addressable(se.X) {
				unsup("method on unaddressable value")
			}
			e.evalLV(st, se.X, func(st *State, lv LV) {
				if lv.kind == 0 && len(lv.path) == 0 {
					k(st, Ptr{loc: lv.loc, elem: xt, field: -1})
				} else if lv.kind == 0 && len(lv.path) == 1 {
					k(st, Ptr{loc: lv.loc, elem: xt, field: lv.path[0]})
				} else {
					unsup("address of receiver")
				}
			})
		default:
			e.eval(st, se.X, func(st *State, v Val) { k(st, e.readLV(st, e.derefLV(st, v))) })
		}
		return
	}
	// embedded: walk the implicit fields
	step := func(st *State, lv LV, bt types.Type) {
		e.selectLV(st, lv, bt, idx, func(st *State, lv LV) {
			v := e.readLV(st, lv)
			_, isP := v.(Ptr)
			if wantPtr && !isP {
				if lv.kind == 0 && len(lv.path) == 1 {
					k(st, Ptr{loc: lv.loc, elem: lv.typ, field: lv.path[0]})
					return
				}
				unsup("address of embedded receiver")
			}
			if !wantPtr && isP {
				v = e.readLV(st, e.derefLV(st, v))
			}
			k(st, v)
		})
	}
	if havePtr {
		e.eval(st, se.X, func(st *State, v Val) {
			step(st, e.derefLV(st, v), xt.Underlying().(*types.Pointer).Elem())
		})
		return
	}
	if addressable(se.X) {
		e.evalLV(st, se.X, func(st *State, lv LV) { step(st, lv, xt) })
		return
	}
	e.eval(st, se.X, func(st *State, v Val) {
		step(st, LV{kind: 0, loc: st.alloc(v), typ: xt}, xt)
	})
}

func (e *Engine) evalArgs(st *State, c *ast.CallExpr, sig *types.Signature, k func(*State, []Val)) {
	n := sig.Params().Len()
	fin := func(st *State, vals []Val) {
		if sig.Variadic() {
			if c.Ellipsis == token.NoPos {
				el := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
				rest := append([]Val{}, vals[n-1:]...)
				for i := range rest {
					rest[i] = e.coerce(st, rest[i], el)
				}
				ln := NumI(int64(len(rest)))
				var sv SliceV
				if len(rest) == 0 {
					sv = st.zero(types.NewSlice(el)).(SliceV)
				} else {
					arr := st.alloc(&ArrV{elem: el, expl: rest, st: stOwned, ext: ln, capx: true})
					sv = SliceV{arr: arr, off: Zero, ln: ln, nilb: False, elem: el}
				}
				vals = append(append([]Val{}, vals[:n-1]...), sv)
			}
		}
		out := make([]Val, len(vals))
		for i := range vals {
			out[i] = e.coerce(st, vals[i], sig.Params().At(i).Type())
		}
		k(st, out)
	}
	if len(c.Args) == 1 && n > 1 && !sig.Variadic() {
		e.evalMulti(st, c.Args, n, fin)
		return
	}
	e.evalList(st, c.Args, fin)
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	if _, ok := v.(NilV); ok {
		return e.coerce(st, v, to)
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		n := v.(*Node)
		fi, ti := fb.Info(), tb.Info()
		if fi&types.IsString != 0 && ti&types.IsString != 0 {
			return n
		}
		if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
			if ti&types.IsUnsigned != 0 && fi&types.IsUnsigned == 0 {
				e.obligation(st, "conversion to unsigned keeps the value", Le(Zero, n))
			}
			e.narrow(st, "conversion", n, to)
			return n
		}
		if fi&types.IsInteger != 0 && ti&types.IsString != 0 {
			return Fn("runestr", SInt, n)
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return SliceV{arr: st.alloc(&ArrV{elem: types.Typ[types.Uint8], comps: []*Node{Fn("strbytes", SArrI, v.(*Node))}, st: stOwned, ext: Fn("strlen", SInt, v.(*Node))}), off: Zero, ln: Fn("strlen", SInt, v.(*Node)), nilb: False, elem: types.Typ[types.Uint8]}
		}
	}
	if s, ok := v.(*StructV); ok {
		return &StructV{typ: to, f: s.f}
	}
	switch v.(type) {
	case SliceV, FuncV, Ptr, *MapV, MapRef:
		return v
	}
	unsup("conversion %v to %v", from, to)
	return nil
}

func (e *Engine) builtin(st *State, name string, c *ast.CallExpr, k EK) {
	switch name {
	case "panic":
		e.curPos = c.Pos()
		e.evalList(st, c.Args, func(st *State, _ []Val) {
			e.curPos = c.Pos()
			e.doPanic(st)
		})
		return
	case "new":
		t := e.typeOf(st, c.Args[0])
		k(st, Ptr{loc: st.alloc(st.zero(t)), elem: t, field: -1})
		return
	case "make":
		e.builtinMake(st, c, k)
		return
	}
	e.evalList(st, c.Args, func(st *State, a []Val) {
		e.curPos = c.Pos()
		switch name {
		case "len":
			switch v := a[0].(type) {
			case SliceV:
				k(st, v.ln)
			case *Node:
				if s, ok := strOf[v]; ok {
					k(st, NumI(int64(len(s))))
				} else {
					n := Fn("strlen", SInt, v)
					st.assume(Le(Zero, n))
					k(st, n)
				}
			case MapRef:
				k(st, Ite(v.nilb, Zero, st.get(v.loc).(*MapObj).size))
			case *MapV:
				n := Fresh("maplen", SInt)
				st.assume(Le(Zero, n))
				k(st, n)
			case NilV:
				k(st, Zero)
			default:
				unsup("len of %T", v)
			}
		case "cap":
			unsup("cap")
		case "append":
			e.builtinAppend(st, a, c, k)
		case "copy":
			e.builtinCopy(st, a, k)
		case "delete":
			k(st, nil)
		case "print", "println":
			k(st, nil)
		default:
			unsup("builtin %s", name)
		}
	})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) builtinMake(st *State, c *ast.CallExpr, k EK) {
	t := e.typeOf(st, c.Args[0])
	switch u := t.Underlying().(type) {
	case *types.Map:
		k(st, e.newMap(st, u))
	case *types.Slice:
		e.evalList(st, c.Args[1:], func(st *State, a []Val) {
			n := a[0].(*Node)
			e.curPos = c.Pos()
			e.obligation(st, "make: non-negative length", Le(Zero, n))
			capx := true
			if len(a) > 1 {
				cp := a[1].(*Node)
				e.obligation(st, "make: cap >= len", Le(n, cp))
				capx = cp == n
			}
			if n.op == "num" && n.k.IsInt64() && n.k.Int64() <= 64 && len(a) <= 2 && !isByte(u.Elem()) {
				expl := make([]Val, 0, n.k.Int64())
				for i := int64(0); i < n.k.Int64(); i++ {
					expl = append(expl, st.zero(u.Elem()))
				}
				arr := st.alloc(&ArrV{elem: u.Elem(), expl: expl, st: stOwned, ext: n, capx: capx})
				k(st, SliceV{arr: arr, off: Zero, ln: n, nilb: False, elem: u.Elem()})
				return
			}
			sh := shape(u.Elem())
			z := st.flatten(st.zero(u.Elem()), u.Elem())
			comps := make([]*Node, len(sh))
			for i := range sh {
				comps[i] = ConstArr(z[i])
			}
			arr := st.alloc(&ArrV{elem: u.Elem(), comps: comps, st: stOwned, ext: n, capx: capx, uniq: isSliceT(u.Elem()) || isTreePtr(u.Elem())})
			k(st, SliceV{arr: arr, off: Zero, ln: n, nilb: False, elem: u.Elem()})
		})
	default:
		unsup("make of %v", t)
	}
}

func (e *Engine) builtinAppend(st *State, a []Val, c *ast.CallExpr, k EK) {
	s, ok := a[0].(SliceV)
	if !ok {
		if _, isN := a[0].(NilV); !isN {
			unsup("append to %T", a[0])
		}
		s = st.zero(e.typeOf(st, c.Args[0])).(SliceV)
	}
	var old *ArrV
	if s.arr != 0 {
		old = st.get(s.arr).(*ArrV)
		if old.moved && !old.capx {
			e.fail(st, "second append to the same slice (elements may be shared)")
		}
		if old.st == stDead {
			e.fail(st, "append to a slice whose backing array may have been overwritten")
		}
	}
	// appending to a shared slice may write into spare capacity of the shared backing array;
	// when the capacity is not known to be exhausted this needs ownership
	if old != nil && old.st != stOwned && !old.capx {
		if !e.appendShared(st, s) {
			e.fail(st, "append to a slice not in the frame")
		}
	}
	elem := s.elem
	// elements between the slice's end and the end of its array are overwritten in place
	over := false
	if old != nil && old.ext != nil && !(c.Ellipsis == token.NoPos && len(a) == 1) {
		end := Add(s.off, s.ln)
		over = end != old.ext && !refute(append(append([]*Node{}, st.pc...), Lt(end, old.ext)), 1000).ok
		if over && old.st != stOwned {
			e.fail(st, "append may overwrite elements of a slice not in the frame")
		}
	}
	finish := func(nv *ArrV, ln *Node, nilb *Node) {
		nv.prev = s.arr
		arr := st.alloc(nv)
		if s.arr != 0 {
			o := *st.get(s.arr).(*ArrV)
			o.moved = true
			o.uniq = false
			if over {
				o = *e.havocVal(st, &o).(*ArrV)
				o.st, o.capx = stDead, false
			}
			st.set(s.arr, &o)
		}
		k(st, SliceV{arr: arr, off: Zero, ln: ln, nilb: nilb, elem: elem})
	}
	if c.Ellipsis == token.NoPos {
		vals := a[1:]
		for i := range vals {
			vals[i] = e.coerce(st, vals[i], elem)
		}
		if len(vals) == 0 {
			k(st, s)
			return
		}
		if (old == nil || old.expl != nil) && s.off == Zero && s.ln.op == "num" {
			var ex []Val
			if old != nil && old.expl != nil {
				ex = append(ex, old.expl[:s.ln.k.Int64()]...)
			} else if s.ln != Zero {
				unsup("append: explicit slice")
			}
			ex = append(ex, vals...)
			n := NumI(int64(len(ex)))
			finish(&ArrV{elem: elem, expl: ex, st: stOwned, ext: n}, n, False)
			return
		}
		comps := e.sliceComps(st, s)
		ln := s.ln
		for _, v := range vals {
			fl := st.flatten(v, elem)
			nc := make([]*Node, len(comps))
			for i := range comps {
				nc[i] = Store(comps[i], ln, fl[i])
			}
			comps = nc
			ln = Add(ln, One)
		}
		finish(&ArrV{elem: elem, comps: comps, st: stOwned, ext: ln}, ln, False)
		return
	}
	t, ok := a[1].(SliceV)
	if !ok {
		if _, isN := a[1].(NilV); isN {
			k(st, s)
			return
		}
		unsup("append of %T...", a[1])
	}
	// explicit ++ explicit
	if s.ln.op == "num" && t.ln.op == "num" && s.off == Zero && t.off == Zero {
		var ex []Val
		good := true
		for _, q := range []SliceV{s, t} {
			if q.ln == Zero {
				continue
			}
			qa := st.get(q.arr).(*ArrV)
			if qa.expl == nil {
				good = false
				break
			}
			ex = append(ex, qa.expl[:q.ln.k.Int64()]...)
		}
		if good {
			n := NumI(int64(len(ex)))
			finish(&ArrV{elem: elem, expl: ex, st: stOwned, ext: n}, n, Ite(Eq(n, Zero), s.nilb, False))
			return
		}
	}
	cs, ct := e.sliceComps(st, s), e.sliceComps(st, t)
	ln := Add(s.ln, t.ln)
	comps := make([]*Node, len(cs))
	for i := range cs {
		if s.ln == Zero {
			comps[i] = ct[i]
			continue
		}
		comps[i] = Concat(cs[i], s.ln, ct[i], t.ln)
	}
	finish(&ArrV{elem: elem, comps: comps, st: stOwned, ext: ln}, ln, And(s.nilb, Eq(t.ln, Zero)))
}

// appendShared: extending a list held in a map that this function may change; what lies beyond the
// list's length is nobody else's.
func (e *Engine) appendShared(st *State, s SliceV) bool {
	if st.get(s.arr).(*ArrV).mapped {
		e.assumed["spare capacity of lists held in maps is not shared"] = true
		return true
	}
	return false
}

// Concat(a,n,b,m): array equal to a below n and to b shifted by n from n on.
func Concat(a, n, b, m *Node) *Node {
	if a.op == "constarr" && b == a {
		return a
	}
	return Fn("concat", a.sort, a, n, b, m)
}

// sliceComps views a slice's contents as arrays indexed from 0.
func (e *Engine) sliceComps(st *State, s SliceV) []*Node {
	if s.arr != 0 && isSliceT(s.elem) {
		e.notUniq(st, s.arr)
	}
	if s.arr == 0 {
		sh := shape(s.elem)
		r := make([]*Node, len(sh))
		for i, x := range sh {
			r[i] = ConstArr(defNode(x))
		}
		return r
	}
	a := st.arrComps(s.arr)
	r := make([]*Node, len(a.comps))
	for i, x := range a.comps {
		r[i] = Shift(x, s.off)
	}
	return r
}

func (e *Engine) builtinCopy(st *State, a []Val, k EK) {
	d := a[0].(SliceV)
	s, ok := a[1].(SliceV)
	if !ok {
		unsup("copy from %T", a[1])
	}
	// only full copies into a fresh destination are supported
	n := Ite(Le(s.ln, d.ln), s.ln, d.ln)
	if d.ln == s.ln {
		n = s.ln
	} else if r := refute(append(append([]*Node{}, st.pc...), Not(Le(s.ln, d.ln))), 1000); r.ok {
		n = s.ln
	} else if r := refute(append(append([]*Node{}, st.pc...), Not(Le(d.ln, s.ln))), 1000); r.ok {
		n = d.ln
	}
	if d.arr == 0 || s.arr == 0 {
		k(st, Zero)
		return
	}
	da := st.get(d.arr).(*ArrV)
	if da.st != stOwned {
		e.fail(st, "copy into a slice not in the frame")
	}
	if d.arr == s.arr {
		unsup("overlapping copy")
	}
	if n.op == "num" && n.k.Int64() <= 256 {
		for i := int64(0); i < n.k.Int64(); i++ {
			v := e.readElem(st, s.arr, Add(s.off, NumI(i)), s.elem)
			e.writeElem(st, d.arr, Add(d.off, NumI(i)), nil, v, d.elem)
		}
		k(st, n)
		return
	}
	cs, cd := e.sliceComps(st, s), st.arrComps(d.arr).comps
	c := *st.get(d.arr).(*ArrV)
	c.uniq = false
	c.comps = make([]*Node, len(cd))
	for i := range cd {
		c.comps[i] = Fn("overlay", cd[i].sort, cd[i], d.off, cs[i], n)
	}
	st.set(d.arr, &c)
	k(st, n)
}

func (e *Engine) doPanic(st *State) {
	c := e.curContract
	if c != nil && len(c.mayPanic) > 0 && st.old != nil {
		var gs []*Node
		for _, p := range c.mayPanic {
			gs = append(gs, e.specBoolIn(st.old, c, p.expr))
		}
		e.obligation(st, "panic only when allowed", Or(gs...))
		return
	}
	e.fail(st, "panic unreachable")
}

// ---- calls of functions and methods ----

func (e *Engine) callFunc(st *State, f *types.Func, args []Val, c *ast.CallExpr, k EK) {
	if fi := e.l.fdecl[f]; fi != nil {
		e.callInfo(st, fi, nil, args, c, k)
		return
	}
	e.external(st, f, nil, args, c, k)
}

func (e *Engine) callMethod(st *State, f *types.Func, recv Val, args []Val, c *ast.CallExpr, k EK) {
	if fi := e.l.fdecl[f]; fi != nil {
		if mp, ok := recv.(Ptr); ok && mp.loc == 0 {
			if namedName(f.Type().(*types.Signature).Recv().Type()) != "bnPool" {
				e.fail(st, "method call on nil pointer")
				panic(abortFn{"method on nil"})
			}
		}
		e.callInfo(st, fi, recv, args, c, k)
		return
	}
	e.external(st, f, recv, args, c, k)
}

func (e *Engine) callInfo(st *State, fi *FuncInfo, recv Val, args []Val, c *ast.CallExpr, k EK) {
	if absGroups {
		if h, ok := absHooks[fi.key]; ok {
			if e.contracts[fi.key] != nil {
				e.depends[fi.key] = true
			}
			e.assumed["group elements are read through discrete logarithms (P08, P10): "+fi.key] = true
			h(e, st, recv, args, k)
			return
		}
	}
	if h, ok := callHooks[fi.key]; ok {
		e.externals["model of "+fi.key] = true
		h(e, st, recv, args, k)
		return
	}
	if e.curContract != nil {
		if ct := e.views[e.curContract.file+" "+fi.key]; ct != nil {
			e.depends[fi.key] = true
			e.assumed["reading of "+fi.key+" in "+filepath.Base(ct.file)+": "+ct.trusted] = true
			e.applyContract(st, ct, recv, args, k)
			return
		}
	}
	if ct := e.contracts[fi.key]; ct != nil && !ct.inline {
		e.depends[fi.key] = true
		e.applyContract(st, ct, recv, args, k)
		return
	}
	n := 0
	for _, f := range st.frames {
		if f.fi == fi {
			n++
		}
	}
	if n > 0 {
		unsup("recursive call of %s without contract", fi.key)
	}
	if len(st.frames) > 14 {
		unsup("inlining too deep at %s", fi.key)
	}
	if fi.decl.Body == nil {
		unsup("no body for %s", fi.key)
	}
	e.inlined[fi.key] = true
	e.inlineCall(st, fi, recv, args, k)
}

// callHooks model repository functions outside the verified subset (counted as assumptions).
var callHooks = map[string]func(e *Engine, st *State, recv Val, args []Val, k EK){}

func (e *Engine) bindParams(st *State, fr *Frame, info *types.Info, ft *ast.FuncType, recvF *ast.FieldList, recv Val, args []Val) {
	if recvF != nil && len(recvF.List) > 0 && len(recvF.List[0].Names) > 0 {
		id := recvF.List[0].Names[0]
		if id.Name != "_" {
			fr.vars[info.Defs[id]] = st.alloc(recv)
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			if n.Name != "_" {
				fr.vars[info.Defs[n]] = st.alloc(args[i])
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := info.Defs[n]
				if o != nil {
					fr.vars[o] = st.alloc(st.zero(o.Type()))
				}
			}
		}
	}
}

func (e *Engine) namedResults(st *State, info *types.Info, ft *ast.FuncType) []Val {
	var r []Val
	if ft.Results == nil {
		return nil
	}
	for _, f := range ft.Results.List {
		for _, n := range f.Names {
			o := info.Defs[n]
			r = append(r, st.get(st.top().vars[o]))
		}
	}
	return r
}

func hasNamedResults(ft *ast.FuncType) bool {
	return ft.Results != nil && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0
}

func (e *Engine) setNamedResults(st *State, info *types.Info, ft *ast.FuncType, vals []Val) {
	i := 0
	for _, f := range ft.Results.List {
		for _, n := range f.Names {
			st.set(st.top().vars[info.Defs[n]], vals[i])
			i++
		}
	}
}

func (e *Engine) runBody(st *State, body *ast.BlockStmt, ft *ast.FuncType, nres int, k func(*State, []Val)) {
	depth := len(st.frames)
	e.execBlock(st, body.List, func(st *State, o Out) {
		if len(st.frames) != depth {
			unsup("frame imbalance")
		}
		info := st.top().fi.pkg.info
		if o.c == cNext && nres > 0 && !hasNamedResults(ft) {
			// falling off the end: only after a panic, which never continues
			unsup("missing return")
		}
		named := hasNamedResults(ft)
		if named && o.vals != nil {
			e.setNamedResults(st, info, ft, o.vals)
		}
		vals := o.vals
		ds := st.top().defers
		var run func(st *State, i int)
		run = func(st *State, i int) {
			if i < 0 {
				v := vals
				if named {
					v = e.namedResults(st, info, ft)
				}
				k(st, v)
				return
			}
			ds[i](st, func(st *State, _ Val) { run(st, i-1) })
		}
		run(st, len(ds)-1)
	})
}

func tuple(vals []Val) Val {
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return TupleV(vals)
}

func (e *Engine) inlineCall(st *State, fi *FuncInfo, recv Val, args []Val, k EK) {
	sig := fi.obj.Type().(*types.Signature)
	fr := &Frame{fi: fi, vars: map[types.Object]int{}, sig: sig}
	e.bindParams(st, fr, fi.pkg.info, fi.decl.Type, fi.decl.Recv, recv, args)
	st.frames = append(append([]*Frame{}, st.frames...), fr)
	e.runBody(st, fi.decl.Body, fi.decl.Type, sig.Results().Len(), func(st *State, vals []Val) {
		st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
		k(st, tuple(vals))
	})
}

func (e *Engine) callLit(st *State, f FuncV, sig *types.Signature, args []Val, k EK) {
	if f.lit == nil {
		unsup("call of unknown function value")
	}
	n := 0
	for _, fr := range st.frames {
		if fr.lit == f.lit {
			n++
		}
	}
	if n > 0 {
		unsup("recursive function literal")
	}
	fr := &Frame{fi: f.frameFn, vars: map[types.Object]int{}, sig: sig, lit: f.lit}
	for o, l := range f.caps {
		fr.vars[o] = l
	}
	e.bindParams(st, fr, f.pkg.info, f.lit.Type, nil, nil, args)
	st.frames = append(append([]*Frame{}, st.frames...), fr)
	e.runBody(st, f.lit.Body, f.lit.Type, sig.Results().Len(), func(st *State, vals []Val) {
		st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
		k(st, tuple(vals))
	})
}
