package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"
)

type Obl struct {
	fn      string
	kind    string
	pos     string
	ok      bool
	backend string
	detail  string
	goal    string
	model   map[string]*big.Int
	ms      int64
}

type Engine struct {
	trackMaps   bool
	l           *Loader
	nextLoc     int
	globalHeap  map[int]Val
	globals     map[types.Object]int
	contracts   map[string]*Contract
	obls        []*Obl
	curFn       string
	curPos      token.Pos
	quiet       int
	rec         []map[int]bool
	timeout     int
	maxFail     int
	fails       int
	paths       int
	depends     map[string]bool // contracts used
	inlined     map[string]bool
	externals   map[string]bool
	assumed     map[string]bool
	deadline    time.Time
	mutGlobals  map[types.Object]bool
	nilWeak     map[int]bool
	nilHavoc    bool
	curContract *Contract
	prover      func(*State, *Node) ProveResult // replaces prove for the next obligation
	views       map[string]*Contract            // contract readings by specification file and function
	qvars       map[string]*Node
}

type abortFn struct{ msg string }

type ctl int

const (
	cNext ctl = iota
	cBreak
	cContinue
	cReturn
)

type Out struct {
	c     ctl
	label string
	vals  []Val
}
type SK func(st *State, o Out)
type EK func(st *State, v Val)

func (st *State) get(loc int) Val {
	if v, ok := st.heap[loc]; ok {
		return v
	}
	if v, ok := st.eng.globalHeap[loc]; ok {
		return v
	}
	unsup("dangling location %d", loc)
	return nil
}
func (st *State) set(loc int, v Val) {
	if _, ok := st.eng.globalHeap[loc]; ok {
		if _, own := st.heap[loc]; !own {
			unsup("assignment to package variable or its contents")
		}
	}
	st.heap[loc] = v
	for _, r := range st.eng.rec {
		r[loc] = true
	}
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.l.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, e.l.root+"/"); i == 0 {
		f = f[len(e.l.root)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Engine) obligation(st *State, kind string, goal *Node) bool {
	if e.quiet > 0 {
		st.assume(goal)
		return true
	}
	if time.Now().After(e.deadline) || stopped() {
		panic(abortFn{"time budget of the function exhausted"})
	}
	o := &Obl{fn: e.curFn, kind: kind, pos: e.posStr(e.curPos)}
	if goal == True {
		e.prover = nil
		o.ok, o.backend = true, "simp"
		stats.Lock()
		stats.byBackend["simp"]++
		stats.Unlock()
		e.obls = append(e.obls, o)
		return true
	}
	t0 := time.Now()
	if os.Getenv("GOVC_DEBUG") == "4" {
		fmt.Println("GOAL", kind, trunc(goal.String(), 1200), len(st.pc))
		for _, f := range st.pc {
			fmt.Println("   PC", trunc(f.String(), 300))
		}
	}
	obStop = time.Now().Add(100 * time.Second)
	pf := e.prove
	if e.prover != nil {
		pf, e.prover = e.prover, nil
	}
	r := pf(st, goal)
	obStop = time.Time{}
	o.ms = time.Since(t0).Milliseconds()
	o.ok, o.backend, o.detail, o.model = r.ok, r.backend, r.detail, r.model
	if r.ok {
		stats.Lock()
		stats.byBackend[r.backend]++
		stats.Unlock()
	} else {
		o.goal = trunc(goal.String(), 1500)
		e.fails++
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Printf("FAIL %s %s at %s: %s [%s]\n", e.curFn, kind, o.pos, trunc(goal.String(), 3000), r.detail)
			for _, f := range st.pc {
				fmt.Println("    ", trunc(f.String(), 600))
			}
			for n, v := range r.model {
				fmt.Println("    model", n, "=", v)
			}
		}
	}
	e.obls = append(e.obls, o)
	if e.fails >= e.maxFail {
		panic(abortFn{"too many failed obligations"})
	}
	st.assume(goal)
	return r.ok
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// prove splits conjunctions and skolemises universals in the goal.
func (e *Engine) prove(st *State, goal *Node) ProveResult {
	if goal.op == "and" {
		var last ProveResult
		for _, g := range goal.args {
			last = e.prove(st, g)
			if !last.ok {
				return last
			}
		}
		return last
	}
	if goal.op == "or" { // p or (q and r): prove p or q, then p or r
		for i, a := range goal.args {
			if a.op != "and" {
				continue
			}
			var last ProveResult
			for _, c := range a.args {
				alt := append([]*Node{}, goal.args...)
				alt[i] = c
				if last = e.prove(st, Or(alt...)); !last.ok {
					return last
				}
			}
			return last
		}
	}
	if alts := splitLast(goal); alts != nil && hasCong(goal) {
		var last ProveResult
		for _, a := range alts {
			if last = e.prove(st, a); !last.ok {
				return last
			}
		}
		return last
	}
	g := skolem(goal)
	if hasCong(g) && hasSum(g) && e.quiet == 0 {
		g = e.sumExt(st.pc, g)
		if g == True {
			return ProveResult{ok: true, backend: "z3-new"}
		}
		var fs []*Node
		for _, f := range st.pc {
			if f.op != "forall" || !hasCong(f) {
				fs = append(fs, f)
			}
		}
		n := len(fs)
		for _, f := range ringInstances(st.pc, g) {
			if hasSum(f) {
				fs = append(fs, f)
			}
		}
		if len(fs) > n || n < len(st.pc) {
			if r := refute(append(fs, Not(g)), 3000); r.ok {
				return r
			}
		}
	}
	if !hasCong(g) { // without the congruences first: the rest often suffices
		var plain []*Node
		for _, f := range st.pc {
			if !hasCong(f) {
				plain = append(plain, f)
			}
		}
		if n := len(plain); n < len(st.pc) {
			if r := refute(append(plain[:n:n], Not(g)), 2000); r.ok {
				return r
			}
		}
	}
	facts := append(append([]*Node{}, st.pc...), Not(g))
	return refute(append(facts, ringInstances(st.pc, g)...), e.timeout)
}

func hasMd(n *Node) bool {
	h := false
	atomsOf(n, func(a *Node) {
		if a.op == "md" {
			h = true
		}
	})
	return h
}

// intEqBody: the conclusion of a guarded statement is an integer equality
func intEqBody(b *Node) bool {
	if b.op == "=" {
		return b.args[0].sort == SInt
	}
	if b.op == "or" {
		for _, x := range b.args {
			if x.op == "=" && x.args[0].sort == SInt {
				return true
			}
			if x.op == "and" && intEqBody(x) {
				return true
			}
		}
	}
	if b.op == "and" {
		for _, x := range b.args {
			if intEqBody(x) {
				return true
			}
		}
	}
	return false
}

func conjuncts(n *Node) []*Node {
	if n.op == "and" {
		return n.args
	}
	return []*Node{n}
}

// ringInstances instantiates universals over ring statements (which the solver never sees)
// at the index terms of the goal.
func ringInstances(pc []*Node, g *Node) []*Node {
	var fa []*Node
	ringy := hasCong(g) || hasMd(g)
	for _, f := range pc {
		if f.op == "forall" && f.name == "1" && (hasCong(f) || (ringy && (hasMd(f) || intEqBody(f.args[1])))) {
			fa = append(fa, f)
		}
	}
	if len(fa) == 0 {
		return nil
	}
	var cand []*Node
	seen := map[*Node]bool{}
	add := func(t *Node) {
		if !t.bound && t.sort == SInt && !seen[t] {
			seen[t] = true
			cand = append(cand, t)
		}
	}
	atomsOf(g, func(a *Node) {
		if a.op == "select" || a.op == "store" {
			add(a.args[1])
		}
		if a.op == "var" && strings.HasPrefix(a.name, "sk_") {
			add(a)
		}
	})
	if len(cand) > 8 {
		cand = cand[:8]
	}
	var out []*Node
	for _, f := range fa {
		for _, t := range cand {
			b := newSubst(map[*Node]*Node{f.args[0]: t}).apply(f.args[1])
			// a universal below the guard
			ds := []*Node{b}
			if b.op == "or" {
				ds = b.args
			}
			nested := false
			for i, d := range ds {
				for _, q := range conjuncts(d) {
					if q.op != "forall" || q.name != "1" || !hasCong(q) {
						continue
					}
					nested = true
					if !hasCong(g) {
						break
					}
					for _, t2 := range cand {
						if t2 == t {
							continue
						}
						alt := append([]*Node{}, ds...)
						alt[i] = newSubst(map[*Node]*Node{q.args[0]: t2}).apply(q.args[1])
						out = append(out, Or(alt...))
					}
				}
			}
			if !nested {
				out = append(out, b)
			}
		}
	}
	return out
}

// skolem replaces positively occurring universals of a goal by fresh constants.
func skolem(g *Node) *Node {
	switch g.op {
	case "forall":
		var k int
		fmt.Sscan(g.name, &k)
		m := map[*Node]*Node{}
		for _, v := range g.args[:k] {
			m[v] = Fresh("sk_"+v.name, v.sort)
		}
		return skolem(newSubst(m).apply(g.args[k]))
	case "or":
		r := make([]*Node, len(g.args))
		for i, a := range g.args {
			r[i] = skolem(a)
		}
		return Or(r...)
	case "and":
		r := make([]*Node, len(g.args))
		for i, a := range g.args {
			r[i] = skolem(a)
		}
		return And(r...)
	}
	return g
}

// feasible cheaply prunes contradictory states.
func (e *Engine) feasible(st *State) bool {
	if stopped() || time.Now().After(e.deadline) {
		panic(abortFn{"time budget of the function exhausted"})
	}
	if obStop.IsZero() {
		obStop = time.Now().Add(20 * time.Second)
		defer func() { obStop = time.Time{} }()
	}
	if e.quiet > 0 { // discovery of write sets: quantifier-free facts only
		var g []*Node
		for _, f := range st.pc {
			if f.op != "forall" && !hasCong(f) {
				g = append(g, f)
			}
		}
		return !refute(g, 200).ok
	}
	return !refute(st.pc, 200).ok
}

// branch forks on a condition.
func (e *Engine) branch(st *State, c *Node, kt, kf func(*State)) {
	if c == True {
		kt(st)
		return
	}
	if c == False {
		kf(st)
		return
	}
	st2 := st.clone()
	st.assume(c)
	st2.assume(Not(c))
	if e.feasible(st) {
		kt(st)
	}
	if e.feasible(st2) {
		kf(st2)
	}
}

func (e *Engine) useBig(st *State, b *BigV, what string) {
	if b.st == stDead {
		e.fail(st, "use of a value handed back to the pool ("+what+")")
	}
}

// fail records an obligation that can only hold if this point is unreachable.
func (e *Engine) fail(st *State, kind string) {
	e.obligation(st, kind, False)
}

// ---- statements ----

func (e *Engine) execBlock(st *State, list []ast.Stmt, k SK) {
	if len(list) == 0 {
		k(st, Out{})
		return
	}
	e.exec(st, list[0], func(st *State, o Out) {
		if o.c != cNext {
			k(st, o)
			return
		}
		e.execBlock(st, list[1:], k)
	})
}

func (e *Engine) info(st *State) *types.Info { return st.top().fi.pkg.info }

func (e *Engine) typeOf(st *State, x ast.Expr) types.Type {
	if tv, ok := e.info(st).Types[x]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := e.info(st).ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	unsup("no type for expression")
	return nil
}

func (e *Engine) declare(st *State, id *ast.Ident, v Val) {
	if id.Name == "_" {
		return
	}
	o := e.info(st).Defs[id]
	if o == nil {
		o = e.info(st).Uses[id]
	}
	v = e.coerce(st, v, o.Type())
	st.top().vars[o] = st.alloc(v)
}

func (e *Engine) exec(st *State, s ast.Stmt, k SK) {
	if s == nil {
		k(st, Out{})
		return
	}
	e.curPos = s.Pos()
	switch s := s.(type) {
	case *ast.BlockStmt:
		e.execBlock(st, s.List, k)
	case *ast.EmptyStmt:
		k(st, Out{})
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			e.evalCall(st, c, func(st *State, v Val) { k(st, Out{}) })
			return
		}
		e.eval(st, s.X, func(st *State, v Val) { k(st, Out{}) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st, Out{})
			return
		}
		var specs []*ast.ValueSpec
		for _, sp := range gd.Specs {
			specs = append(specs, sp.(*ast.ValueSpec))
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(specs) {
				k(st, Out{})
				return
			}
			vs := specs[i]
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					e.declare(st, n, st.zero(e.info(st).Defs[n].Type()))
				}
				rec(st, i+1)
				return
			}
			e.evalMulti(st, vs.Values, len(vs.Names), func(st *State, vals []Val) {
				for j, n := range vs.Names {
					e.declare(st, n, vals[j])
				}
				rec(st, i+1)
			})
		}
		rec(st, 0)
	case *ast.AssignStmt:
		e.execAssign(st, s, k)
	case *ast.IncDecStmt:
		e.evalLV(st, s.X, func(st *State, lv LV) {
			v := e.readLV(st, lv).(*Node)
			t := e.typeOf(st, s.X)
			d := One
			if s.Tok == token.DEC {
				d = NumI(-1)
			}
			nv := Add(v, d)
			e.curPos = s.Pos()
			e.narrow(st, "arithmetic", nv, t)
			if isUint(t) && s.Tok == token.DEC {
				e.obligation(st, "unsigned underflow", Le(Zero, nv))
			}
			e.writeLV(st, lv, nv)
			k(st, Out{})
		})
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			k(st, Out{c: cReturn})
			return
		}
		sig := st.top().sig
		n := sig.Results().Len()
		e.evalMulti(st, s.Results, n, func(st *State, vals []Val) {
			for i := range vals {
				vals[i] = e.coerce(st, vals[i], sig.Results().At(i).Type())
			}
			k(st, Out{c: cReturn, vals: vals})
		})
	case *ast.IfStmt:
		e.exec(st, s.Init, func(st *State, o Out) {
			e.eval(st, s.Cond, func(st *State, v Val) {
				e.branch(st, v.(*Node), func(st *State) { e.exec(st, s.Body, k) }, func(st *State) { e.exec(st, s.Else, k) })
			})
		})
	case *ast.BranchStmt:
		lb := ""
		if s.Label != nil {
			lb = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			k(st, Out{c: cBreak, label: lb})
		case token.CONTINUE:
			k(st, Out{c: cContinue, label: lb})
		default:
			unsup("branch %v", s.Tok)
		}
	case *ast.LabeledStmt:
		e.execLabeled(st, s.Stmt, s.Label.Name, k)
	case *ast.ForStmt, *ast.RangeStmt:
		e.execLoop(st, s, "", k)
	case *ast.SwitchStmt:
		e.execSwitch(st, s, k)
	case *ast.DeferStmt:
		fr := st.top()
		e.evalCallee(st, s.Call, func(st *State, run func(st *State, k EK)) {
			fr = st.top()
			nd := make([]func(*State, EK), len(fr.defers), len(fr.defers)+1)
			copy(nd, fr.defers)
			fr.defers = append(nd, run)
			k(st, Out{})
		})
	default:
		unsup("statement %T", s)
	}
}

func (e *Engine) execLabeled(st *State, s ast.Stmt, label string, k SK) {
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		e.execLoop(st, s, label, k)
		return
	}
	e.exec(st, s, func(st *State, o Out) {
		if o.c == cBreak && o.label == label {
			o = Out{}
		}
		k(st, o)
	})
}

func (e *Engine) execSwitch(st *State, s *ast.SwitchStmt, k0 SK) {
	k := func(st *State, o Out) {
		if o.c == cBreak && o.label == "" {
			o = Out{}
		}
		k0(st, o)
	}
	e.exec(st, s.Init, func(st *State, o Out) {
		run := func(st *State, tag Val, tagT types.Type) {
			var def *ast.CaseClause
			var clauses []*ast.CaseClause
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
				for _, b := range cc.Body {
					if bs, ok := b.(*ast.BranchStmt); ok && bs.Tok == token.FALLTHROUGH {
						unsup("fallthrough")
					}
				}
			}
			var rec func(st *State, ci, xi int)
			rec = func(st *State, ci, xi int) {
				if ci == len(clauses) {
					if def != nil {
						e.execBlock(st, def.Body, k)
					} else {
						k(st, Out{})
					}
					return
				}
				cc := clauses[ci]
				if xi == len(cc.List) {
					rec(st, ci+1, 0)
					return
				}
				e.eval(st, cc.List[xi], func(st *State, v Val) {
					var c *Node
					if tag == nil {
						c = v.(*Node)
					} else {
						c = e.equalVals(st, tag, v, tagT)
					}
					e.branch(st, c, func(st *State) { e.execBlock(st, cc.Body, k) }, func(st *State) { rec(st, ci, xi+1) })
				})
			}
			rec(st, 0, 0)
		}
		if s.Tag == nil {
			run(st, nil, nil)
			return
		}
		e.eval(st, s.Tag, func(st *State, v Val) { run(st, v, e.typeOf(st, s.Tag)) })
	})
}

func (e *Engine) execAssign(st *State, s *ast.AssignStmt, k SK) {
	if s.Tok == token.DEFINE {
		e.evalMulti(st, s.Rhs, len(s.Lhs), func(st *State, vals []Val) {
			for i, l := range s.Lhs {
				id := l.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if o := e.info(st).Defs[id]; o != nil {
					e.declare(st, id, vals[i])
				} else {
					e.evalLV(st, id, func(st *State, lv LV) { e.writeLV(st, lv, vals[i]) })
				}
			}
			k(st, Out{})
		})
		return
	}
	if s.Tok == token.ASSIGN {
		// evaluate lhs operands, then rhs, then assign
		var lvs []LV
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i < len(s.Lhs) {
				if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
					lvs = append(lvs[:i:i], LV{kind: 3})
					rec(st, i+1)
					return
				}
				e.evalLV(st, s.Lhs[i], func(st *State, lv LV) {
					lvs = append(lvs[:i:i], lv)
					rec(st, i+1)
				})
				return
			}
			my := lvs
			e.evalMulti(st, s.Rhs, len(s.Lhs), func(st *State, vals []Val) {
				e.curPos = s.Pos()
				for j, lv := range my {
					if lv.kind == 3 {
						continue
					}
					e.writeLV(st, lv, vals[j])
				}
				k(st, Out{})
			})
		}
		rec(st, 0)
		return
	}
	// op-assign
	op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR}[s.Tok]
	e.evalLV(st, s.Lhs[0], func(st *State, lv LV) {
		e.eval(st, s.Rhs[0], func(st *State, v Val) {
			old := e.readLV(st, lv)
			e.writeLV(st, lv, e.arith(st, op, old, v, e.typeOf(st, s.Lhs[0])))
			k(st, Out{})
		})
	})
}

// evalMulti evaluates a list of expressions giving n values (handles multi-value calls and comma-ok).
func (e *Engine) evalMulti(st *State, xs []ast.Expr, n int, k func(*State, []Val)) {
	if len(xs) == 1 && n > 1 {
		x := ast.Unparen(xs[0])
		if c, ok := x.(*ast.CallExpr); ok {
			e.evalCall(st, c, func(st *State, v Val) { k(st, append([]Val{}, v.(TupleV)...)) })
			return
		}
		if ix, ok := x.(*ast.IndexExpr); ok {
			if _, ok := e.typeOf(st, ix.X).Underlying().(*types.Map); ok {
				e.eval(st, ix.X, func(st *State, m Val) {
					e.eval(st, ix.Index, func(st *State, key Val) {
						e.mapRead(st, m, key, e.typeOf(st, ix.X), func(st *State, v Val, ok *Node) { k(st, []Val{v, ok}) })
					})
				})
				return
			}
		}
		unsup("multi-value expression %T", x)
	}
	if len(xs) != n {
		unsup("value count mismatch")
	}
	e.evalList(st, xs, k)
}

func (e *Engine) evalList(st *State, xs []ast.Expr, k func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(xs) {
			k(st, acc)
			return
		}
		e.eval(st, xs[i], func(st *State, v Val) { rec(st, i+1, append(acc[:i:i], v)) })
	}
	rec(st, 0, nil)
}

// ---- lvalues ----

type LV struct {
	kind int // 0 cell+path, 1 slice element, 2 map element, 3 blank, 4 element of a row
	loc  int
	path []int
	idx  *Node
	typ  types.Type
	key  Val
	mp   Val
	mt   types.Type
	row  *Node      // kind 4: element idx of row `row` of a list of lists
	rowT types.Type // the type of the row
}

func (e *Engine) readPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(*StructV)
		if !ok {
			unsup("field read of %T", v)
		}
		v = s.f[i]
	}
	return v
}
func (e *Engine) writePath(st *State, v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(*StructV)
	if !ok {
		unsup("field write of %T", v)
	}
	if s.frozen {
		e.fail(st, "write to a shared object not in the frame")
	}
	c := &StructV{typ: s.typ, f: append([]Val{}, s.f...)}
	c.f[path[0]] = e.writePath(st, s.f[path[0]], path[1:], nv)
	return c
}

func (e *Engine) readElem(st *State, arr int, idx *Node, elem types.Type) Val {
	a := st.get(arr).(*ArrV)
	if a.st == stDead {
		e.fail(st, "read through a slice whose backing array may have been overwritten by append")
	}
	if a.expl != nil || a.comps == nil {
		if idx.op == "num" && idx.k.IsInt64() && idx.k.Int64() >= 0 && int(idx.k.Int64()) < len(a.expl) {
			return a.expl[idx.k.Int64()]
		}
		a = st.arrComps(arr)
	}
	if a.comps == nil {
		unsup("array without components")
	}
	c := make([]*Node, len(a.comps))
	for i, x := range a.comps {
		c[i] = selectF(x, idx)
	}
	v, _ := st.unflatten(c, elem)
	if r, ok := v.(SliceV); ok && r.ln.op == "select" {
		st.assume(Le(Zero, r.ln))
	}
	if p, ok := v.(Ptr); ok && p.loc != 0 && a.uniq && isTreePtr(elem) {
		x := *st.get(p.loc).(*StructV)
		x.elemOf = arr
		st.heap[p.loc] = &x
	}
	if r, ok := v.(SliceV); ok && a.uniq && r.arr != 0 {
		x := *st.get(r.arr).(*ArrV)
		x.rowOf = arr
		st.heap[r.arr] = &x
	}
	return v
}

func (e *Engine) writeElem(st *State, arr int, idx *Node, path []int, nv Val, elem types.Type) {
	a := st.get(arr).(*ArrV)
	if a.st != stOwned {
		e.fail(st, "write to a slice not in the frame")
	}
	if len(path) > 0 {
		if _, isP := elem.Underlying().(*types.Pointer); isP {
			unsup("path write through pointer element")
		}
		nv = e.writePath(st, e.readElem(st, arr, idx, elem), path, nv)
	}
	nv = e.coerce(st, nv, elem)
	a = st.get(arr).(*ArrV)
	if a.prev != 0 {
		// an older slice may share this element
		if p, ok := st.get(a.prev).(*ArrV); ok && p.ext != nil {
			if r := refute(append(append([]*Node{}, st.pc...), Lt(idx, p.ext)), 1000); !r.ok {
				c := *p
				c.st = stDead
				st.set(a.prev, &c)
			}
		}
	}
	if a.moved && !a.capx {
		e.fail(st, "write to a slice already extended by append")
	}
	if a.expl != nil {
		if idx.op == "num" && int(idx.k.Int64()) < len(a.expl) {
			c := *a
			c.expl = append([]Val{}, a.expl...)
			c.expl[idx.k.Int64()] = nv
			st.set(arr, &c)
			return
		}
	}
	a = st.arrComps(arr)
	if r, ok := nv.(SliceV); ok && r.arr != 0 && a.uniq {
		if x := st.get(r.arr).(*ArrV); x.st == stOwned && x.rowOf == 0 {
			y := *x
			y.rowOf = arr
			st.heap[r.arr] = &y
		} else {
			e.notUniq(st, arr)
			if x.rowOf != 0 {
				e.notUniq(st, x.rowOf)
			}
		}
	}
	if p, ok := nv.(Ptr); ok && p.loc != 0 && isTreePtr(elem) && a.uniq {
		if o, ok := st.get(p.loc).(*StructV); ok && !o.frozen && p.field < 0 {
			defer func() { st.heap[p.loc] = DeadV{} }()
		} else {
			e.notUniq(st, arr)
		}
	}
	fl := st.flatten(nv, elem)
	c := *st.get(arr).(*ArrV)
	c.comps = append([]*Node{}, a.comps...)
	for i := range c.comps {
		c.comps[i] = Store(c.comps[i], idx, fl[i])
	}
	st.set(arr, &c)
}

func selectF(a, i *Node) *Node {
	if a.op == "fn" && a.name == "shift" {
		return selectF(a.args[0], Add(a.args[1], i))
	}
	return Select(a, i)
}

func (e *Engine) readLV(st *State, lv LV) Val {
	switch lv.kind {
	case 0:
		return e.readPath(st.get(lv.loc), lv.path)
	case 1:
		return e.readPath(e.readElem(st, lv.loc, lv.idx, lv.typ), lv.path)
	}
	if lv.kind == 4 {
		row := e.readElem(st, lv.loc, lv.row, lv.rowT).(SliceV)
		return e.readElem(st, row.arr, lv.idx, lv.typ)
	}
	unsup("read of lvalue kind %d", lv.kind)
	return nil
}

func (e *Engine) writeLV(st *State, lv LV, v Val) {
	switch lv.kind {
	case 0:
		cur := st.get(lv.loc)
		if len(lv.path) == 0 {
			if lv.typ != nil {
				v = e.coerce(st, v, lv.typ)
			}
			if s, ok := cur.(*StructV); ok && s.frozen {
				e.fail(st, "write to a shared object not in the frame")
			}
			st.set(lv.loc, v)
			return
		}
		if lv.typ != nil {
			v = e.coerce(st, v, lv.typ)
		}
		st.set(lv.loc, e.writePath(st, cur, lv.path, v))
	case 1:
		e.writeElem(st, lv.loc, lv.idx, lv.path, v, lv.typ)
	case 2:
		e.mapWrite(st, lv.mp, lv.key, v, lv.mt)
	case 3:
	case 4:
		e.writeNested(st, lv, v)
	}
}

// writeNested writes one element of a row of a list of lists whose rows are not shared.
func (e *Engine) writeNested(st *State, lv LV, v Val) {
	v = e.coerce(st, v, lv.typ)
	fl := st.flatten(v, lv.typ)
	c := *st.get(lv.loc).(*ArrV)
	if c.st != stOwned || !c.uniq || c.comps == nil {
		e.fail(st, "write to a slice not in the frame")
	}
	c.comps = append([]*Node{}, c.comps...)
	for i := range fl {
		c.comps[i] = Store(c.comps[i], lv.row, Store(Select(c.comps[i], lv.row), lv.idx, fl[i]))
	}
	st.set(lv.loc, &c)
	// other names of the row would be out of date
	for l, x := range st.heap {
		if a, ok := x.(*ArrV); ok && a.rowOf == lv.loc && a.st != stDead {
			y := *a
			y.st = stDead
			st.heap[l] = &y
		}
	}
}

func (e *Engine) notUniq(st *State, arr int) {
	if a, ok := st.get(arr).(*ArrV); ok && a.uniq {
		c := *a
		c.uniq = false
		st.set(arr, &c)
	}
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// fieldPath turns a selection into struct-path steps; pointers to embedded structs are followed.
func (e *Engine) selectLV(st *State, base LV, baseT types.Type, index []int, k func(*State, LV)) {
	t := baseT
	lv := base
	for n, i := range index {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			v := e.readLV(st, lv)
			lv = e.derefLV(st, v)
			t = p.Elem()
		}
		s := t.Underlying().(*types.Struct)
		lv.path = append(append([]int{}, lv.path...), i)
		t = s.Field(i).Type()
		if n == len(index)-1 && lv.kind == 0 {
			lv.typ = t
		}
	}
	k(st, lv)
}

func (e *Engine) derefLV(st *State, v Val) LV {
	p, ok := v.(Ptr)
	if !ok {
		if _, isN := v.(NilV); isN {
			e.fail(st, "nil dereference")
			unsup("nil dereference")
		}
		unsup("dereference of %T", v)
	}
	if p.loc == 0 {
		e.fail(st, "nil dereference")
		panic(abortFn{"nil dereference"})
	}
	lv := LV{kind: 0, loc: p.loc, typ: p.elem}
	if p.field >= 0 {
		lv.path = []int{p.field}
	}
	return lv
}

func (e *Engine) varLoc(st *State, o types.Object) (int, bool) {
	if l, ok := st.top().vars[o]; ok {
		return l, true
	}
	if o.Parent() == o.Pkg().Scope() {
		return e.globalLoc(st, o), true
	}
	return 0, false
}

func (e *Engine) evalLV(st *State, x ast.Expr, k func(*State, LV)) {
	switch x := x.(type) {
	case *ast.ParenExpr:
		e.evalLV(st, x.X, k)
	case *ast.Ident:
		o := e.info(st).ObjectOf(x)
		l, ok := e.varLoc(st, o)
		if !ok {
			unsup("variable %s has no location", x.Name)
		}
		k(st, LV{kind: 0, loc: l, typ: o.Type()})
	case *ast.StarExpr:
		e.eval(st, x.X, func(st *State, v Val) { k(st, e.derefLV(st, v)) })
	case *ast.SelectorExpr:
		if sel, ok := e.info(st).Selections[x]; ok {
			if sel.Kind() != types.FieldVal {
				unsup("method value as lvalue")
			}
			bt := e.typeOf(st, x.X)
			if _, ok := bt.Underlying().(*types.Pointer); ok {
				e.eval(st, x.X, func(st *State, v Val) {
					e.curPos = x.Pos()
					lv := e.derefLV(st, v)
					e.selectLV(st, lv, bt.Underlying().(*types.Pointer).Elem(), sel.Index(), k)
				})
				return
			}
			if !addressable(x.X) {
				// value base: put into a temporary cell
				e.eval(st, x.X, func(st *State, v Val) {
					l := st.alloc(v)
					e.selectLV(st, LV{kind: 0, loc: l, typ: bt}, bt, sel.Index(), k)
				})
				return
			}
			e.evalLV(st, x.X, func(st *State, lv LV) { e.selectLV(st, lv, bt, sel.Index(), k) })
			return
		}
		// package-qualified
		o := e.info(st).Uses[x.Sel]
		l, _ := e.varLoc(st, o)
		k(st, LV{kind: 0, loc: l, typ: o.Type()})
	case *ast.IndexExpr:
		t := e.typeOf(st, x.X).Underlying()
		if mt, ok := t.(*types.Map); ok {
			_ = mt
			e.eval(st, x.X, func(st *State, m Val) {
				e.eval(st, x.Index, func(st *State, key Val) {
					k(st, LV{kind: 2, mp: m, key: key, mt: e.typeOf(st, x.X)})
				})
			})
			return
		}
		if in, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok && isSliceT(e.typeOf(st, in.X)) && isSliceT(e.typeOf(st, x.X)) {
			e.evalLV(st, in, func(st *State, lv LV) {
				a, ok := st.get(lv.loc).(*ArrV)
				if lv.kind == 1 && ok && a.uniq && a.st == stOwned && a.comps != nil && len(lv.path) == 0 {
					e.eval(st, x.Index, func(st *State, iv Val) {
						e.curPos = x.Pos()
						i := iv.(*Node)
						a := st.get(lv.loc).(*ArrV)
						ln := selectF(a.comps[len(a.comps)-2], lv.idx)
						e.obligation(st, "index in range", And(Le(Zero, i), Lt(i, ln)))
						k(st, LV{kind: 4, loc: lv.loc, row: lv.idx, rowT: lv.typ, idx: i, typ: lv.typ.Underlying().(*types.Slice).Elem()})
					})
					return
				}
				e.indexLV(st, x, e.readLV(st, lv), k)
			})
			return
		}
		e.eval(st, x.X, func(st *State, v Val) { e.indexLV(st, x, v, k) })
	default:
		unsup("lvalue %T", x)
	}
}

func (e *Engine) indexLV(st *State, x *ast.IndexExpr, v Val, k func(*State, LV)) {
	e.eval(st, x.Index, func(st *State, iv Val) {
		e.curPos = x.Pos()
		s, ok := v.(SliceV)
		if !ok {
			unsup("index of %T", v)
		}
		i := iv.(*Node)
		e.obligation(st, "index in range", And(Le(Zero, i), Lt(i, s.ln)))
		if s.arr == 0 {
			panic(abortFn{"index into empty slice"})
		}
		k(st, LV{kind: 1, loc: s.arr, idx: Add(s.off, i), typ: s.elem})
	})
}

func addressable(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return addressable(x.X)
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// ---- expressions ----

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) constVal(st *State, cv constant.Value, t types.Type) Val {
	switch cv.Kind() {
	case constant.Bool:
		return BoolN(constant.BoolVal(cv))
	case constant.Int:
		b, ok := new(big.Int).SetString(cv.ExactString(), 10)
		if !ok {
			unsup("constant %v", cv)
		}
		return Num(b)
	case constant.String:
		return StrLit(constant.StringVal(cv))
	case constant.Float:
		if i := constant.ToInt(cv); i.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return Num(b)
		}
	}
	unsup("constant %v", cv)
	return nil
}

func (e *Engine) eval(st *State, x ast.Expr, k EK) {
	if tv, ok := e.info(st).Types[x]; ok && tv.Value != nil {
		k(st, e.constVal(st, tv.Value, tv.Type))
		return
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		e.eval(st, x.X, k)
	case *ast.Ident:
		if x.Name == "nil" {
			k(st, NilV{})
			return
		}
		o := e.info(st).ObjectOf(x)
		switch o := o.(type) {
		case *types.Var:
			l, ok := e.varLoc(st, o)
			if !ok {
				unsup("variable %s", x.Name)
			}
			k(st, st.get(l))
		case *types.Func:
			fi := e.l.fdecl[o]
			if fi == nil {
				unsup("function value %s", x.Name)
			}
			k(st, FuncV{fi: fi})
		default:
			unsup("identifier %s", x.Name)
		}
	case *ast.BasicLit:
		unsup("literal %s", x.Value)
	case *ast.FuncLit:
		caps := map[types.Object]int{}
		for o, l := range st.top().vars {
			caps[o] = l
		}
		k(st, FuncV{lit: x, pkg: st.top().fi.pkg, caps: caps, frameFn: st.top().fi})
	case *ast.SelectorExpr:
		if sel, ok := e.info(st).Selections[x]; ok {
			if sel.Kind() == types.MethodVal {
				f := sel.Obj().(*types.Func)
				fi := e.l.fdecl[f]
				_, rp := f.Type().(*types.Signature).Recv().Type().(*types.Pointer)
				_, xp := e.typeOf(st, x.X).Underlying().(*types.Pointer)
				if fi == nil || rp != xp || len(sel.Index()) > 1 {
					unsup("method value")
				}
				e.eval(st, x.X, func(st *State, v Val) { k(st, FuncV{fi: fi, recv: v}) })
				return
			}
			if t, ok := e.typeOf(st, x.X).(*types.Pointer); ok && namedName(t.Elem()) == "AvlNode" && (x.Sel.Name == "key" || x.Sel.Name == "value") {
				e.eval(st, x.X, func(st *State, v Val) {
					t := asTree(v)
					if t.key == nil {
						unsup("contents of a root node")
					}
					if x.Sel.Name == "key" {
						k(st, t.key)
						return
					}
					k(st, e.frozenBig(st, t.value))
				})
				return
			}
			if t := e.typeOf(st, x.X); !addressable(x.X) {
				if _, isP := t.Underlying().(*types.Pointer); !isP {
					e.eval(st, x.X, func(st *State, v Val) {
						for _, i := range sel.Index() {
							if p, ok := v.(Ptr); ok {
								v = e.readLV(st, e.derefLV(st, p))
							}
							v = v.(*StructV).f[i]
						}
						k(st, v)
					})
					return
				}
			}
			e.evalLV(st, x, func(st *State, lv LV) { k(st, e.readLV(st, lv)) })
			return
		}
		o := e.info(st).Uses[x.Sel]
		if f, ok := o.(*types.Func); ok {
			if fi := e.l.fdecl[f]; fi != nil {
				k(st, FuncV{fi: fi})
				return
			}
			unsup("external function value %s", x.Sel.Name)
		}
		l, _ := e.varLoc(st, o)
		k(st, st.get(l))
	case *ast.StarExpr:
		e.eval(st, x.X, func(st *State, v Val) { k(st, e.readLV(st, e.derefLV(st, v))) })
	case *ast.UnaryExpr:
		e.evalUnary(st, x, k)
	case *ast.BinaryExpr:
		e.evalBinary(st, x, k)
	case *ast.CallExpr:
		e.evalCall(st, x, k)
	case *ast.IndexExpr:
		t := e.typeOf(st, x.X)
		switch t.Underlying().(type) {
		case *types.Map:
			e.eval(st, x.X, func(st *State, m Val) {
				e.eval(st, x.Index, func(st *State, key Val) {
					e.mapRead(st, m, key, t, func(st *State, v Val, ok *Node) { k(st, v) })
				})
			})
			return
		case *types.Basic:
			e.eval(st, x.X, func(st *State, s Val) {
				e.eval(st, x.Index, func(st *State, i Val) {
					sn := s.(*Node)
					in := i.(*Node)
					if str, ok := strOf[sn]; ok && in.op == "num" && in.k.Sign() >= 0 && in.k.Int64() < int64(len(str)) {
						k(st, NumI(int64(str[in.k.Int64()])))
						return
					}
					e.obligation(st, "string index in range", And(Le(Zero, in), Lt(in, Fn("strlen", SInt, sn))))
					k(st, Fn("strat", SInt, sn, in))
				})
			})
			return
		}
		e.evalLV(st, x, func(st *State, lv LV) { k(st, e.readLV(st, lv)) })
	case *ast.SliceExpr:
		e.evalSlice(st, x, k)
	case *ast.CompositeLit:
		e.evalComposite(st, x, k)
	case *ast.TypeAssertExpr:
		unsup("type assertion")
	default:
		unsup("expression %T", x)
	}
}

func (e *Engine) evalUnary(st *State, x *ast.UnaryExpr, k EK) {
	switch x.Op {
	case token.AND:
		if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
			e.evalComposite(st, cl, func(st *State, v Val) {
				k(st, Ptr{loc: st.alloc(v), elem: e.typeOf(st, cl), field: -1})
			})
			return
		}
		e.evalLV(st, x.X, func(st *State, lv LV) {
			t := e.typeOf(st, x.X)
			if lv.kind == 0 && len(lv.path) == 0 {
				k(st, Ptr{loc: lv.loc, elem: t, field: -1})
				return
			}
			if lv.kind == 0 && len(lv.path) == 1 {
				k(st, Ptr{loc: lv.loc, elem: t, field: lv.path[0]})
				return
			}
			unsup("address of element")
		})
	case token.NOT:
		e.eval(st, x.X, func(st *State, v Val) { k(st, Not(v.(*Node))) })
	case token.SUB:
		e.eval(st, x.X, func(st *State, v Val) { k(st, Neg(v.(*Node))) })
	case token.ADD:
		e.eval(st, x.X, k)
	default:
		unsup("unary %v", x.Op)
	}
}

func (e *Engine) evalBinary(st *State, x *ast.BinaryExpr, k EK) {
	if x.Op == token.LAND || x.Op == token.LOR {
		e.eval(st, x.X, func(st *State, av Val) {
			a := av.(*Node)
			short := BoolN(x.Op == token.LOR)
			if a == short {
				k(st, a)
				return
			}
			if a == Not(short) {
				e.eval(st, x.Y, k)
				return
			}
			g := a
			if x.Op == token.LOR {
				g = Not(a)
			}
			// try a pure evaluation of the right operand under the guard
			st2 := st.clone()
			st2.assume(g)
			if !e.feasible(st2) {
				st.assume(Not(g))
				k(st, short)
				return
			}
			n0 := len(st2.pc)
			rec := map[int]bool{}
			e.rec = append(e.rec, rec)
			base := e.nextLoc
			cnt := 0
			var res *Node
			var fin *State
			no := len(e.obls)
			e.eval(st2.clone(), x.Y, func(st *State, v Val) {
				cnt++
				res = v.(*Node)
				fin = st
			})
			e.rec = e.rec[:len(e.rec)-1]
			dirty := cnt != 1
			for l := range rec {
				if l <= base {
					dirty = true
				}
			}
			if !dirty {
				for _, f := range fin.pc[n0:] {
					st.assume(Imp(g, f))
				}
				if x.Op == token.LAND {
					k(st, And(a, res))
				} else {
					k(st, Or(a, res))
				}
				return
			}
			e.obls = e.obls[:no]
			e.branch(st, g, func(st *State) { e.eval(st, x.Y, k) }, func(st *State) { k(st, short) })
		})
		return
	}
	e.eval(st, x.X, func(st *State, a Val) {
		e.eval(st, x.Y, func(st *State, b Val) {
			e.curPos = x.Pos()
			switch x.Op {
			case token.EQL, token.NEQ:
				t := e.typeOf(st, x.X)
				if _, isN := a.(NilV); isN {
					t = e.typeOf(st, x.Y)
				}
				r := e.equalVals(st, a, b, t)
				if x.Op == token.NEQ {
					r = Not(r)
				}
				k(st, r)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				an, bn := a.(*Node), b.(*Node)
				if isString(e.typeOf(st, x.X)) {
					unsup("string ordering")
				}
				switch x.Op {
				case token.LSS:
					k(st, ltN(an, bn))
				case token.LEQ:
					k(st, leN(an, bn))
				case token.GTR:
					k(st, ltN(bn, an))
				default:
					k(st, leN(bn, an))
				}
			default:
				k(st, e.arith(st, x.Op, a, b, e.typeOf(st, x)))
			}
		})
	})
}

// comparisons distribute over ite-valued Cmp/Sign results
func leN(a, b *Node) *Node {
	if a.op == "ite" && isNum(b) {
		return Ite(a.args[0], leN(a.args[1], b), leN(a.args[2], b))
	}
	if b.op == "ite" && isNum(a) {
		return Ite(b.args[0], leN(a, b.args[1]), leN(a, b.args[2]))
	}
	return Le(a, b)
}
func ltN(a, b *Node) *Node { return Not(leN(b, a)) }
func eqN(a, b *Node) *Node {
	if a.sort == SInt {
		if a.op == "ite" && isNum(b) {
			return Ite(a.args[0], eqN(a.args[1], b), eqN(a.args[2], b))
		}
		if b.op == "ite" && isNum(a) {
			return Ite(b.args[0], eqN(a, b.args[1]), eqN(a, b.args[2]))
		}
	}
	return Eq(a, b)
}

// narrow asks that a value of an integer type of at most 32 bits is in its range; wider machine
// integers are treated as mathematical ones.
func (e *Engine) narrow(st *State, what string, n *Node, t types.Type) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	lo, hi := int64(0), int64(0)
	switch b.Kind() {
	case types.Uint8:
		hi = 1 << 8
	case types.Uint16:
		hi = 1 << 16
	case types.Uint32:
		hi = 1 << 32
	case types.Int8:
		lo, hi = -1<<7, 1<<7
	case types.Int16:
		lo, hi = -1<<15, 1<<15
	case types.Int32:
		lo, hi = -1<<31, 1<<31
	default:
		return
	}
	e.obligation(st, what+" keeps the value within "+b.Name(), And(Le(NumI(lo), n), Lt(n, NumI(hi))))
}

func (e *Engine) arith(st *State, op token.Token, av, bv Val, t types.Type) Val {
	r := e.arith1(st, op, av, bv, t)
	if n, ok := r.(*Node); ok && !isString(t) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			e.narrow(st, "arithmetic", n, t)
		}
	}
	return r
}

func (e *Engine) arith1(st *State, op token.Token, av, bv Val, t types.Type) Val {
	a, ok1 := av.(*Node)
	b, ok2 := bv.(*Node)
	if !ok1 || !ok2 {
		unsup("arithmetic on %T and %T", av, bv)
	}
	if isString(t) {
		if op == token.ADD {
			if s1, ok := strOf[a]; ok {
				if s2, ok := strOf[b]; ok {
					return StrLit(s1 + s2)
				}
			}
			return Fn("strcat", SInt, a, b)
		}
		unsup("string operator")
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		r := Sub(a, b)
		if isUint(t) {
			e.obligation(st, "unsigned underflow", Le(Zero, r))
		}
		return r
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		e.obligation(st, "division by zero", Not(Eq(b, Zero)))
		if isNum(a) && isNum(b) {
			q, r := new(big.Int).QuoRem(a.k, b.k, new(big.Int))
			if op == token.QUO {
				return Num(q)
			}
			return Num(r)
		}
		e.obligation(st, "non-negative operands of / or %", And(Le(Zero, a), Lt(Zero, b)))
		q := Fn("idiv", SInt, a, b)
		r := Sub(a, Mul(q, b))
		st.assume(And(Le(Zero, q), Le(Zero, r), Lt(r, b)))
		if op == token.QUO {
			return q
		}
		return r
	case token.SHL:
		if isNum(b) {
			return MulB(a, new(big.Int).Lsh(bigOne, uint(b.k.Int64())))
		}
	case token.SHR:
		if isNum(a) && isNum(b) {
			return Num(new(big.Int).Rsh(a.k, uint(b.k.Int64())))
		}
		if b == One {
			e.obligation(st, "shift of a non-negative value", Le(Zero, a))
			h, _ := halves(st, a)
			return h
		}
	case token.AND:
		if isNum(a) && isNum(b) {
			return Num(new(big.Int).And(a.k, b.k))
		}
		if b == One {
			e.obligation(st, "low bit of a non-negative value", Le(Zero, a))
			_, l := halves(st, a)
			return l
		}
		r := bitAnd(a, b)
		if r.op == "fn" {
			for _, f := range bitAndFacts(r) {
				st.assume(f)
			}
		}
		return r
	case token.OR:
		if isNum(a) && isNum(b) {
			return Num(new(big.Int).Or(a.k, b.k))
		}
		if a.sort == SBool {
			return Or(a, b)
		}
	}
	unsup("operator %v", op)
	return nil
}

func (e *Engine) isNil(st *State, v Val) *Node {
	switch v := v.(type) {
	case NilV:
		return True
	case Ptr:
		return BoolN(v.loc == 0)
	case SliceV:
		return v.nilb
	case IfaceV:
		return v.isnil
	case MapRef:
		return v.nilb
	case FuncV, *MapV, ChanV:
		return False
	case TreeVal:
		if v.key != nil {
			return False
		}
		return Eq(v.size, Zero)
	case MaybePtr:
		return v.isnil
	}
	unsup("nil comparison of %T", v)
	return nil
}

// MaybePtr is a pointer whose nil-ness is not known yet.
type MaybePtr struct {
	isnil *Node
	p     Ptr
}

func (e *Engine) equalVals(st *State, a, b Val, t types.Type) *Node {
	_, an := a.(NilV)
	_, bn := b.(NilV)
	if an {
		return e.isNil(st, b)
	}
	if bn {
		return e.isNil(st, a)
	}
	switch a := a.(type) {
	case *Node:
		return eqN(a, b.(*Node))
	case Ptr:
		bp, ok := b.(Ptr)
		if !ok {
			unsup("pointer comparison")
		}
		if a.loc == bp.loc && a.field == bp.field {
			return True
		}
		if a.loc == 0 || bp.loc == 0 {
			return False
		}
		if x, ok := st.get(a.loc).(*BigV); ok && x.st != stOwned {
			unsup("identity comparison of shared pointers")
		}
		if x, ok := st.get(a.loc).(*StructV); ok && x.frozen {
			unsup("identity comparison of shared pointers")
		}
		return False
	case *StructV:
		bs, ok := b.(*StructV)
		if !ok {
			unsup("struct comparison")
		}
		s := a.typ.Underlying().(*types.Struct)
		var cs []*Node
		for i := range a.f {
			cs = append(cs, e.equalVals(st, a.f[i], bs.f[i], s.Field(i).Type()))
		}
		return And(cs...)
	}
	unsup("comparison of %T", a)
	return nil
}

func (e *Engine) coerce(st *State, v Val, t types.Type) Val {
	if _, ok := v.(NilV); ok {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface:
			return st.zero(t)
		}
		return v
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		switch v := v.(type) {
		case IfaceV:
			return v
		case Ptr:
			return IfaceV{isnil: False, val: v}
		}
		return IfaceV{isnil: False, val: v}
	}
	return v
}

func (e *Engine) evalSlice(st *State, x *ast.SliceExpr, k EK) {
	if x.Slice3 {
		unsup("3-index slice")
	}
	e.eval(st, x.X, func(st *State, v Val) {
		if n, ok := v.(*Node); ok {
			e.evalStrSlice(st, x, n, k)
			return
		}
		s, ok := v.(SliceV)
		if !ok {
			unsup("slice of %T", v)
		}
		doHi := func(st *State, lo *Node) {
			fin := func(st *State, hi *Node, explicit bool) {
				e.curPos = x.Pos()
				if explicit {
					// hi may reach capacity; require hi <= len (stricter than Go)
					e.obligation(st, "slice bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, s.ln)))
				} else {
					e.obligation(st, "slice bounds", And(Le(Zero, lo), Le(lo, hi)))
				}
				k(st, SliceV{arr: s.arr, off: Add(s.off, lo), ln: Sub(hi, lo), nilb: s.nilb, elem: s.elem})
			}
			if x.High == nil {
				fin(st, s.ln, false)
			} else {
				e.eval(st, x.High, func(st *State, h Val) { fin(st, h.(*Node), true) })
			}
		}
		if x.Low == nil {
			doHi(st, Zero)
		} else {
			e.eval(st, x.Low, func(st *State, l Val) { doHi(st, l.(*Node)) })
		}
	})
}

func (e *Engine) evalStrSlice(st *State, x *ast.SliceExpr, s *Node, k EK) {
	get := func(st *State, y ast.Expr, d *Node, kk func(*State, *Node)) {
		if y == nil {
			kk(st, d)
			return
		}
		e.eval(st, y, func(st *State, v Val) { kk(st, v.(*Node)) })
	}
	get(st, x.Low, Zero, func(st *State, lo *Node) {
		get(st, x.High, Fn("strlen", SInt, s), func(st *State, hi *Node) {
			if ofHash(s) && isNum(hi) && hi.k.Int64() <= 16 {
				st.assume(Le(NumI(16), Fn("strlen", SInt, s)))
			}
			e.obligation(st, "string slice bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, Fn("strlen", SInt, s))))
			r := Fn("substr", SInt, s, lo, hi)
			st.assume(Imp(Lt(lo, hi), Not(Eq(r, StrLit("")))))
			k(st, r)
		})
	})
}

func (e *Engine) evalComposite(st *State, x *ast.CompositeLit, k EK) {
	t := e.typeOf(st, x)
	if p, ok := t.Underlying().(*types.Pointer); ok { // &T elided
		e.compositeOf(st, x, p.Elem(), func(st *State, v Val) {
			k(st, Ptr{loc: st.alloc(v), elem: p.Elem(), field: -1})
		})
		return
	}
	e.compositeOf(st, x, t, k)
}

func (e *Engine) compositeOf(st *State, x *ast.CompositeLit, t types.Type, k EK) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		idx := []int{}
		var exprs []ast.Expr
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						idx = append(idx, j)
					}
				}
				exprs = append(exprs, kv.Value)
			} else {
				idx = append(idx, i)
				exprs = append(exprs, el)
			}
		}
		e.evalList(st, exprs, func(st *State, vals []Val) {
			s := st.zero(t).(*StructV)
			s.typ = t
			for i, j := range idx {
				s.f[j] = e.coerce(st, vals[i], u.Field(j).Type())
			}
			k(st, s)
		})
	case *types.Slice:
		e.compSlice(st, x, u.Elem(), k)
	case *types.Array:
		e.compSlice(st, x, u.Elem(), k)
	case *types.Map:
		if len(x.Elts) != 0 {
			unsup("map literal with elements")
		}
		k(st, e.newMap(st, u))
	default:
		unsup("composite literal of %v", t)
	}
}

func (e *Engine) compSlice(st *State, x *ast.CompositeLit, elem types.Type, k EK) {
	for _, el := range x.Elts {
		if _, ok := el.(*ast.KeyValueExpr); ok {
			unsup("keyed slice literal")
		}
	}
	e.evalList(st, x.Elts, func(st *State, vals []Val) {
		for i := range vals {
			vals[i] = e.coerce(st, vals[i], elem)
		}
		n := NumI(int64(len(vals)))
		arr := st.alloc(&ArrV{elem: elem, expl: append(make([]Val, 0, len(vals)), vals...), st: stOwned, ext: n, capx: true})
		k(st, SliceV{arr: arr, off: Zero, ln: n, nilb: False, elem: elem})
	})
}
