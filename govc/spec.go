package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	src  string
	expr ast.Expr
	// hidden: known only to obligations that state the same definition
	hidden bool
}
type SetClause struct {
	src     string
	target  ast.Expr
	val     ast.Expr
	reduced bool
}
type LoopSpec struct {
	invs      []Clause
	decreases ast.Expr
	bindKey   bool
	general   []ast.Expr // maps treated as changed by the loop
}
type NilClause struct {
	res  int
	cond Clause
}
type Contract struct {
	key         string
	fi          *FuncInfo
	requires    []Clause
	ensures     []Clause
	yields      []Clause // assumed by callers, justified by a mathematical fact about the proved postconditions
	modifies    []Clause
	sets        []SetClause
	returns     []Clause
	fresh       bool
	freshIdx    map[int]bool
	loops       map[int]*LoopSpec
	inline      bool // only loop annotations; callers see the body
	trusted     string
	lemmas      []Clause // trusted facts about the mathematical objects, assumed by callers
	props       map[string]bool
	mayPanic    []Clause
	noalias     bool
	ringatoms   bool
	ringresult  bool
	ringatoms12 bool // elements of the top field get a name of their own, and the name of their p^6-th power
	view        bool // another reading of a contract, for the callers in one file
	noresult    bool
	aliasresult bool // the result may be one of the modified arguments; not usable by callers
	nilres      []NilClause
	nilfield    []Clause // pointer fields of modified structures that may be nil at entry and then get a new object
	file        string
	uses        []Clause
	splitArg    []string
	mapinvs     []MapInv
	logs        bool // group elements through their logarithms
	trackmaps   bool
	handles     []string // pointer types read as identities when stored in slices
	pnames      []string // names used by the specification for receiver and parameters, by position
}

func (ct *Contract) names(recv Val, args []Val) map[string]Val {
	m := ct.nameMap(recv, args)
	all := args
	if recv != nil {
		all = append([]Val{recv}, args...)
	}
	for i, n := range ct.pnames {
		if i < len(all) && n != "_" {
			m[n] = all[i]
		}
	}
	return m
}

// aliasNames maps specification names to source parameter names.
func (ct *Contract) aliasNames() map[string]string {
	r, ps := paramNames(ct.fi)
	if ct.fi.decl.Recv != nil {
		ps = append([]string{r}, ps...)
	}
	m := map[string]string{}
	for i, n := range ct.pnames {
		if i < len(ps) {
			m[n] = ps[i]
		}
	}
	return m
}

// MapInv relates every value stored in a map-typed struct field to its key, within one function.
type MapInv struct {
	field string
	cl    Clause
}
type Macro struct {
	params []string
	body   ast.Expr
}

var macros = map[string]*Macro{}

func parseSpecExpr(s string) ast.Expr {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("spec expression %q: %v", s, err))
	}
	return x
}

func (e *Engine) loadSpecs(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var cur *Contract
	var loop *LoopSpec
	pkg := ""
	var props []string
	track := false
	var handles []string
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		for strings.HasSuffix(strings.TrimSpace(ln), "\\") && i+1 < len(lines) {
			ln = strings.TrimSuffix(strings.TrimSpace(ln), "\\") + " " + strings.TrimSpace(lines[i+1])
			i++
		}
		if j := strings.Index(ln, "#"); j >= 0 {
			ln = ln[:j]
		}
		ln = strings.TrimSpace(ln)
		if ln == "" {
			continue
		}
		w, rest := ln, ""
		if j := strings.IndexAny(ln, " \t"); j >= 0 {
			w, rest = ln[:j], strings.TrimSpace(ln[j:])
		}
		cl := func() Clause { return Clause{src: rest, expr: parseSpecExpr(rest)} }
		switch w {
		case "package":
			pkg = rest
		case "handles":
			handles = strings.Fields(rest)
		case "trackmaps":
			track = true
		case "property":
			props = strings.Fields(rest)
		case "define":
			// define name(a,b) = expr
			eq := strings.Index(rest, "=")
			call := parseSpecExpr(strings.TrimSpace(rest[:eq])).(*ast.CallExpr)
			m := &Macro{body: parseSpecExpr(strings.TrimSpace(rest[eq+1:]))}
			for _, a := range call.Args {
				m.params = append(m.params, a.(*ast.Ident).Name)
			}
			if macros[call.Fun.(*ast.Ident).Name] != nil {
				panic("macro defined twice: " + call.Fun.(*ast.Ident).Name)
			}
			macros[call.Fun.(*ast.Ident).Name] = m
		case "func":
			fs := strings.Fields(rest)
			key := pkg + "." + fs[0]
			cur = &Contract{key: key, pnames: fs[1:], loops: map[int]*LoopSpec{}, props: map[string]bool{}, freshIdx: map[int]bool{}, file: path, trackmaps: track, handles: handles}
			for _, p := range props {
				cur.props[p] = true
			}
			loop = nil
			if _, dup := e.contracts[key]; dup {
				return fmt.Errorf("duplicate contract %s", key)
			}
			e.contracts[key] = cur
		case "view":
			fs := strings.Fields(rest)
			key := pkg + "." + fs[0]
			cur = &Contract{key: key, pnames: fs[1:], loops: map[int]*LoopSpec{}, props: map[string]bool{}, freshIdx: map[int]bool{}, file: path, trackmaps: track, handles: handles, view: true, trusted: "reading"}
			loop = nil
			if e.views == nil {
				e.views = map[string]*Contract{}
			}
			e.views[path+" "+key] = cur
		case "also":
			for _, p := range strings.Fields(rest) {
				cur.props[p] = true
			}
		case "requires":
			cur.requires = append(cur.requires, cl())
		case "ensures":
			cur.ensures = append(cur.ensures, cl())
		case "yields":
			cur.yields = append(cur.yields, cl())
		case "uses":
			cur.uses = append(cur.uses, cl())
		case "lemma":
			cur.lemmas = append(cur.lemmas, cl())
		case "modifies":
			for _, x := range strings.Split(rest, ",") {
				x = strings.TrimSpace(x)
				cur.modifies = append(cur.modifies, Clause{src: x, expr: parseSpecExpr(x)})
			}
		case "sets":
			red := false
			if strings.HasSuffix(rest, " reduced") {
				red = true
				rest = strings.TrimSpace(strings.TrimSuffix(rest, " reduced"))
			}
			j := strings.Index(rest, "=")
			cur.sets = append(cur.sets, SetClause{rest, parseSpecExpr(strings.TrimSpace(rest[:j])), parseSpecExpr(strings.TrimSpace(rest[j+1:])), red})
		case "returns":
			cur.returns = append(cur.returns, cl())
		case "mapinv": // mapinv FIELD : expr over key and val
			j := strings.Index(rest, ":")
			x := strings.TrimSpace(rest[j+1:])
			cur.mapinvs = append(cur.mapinvs, MapInv{strings.TrimSpace(rest[:j]), Clause{src: x, expr: parseSpecExpr(x)}})
		case "fresh":
			cur.fresh = true
		case "fresh0", "fresh1", "fresh2":
			cur.freshIdx[int(w[5]-'0')] = true
		case "nil":
			// nil N when cond
			fs := strings.SplitN(rest, " when ", 2)
			n, _ := strconv.Atoi(strings.TrimSpace(fs[0]))
			cur.nilres = append(cur.nilres, NilClause{n, Clause{src: fs[1], expr: parseSpecExpr(fs[1])}})
		case "nilfield":
			cur.nilfield = append(cur.nilfield, cl())
		case "logs":
			cur.logs = true
		case "panics":
			cur.mayPanic = append(cur.mayPanic, cl())
		case "inline":
			cur.inline = true
		case "aliasresult":
			cur.aliasresult = true
		case "noresult":
			cur.noresult = true
		case "ringatoms":
			cur.ringatoms = true
		case "ringatoms12":
			cur.ringatoms = true
			cur.ringatoms12 = true
		case "ringresult":
			cur.ringresult = true
		case "noalias":
			cur.noalias = true
		case "trusted":
			cur.trusted = rest
			if rest == "" {
				cur.trusted = "unspecified"
			}
		case "loop":
			n, err := strconv.Atoi(rest)
			if err != nil {
				return fmt.Errorf("%s:%d: bad loop", path, i+1)
			}
			loop = &LoopSpec{}
			cur.loops[n] = loop
		case "invariant":
			loop.invs = append(loop.invs, cl())
		case "hidden":
			c := cl()
			c.hidden = true
			loop.invs = append(loop.invs, c)
		case "generalise":
			loop.general = append(loop.general, parseSpecExpr(rest))
		case "decreases":
			loop.decreases = parseSpecExpr(rest)
		default:
			return fmt.Errorf("%s:%d: unknown directive %q", path, i+1, w)
		}
	}
	return nil
}

// ---- evaluation of specification expressions ----

type Env struct {
	assuming bool
	e        *Engine
	st       *State
	old      *State
	names    map[string]Val
	qv       map[string]Val
	res      []Val
	pkg      *Pkg
	loop     *loopDesc
	frame    bool
	useOld   bool
	normRing bool // inside a congruence modulo the tower prime: ring values in normal form
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (v *Env) state() *State {
	if v.useOld {
		return v.old
	}
	return v.st
}

func (v *Env) lookup(name string) Val {
	if x, ok := v.qv[name]; ok {
		return x
	}
	st := v.state()
	if name == "idx" && v.loop != nil && v.loop.idx != 0 {
		return st.get(v.loop.idx)
	}
	if v.frame && !(v.useOld && v.names[name] != nil) {
		// local variables of the function being executed, innermost declaration first
		best := 0
		for o, l := range st.top().vars {
			if o.Name() == name && l > best {
				best = l
			}
		}
		if best > 0 {
			return st.get(best)
		}
	}
	if x, ok := v.names[name]; ok {
		return x
	}
	if strings.HasPrefix(name, "result") && v.res != nil {
		i := 0
		if len(name) > 6 {
			i, _ = strconv.Atoi(name[6:])
		}
		if i < len(v.res) {
			return v.res[i]
		}
	}
	switch name {
	case "true":
		return True
	case "false":
		return False
	case "nil":
		return NilV{}
	case "I":
		return TI
	case "TAU":
		return TTau
	case "OMEGA":
		return TOm
	case "X":
		return PolyX
	}
	if v.pkg != nil {
		if o := v.pkg.tpkg.Scope().Lookup(name); o != nil {
			switch o := o.(type) {
			case *types.Var:
				return st.get(v.e.globalLoc(st, o))
			case *types.Const:
				return v.e.constVal(st, o.Val(), o.Type())
			}
		}
	}
	specFail("unknown name %s in specification", name)
	return nil
}

// PolyX is the formal variable of polynomial identities.
var PolyX = RingVar("X_formal")

func (v *Env) node(x ast.Expr) *Node {
	return v.toNode(v.eval(x))
}

func (v *Env) toNode(r Val) *Node {
	switch r := r.(type) {
	case *Node:
		return r
	case Ptr:
		if r.loc == 0 {
			return Fresh("nilval", SInt) // unspecified value behind a nil pointer
		}
		st := v.state()
		o := st.get(r.loc)
		if r.field >= 0 {
			o = o.(*StructV).f[r.field]
		}
		if b, ok := o.(*BigV); ok {
			return b.v
		}
		if s, ok := o.(*StructV); ok {
			return v.ringVal(st, s)
		}
	case *StructV:
		return v.ringVal(v.state(), r)
	case *BigV:
		return r.v
	}
	specFail("not a term: %T", r)
	return nil
}

func (v *Env) ringVal(st *State, s *StructV) *Node {
	n := ringOf(st, s)
	if v.normRing && towerPN != nil {
		n = ringNorm(n)
	}
	return n
}

func ringOf(st *State, s *StructV) *Node {
	sub := func(i int) *Node {
		switch o := s.f[i].(type) { // components of a slice element
		case *Node:
			return o
		case *StructV:
			return ringOf(st, o)
		case *BigV:
			return o.v
		}
		p := s.f[i].(Ptr)
		if p.loc == 0 {
			specFail("nil component")
		}
		switch o := st.get(p.loc).(type) {
		case *BigV:
			return o.v
		case *StructV:
			return ringOf(st, o)
		}
		specFail("bad component")
		return nil
	}
	switch namedName(s.typ) {
	case "gfP2":
		return Add(Mul(TI, sub(0)), sub(1))
	case "gfP6":
		return Add(Mul(Mul(TTau, TTau), sub(0)), Mul(TTau, sub(1)), sub(2))
	case "gfP12":
		return Add(Mul(TOm, sub(0)), sub(1))
	}
	if len(s.f) == 1 {
		return sub(0)
	}
	specFail("no ring value for %v", s.typ)
	return nil
}

func (v *Env) bool(x ast.Expr) *Node {
	n := v.node(x)
	if n.sort != SBool {
		specFail("not a formula")
	}
	return n
}

func (v *Env) with(name string, val Val) *Env {
	n := *v
	n.qv = map[string]Val{}
	for k, x := range v.qv {
		n.qv[k] = x
	}
	n.qv[name] = val
	return &n
}

func (v *Env) eval(x ast.Expr) Val {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return v.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			return Num(mustBig(x.Value))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return StrLit(s)
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return NumI(int64(s))
		}
	case *ast.Ident:
		return v.lookup(x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			// package-qualified global
			for _, p := range v.e.l.pkgs {
				if p.name == id.Name {
					if o := p.tpkg.Scope().Lookup(x.Sel.Name); o != nil {
						if _, shadow := v.names[id.Name]; !shadow {
							if c, ok := o.(*types.Const); ok {
								return v.e.constVal(v.st, c.Val(), c.Type())
							}
							return v.state().get(v.e.globalLoc(v.state(), o))
						}
					}
				}
			}
		}
		b := v.eval(x.X)
		st := v.state()
		for {
			if p, ok := b.(Ptr); ok {
				if p.loc == 0 {
					return p
				}
				o := st.get(p.loc)
				if p.field >= 0 {
					o = o.(*StructV).f[p.field]
				}
				b = o
				continue
			}
			break
		}
		s, ok := b.(*StructV)
		if !ok {
			specFail("field %s of %T", x.Sel.Name, b)
		}
		if r := structField(st, s, x.Sel.Name); r != nil {
			return r
		}
		specFail("no field %s", x.Sel.Name)
	case *ast.IndexExpr:
		b := v.eval(x.X)
		i := v.node(x.Index)
		switch s := b.(type) {
		case MapRef:
			o := v.state().get(s.loc).(*MapObj)
			if sl, ok := s.elem.Underlying().(*types.Slice); ok && len(o.comps) > 2 {
				n := len(o.comps) - 2
				r := specSlice{ln: Select(o.comps[n], i), elem: sl.Elem()}
				for _, c := range o.comps[:n] {
					r.comps = append(r.comps, Select(c, i))
				}
				return r
			}
			if len(o.comps) != 1 {
				specFail("value of a map with structured elements")
			}
			return Ite(Select(o.has, i), Select(o.comps[0], i), v.state().zero(s.elem).(*Node))
		case SliceV:
			return v.specElem(s, i)
		case specSlice:
			return v.specElem2(s, i)
		}
		specFail("index of %T", b)
	case *ast.StarExpr:
		return v.eval(x.X)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.SUB:
			return Neg(v.node(x.X))
		case token.NOT:
			return Not(v.bool(x.X))
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return And(v.bool(x.X), v.bool(x.Y))
		case token.LOR:
			return Or(v.bool(x.X), v.bool(x.Y))
		case token.EQL, token.NEQ:
			r := v.equal(x.X, x.Y)
			if x.Op == token.NEQ {
				r = Not(r)
			}
			return r
		}
		a, b := v.node(x.X), v.node(x.Y)
		switch x.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return ltN(a, b)
		case token.LEQ:
			return leN(a, b)
		case token.GTR:
			return ltN(b, a)
		case token.GEQ:
			return leN(b, a)
		}
	case *ast.CallExpr:
		return v.call(x)
	}
	specFail("unsupported specification expression %T", x)
	return nil
}

func structField(st *State, s *StructV, name string) Val {
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			f := s.f[i]
			if p, ok := f.(Ptr); ok && p.loc != 0 {
				f = st.get(p.loc)
			}
			if es, ok := f.(*StructV); ok {
				if r := structField(st, es, name); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

func (v *Env) equal(a, b ast.Expr) *Node {
	x, y := v.eval(a), v.eval(b)
	_, xn := x.(NilV)
	_, yn := y.(NilV)
	if xn {
		return v.e.isNil(v.state(), y)
	}
	if yn {
		return v.e.isNil(v.state(), x)
	}
	return eqN(v.toNode(x), v.toNode(y))
}

// specSlice is a slice nested inside another slice, seen through components.
type specSlice struct {
	comps []*Node
	ln    *Node
	elem  types.Type
}

func (v *Env) specElem(s SliceV, i *Node) Val {
	if s.arr == 0 {
		sh := shape(s.elem)
		c := make([]*Node, len(sh))
		for j, x := range sh {
			c[j] = defNode(x)
		}
		return v.viewComps(c, s.elem)
	}
	st := v.state()
	a := st.get(s.arr).(*ArrV)
	if a.expl != nil {
		j := Add(s.off, i)
		if j.op == "num" && j.k.IsInt64() && j.k.Sign() >= 0 && int(j.k.Int64()) < len(a.expl) {
			return a.expl[j.k.Int64()]
		}
		cl := st.clone()
		a = cl.arrComps(s.arr)
	}
	if a.comps == nil {
		cl := st.clone()
		a = cl.arrComps(s.arr)
	}
	c := make([]*Node, len(a.comps))
	for j, x := range a.comps {
		c[j] = Select(x, Add(s.off, i))
	}
	return v.viewComps(c, s.elem)
}
func (v *Env) specElem2(s specSlice, i *Node) Val {
	c := make([]*Node, len(s.comps))
	for j, x := range s.comps {
		c[j] = Select(x, i)
	}
	return v.viewComps(c, s.elem)
}

type specStruct struct {
	typ  types.Type
	f    []Val
	nilb *Node
}

func (v *Env) viewComps(c []*Node, t types.Type) Val {
	if isBigPtr(t) {
		return c[0]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return c[0]
	case *types.Slice:
		n := len(shape(u.Elem()))
		return specSlice{comps: c[:n], ln: c[n], elem: u.Elem()}
	case *types.Struct:
		return v.viewStruct(c, t, u)
	case *types.Pointer:
		if n := namedName(u.Elem()); n == "AvlNode" || n == "RWMutex" {
			return specialUnflatten[n](nil, c, t)
		}
		if _, ok := specialShape[namedName(u.Elem())]; ok {
			return c[0]
		}
		return v.viewStruct(c[1:], u.Elem(), u.Elem().Underlying().(*types.Struct))
	}
	specFail("element view of %v", t)
	return nil
}
func (v *Env) viewStruct(c []*Node, t types.Type, u *types.Struct) Val {
	s := &StructV{typ: t}
	for j := 0; j < u.NumFields(); j++ {
		n := len(shape(u.Field(j).Type()))
		s.f = append(s.f, v.viewComps(c[:n], u.Field(j).Type()))
		c = c[n:]
	}
	return s
}

func (v *Env) call(x *ast.CallExpr) Val {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		specFail("call in specification")
	}
	a := x.Args
	if m, ok := macros[id.Name]; ok {
		n := *v
		n.qv = map[string]Val{}
		for k, q := range v.qv {
			n.qv[k] = q
		}
		for i, p := range m.params {
			n.qv[p] = v.eval(a[i])
		}
		return n.eval(m.body)
	}
	switch id.Name {
	case "v", "ring":
		return v.node(a[0])
	case "atentry": // value when the loop was entered
		if v.loop == nil || v.loop.entry == nil {
			specFail("atentry outside a loop invariant")
		}
		n := *v
		n.st = v.loop.entry
		n.old = v.old
		return n.snapshot(n.eval(a[0]))
	case "old":
		n := *v
		n.useOld = true
		return n.snapshot(n.eval(a[0]))
	case "cong":
		m := v.node(a[0])
		if m == towerPN && m != nil {
			n := *v
			n.normRing = true
			return Cong(m, n.node(a[1]), n.node(a[2]))
		}
		return Cong(m, v.node(a[1]), v.node(a[2]))
	case "red": // red(m, x): every big integer leaf of x lies in [0,m)
		m := v.node(a[0])
		var cs []*Node
		for _, y := range a[1:] {
			for _, l := range v.leaves(v.eval(y)) {
				cs = append(cs, Le(Zero, l), Lt(l, m))
			}
		}
		return And(cs...)
	case "congleaf": // all leaves congruent pairwise mod m
		m := v.node(a[0])
		l1, l2 := v.leaves(v.eval(a[1])), v.leaves(v.eval(a[2]))
		var cs []*Node
		for i := range l1 {
			cs = append(cs, Cong(m, l1[i], l2[i]))
		}
		return And(cs...)
	case "eqleaf":
		l1, l2 := v.leaves(v.eval(a[0])), v.leaves(v.eval(a[1]))
		var cs []*Node
		for i := range l1 {
			cs = append(cs, Eq(l1[i], l2[i]))
		}
		return And(cs...)
	case "zeroleaf":
		m := v.node(a[0])
		var cs []*Node
		for _, l := range v.leaves(v.eval(a[1])) {
			cs = append(cs, Cong(m, l, Zero))
		}
		return And(cs...)
	case "zeroall":
		var cs []*Node
		for _, l := range v.leaves(v.eval(a[0])) {
			cs = append(cs, Eq(l, Zero))
		}
		return And(cs...)
	case "implies":
		g := v.bool(a[0])
		if g == False {
			return True
		}
		return Imp(g, v.bool(a[1]))
	case "iff":
		return Iff(v.bool(a[0]), v.bool(a[1]))
	case "ite":
		c := v.bool(a[0])
		if c == True {
			return v.node(a[1])
		}
		if c == False {
			return v.node(a[2])
		}
		return Ite(c, v.node(a[1]), v.node(a[2]))
	case "mod":
		return Md(v.node(a[0]), v.node(a[1]))
	case "inv":
		return Minv(v.node(a[0]), v.node(a[1]))
	case "pow":
		return Pow(v.node(a[0]), v.node(a[1]))
	case "bit":
		if n := v.node(a[0]); v.node(a[1]) == Zero && !isNum(n) && !n.bound {
			_, b := halves(v.st, n)
			return b
		}
		return Bit(v.node(a[0]), v.node(a[1]))
	case "shr":
		return Shr(v.node(a[0]), v.node(a[1]))
	case "bitlen":
		return BitLen(v.node(a[0]))
	case "prime":
		m := v.node(a[0])
		if m.op == "num" {
			v.e.assumed["primality of ground moduli decided by ProbablyPrime(30) (Baillie-PSW + Miller-Rabin)"] = true
			return BoolN(m.k.Sign() > 0 && m.k.ProbablyPrime(30))
		}
		return Fn("prime", SBool, m)
	case "len":
		switch s := v.eval(a[0]).(type) {
		case MapRef:
			return Ite(s.nilb, Zero, v.state().get(s.loc).(*MapObj).size)
		case SliceV:
			return s.ln
		case specSlice:
			return s.ln
		case *Node:
			if str, ok := strOf[s]; ok {
				return NumI(int64(len(str)))
			}
			return Fn("strlen", SInt, s)
		default:
			specFail("len of %T", s)
		}
	case "imc":
		return Imc(v.node(a[0]), towerPN)
	case "rec":
		return Rec(v.node(a[0]), towerPN)
	case "conj": // Frobenius on Fp2
		n := v.node(a[0])
		return Sub(n, MulI(Mul(TI, Imc(n, towerPN)), 2))
	case "tc":
		return Tc(int(v.node(a[0]).k.Int64()), v.node(a[1]))
	case "wc":
		return Wc(int(v.node(a[0]).k.Int64()), v.node(a[1]))
	case "xipow": // (i+9)^e as a ground constant
		return xiPow(v.node(a[0]).k)
	case "div": // exact quotient of ground numbers
		p, q := v.node(a[0]), v.node(a[1])
		if p.op != "num" || q.op != "num" {
			specFail("div of symbolic values")
		}
		d, m := newBig().DivMod(p.k, q.k, newBig())
		if m.Sign() != 0 {
			specFail("inexact division in specification")
		}
		return Num(d)
	case "forall": // forall(k, lo, hi, body)
		name := a[0].(*ast.Ident).Name
		freshN++
		bv := BoundVar(fmt.Sprintf("%s%d", name, freshN), SInt)
		lo, hi := v.node(a[1]), v.node(a[2])
		body := v.with(name, bv).bool(a[3])
		return canonForall(bv, Imp(And(Le(lo, bv), Lt(bv, hi)), body))
	case "isnil":
		if ix, ok := a[0].(*ast.IndexExpr); ok {
			switch b := v.eval(ix.X).(type) {
			case SliceV:
				if isBigPtr(b.elem) && b.arr != 0 {
					cl := v.state().clone()
					return Select(cl.arrComps(b.arr).comps[1], Add(b.off, v.node(ix.Index)))
				}
			case specSlice:
				if isBigPtr(b.elem) {
					return Select(b.comps[1], v.node(ix.Index))
				}
			}
		}
		return v.e.isNil(v.state(), v.eval(a[0]))
	case "nonnil": // nonnil(a[k]): no pointer in element k is nil
		if ix, ok := a[0].(*ast.IndexExpr); ok {
			var comps []*Node
			var i *Node
			var elem types.Type
			switch b := v.eval(ix.X).(type) {
			case SliceV:
				cl := v.state().clone()
				comps, i, elem = cl.arrComps(b.arr).comps, Add(b.off, v.node(ix.Index)), b.elem
			case specSlice:
				comps, i, elem = b.comps, v.node(ix.Index), b.elem
			}
			r := True
			for j, c := range comps {
				if isNilComp(elem, j) {
					r = And(r, Not(Select(c, i)))
				}
			}
			return r
		}
		specFail("nonnil of something that is no slice element")
	case "same": // pointer identity
		return v.e.equalVals(v.state(), v.eval(a[0]), v.eval(a[1]), nil)
	case "nonnilelems":
		s, ok := v.eval(a[0]).(SliceV)
		if !ok {
			specFail("nonnilelems")
		}
		_ = s
		return True
	}
	if h, ok := specFns[id.Name]; ok {
		return h(v, a)
	}
	specFail("unknown specification function %s", id.Name)
	return nil
}

var specFns = map[string]func(v *Env, a []ast.Expr) Val{}

// canonForall renames the bound variable canonically so that equal formulas share a node.
func canonForall(bv *Node, body *Node) *Node {
	depth := 0
	atomsOf(body, func(n *Node) {
		if n.op == "forall" {
			depth++
		}
	})
	c := BoundVar(fmt.Sprintf("q%d", depth), SInt)
	if c != bv {
		body = newSubst(map[*Node]*Node{bv: c}).apply(body)
	}
	return Forall([]*Node{c}, body)
}

// snapshot turns values of the old state into values independent of the state where possible.
func (v *Env) snapshot(r Val) Val {
	if p, ok := r.(Ptr); ok && p.loc != 0 {
		o := v.state().get(p.loc)
		if p.field >= 0 {
			o = o.(*StructV).f[p.field]
		}
		switch o := o.(type) {
		case *BigV:
			return o.v
		case *StructV:
			switch namedName(o.typ) {
			case "gfP2", "gfP6", "gfP12":
				return &StructV{typ: o.typ, f: v.snapFields(o)}
			}
			return &StructV{typ: o.typ, f: v.snapFields(o)}
		}
	}
	if m, ok := r.(MapRef); ok {
		v.e.nextLoc++
		l := v.e.nextLoc
		o := *v.state().get(m.loc).(*MapObj)
		v.st.heap[l] = &o
		if v.old != nil {
			v.old.heap[l] = &o
		}
		m.loc = l
		return m
	}
	if s, ok := r.(SliceV); ok && s.arr != 0 {
		cl := v.state().clone()
		a := cl.arrComps(s.arr)
		cs := make([]*Node, len(a.comps))
		for i, x := range a.comps {
			cs[i] = Shift(x, s.off)
		}
		return specSlice{comps: cs, ln: s.ln, elem: s.elem}
	}
	return r
}

func (v *Env) snapFields(o *StructV) []Val {
	var r []Val
	for _, f := range o.f {
		if p, ok := f.(Ptr); ok && p.loc != 0 {
			obj := v.state().get(p.loc)
			// keep a private copy of the object so that later states do not matter
			v.e.nextLoc++
			l := v.e.nextLoc
			switch oo := obj.(type) {
			case *BigV:
				v.st.heap[l] = &BigV{v: oo.v, st: stFrozen}
				if v.old != nil {
					v.old.heap[l] = v.st.heap[l]
				}
				r = append(r, Ptr{loc: l, elem: p.elem, field: -1})
				continue
			case *StructV:
				v.st.heap[l] = &StructV{typ: oo.typ, f: v.snapFields(oo), frozen: true}
				if v.old != nil {
					v.old.heap[l] = v.st.heap[l]
				}
				r = append(r, Ptr{loc: l, elem: p.elem, field: -1})
				continue
			}
		}
		if s, ok := f.(SliceV); ok && s.arr != 0 {
			r = append(r, v.snapshot(s))
			continue
		}
		r = append(r, v.snapshot(f))
	}
	return r
}

func (v *Env) leaves(r Val) []*Node {
	st := v.state()
	var out []*Node
	var rec func(r Val)
	rec = func(r Val) {
		switch x := r.(type) {
		case *Node:
			out = append(out, x)
		case *BigV:
			out = append(out, x.v)
		case Ptr:
			if x.loc == 0 {
				out = append(out, Fresh("nilval", SInt))
				return
			}
			o := st.get(x.loc)
			if x.field >= 0 {
				o = o.(*StructV).f[x.field]
			}
			rec(o)
		case *StructV:
			for _, f := range x.f {
				if p, ok := f.(Ptr); ok && p.loc == 0 {
					continue
				}
				rec(f)
			}
		default:
			specFail("leaves of %T", r)
		}
	}
	rec(r)
	return out
}

// ---- hooks used by the executor ----

func (e *Engine) loopEnv(st *State, d *loopDesc) *Env {
	v := &Env{e: e, st: st, old: st.old, names: st.entryNames, pkg: st.top().fi.pkg, loop: d, frame: true}
	return v
}

func (e *Engine) specBool(st *State, x ast.Expr, d *loopDesc) *Node { return e.loopEnv(st, d).bool(x) }
func (e *Engine) specInt(st *State, x ast.Expr, d *loopDesc) *Node  { return e.loopEnv(st, d).node(x) }

func (e *Engine) specBoolIn(st *State, c *Contract, x ast.Expr) *Node {
	v := &Env{e: e, st: st, old: st, names: st.entryNames, pkg: c.fi.pkg}
	return v.bool(x)
}

func paramNames(fi *FuncInfo) (recv string, ps []string) {
	d := fi.decl
	if d.Recv != nil && len(d.Recv.List) > 0 && len(d.Recv.List[0].Names) > 0 {
		recv = d.Recv.List[0].Names[0].Name
	}
	i := 0
	for _, f := range d.Type.Params.List {
		if len(f.Names) == 0 {
			ps = append(ps, fmt.Sprintf("_p%d", i))
			i++
		}
		for _, n := range f.Names {
			ps = append(ps, n.Name)
			i++
		}
	}
	return
}

func (ct *Contract) nameMap(recv Val, args []Val) map[string]Val {
	r, ps := paramNames(ct.fi)
	m := map[string]Val{}
	if recv != nil {
		m["recv"] = recv
		if r != "" {
			m[r] = recv
		}
	}
	for i, p := range ps {
		if i < len(args) {
			m[p] = args[i]
			m["arg"+itoa(i)] = args[i]
		}
	}
	return m
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// topName is the definition a clause states, the clause itself when it is no call.
func (c Clause) topName() string {
	if x, ok := ast.Unparen(c.expr).(*ast.CallExpr); ok {
		if id, ok := x.Fun.(*ast.Ident); ok {
			return id.Name
		}
	}
	return c.src
}

type hidFact struct {
	name string
	n    *Node
}

// reveal is st with the hidden facts about the definition that c states.
func (st *State) reveal(c Clause) *State {
	if len(st.hid) == 0 {
		return st
	}
	n := st.clone()
	for _, h := range st.hid {
		if h.name == c.topName() {
			n.assume(h.n)
		}
	}
	return n
}
