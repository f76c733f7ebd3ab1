package main

import (
	"fmt"
	"go/ast"
	"go/types"
)

type Val interface{}

const (
	stOwned = iota
	stFrozen
	stDead
)

type Ptr struct {
	loc   int
	elem  types.Type
	field int // -1: whole object
}
type StructV struct {
	elemOf int // the list (by location) whose elements belong to it alone and of which this is one
	frozen bool
	typ    types.Type
	f      []Val
}
type BigV struct {
	v  *Node
	st int
	ro bool // frozen because it is a read-only parameter
}
type SliceV struct {
	arr     int
	off, ln *Node
	nilb    *Node
	elem    types.Type
}
type ArrV struct {
	mapped bool // read from a map in the frame
	uniq   bool // a list of lists whose rows nobody else holds
	rowOf  int  // the list of lists (by location) this row was stored in or read from
	elem   types.Type
	comps  []*Node
	expl   []Val // explicit elements (concrete length) when comps == nil
	st     int
	ext    *Node // extent: number of elements
	capx   bool  // capacity known to equal extent
	moved  bool  // an append already consumed it
	prev   int
}
type FuncV struct {
	fi      *FuncInfo
	lit     *ast.FuncLit
	pkg     *Pkg
	caps    map[types.Object]int
	recv    Val
	bi      string
	biArgs  []Val
	frameFn *FuncInfo
}
type MapV struct {
	key, elem types.Type
	has       *Node   // Array Int Bool
	comps     []*Node // Array Int ... per component of elem
	keyCode   string
	size      *Node
}
type IfaceV struct {
	isnil *Node
	val   Val
}
type ChanV struct {
	loc int
}
type TupleV []Val
type NilV struct{}

type Frame struct {
	fi     *FuncInfo
	vars   map[types.Object]int
	sig    *types.Signature
	lit    *ast.FuncLit
	defers []func(*State, EK)
}

type State struct {
	eng        *Engine
	heap       map[int]Val
	frames     []*Frame
	pc         []*Node
	pcset      map[*Node]bool
	trace      []string
	depth      int
	allocBase  int
	entry      map[int]Val // entry heap (pre-existing locations)
	old        *State
	ghost      map[string]*Node
	entryNames map[string]Val
	hid        []hidFact
}

func (st *State) clone() *State {
	n := &State{eng: st.eng, heap: make(map[int]Val, len(st.heap)+8), pc: st.pc[:len(st.pc):len(st.pc)], depth: st.depth, entry: st.entry, old: st.old, allocBase: st.allocBase, trace: st.trace[:len(st.trace):len(st.trace)], entryNames: st.entryNames, hid: st.hid[:len(st.hid):len(st.hid)]}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := &Frame{fi: f.fi, sig: f.sig, lit: f.lit, vars: make(map[types.Object]int, len(f.vars)), defers: f.defers}
		for k, v := range f.vars {
			nf.vars[k] = v
		}
		n.frames[i] = nf
	}
	n.ghost = map[string]*Node{}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(n *Node) {
	if n == True {
		return
	}
	if n.op == "and" {
		for _, a := range n.args {
			st.assume(a)
		}
		return
	}
	if n.op == "or" && hasForall(n) {
		// statements that mix universals and other conclusions are taken apart
		have := map[*Node]bool{}
		for _, f := range st.pc {
			have[f] = true
		}
		var as []*Node
		and := -1
		for _, a := range n.args {
			if have[Not(a)] {
				continue
			}
			if a.op == "and" {
				if and >= 0 {
					and = len(n.args)
				} else {
					and = len(as)
				}
			}
			as = append(as, a)
		}
		if and >= 0 && and < len(n.args) {
			conj := as[and].args
			for _, c := range conj {
				alt := append([]*Node{}, as...)
				alt[and] = c
				st.assume(Or(alt...))
			}
			return
		}
		if len(as) < len(n.args) {
			st.assume(Or(as...))
			return
		}
		for i, a := range as { // p or forall k. q(k): forall k. p or q(k)
			if a.op == "forall" && a.name == "1" {
				rest := append(append([]*Node{}, as[:i]...), as[i+1:]...)
				st.assume(canonForall(a.args[0], Or(append(rest, a.args[1])...)))
				return
			}
		}
	}
	for _, f := range st.pc {
		if f == n {
			return
		}
	}
	st.pc = append(st.pc, n)
}

func (st *State) alloc(v Val) int {
	st.eng.nextLoc++
	st.heap[st.eng.nextLoc] = v
	return st.eng.nextLoc
}

func (st *State) newBig(v *Node, status int, bigT types.Type) Ptr {
	return Ptr{loc: st.alloc(&BigV{v: v, st: status}), elem: bigT, field: -1}
}

func isBigInt(t types.Type) bool {
	if isAbsGroup(t) {
		return true
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
	}
	return false
}
func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}
func namedName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
func pkgOfType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name()
	}
	return ""
}
func isPool(t types.Type) bool { return namedName(t) == "bnPool" }

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---- component shapes ----

func shape(t types.Type) []Sort {
	return shapeD(t, 0)
}
func shapeD(t types.Type, d int) []Sort {
	if d > 6 {
		unsup("recursive element type %v", t)
	}
	if isBigPtr(t) {
		return []Sort{SInt, SBool}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Sort{SBool}
		}
		if u.Info()&(types.IsInteger|types.IsString) != 0 {
			return []Sort{SInt}
		}
	case *types.Struct:
		var r []Sort
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, shapeD(u.Field(i).Type(), d+1)...)
		}
		return r
	case *types.Slice:
		var r []Sort
		for _, s := range shapeD(u.Elem(), d+1) {
			r = append(r, arrOf(s))
		}
		return append(r, SInt, SBool)
	case *types.Interface:
		return []Sort{SBool}
	case *types.Pointer:
		if sp, ok := specialShape[namedName(u.Elem())]; ok {
			return sp
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return append([]Sort{SBool}, shapeD(u.Elem(), d+1)...)
		}
	}
	unsup("element type %v", t)
	return nil
}

// pointer types flattened to an abstract view
var specialShape = map[string][]Sort{}
var specialFlatten = map[string]func(st *State, v Val) []*Node{}
var specialUnflatten = map[string]func(st *State, c []*Node, t types.Type) Val{}

func (st *State) flatten(v Val, t types.Type) []*Node {
	if isBigPtr(t) {
		p, ok := v.(Ptr)
		if !ok || p.loc == 0 {
			return []*Node{Zero, True}
		}
		b := st.get(p.loc).(*BigV)
		st.eng.useBig(st, b, "store into slice")
		if b.st == stOwned {
			st.heap[p.loc] = &BigV{v: b.v, st: stFrozen}
		}
		return []*Node{b.v, False}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*Node{v.(*Node)}
	case *types.Struct:
		s := v.(*StructV)
		var r []*Node
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, st.flatten(s.f[i], u.Field(i).Type())...)
		}
		return r
	case *types.Slice:
		s, ok := v.(SliceV)
		var r []*Node
		es := shape(u.Elem())
		if !ok {
			for _, x := range es {
				r = append(r, ConstArr(defNode(x)))
			}
			return append(r, Zero, True)
		}
		if s.arr == 0 {
			for _, x := range es {
				r = append(r, ConstArr(defNode(x)))
			}
			return append(r, s.ln, s.nilb)
		}
		a := st.arrComps(s.arr)
		if a.st == stOwned {
			c := *a
			c.st = stFrozen
			st.heap[s.arr] = &c
		}
		for _, x := range a.comps {
			r = append(r, Shift(x, s.off))
		}
		return append(r, s.ln, s.nilb)
	case *types.Interface:
		switch i := v.(type) {
		case IfaceV:
			return []*Node{i.isnil}
		case NilV:
			return []*Node{True}
		}
	case *types.Pointer:
		if f, ok := specialFlatten[namedName(u.Elem())]; ok {
			return f(st, v)
		}
		p, ok := v.(Ptr)
		if !ok || p.loc == 0 {
			r := []*Node{True}
			for _, s := range shape(u.Elem()) {
				r = append(r, defNode(s))
			}
			return r
		}
		if s, ok := st.get(p.loc).(*StructV); ok && !s.frozen && isTreePtr(t) {
			c := *s
			c.frozen = true
			st.heap[p.loc] = &c
		}
		return append([]*Node{False}, st.flatten(st.get(p.loc), u.Elem())...)
	}
	unsup("flatten %T as %v", v, t)
	return nil
}

func defNode(s Sort) *Node {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return False
	}
	return ConstArr(defNode(elemSort(s)))
}

func Shift(a, off *Node) *Node {
	if off == Zero {
		return a
	}
	if a.op == "fn" && a.name == "shift" {
		return Shift(a.args[0], Add(a.args[1], off))
	}
	return Fn("shift", a.sort, a, off)
}

func (st *State) unflatten(c []*Node, t types.Type) (Val, []*Node) {
	if isBigPtr(t) {
		nilb := c[1]
		if nilb == True {
			return Ptr{loc: 0, elem: t.Underlying().(*types.Pointer).Elem(), field: -1}, c[2:]
		}
		if nilb != False {
			// reading a possibly-nil element: nil-ness must be refuted here
			st.eng.obligation(st, "non-nil element", Not(nilb))
			st.assume(Not(nilb))
		}
		return st.newBig(c[0], stFrozen, t.Underlying().(*types.Pointer).Elem()), c[2:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return c[0], c[1:]
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, c = st.unflatten(c, u.Field(i).Type())
			s.f = append(s.f, v)
		}
		return s, c
	case *types.Slice:
		n := len(shape(u.Elem()))
		ln, nb := c[n], c[n+1]
		arr := st.alloc(&ArrV{elem: u.Elem(), comps: append([]*Node{}, c[:n]...), st: stFrozen, ext: ln, capx: false})
		return SliceV{arr: arr, off: Zero, ln: ln, nilb: nb, elem: u.Elem()}, c[n+2:]
	case *types.Interface:
		return IfaceV{isnil: c[0]}, c[1:]
	case *types.Pointer:
		if f, ok := specialUnflatten[namedName(u.Elem())]; ok {
			n := len(specialShape[namedName(u.Elem())])
			return f(st, c[:n], t), c[n:]
		}
		if c[0] != False {
			st.eng.obligation(st, "non-nil element", Not(c[0]))
			st.assume(Not(c[0]))
		}
		var v Val
		v, c = st.unflatten(c[1:], u.Elem())
		if s, ok := v.(*StructV); ok && isTreePtr(t) {
			s.frozen = true
		}
		return Ptr{loc: st.alloc(v), elem: u.Elem(), field: -1}, c
	}
	unsup("unflatten %v", t)
	return nil, nil
}

// arrComps converts an explicit array to component form
func (st *State) arrComps(loc int) *ArrV {
	a := st.get(loc).(*ArrV)
	if a.expl == nil && a.comps != nil {
		return a
	}
	sh := shape(a.elem)
	comps := make([]*Node, len(sh))
	for i, s := range sh {
		comps[i] = ConstArr(defNode(s))
	}
	for i, v := range a.expl {
		fl := st.flatten(v, a.elem)
		for j := range comps {
			comps[j] = Store(comps[j], NumI(int64(i)), fl[j])
		}
	}
	c := *a
	c.comps = comps
	c.expl = nil
	st.heap[loc] = &c
	return &c
}

// zero value
func (st *State) zero(t types.Type) Val {
	if isBigInt(t) {
		return &BigV{v: Zero, st: stOwned}
	}
	if namedName(t) == "RWMutex" && pkgOfType(t) == "sync" {
		return &StructV{typ: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return StrLit("")
		}
		return Zero
	case *types.Pointer:
		if namedName(u.Elem()) == "AvlNode" {
			return emptyTree()
		}
		return Ptr{loc: 0, elem: u.Elem(), field: -1}
	case *types.Slice:
		return SliceV{arr: 0, off: Zero, ln: Zero, nilb: True, elem: u.Elem()}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.zero(u.Field(i).Type()))
		}
		return s
	case *types.Interface:
		return IfaceV{isnil: True}
	case *types.Map, *types.Chan, *types.Signature:
		return NilV{}
	}
	unsup("zero value of %v", t)
	return nil
}

var strCodes = map[string]*Node{}
var strOf = map[*Node]string{}

func StrLit(s string) *Node {
	if n, ok := strCodes[s]; ok {
		return n
	}
	n := NumI(int64(1)<<50 + int64(len(strCodes)))
	strCodes[s] = n
	strOf[n] = s
	return n
}

func hasForall(n *Node) bool {
	switch n.op {
	case "forall":
		return true
	case "or", "and":
		for _, a := range n.args {
			if hasForall(a) {
				return true
			}
		}
	}
	return false
}
