package main

// Trusted models of the standard library (math/big, bytes, errors, fmt, sync, ...).

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

func (e *Engine) bigOf(st *State, v Val, what string) *BigV {
	p, ok := v.(Ptr)
	if !ok {
		if _, n := v.(NilV); n {
			e.fail(st, "nil *big.Int in "+what)
			panic(abortFn{"nil big"})
		}
		unsup("big.Int operand %T", v)
	}
	if p.loc == 0 {
		e.fail(st, "nil *big.Int in "+what)
		panic(abortFn{"nil big"})
	}
	var b *BigV
	if p.field >= 0 {
		b, ok = st.get(p.loc).(*StructV).f[p.field].(*BigV)
	} else {
		b, ok = st.get(p.loc).(*BigV)
	}
	if !ok {
		unsup("big.Int object is %T", st.get(p.loc))
	}
	e.useBig(st, b, what)
	return b
}

func (e *Engine) val(st *State, v Val, what string) *Node { return e.bigOf(st, v, what).v }

func (e *Engine) setBig(st *State, recv Val, n *Node, what string) Val {
	b := e.bigOf(st, recv, what)
	p := recv.(Ptr)
	if b.st != stOwned {
		e.fail(st, "in-place update of a shared *big.Int ("+what+")")
	}
	if _, glob := e.globalHeap[p.loc]; glob {
		panic(abortFn{"mutation of a package-level value"})
	}
	st.set(p.loc, &BigV{v: n, st: stOwned})
	return recv
}

func cmpNode(a, b *Node) *Node {
	return Ite(Lt(a, b), NumI(-1), Ite(Eq(a, b), Zero, One))
}

func (e *Engine) external(st *State, f *types.Func, recv Val, args []Val, c *ast.CallExpr, k EK) {
	name := f.Name()
	path := ""
	if f.Pkg() != nil {
		path = f.Pkg().Path()
	}
	sig := f.Type().(*types.Signature)
	rn := ""
	if sig.Recv() != nil {
		rn = namedName(sig.Recv().Type())
		if isIface(sig.Recv().Type()) {
			rn = "iface"
		}
	}
	full := path + "." + name
	if rn != "" {
		full = path + "." + rn + "." + name
	}
	e.externals[full] = true
	bigT := func() types.Type {
		r := sig.Results()
		for i := 0; i < r.Len(); i++ {
			if isBigPtr(r.At(i).Type()) {
				return r.At(i).Type().Underlying().(*types.Pointer).Elem()
			}
		}
		return nil
	}
	A := func(i int) *Node { return e.val(st, args[i], name) }
	I := func(i int) *Node { return args[i].(*Node) }
	if rn == "RWMutex" && path == "sync" {
		k(st, nil)
		return
	}
	switch full {
	case "math/big.NewInt":
		k(st, st.newBig(I(0), stOwned, bigT()))
		return
	case "math/big.Int.Set":
		k(st, e.setBig(st, recv, A(0), name))
		return
	case "math/big.Int.SetInt64", "math/big.Int.SetUint64":
		k(st, e.setBig(st, recv, I(0), name))
		return
	case "math/big.Int.Add":
		k(st, e.setBig(st, recv, Add(A(0), A(1)), name))
		return
	case "math/big.Int.Sub":
		k(st, e.setBig(st, recv, Sub(A(0), A(1)), name))
		return
	case "math/big.Int.Mul":
		k(st, e.setBig(st, recv, Mul(A(0), A(1)), name))
		return
	case "math/big.Int.Neg":
		k(st, e.setBig(st, recv, Neg(A(0)), name))
		return
	case "math/big.Int.Abs":
		k(st, e.setBig(st, recv, Ite(Le(Zero, A(0)), A(0), Neg(A(0))), name))
		return
	case "math/big.Int.Lsh":
		if isNum(I(1)) {
			k(st, e.setBig(st, recv, MulB(A(0), new(big.Int).Lsh(bigOne, uint(I(1).k.Int64()))), name))
			return
		}
	case "math/big.Int.Rsh":
		e.obligation(st, "Rsh of a non-negative value", Le(Zero, A(0)))
		if I(1) == One && !isNum(A(0)) {
			h, _ := halves(st, A(0))
			k(st, e.setBig(st, recv, h, name))
			return
		}
		k(st, e.setBig(st, recv, Shr(A(0), I(1)), name))
		return
	case "math/big.Int.Mod":
		m := A(1)
		e.obligation(st, "Mod by a positive modulus", Lt(Zero, m))
		k(st, e.setBig(st, recv, Md(A(0), m), name))
		return
	case "math/big.Int.Exp":
		m := A(2)
		if m == Zero {
			unsup("Exp without modulus")
		}
		e.obligation(st, "Exp with positive modulus", Lt(Zero, m))
		e.obligation(st, "Exp with non-negative exponent", Le(Zero, A(1)))
		k(st, e.setBig(st, recv, Md(Pow(A(0), A(1)), m), name))
		return
	case "math/big.Int.ModInverse":
		g, m := A(0), A(1)
		e.needPrime(st, m)
		e.branch(st, Cong(m, g, Zero), func(st *State) {
			k(st, Ptr{loc: 0, elem: bigT(), field: -1})
		}, func(st *State) {
			r := Minv(g, m)
			st.assume(Cong(m, Mul(r, g), One))
			k(st, e.setBig(st, recv, r, name))
		})
		return
	case "math/big.Int.Cmp":
		k(st, cmpNode(e.val(st, recv, name), A(0)))
		return
	case "math/big.Int.Xor", "math/big.Int.Or", "math/big.Int.And":
		x, y := A(0), A(1)
		if x.id > y.id {
			x, y = y, x
		}
		k(st, e.setBig(st, recv, Fn("big"+name, SInt, x, y), name))
		return
	case "strconv.Itoa":
		k(st, Fn("itoa", SInt, I(0)))
		return
	case "math/big.Int.CmpAbs":
	case "math/big.Int.Sign":
		k(st, cmpNode(e.val(st, recv, name), Zero))
		return
	case "math/big.Int.BitLen":
		n := BitLen(e.val(st, recv, name))
		st.assume(Le(Zero, n))
		k(st, n)
		return
	case "math/big.Int.Bit":
		v := e.val(st, recv, name)
		i := I(0)
		e.obligation(st, "Bit of a non-negative value", Le(Zero, v))
		e.obligation(st, "Bit index non-negative", Le(Zero, i))
		b := Bit(v, i)
		if i == Zero && !isNum(v) {
			_, b = halves(st, v)
		}
		if b.op == "bit" {
			st.assume(Or(Eq(b, Zero), Eq(b, One)))
			st.assume(Eq(Shr(v, i), Add(MulI(Shr(v, Add(i, One)), 2), b)))
		}
		k(st, b)
		return
	case "math/big.Int.Int64", "math/big.Int.Uint64":
		// exact only when the value fits
		v := e.val(st, recv, name)
		hi := new(big.Int).Lsh(bigOne, 63)
		if name == "Uint64" {
			hi.Lsh(hi, 1)
			e.obligation(st, "Uint64 keeps the value", And(Le(Zero, v), Lt(v, Num(hi))))
		} else {
			e.obligation(st, "Int64 keeps the value", And(Le(Num(new(big.Int).Neg(hi)), v), Lt(v, Num(hi))))
		}
		k(st, v)
		return
	case "math/big.Int.SetString":
		s, ok := strOf[I(0)]
		if ok && isNum(I(1)) {
			n, good := new(big.Int).SetString(s, int(I(1).k.Int64()))
			if good {
				k(st, TupleV{e.setBig(st, recv, Num(n), name), True})
				return
			}
			e.setBig(st, recv, Fresh("undef", SInt), name)
			k(st, TupleV{Ptr{loc: 0, elem: bigT(), field: -1}, False})
			return
		}
		good := Fn("parses", SBool, I(0), I(1))
		e.branch(st, good, func(st *State) {
			k(st, TupleV{e.setBig(st, recv, Fn("parsed", SInt, I(0), I(1)), name), True})
		}, func(st *State) {
			e.setBig(st, recv, Fresh("undef", SInt), name)
			k(st, TupleV{Ptr{loc: 0, elem: bigT(), field: -1}, False})
		})
		return
	case "math/big.Int.SetBytes":
		s := args[0].(SliceV)
		r := e.bytesVal(st, s)
		if r.op == "fn" && r.name == "bytesval" && s.ln.op == "num" && s.ln.k.IsInt64() && s.ln.k.Int64() < 4096 {
			st.assume(And(Le(Zero, r), Lt(r, Num(new(big.Int).Lsh(bigOne, uint(8*s.ln.k.Int64()))))))
		}
		k(st, e.setBig(st, recv, r, name))
		return
	case "math/big.Int.Bytes":
		v := e.val(st, recv, name)
		// minimal big-endian representation of |v|
		av := v
		if !e.provable(st, Le(Zero, v)) {
			av = Ite(Le(Zero, v), v, Neg(v))
		}
		ln := Fn("bytelen", SInt, av)
		st.assume(Le(Zero, ln))
		if b := maxBytes(av); b >= 0 {
			st.assume(Le(ln, NumI(b)))
		}
		arr := st.alloc(&ArrV{elem: types.Typ[types.Uint8], comps: []*Node{Fn("bytesof", SArrI, av)}, st: stOwned, ext: ln, capx: false})
		k(st, SliceV{arr: arr, off: Zero, ln: ln, nilb: False, elem: types.Typ[types.Uint8]})
		return
	case "math/big.Int.Bits":
		v := e.val(st, recv, name)
		ln := Fn("wordlen", SInt, v)
		wt := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		if wordFacts != nil {
			wordFacts(st, v, ln)
		}
		arr := st.alloc(&ArrV{elem: wt, comps: []*Node{Fn("wordsof", SArrI, v)}, st: stFrozen, ext: ln})
		k(st, SliceV{arr: arr, off: Zero, ln: ln, nilb: Eq(v, Zero), elem: wt})
		return
	case "math/big.Int.IsInt64", "math/big.Int.IsUint64":
		v := e.val(st, recv, name)
		hi := new(big.Int).Lsh(bigOne, 63)
		if name == "IsUint64" {
			k(st, And(Le(Zero, v), Lt(v, Num(new(big.Int).Lsh(hi, 1)))))
		} else {
			k(st, And(Le(Num(new(big.Int).Neg(hi)), v), Lt(v, Num(hi))))
		}
		return
	case "math/big.Int.String":
		k(st, Fn("decimal", SInt, e.val(st, recv, name)))
		return
	case "math/big.Int.GCD":
		if _, n1 := args[0].(Ptr); n1 && args[0].(Ptr).loc == 0 && args[1].(Ptr).loc == 0 {
			a, b := A(2), A(3)
			g := Fn("gcd", SInt, a, b)
			st.assume(Le(Zero, g))
			st.assume(Iff(Eq(g, Zero), And(Eq(a, Zero), Eq(b, Zero))))
			qa, qb := Fresh("q", SInt), Fresh("q", SInt)
			st.assume(Eq(a, Mul(g, qa)))
			st.assume(Eq(b, Mul(g, qb)))
			st.assume(And(Dvd(g, a), Dvd(g, b)))
			k(st, e.setBig(st, recv, g, name))
			return
		}
	case "math/big.Int.Div", "math/big.Int.Quo":
		a, b := A(0), A(1)
		e.obligation(st, "division by zero", Not(Eq(b, Zero)))
		q := e.exactDiv(st, a, b, name)
		k(st, e.setBig(st, recv, q, name))
		return
	case "bytes.Equal":
		if a, ok := args[0].(MarshalV); ok {
			if b, ok := args[1].(MarshalV); ok && a.group == b.group {
				k(st, Cong(e.groupOrder(st), a.log, b.log))
				return
			}
			unsup("comparison of an encoding with other data")
		}
		a, b := args[0].(SliceV), args[1].(SliceV)
		k(st, e.bytesEqual(st, a, b))
		return
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		k(st, nil)
		return
	case "fmt.Errorf", "errors.New":
		k(st, IfaceV{isnil: False})
		return
	case "fmt.Sprintf", "fmt.Sprint":
		k(st, e.sprintf(st, args))
		return
	case "sort.Sort":
		if e.sortFactors(st, args[0]) {
			k(st, nil)
			return
		}
	case "strings.Join", "strings.Split":
	case "crypto/rand.Read":
		sl, ok := args[0].(SliceV)
		if !ok {
			break
		}
		e.assumed["crypto/rand.Read fills its argument with arbitrary bytes"] = true
		if sl.arr != 0 {
			a := *st.arrComps(sl.arr)
			if a.st != stOwned {
				e.fail(st, "rand.Read into a shared slice")
			}
			a.comps = []*Node{Fresh("randbytes", SArrI)}
			a.expl = nil
			st.set(sl.arr, &a)
		}
		e.branch(st, Fresh("randerr", SBool), func(st *State) {
			k(st, TupleV{sl.ln, IfaceV{isnil: False}})
		}, func(st *State) { k(st, TupleV{sl.ln, IfaceV{isnil: True}}) })
		return
	case "crypto/rand.Int":
		m := A(1)
		e.obligation(st, "rand.Int needs a positive bound", Lt(Zero, m))
		r := Fresh("rand", SInt)
		er := Fresh("randerr", SBool)
		e.branch(st, er, func(st *State) {
			k(st, TupleV{Ptr{loc: 0, elem: bigT(), field: -1}, IfaceV{isnil: False}})
		}, func(st *State) {
			st.assume(And(Le(Zero, r), Lt(r, m)))
			k(st, TupleV{st.newBig(r, stOwned, bigT()), IfaceV{isnil: True}})
		})
		return
	}
	if strings.HasPrefix(full, ".iface.Error") {
		k(st, Fresh("errstr", SInt))
		return
	}
	unsup("external function %s", full)
}

var wordFacts func(st *State, v, ln *Node)

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (e *Engine) provable(st *State, g *Node) bool {
	if g == True {
		return true
	}
	return refute(append(append([]*Node{}, st.pc...), Not(skolem(g))), 2000).ok
}

func (e *Engine) exactDiv(st *State, a, b *Node, name string) *Node {
	if isNum(a) && isNum(b) {
		if name == "Div" {
			return Num(new(big.Int).Div(a.k, b.k))
		}
		return Num(new(big.Int).Quo(a.k, b.k))
	}
	q := Fresh("quot", SInt)
	r := Fresh("remd", SInt)
	st.assume(Eq(a, Add(Mul(b, q), r)))
	if dv := Dvd(b, a); dv == True || e.provable(st, dv) {
		st.assume(Eq(r, Zero))
		r = Zero
		st.assume(Eq(a, Mul(b, q)))
	}
	if name == "Div" {
		st.assume(Le(Zero, r))
		st.assume(Imp(Lt(Zero, b), Lt(r, b)))
		st.assume(Imp(Lt(b, Zero), Lt(r, Neg(b))))
	} else {
		e.obligation(st, "Quo on non-negative operands", And(Le(Zero, a), Lt(Zero, b)))
		st.assume(And(Le(Zero, r), Lt(r, b)))
	}
	return q
}

func (e *Engine) needPrime(st *State, m *Node) {
	if m.op == "num" {
		if m.k.Sign() > 0 && m.k.ProbablyPrime(30) {
			e.assumed["primality of ground moduli decided by ProbablyPrime(30) (Baillie-PSW + Miller-Rabin)"] = true
			return
		}
		e.fail(st, "modulus of ModInverse is prime")
		return
	}
	e.obligation(st, "modulus of ModInverse is prime", Fn("prime", SBool, m))
}

// Minv is the inverse of g modulo m when it exists.
func Minv(g, m *Node) *Node {
	g = Md(g, m)
	if g.op == "md" {
		g = g.args[0]
	}
	if g.op == "num" && m.op == "num" {
		if r := new(big.Int).ModInverse(g.k, m.k); r != nil {
			return Num(r)
		}
	}
	return rawApp("minv", SInt, "", g, m)
}

func (e *Engine) sprintf(st *State, args []Val) Val {
	f := args[0]
	if fn, ok := f.(*Node); ok && len(args) > 1 {
		if s, ok := args[1].(SliceV); ok && s.ln.op == "num" {
			xs := []*Node{fn}
			for i := int64(0); i < s.ln.k.Int64(); i++ {
				v := st.get(s.arr).(*ArrV).expl[i]
				n, ok := v.(IfaceV)
				if !ok {
					return Fresh("sprintf", SInt)
				}
				if x, ok := n.val.(*Node); ok && x.sort == SInt {
					xs = append(xs, x)
				} else {
					return Fresh("sprintf", SInt)
				}
			}
			r := Fn("sprintf"+itoa(len(xs)), SInt, xs...)
			if f, ok := strOf[fn]; ok && len(f) > 2*strings.Count(f, "%") {
				st.assume(Not(Eq(r, StrLit("")))) // the format has literal text
			}
			return r
		}
	}
	return Fresh("sprintf", SInt)
}

// bytesVal is the big-endian value of a byte slice.
func (e *Engine) bytesVal(st *State, s SliceV) *Node {
	if s.arr == 0 || s.ln == Zero {
		return Zero
	}
	if a := st.get(s.arr).(*ArrV); a.expl != nil && s.ln.op == "num" && s.ln.k.Int64() <= 64 && s.off.op == "num" {
		r := Zero
		for i := int64(0); i < s.ln.k.Int64(); i++ {
			r = Add(MulI(r, 256), e.readElem(st, s.arr, Add(s.off, NumI(i)), s.elem).(*Node))
		}
		return r
	}
	a := st.arrComps(s.arr)
	return BytesVal(a.comps[0], s.off, s.ln)
}

// BytesVal normalises reads of ranges written by copies of whole encodings.
func BytesVal(arr, off, ln *Node) *Node {
	switch {
	case arr.op == "constarr" && arr.args[0] == Zero:
		return Zero
	case arr.op == "fn" && arr.name == "shift":
		return BytesVal(arr.args[0], Add(off, arr.args[1]), ln)
	case arr.op == "fn" && arr.name == "bytesof" && off == Zero && ln == Fn("bytelen", SInt, arr.args[0]):
		return arr.args[0]
	case arr.op == "fn" && arr.name == "overlay":
		d, o, s, n := arr.args[0], arr.args[1], arr.args[2], arr.args[3]
		end := Add(o, n)
		rend := Add(off, ln)
		// disjoint ranges
		if nonNegByBytes(Sub(o, rend)) {
			return BytesVal(d, off, ln)
		}
		if nonNegByBytes(Sub(off, end)) {
			return BytesVal(d, off, ln)
		}
		// the copy fills the tail of the range over zeroes: value of the copied bytes
		if end == rend && nonNegByBytes(Sub(o, off)) && BytesVal(d, off, ln) == Zero {
			return BytesVal(s, Zero, n)
		}
	}
	return Fn("bytesval", SInt, arr, off, ln)
}

// maxBytes: a bound on the length of the minimal encoding of v, -1 when none is evident.
func maxBytes(v *Node) int64 {
	switch v.op {
	case "num":
		return int64(v.k.BitLen()+7) / 8
	case "md", "imc", "rec":
		if m := v.args[1]; m.op == "num" && m.k.Sign() > 0 {
			return int64(new(big.Int).Sub(m.k, bigOne).BitLen()+7) / 8
		}
	}
	return -1
}

// nonNegByBytes: t >= 0 whatever the lengths of the minimal encodings in it.
func nonNegByBytes(t *Node) bool {
	low := new(big.Int)
	for _, m := range monosOf(t) {
		switch {
		case len(m.fs) == 0:
			low.Add(low, m.c)
		case len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].a.op == "fn" && m.fs[0].a.name == "bytelen":
			if m.c.Sign() > 0 {
				continue
			}
			b := maxBytes(m.fs[0].a.args[0])
			if b < 0 {
				return false
			}
			low.Add(low, new(big.Int).Mul(m.c, big.NewInt(b)))
		default:
			return false
		}
	}
	return low.Sign() >= 0
}

func init() {
	// bytes(s, off, n): the big-endian value of n bytes of s from off
	specFns["bytes"] = func(v *Env, a []ast.Expr) Val {
		s, ok := v.eval(a[0]).(SliceV)
		if !ok {
			specFail("bytes takes a byte slice")
		}
		s.off, s.ln = Add(s.off, v.node(a[1])), v.node(a[2])
		return v.e.bytesVal(v.state(), s)
	}
}

func (e *Engine) bytesEqual(st *State, a, b SliceV) *Node {
	ca, cb := e.sliceComps(st, a), e.sliceComps(st, b)
	if ca[0].op == "fn" && ca[0].name == "bytesof" && cb[0].op == "fn" && cb[0].name == "bytesof" {
		return Eq(ca[0].args[0], cb[0].args[0]) // minimal encodings are equal iff the values are
	}
	i := BoundVar("i", SInt)
	return And(Eq(a.ln, b.ln), Forall([]*Node{i}, Imp(And(Le(Zero, i), Lt(i, a.ln)), Eq(Select(ca[0], i), Select(cb[0], i)))))
}

func init() {
	wordFacts = func(st *State, v, ln *Node) {
		two64 := new(big.Int).Lsh(bigOne, 64)
		abs := Ite(Le(Zero, v), v, Neg(v))
		w0 := Select(Fn("wordsof", SArrI, v), Zero)
		st.assume(Le(Zero, ln))
		st.assume(Iff(Eq(ln, Zero), Eq(v, Zero)))
		st.assume(Iff(Le(ln, One), And(Lt(v, Num(two64)), Lt(Num(new(big.Int).Neg(two64)), v))))
		st.assume(Imp(Eq(ln, One), Eq(w0, abs)))
	}
}

// halves names v div 2 and v mod 2 of a non-negative v.
func halves(st *State, v *Node) (h, b *Node) {
	h, b = Var(fmt.Sprintf("half#%d", v.id), SInt), Var(fmt.Sprintf("low#%d", v.id), SInt)
	st.assume(Eq(v, Add(MulI(h, 2), b)))
	st.assume(Or(Eq(b, Zero), Eq(b, One)))
	st.assume(Or(Lt(v, Zero), Le(Zero, h)))
	return
}
