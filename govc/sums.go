package main

// Finite sums and products with a symbolic number of terms.
//
// S(k, f, n) stands for f(0)+...+f(n-1), extended to every integer n by
// S(0)=0 and S(n+1)=S(n)+f(n). The extension makes every rule below an
// unconditional identity. Products are extended the same way; the rule is
// used for factors that are monic in the formal variable only.

import (
	"fmt"
	"go/ast"
)

func init() {
	atomLevel[PolyX] = 1
	specFns["sum"] = func(v *Env, a []ast.Expr) Val { return specBinder(v, a, Sum) }
	specFns["prod"] = func(v *Env, a []ast.Expr) Val { return specBinder(v, a, Prod) }
}

func specBinder(v *Env, a []ast.Expr, mk func(bv, body, hi *Node) *Node) Val {
	name := a[0].(*ast.Ident).Name
	freshN++
	bv := BoundVar(fmt.Sprintf("%s%d", name, freshN), SInt)
	lo, hi := v.node(a[1]), v.node(a[2])
	if lo != Zero {
		specFail("sums start at 0")
	}
	return mk(bv, v.with(name, bv).node(a[3]), hi)
}

func isBinder(n *Node) bool { return n.op == "sum" || n.op == "prod" }

// freeIn reports whether the bound variable occurs free in n.
func freeIn(n, bv *Node) bool {
	if !n.bound {
		return false
	}
	memo := map[*Node]bool{}
	var rec func(n *Node) bool
	rec = func(n *Node) bool {
		if n == bv {
			return true
		}
		if !n.bound {
			return false
		}
		if r, ok := memo[n]; ok {
			return r
		}
		memo[n] = false
		r := false
		if isBinder(n) {
			r = rec(n.args[2]) || (n.args[0] != bv && rec(n.args[1]))
		} else {
			for _, a := range n.args {
				if rec(a) {
					r = true
					break
				}
			}
			for _, m := range n.ms {
				for _, f := range m.fs {
					if !r && rec(f.a) {
						r = true
					}
				}
			}
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// freeBound lists the bound variables occurring free in n.
func freeBound(n *Node) []*Node {
	var out []*Node
	seen := map[*Node]bool{}
	var rec func(n *Node, ex map[*Node]bool)
	rec = func(n *Node, ex map[*Node]bool) {
		if !n.bound {
			return
		}
		if n.op == "var" {
			if !ex[n] && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
			return
		}
		if isBinder(n) {
			rec(n.args[2], ex)
			e2 := map[*Node]bool{n.args[0]: true}
			for k := range ex {
				e2[k] = true
			}
			rec(n.args[1], e2)
			return
		}
		for _, a := range n.args {
			rec(a, ex)
		}
		for _, m := range n.ms {
			for _, f := range m.fs {
				rec(f.a, ex)
			}
		}
	}
	rec(n, nil)
	return out
}

func binderDepth(n *Node) int {
	d := 0
	atomsOf(n, func(a *Node) {
		if isBinder(a) {
			var k int
			fmt.Sscanf(a.args[0].name, "σ%d", &k)
			if k+1 > d {
				d = k + 1
			}
		}
	})
	return d
}

func substBV(n, bv, to *Node) *Node {
	if bv == to || !freeIn(n, bv) {
		return n
	}
	return newSubst(map[*Node]*Node{bv: to}).apply(n)
}

// binderRebuild substitutes below a sum without capturing its variable.
func (s *Subst) binder(n *Node) *Node {
	bv, body, hi := n.args[0], n.args[1], n.args[2]
	nhi := s.apply(hi)
	tmp := BoundVar("t"+bv.name, SInt)
	b := substBV(body, bv, tmp)
	nb := s.apply(b)
	if nhi == hi && nb == b {
		return n
	}
	if n.op == "sum" {
		return Sum(tmp, nb, nhi)
	}
	return Prod(tmp, nb, nhi)
}

func mkBinder(op string, bv, body, hi *Node) *Node {
	c := BoundVar(fmt.Sprintf("σ%d", binderDepth(body)), SInt)
	body = substBV(body, bv, c)
	r := rawApp(op, SInt, "", c, body, hi)
	r.bound = hi.bound
	if !r.bound {
		for _, f := range freeBound(body) {
			if f != c {
				r.bound = true
			}
		}
	}
	return r
}

const unrollMax = 64

// Sum is S(bv, body, hi) in canonical form.
func Sum(bv, body, hi *Node) *Node {
	if body == Zero || hi == Zero {
		return Zero
	}
	if !freeIn(body, bv) {
		return Mul(body, hi)
	}
	if body.op == "ite" && body.sort == SInt {
		if !freeIn(body.args[0], bv) {
			return Ite(body.args[0], Sum(bv, body.args[1], hi), Sum(bv, body.args[2], hi))
		}
	}
	if c := constPart(hi); c.Sign() != 0 && c.CmpAbs(NumI(unrollMax).k) <= 0 {
		t := Sub(hi, Num(c))
		var parts []*Node
		if c.Sign() > 0 {
			for j := int64(0); j < c.Int64(); j++ {
				parts = append(parts, substBV(body, bv, Add(t, NumI(j))))
			}
		} else {
			for j := c.Int64(); j < 0; j++ {
				parts = append(parts, Neg(substBV(body, bv, Add(t, NumI(j)))))
			}
		}
		return Add(append(parts, Sum(bv, body, t))...)
	}
	var parts []*Node
	for _, m := range monosOf(body) {
		out := newAcc()
		out.add(m.c, nil)
		coef := out.node(nil)
		var dep []Fac
		for _, f := range m.fs {
			if !freeIn(f.a, bv) {
				for i := 0; i < f.e; i++ {
					coef = Mul(coef, f.a)
				}
				continue
			}
			if f.a.op == "pow" && !freeIn(f.a.args[0], bv) {
				b := f.a.args[0]
				d, in := Zero, Zero
				ok := true
				for _, em := range monosOf(f.a.args[1]) {
					ac := newAcc()
					ac.add(em.c, em.fs)
					t := ac.node(nil)
					if freeIn(t, bv) {
						d = Add(d, t)
					} else {
						in = Add(in, t)
						if em.c.Sign() < 0 && b != PolyX {
							ok = false
						}
					}
				}
				if ok && in != Zero {
					for i := 0; i < f.e; i++ {
						coef = Mul(coef, Pow(b, in))
					}
					p := Pow(b, d)
					if p.op == "pow" {
						dep = mulFacs(dep, []Fac{{p, f.e}})
					} else { // plain base atom
						for _, pm := range monosOf(p) {
							for i := 0; i < f.e; i++ {
								dep = mulFacs(dep, pm.fs)
							}
						}
					}
					continue
				}
			}
			dep = mulFacs(dep, []Fac{f})
		}
		ac := newAcc()
		ac.add(bigOne, dep)
		parts = append(parts, Mul(coef, sumMono(bv, ac.node(nil), hi)))
	}
	return Add(parts...)
}

// affine: index = c*bv + t with c = ±1
func affineIn(i, bv *Node) (int64, *Node, bool) {
	c, t := int64(0), Zero
	for _, m := range monosOf(i) {
		ac := newAcc()
		ac.add(m.c, m.fs)
		x := ac.node(nil)
		if !freeIn(x, bv) {
			t = Add(t, x)
			continue
		}
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].a == bv && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) && c == 0 {
			c = m.c.Int64()
			continue
		}
		return 0, nil, false
	}
	return c, t, c != 0
}

// sumMono handles one monomial body.
func sumMono(bv, body, hi *Node) *Node {
	if !freeIn(body, bv) {
		return Mul(body, hi)
	}
	// ite over the bound variable and stores below selects: split off the exceptional index
	st := storeUnder(body, bv)
	if st != nil {
		arr := st.args[0]
		c, t, _ := affineIn(st.args[1], bv)
		k0 := Sub(arr.args[1], t)
		if c < 0 {
			k0 = Sub(t, arr.args[1])
		}
		without := newSubst(map[*Node]*Node{st: Select(arr.args[0], st.args[1])}).apply(body)
		diff := Sub(substBV(body, bv, k0), substBV(without, bv, k0))
		in := And(Le(Zero, k0), Lt(k0, hi))
		neg := And(Le(hi, k0), Lt(k0, Zero))
		var corr *Node
		if neg == False {
			corr = Ite(in, diff, Zero)
		} else if in == False {
			corr = Ite(neg, Neg(diff), Zero)
		} else {
			corr = Ite(in, diff, Ite(neg, Neg(diff), Zero))
		}
		return Add(Sum(bv, without, hi), corr)
	}
	// concatenation of two arrays: piecewise
	for _, m := range monosOf(body) {
		for _, f := range m.fs {
			if f.a.op == "ite" && freeIn(f.a.args[0], bv) && f.e == 1 {
				if c, ok := prefixCond(f.a.args[0], bv); ok {
					// condition bv < c
					th := newSubst(map[*Node]*Node{f.a: f.a.args[1]}).apply(body)
					el := newSubst(map[*Node]*Node{f.a: f.a.args[2]}).apply(body)
					whole := Sum(bv, th, hi)
					parts := Add(Sum(bv, th, c), Sum(bv, el, hi), Neg(Sum(bv, el, c)))
					// 0 <= c assumed by the condition below; otherwise everything is the else part
					return Ite(Le(hi, c), Ite(Le(Zero, c), whole, mkBinder("sum", bv, body, hi)), Ite(Le(Zero, c), parts, mkBinder("sum", bv, body, hi)))
				}
			}
		}
	}
	return mkBinder("sum", bv, body, hi)
}

// prefixCond recognises bv < c, written 0 <= c-1-bv.
func prefixCond(n, bv *Node) (*Node, bool) {
	if n.op != "ge0" {
		return nil, false
	}
	c, t, ok := affineIn(n.args[0], bv)
	if !ok || c != -1 {
		return nil, false
	}
	return Add(t, One), true
}

// Prod is the product of the body over 0..hi-1; hi = t+c with c>0 splits c factors off.
func Prod(bv, body, hi *Node) *Node {
	if hi == Zero {
		return One
	}
	if c := constPart(hi); c.Sign() > 0 && c.CmpAbs(NumI(unrollMax).k) <= 0 {
		t := Sub(hi, Num(c))
		r := Prod(bv, body, t)
		for j := int64(0); j < c.Int64(); j++ {
			r = Mul(r, substBV(body, bv, Add(t, NumI(j))))
		}
		return r
	}
	return mkBinder("prod", bv, body, hi)
}

// stripSum strips reductions modulo m below a sum.
func stripSum(n, m *Node) *Node {
	b := stripMd(n.args[1], m)
	if b == n.args[1] {
		return n
	}
	if n.op == "sum" {
		return Sum(n.args[0], b, n.args[2])
	}
	return Prod(n.args[0], b, n.args[2])
}

// sumShiftFacts relates sums over shifted arrays: with f(k) = a[k+c]*x^k,
// x^c * S(f,n) = S(a[k]*x^k, n+c) - (a[0] + ... + a[c-1]*x^(c-1)).
func sumShiftFacts(s *Node) []*Node {
	if s.op != "sum" {
		return nil
	}
	bv, body, hi := s.args[0], s.args[1], s.args[2]
	ms := monosOf(body)
	if len(ms) != 1 {
		return nil
	}
	c := int64(0)
	var xs []*Node
	for _, f := range ms[0].fs {
		if f.a.op == "select" {
			k, t, ok := affineIn(f.a.args[1], bv)
			if !ok || k != 1 || t.op != "num" || !t.k.IsInt64() || t.k.Int64() < 1 || t.k.Int64() > 8 || (c != 0 && t.k.Int64() != c) {
				return nil
			}
			c = t.k.Int64()
		} else if f.a.op == "pow" && f.a.args[1] == bv && !freeIn(f.a.args[0], bv) {
			for i := 0; i < f.e; i++ {
				xs = append(xs, f.a.args[0])
			}
		} else {
			return nil
		}
	}
	if c == 0 {
		return nil
	}
	mul := One
	for _, x := range xs {
		for i := int64(0); i < c; i++ {
			mul = Mul(mul, x)
		}
	}
	// g(k) = x^c f(k-c): selects lose their offset, powers keep exponent k
	g := One
	for _, f := range ms[0].fs {
		a := f.a
		if a.op == "select" {
			a = Select(a.args[0], bv)
		}
		for i := 0; i < f.e; i++ {
			g = Mul(g, a)
		}
	}
	head := Zero
	for j := int64(0); j < c; j++ {
		head = Add(head, substBV(g, bv, NumI(j)))
	}
	return []*Node{Eq(Mul(mul, s), Sub(Sum(bv, g, Add(hi, NumI(c))), head))}
}

func withSumFacts(fs []*Node) []*Node {
	out := fs
	seen := map[*Node]bool{}
	for _, f := range fs {
		if f.op == "cong" || (f.op == "not" && f.args[0].op == "cong") {
			atomsOf(f, func(a *Node) {
				if a.op == "sum" && !a.bound && !seen[a] {
					seen[a] = true
					for _, q := range sumShiftFacts(a) {
						if q != True {
							out = append(out[:len(out):len(out)], q)
						}
					}
				}
			})
		}
	}
	return out
}

// storeUnder finds a select from a store at an index affine in bv, anywhere in the body but below
// another binder.
func storeUnder(n, bv *Node) *Node {
	seen := map[*Node]bool{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if !n.bound || seen[n] || isBinder(n) || n.op == "forall" {
			return nil
		}
		seen[n] = true
		if n.op == "select" && n.args[0].op == "store" && freeIn(n.args[1], bv) && !n.args[0].bound {
			if _, _, ok := affineIn(n.args[1], bv); ok {
				return n
			}
		}
		for _, a := range n.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		for _, m := range n.ms {
			for _, f := range m.fs {
				if r := rec(f.a); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return rec(n)
}
