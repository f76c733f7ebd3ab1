package main

// The pairing tower: i^2=-1, tau^3=i+9, omega^2=tau over the numeric field prime.

import "math/big"

var (
	TI   = RingVar("I")
	TTau = RingVar("TAU")
	TOm  = RingVar("OMEGA")
)

// numeric tower prime (package bn256, variable P); nil until loaded
var towerP *big.Int
var towerPN *Node

// level of a ring atom in the tower: 1 base field, 2, 6, 12
var atomLevel = map[*Node]int{TI: 2, TTau: 6, TOm: 12}

// ring pivots: atom -> replacement (valid only in congruences modulo the tower prime)
var ringPivot = map[*Node]*Node{}

// atomHalf: imaginary parts of quadratic elements that have a ring name
var atomHalf = map[*Node]bool{}

func levelOf(n *Node) int {
	lv := 1
	for _, m := range monosOf(n) {
		for _, f := range m.fs {
			l := atomLv(f.a)
			if l > lv {
				lv = l
			}
		}
	}
	return lv
}
func atomLv(a *Node) int {
	if l, ok := atomLevel[a]; ok {
		return l
	}
	if a.op == "pow" {
		return levelOf(a.args[0])
	}
	switch a.op {
	case "imc", "rec", "md":
		return 1
	case "tc1", "tc2", "tc0":
		return 2
	case "wc1", "wc0":
		return 6
	}
	if a.ring {
		return 12
	}
	return 1
}

var ringNormMemo = map[*Node]*Node{}

// ringNorm is the canonical form of a ring element modulo the tower prime.
func ringNorm(n *Node) *Node {
	if r, ok := ringNormMemo[n]; ok {
		return r
	}
	r := ringNorm1(n)
	ringNormMemo[n] = r
	ringNormMemo[r] = r
	return r
}
func ringNorm1(n *Node) *Node {
	for iter := 0; ; iter++ {
		if iter > 50 {
			panic("ringNorm diverges")
		}
		n = fermat12(reduceCoefs(stripMd(n, towerPN), towerP))
		// pivots
		need := false
		for _, m := range monosOf(n) {
			for _, f := range m.fs {
				if ringRepl(f.a) != nil {
					need = true
				}
			}
		}
		if !need {
			break
		}
		acc := newAcc()
		for _, m := range monosOf(n) {
			var keep []Fac
			t := One
			for _, f := range m.fs {
				if r := ringRepl(f.a); r != nil {
					r = ringNorm(r)
					for i := 0; i < f.e; i++ {
						t = towerRed(mulMod(t, r, towerP))
					}
				} else {
					keep = append(keep, f)
				}
			}
			for _, x := range monosOf(t) {
				acc.add(new(big.Int).Mul(m.c, x.c), mulFacs(keep, x.fs))
			}
		}
		n = acc.node(towerP)
	}
	return towerRed(n)
}

func ringRepl(a *Node) *Node {
	if r, ok := ringPivot[a]; ok {
		return r
	}
	switch a.op {
	case "rec": // V - I*imc(V)
		return Sub(a.args[0], Mul(TI, Imc(a.args[0], towerPN)))
	case "tc0": // V - tau^2 c2 - tau c1
		v := a.args[0]
		return Sub(v, Add(Mul(Mul(TTau, TTau), Tc(2, v)), Mul(TTau, Tc(1, v))))
	case "wc0":
		v := a.args[0]
		return Sub(v, Mul(TOm, Wc(1, v)))
	}
	return nil
}

// towerRed reduces powers of the tower constants.
func towerRed(n *Node) *Node {
	need := false
	for _, m := range monosOf(n) {
		for _, f := range m.fs {
			if (f.a == TI && f.e >= 2) || (f.a == TTau && f.e >= 3) || (f.a == TOm && f.e >= 2) {
				need = true
			}
		}
	}
	if !need {
		return n
	}
	xi := []*Node{One}
	acc := newAcc()
	for _, m := range monosOf(n) {
		var keep []Fac
		var ei, et, ew int
		for _, f := range m.fs {
			switch f.a {
			case TI:
				ei = f.e
			case TTau:
				et = f.e
			case TOm:
				ew = f.e
			default:
				keep = append(keep, f)
			}
		}
		et += ew / 2
		ew = ew % 2
		k := et / 3
		et = et % 3
		for len(xi) <= k {
			l := xi[len(xi)-1]
			xi = append(xi, towerRed(mulMod(l, Add(TI, NumI(9)), towerP)))
		}
		base := xi[k]
		for _, x := range monosOf(base) {
			e := ei
			for _, f := range x.fs {
				if f.a == TI {
					e += f.e
				}
			}
			c := new(big.Int).Mul(m.c, x.c)
			if (e/2)%2 == 1 {
				c.Neg(c)
			}
			fs := keep
			if e%2 == 1 {
				fs = mulFacs(fs, []Fac{{TI, 1}})
			}
			if et > 0 {
				fs = mulFacs(fs, []Fac{{TTau, et}})
			}
			if ew > 0 {
				fs = mulFacs(fs, []Fac{{TOm, 1}})
			}
			acc.add(c, fs)
		}
	}
	return acc.node(towerP)
}

// split by power of tower constant c: returns coefficients
func splitBy(n *Node, c *Node, max int) []*Node {
	accs := make([]*pacc, max)
	for i := range accs {
		accs[i] = newAcc()
	}
	for _, m := range monosOf(n) {
		e := 0
		var keep []Fac
		for _, f := range m.fs {
			if f.a == c {
				e = f.e
			} else {
				keep = append(keep, f)
			}
		}
		accs[e].add(m.c, keep)
	}
	r := make([]*Node, max)
	for i := range r {
		r[i] = accs[i].node(towerP)
	}
	return r
}

func onlyAtoms(n *Node, maxLv int, allowed ...*Node) bool {
	for _, m := range monosOf(n) {
	fl:
		for _, f := range m.fs {
			for _, a := range allowed {
				if f.a == a {
					continue fl
				}
			}
			if atomLv(f.a) > maxLv {
				return false
			}
		}
	}
	return true
}

// Imc, Rec: coordinates of an Fp2 element V = i*imc + rec, canonical representatives in [0,p).
func Imc(v, p *Node) *Node {
	v = ringNorm(v)
	if onlyAtoms(v, 1, TI) {
		return Md(splitBy(v, TI, 2)[1], towerPN)
	}
	return mkIntAtom("imc", v)
}
func Rec(v, p *Node) *Node {
	v = ringNorm(v)
	if onlyAtoms(v, 1, TI) {
		return Md(splitBy(v, TI, 2)[0], towerPN)
	}
	return mkIntAtom("rec", v)
}
func mkIntAtom(op string, v *Node) *Node {
	n := rawApp(op, SInt, "", v, towerPN)
	n.ring = false
	return n
}

// Tc: coefficient of tau^k of a sextic element
func Tc(k int, v *Node) *Node {
	v = ringNorm(v)
	if onlyAtoms(v, 2, TTau) {
		return splitBy(v, TTau, 3)[k]
	}
	return rawApp([]string{"tc0", "tc1", "tc2"}[k], SInt, "", v)
}
func Wc(k int, v *Node) *Node {
	v = ringNorm(v)
	if onlyAtoms(v, 6, TOm) {
		return splitBy(v, TOm, 2)[k]
	}
	return rawApp([]string{"wc0", "wc1"}[k], SInt, "", v)
}

// xiPow is the ground value (i+9)^e.
func xiPow(e *big.Int) *Node {
	x, y := big.NewInt(1), big.NewInt(9)
	rx, ry := big.NewInt(0), big.NewInt(1)
	mul := func(ax, ay, bx, by *big.Int) (*big.Int, *big.Int) {
		t := new(big.Int).Mul(ax, by)
		t.Add(t, new(big.Int).Mul(ay, bx))
		t.Mod(t, towerP)
		s := new(big.Int).Mul(ay, by)
		s.Sub(s, new(big.Int).Mul(ax, bx))
		s.Mod(s, towerP)
		return t, s
	}
	for i := e.BitLen() - 1; i >= 0; i-- {
		rx, ry = mul(rx, ry, rx, ry)
		if e.Bit(i) == 1 {
			rx, ry = mul(rx, ry, x, y)
		}
	}
	return Add(Mul(Num(rx), TI), Num(ry))
}

var p12 *big.Int

// fermat12: every element of the field with p^12 elements is its own p^12-th power.
func fermat12(n *Node) *Node {
	if p12 == nil {
		if towerP == nil {
			return n
		}
		p12 = new(big.Int).Exp(towerP, big.NewInt(12), nil)
	}
	big12 := func(f Fac) bool {
		return f.a.op == "pow" && f.a.args[1].op == "num" && f.a.args[1].k.Cmp(p12) >= 0
	}
	need := false
	for _, m := range monosOf(n) {
		for _, f := range m.fs {
			if big12(f) {
				need = true
			}
		}
	}
	if !need {
		return n
	}
	q := new(big.Int).Sub(p12, bigOne)
	r := Zero
	for _, m := range monosOf(n) {
		t := Num(m.c)
		for _, f := range m.fs {
			x := f.a
			if big12(f) {
				k := new(big.Int).Mod(new(big.Int).Sub(f.a.args[1].k, bigOne), q)
				x = Pow(f.a.args[0], Num(k.Add(k, bigOne)))
			}
			for i := 0; i < f.e; i++ {
				t = Mul(t, x)
			}
		}
		r = Add(r, t)
	}
	return r
}
