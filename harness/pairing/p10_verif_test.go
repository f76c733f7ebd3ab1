package bn256

import (
	"fmt"
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// a scalar as a logarithm: small, near the order, or any
func vLog(h *vh.H) *big.Int {
	switch h.Intn(6) {
	case 0:
		return big.NewInt(int64(h.Intn(4)))
	case 1:
		return new(big.Int).Sub(refOrder, big.NewInt(int64(1+h.Intn(3))))
	case 2:
		return big.NewInt(int64(h.Intn(1 << 16)))
	}
	return new(big.Int).Rand(h.R, refOrder)
}

// points with known logarithms, in any representation, or through the public operations
func vG1(h *vh.H, k *big.Int) *G1 {
	switch h.Intn(4) {
	case 0:
		return new(G1).ScalarBaseMult(k)
	case 1:
		g := new(G1).ScalarBaseMult(k)
		g.Marshal() // affine form
		return g
	case 2:
		g, d := vLog(h), new(G1)
		r := new(big.Int).Sub(k, g)
		r.Mod(r, refOrder)
		return d.Add(new(G1).ScalarBaseMult(g), new(G1).ScalarBaseMult(r))
	}
	return &G1{vJac1(h, eMul(refG1, k))}
}
func vG2(h *vh.H, k *big.Int) *G2 {
	switch h.Intn(4) {
	case 0:
		return new(G2).ScalarBaseMult(k)
	case 1:
		g := new(G2).ScalarBaseMult(k)
		g.Marshal()
		return g
	case 2:
		g, d := vLog(h), new(G2)
		r := new(big.Int).Sub(k, g)
		r.Mod(r, refOrder)
		return d.Add(new(G2).ScalarBaseMult(g), new(G2).ScalarBaseMult(r))
	}
	c := vJac2(h, eMul(refG2, k))
	if h.Intn(3) == 0 { // the cached square of z is no part of the value
		c.t.x.SetInt64(int64(h.Intn(3)))
		c.t.y.SetInt64(int64(h.Intn(3)))
	}
	return &G2{c}
}

func TestVerif_P10(t *testing.T) {
	vh.Run(t, "P10", func(h *vh.H) {
		g1, g2 := new(G1).ScalarBaseMult(big.NewInt(1)), new(G2).ScalarBaseMult(big.NewInt(1))
		base := tw12(Pair(g1, g2).p)
		expo := new(big.Int).Exp(P, big.NewInt(12), nil)
		expo.Sub(expo, big.NewInt(1)).Div(expo, refOrder)

		h.Phase("pairing of the generators", 0.02)
		for h.More(1) {
			h.Case(true, "generators")
			h.Check(!twEq(base, twOne()) && !twEq(base, twZero()), "generators", "the pairing of the generators is %s", twS(base))
			h.Check(twEq(twPow(base, refOrder), twOne()), "generators", "the pairing of the generators has the wrong order: %s", twS(base))
		}
		h.Phase("bilinearity", 0.38)
		for h.More(60) {
			a, b := vLog(h), vLog(h)
			p, q := vG1(h, a), vG2(h, b)
			rp, rq := raw1(p.p), raw2(q.p)
			h.Case(true, "a=%v b=%v P=%s Q=%s", a, b, rp, rq)
			got := tw12(Pair(p, q).p)
			ab := new(big.Int).Mul(a, b)
			h.Check(twEq(got, twPow(base, ab.Mod(ab, refOrder))), "bilinear", "Pair(%v*G1=%s, %v*G2=%s) is not Pair(G1,G2)^(%v)", a, rp, b, rq, ab)
			h.Check(eEq(eOf1(p.p), eMul(refG1, a)) && eEq(eOf2(q.p), eMul(refG2, b)), "operands", "Pair changed an operand, %s %s", rp, rq)
		}
		h.Phase("infinity", 0.1)
		for h.More(12) {
			a, inf := vLog(h), big.NewInt(0)
			x, y := a, inf
			if h.Intn(2) == 0 {
				x, y = inf, a
			}
			p, q := vG1(h, x), vG2(h, y)
			rp, rq := raw1(p.p), raw2(q.p)
			h.Case(true, "P=%s Q=%s", rp, rq)
			h.Check(twEq(tw12(Pair(p, q).p), twOne()), "infinity", "Pair(%s, %s) is not one", rp, rq)
		}
		h.Phase("product check", 0.35)
		for h.More(60) {
			n := h.Intn(5)
			sum := new(big.Int)
			var as []*G1
			var bs []*G2
			want, desc := "", ""
			zero := h.Intn(2) == 0
			for i := 0; i < n; i++ {
				a, b := vLog(h), vLog(h)
				if i > 0 && h.Intn(6) == 0 {
					a = big.NewInt(0)
				}
				if h.Intn(6) == 0 {
					b = big.NewInt(0)
				}
				if zero && i == n-1 { // make the sum of the products zero
					if b.Sign() == 0 {
						b = big.NewInt(int64(1 + h.Intn(50)))
					}
					a = new(big.Int).ModInverse(b, refOrder)
					a.Mul(a, new(big.Int).Neg(sum)).Mod(a, refOrder)
				}
				sum.Add(sum, new(big.Int).Mul(a, b))
				as, bs = append(as, vG1(h, a)), append(bs, vG2(h, b))
				desc += fmt.Sprintf(" (%v,%v: %s %s)", a, b, raw1(as[i].p), raw2(bs[i].p))
			}
			if i := h.Intn(4); i < n { // infinities at any position, in any representation
				if h.Intn(2) == 0 {
					as, bs = append(as, vG1(h, big.NewInt(0))), append(bs, vG2(h, vLog(h)))
				} else {
					as, bs = append(as, vG1(h, vLog(h))), append(bs, vG2(h, big.NewInt(0)))
				}
				as[i], as[n], bs[i], bs[n] = as[n], as[i], bs[n], bs[i]
				desc += fmt.Sprintf(" and a pair with infinity at %d", i)
			}
			exp := new(big.Int).Mod(sum, refOrder).Sign() == 0
			h.Case(len(as) > 0, "%d pairs%s", len(as), desc)
			got := PairingCheck(as, bs)
			prod := OneGT()
			for i := range as {
				prod.Add(prod, Pair(as[i], bs[i]))
			}
			want = fmt.Sprint(twEq(tw12(prod.p), twOne()))
			h.Check(got == exp && fmt.Sprint(got) == want, "productcheck", "PairingCheck=%v, the product of the pairings is one: %s, expected %v, for%s", got, want, exp, desc)
		}
		h.Phase("final exponentiation and lines", 0.15)
		for h.More(12) {
			x := v12(h)
			s := s12(x)
			pool, _ := vPool(h)
			h.Case(true, "x=%s", s)
			got := tw12(finalExponentiation(c12(x), pool))
			h.Check(twEq(got, twPow(tw12(x), expo)), "finalexp", "finalExponentiation(%s) is not the (p^12-1)/Order-th power", s)
			l, a, b, c := c12(x), v2(h), v2(h), v2(h)
			line := twZero()
			twSh(&line, tw2(c), 0)
			twSh(&line, tw2(b), 6)
			twSh(&line, tw2(a), 8)
			ra := s2(a) + s2(b) + s2(c)
			mulLine(l, a, b, c, pool)
			h.Check(twEq(tw12(l), twMul(tw12(x), line)), "mulline", "mulLine(%s, %s) is not the product with the line", s, ra)
		}
	})
}
