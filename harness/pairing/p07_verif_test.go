package bn256

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P07(t *testing.T) {
	vh.Run(t, "P07", func(h *vh.H) {
		h.Phase("gfP2 operations vs reference tower", 0.3)
		for h.More(1500) {
			a, b := v2(h), v2(h)
			e := newGFp2(nil)
			al := h.Intn(5)
			switch al {
			case 1:
				e = a
			case 2:
				e = b
			case 3:
				b = a
			case 4:
				b = a
				e = a
			}
			ra, rb := tw2(a), tw2(b)
			a0, b0 := c2(a), c2(b)
			k := h.Big(P)
			pool, poison := vPool(h)
			op := h.Intn(13)
			h.Case(true, "op=%d alias=%d a=%s b=%s k=%v pool=%v", op, al, s2(a), s2(b), k, pool != nil)
			var want tw
			red, ret := false, e
			switch op {
			case 0:
				want, ret = twLin(ra, 1, rb, 1), e.Add(a, b)
			case 1:
				want, ret = twLin(ra, 1, rb, -1), e.Sub(a, b)
			case 2:
				want, ret = twLin(ra, 2, rb, 0), e.Double(a)
			case 3:
				want, ret, red = twMul(ra, rb), e.Mul(a, b, pool), true
			case 4:
				kk := twZero()
				kk[0].Mod(k, P)
				want = twMul(ra, kk)
				ret = e.MulScalar(a, k)
			case 5:
				want, ret = twMul(ra, tw2(xiV())), e.MulXi(a, pool)
			case 6:
				want, ret, red = twMul(ra, ra), e.Square(a, pool), true
			case 7:
				if twEq(ra, twZero()) {
					continue
				}
				ret, red = e.Invert(a, pool), true
				poison()
				h.Check(twEq(twMul(tw2(e), ra), twOne()), "gfp2", "Invert gives %s", s2(e))
				want = tw2(e)
			case 8:
				kk := new(big.Int).Abs(k)
				if h.Intn(4) > 0 {
					kk.SetInt64(int64(h.Intn(40)))
				}
				want, ret = twPow(ra, kk), e.Exp(a, kk, pool)
			case 9:
				want, ret = twLin(twZero(), 0, ra, -1), e.Negative(a)
			case 10:
				want = twZero()
				want[0].Set(ra[0])
				want[1].Mod(new(big.Int).Neg(ra[1]), P)
				ret = e.Conjugate(a)
			case 11:
				want, ret = ra, e.Set(a)
			case 12:
				m := c2(a)
				m.Minimal()
				h.Check(twEq(tw2(m), ra) && m.x.Sign() >= 0 && m.y.Sign() >= 0 && m.x.Cmp(P) < 0 && m.y.Cmp(P) < 0, "gfp2", "Minimal gives %s", s2(m))
				h.Check(m.IsZero() == twEq(ra, twZero()) && m.IsOne() == twEq(ra, twOne()), "gfp2", "IsZero/IsOne %v %v", m.IsZero(), m.IsOne())
				z, o := newGFp2(nil).SetZero(), newGFp2(nil).SetOne()
				h.Check(twEq(tw2(z), twZero()) && twEq(tw2(o), twOne()) && z.IsZero() && !z.IsOne() && o.IsOne() && !o.IsZero(), "gfp2", "SetZero/SetOne")
				continue
			}
			poison()
			h.Check(ret == e, "gfp2", "result is not the receiver")
			h.Check(twEq(tw2(e), want), "gfp2", "got %s want %s", s2(e), twS(want))
			if red {
				h.Check(e.x.Sign() >= 0 && e.y.Sign() >= 0 && e.x.Cmp(P) < 0 && e.y.Cmp(P) < 0, "gfp2-reduced", "result not reduced: %s", s2(e))
			}
			if e != a {
				h.Check(s2(a) == s2(a0), "gfp2-operand", "first operand changed to %s", s2(a))
			}
			if e != b {
				h.Check(s2(b) == s2(b0), "gfp2-operand", "second operand changed to %s", s2(b))
			}
			if e != a && e != b { // no sharing with operands
				e.x.SetInt64(5)
				e.y.SetInt64(6)
				h.Check(s2(a) == s2(a0) && s2(b) == s2(b0), "gfp2-share", "result shares memory with an operand")
			}
		}
		h.Phase("gfP6 operations vs reference tower", 0.35)
		for h.More(1200) {
			a, b := v6(h), v6(h)
			e := newGFp6(nil)
			al := h.Intn(5)
			switch al {
			case 1:
				e = a
			case 2:
				e = b
			case 3:
				b = a
			case 4:
				b = a
				e = a
			}
			ra, rb := tw6(a), tw6(b)
			a0, b0 := s6(a), s6(b)
			k := h.Big(P)
			g := v2(h)
			g0 := s2(g)
			pool, poison := vPool(h)
			op := h.Intn(13)
			h.Case(true, "op=%d alias=%d a=%s b=%s k=%v g=%s pool=%v", op, al, a0, b0, k, g0, pool != nil)
			var want tw
			switch op {
			case 0:
				want = twLin(ra, 1, rb, 1)
				e.Add(a, b)
			case 1:
				want = twLin(ra, 1, rb, -1)
				e.Sub(a, b)
			case 2:
				want = twLin(ra, 2, rb, 0)
				e.Double(a)
			case 3:
				want = twMul(ra, rb)
				e.Mul(a, b, pool)
			case 4:
				want = twMul(ra, tw2(g))
				e.MulScalar(a, g, pool)
			case 5:
				kk := twZero()
				kk[0].Mod(k, P)
				want = twMul(ra, kk)
				e.MulGFP(a, k)
			case 6:
				tau := twZero()
				tau[2].SetInt64(1)
				want = twMul(ra, tau)
				e.MulTau(a, pool)
			case 7:
				want = twMul(ra, ra)
				e.Square(a, pool)
			case 8:
				if twEq(ra, twZero()) {
					continue
				}
				e.Invert(a, pool)
				poison()
				h.Check(twEq(twMul(tw6(e), ra), twOne()), "gfp6", "Invert gives %s", s6(e))
				want = tw6(e)
			case 9:
				want = twLin(twZero(), 0, ra, -1)
				e.Negative(a)
			case 10:
				if h.Intn(4) > 0 {
					continue
				}
				want = twPow(ra, P)
				e.Frobenius(a, pool)
			case 11:
				if h.Intn(4) > 0 {
					continue
				}
				want = twPow(ra, new(big.Int).Mul(P, P))
				e.FrobeniusP2(a)
			case 12:
				m := c6(a)
				h.Check(twEq(tw6(m), ra), "gfp6", "Set")
				m.Minimal()
				h.Check(twEq(tw6(m), ra), "gfp6", "Minimal gives %s", s6(m))
				h.Check(m.IsZero() == twEq(ra, twZero()) && m.IsOne() == twEq(ra, twOne()), "gfp6", "IsZero/IsOne %v %v", m.IsZero(), m.IsOne())
				z, o := newGFp6(nil).SetZero(), newGFp6(nil).SetOne()
				h.Check(twEq(tw6(z), twZero()) && twEq(tw6(o), twOne()) && z.IsZero() && !z.IsOne() && o.IsOne() && !o.IsZero(), "gfp6", "SetZero/SetOne")
				continue
			}
			poison()
			h.Check(twEq(tw6(e), want), "gfp6", "got %s want %s", s6(e), twS(want))
			if e != a {
				h.Check(s6(a) == a0, "gfp6-operand", "first operand changed to %s", s6(a))
			}
			if e != b {
				h.Check(s6(b) == b0, "gfp6-operand", "second operand changed to %s", s6(b))
			}
			h.Check(s2(g) == g0, "gfp6-operand", "scalar changed")
			if e != a && e != b {
				for _, c := range []*gfP2{e.x, e.y, e.z} {
					c.x.SetInt64(5)
					c.y.SetInt64(6)
				}
				h.Check(s6(a) == a0 && s6(b) == b0 && s2(g) == g0, "gfp6-share", "result shares memory with an operand")
			}
		}
		h.Phase("gfP12 operations vs reference tower", 0.35)
		for h.More(800) {
			a, b := v12(h), v12(h)
			e := newGFp12(nil)
			al := h.Intn(5)
			switch al {
			case 1:
				e = a
			case 2:
				e = b
			case 3:
				b = a
			case 4:
				b = a
				e = a
			}
			ra, rb := tw12(a), tw12(b)
			a0, b0 := s12(a), s12(b)
			k := h.Big(P)
			g := v6(h)
			g0 := s6(g)
			pool, poison := vPool(h)
			op := h.Intn(12)
			h.Case(true, "op=%d alias=%d a=%s b=%s k=%v g=%s pool=%v", op, al, a0, b0, k, g0, pool != nil)
			var want tw
			switch op {
			case 0:
				want = twLin(ra, 1, rb, 1)
				e.Add(a, b)
			case 1:
				want = twLin(ra, 1, rb, -1)
				e.Sub(a, b)
			case 2:
				want = twMul(ra, rb)
				e.Mul(a, b, pool)
			case 3:
				e.Set(a) // this operation scales the receiver
				want = twMul(ra, tw6(g))
				e.MulScalar(e, g, pool)
			case 4:
				want = twMul(ra, ra)
				e.Square(a, pool)
			case 5:
				if twEq(ra, twZero()) {
					continue
				}
				e.Invert(a, pool)
				poison()
				h.Check(twEq(twMul(tw12(e), ra), twOne()), "gfp12", "Invert gives %s", s12(e))
				want = tw12(e)
			case 6:
				kk := new(big.Int).Abs(k)
				if h.Intn(8) > 0 {
					kk.SetInt64(int64(h.Intn(20)))
				}
				want = twPow(ra, kk)
				e.Exp(a, kk, pool)
			case 7:
				want = twLin(twZero(), 0, ra, -1)
				e.Negative(a)
			case 8:
				want = twZero()
				for i := range want {
					want[i].Set(ra[i])
					if i >= 6 {
						want[i].Mod(new(big.Int).Neg(ra[i]), P)
					}
				}
				e.Conjugate(a)
			case 9:
				if h.Intn(6) > 0 {
					continue
				}
				want = twPow(ra, P)
				e.Frobenius(a, pool)
			case 10:
				if h.Intn(6) > 0 {
					continue
				}
				want = twPow(ra, new(big.Int).Mul(P, P))
				e.FrobeniusP2(a, pool)
			case 11:
				m := c12(a)
				h.Check(twEq(tw12(m), ra), "gfp12", "Set")
				m.Minimal()
				h.Check(twEq(tw12(m), ra), "gfp12", "Minimal gives %s", s12(m))
				h.Check(m.IsZero() == twEq(ra, twZero()) && m.IsOne() == twEq(ra, twOne()), "gfp12", "IsZero/IsOne %v %v", m.IsZero(), m.IsOne())
				z, o := newGFp12(nil), newGFp12(nil)
				z.SetZero()
				o.SetOne()
				h.Check(twEq(tw12(z), twZero()) && twEq(tw12(o), twOne()) && z.IsZero() && !z.IsOne() && o.IsOne() && !o.IsZero(), "gfp12", "SetZero/SetOne")
				continue
			}
			poison()
			h.Check(twEq(tw12(e), want), "gfp12", "got %s want %s", s12(e), twS(want))
			if e != a {
				h.Check(s12(a) == a0, "gfp12-operand", "first operand changed to %s", s12(a))
			}
			if e != b {
				h.Check(s12(b) == b0, "gfp12-operand", "second operand changed to %s", s12(b))
			}
			h.Check(s6(g) == g0, "gfp12-operand", "scalar changed")
			if e != a && e != b {
				for _, d := range []*gfP6{e.x, e.y} {
					for _, c := range []*gfP2{d.x, d.y, d.z} {
						c.x.SetInt64(5)
						c.y.SetInt64(6)
					}
				}
				h.Check(s12(a) == a0 && s12(b) == b0, "gfp12-share", "result shares memory with an operand")
			}
		}
	})
}
