package bn256

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// pairOf gives two points in a chosen relation
func pairOf(h *vh.H, second bool) (ept, ept, int) {
	a := vPt(h, second)
	rel := h.Intn(7)
	switch rel {
	case 0:
		return a, a, rel
	case 1:
		return a, eNeg(a), rel
	case 2:
		return ept{inf: true}, a, rel
	case 3:
		return a, ept{inf: true}, rel
	}
	return a, vPt(h, second), rel
}

func TestVerif_P08(t *testing.T) {
	vh.Run(t, "P08", func(h *vh.H) {
		h.Phase("G1 point operations, aliases and representations", 0.2)
		for h.More(1200) {
			pa, pb, rel := pairOf(h, false)
			a, b, c := vJac1(h, pa), vJac1(h, pb), vJac1(h, vPt(h, false))
			al := h.Intn(5)
			switch al {
			case 1:
				c = a
			case 2:
				c = b
			case 3:
				b, pb = a, pa
			case 4:
				b, pb, c = a, pa, a
			}
			ra, rb := raw1(a), raw1(b)
			pool, poison := vPool(h)
			op := h.Intn(5)
			k := new(big.Int)
			h.Case(true, "op=%d alias=%d relation=%d a=%s b=%s", op, al, rel, ra, rb)
			var want ept
			switch op {
			case 0, 1:
				want = eAdd(pa, pb)
				c.Add(a, b, pool)
			case 2:
				want = eAdd(pa, pa)
				c.Double(a, pool)
			case 3:
				want = eNeg(pa)
				c.Negative(a)
			case 4:
				want = pa
				if al != 1 && al != 4 {
					c.Set(a)
				}
				h.Check(c.MakeAffine(pool) == c, "makeaffine-result", "MakeAffine does not return its receiver")
				if !pa.inf {
					h.Check(c.z.Cmp(big.NewInt(1)) == 0, "makeaffine-z", "z is %v after MakeAffine", c.z)
				}
			}
			poison()
			got := eOf1(c)
			h.Check(eEq(got, want), "g1-op", "got %v want %v", got, want)
			h.Check(c.IsInfinity() == want.inf, "g1-inf", "IsInfinity=%v for %v", c.IsInfinity(), want)
			if c != a {
				h.Check(raw1(a) == ra, "g1-operand", "operand a changed to %s", raw1(a))
			}
			if c != b {
				h.Check(raw1(b) == rb, "g1-operand", "operand b changed to %s", raw1(b))
			}
			_ = k
		}
		h.Phase("G2 point operations, aliases and representations", 0.3)
		for h.More(1200) {
			pa, pb, rel := pairOf(h, true)
			a, b, c := vJac2(h, pa), vJac2(h, pb), vJac2(h, vPt(h, true))
			al := h.Intn(5)
			switch al {
			case 1:
				c = a
			case 2:
				c = b
			case 3:
				b, pb = a, pa
			case 4:
				b, pb, c = a, pa, a
			}
			ra, rb := raw2(a), raw2(b)
			pool, poison := vPool(h)
			op := h.Intn(5)
			h.Case(true, "op=%d alias=%d relation=%d a=%s b=%s", op, al, rel, ra, rb)
			var want ept
			switch op {
			case 0, 1:
				want = eAdd(pa, pb)
				c.Add(a, b, pool)
			case 2:
				want = eAdd(pa, pa)
				c.Double(a, pool)
			case 3:
				want = eNeg(pa)
				c.Negative(a, pool)
			case 4:
				want = pa
				if al != 1 && al != 4 {
					c.Set(a)
				}
				h.Check(c.MakeAffine(pool) == c, "makeaffine-result", "MakeAffine does not return its receiver")
				if !pa.inf {
					h.Check(c.z.IsOne(), "makeaffine-z", "z is %v after MakeAffine", c.z)
				}
			}
			poison()
			got := eOf2(c)
			h.Check(eEq(got, want), "g2-op", "got %v want %v", got, want)
			h.Check(c.IsInfinity() == want.inf, "g2-inf", "IsInfinity=%v for %v", c.IsInfinity(), want)
			if c != a {
				h.Check(raw2(a) == ra, "g2-operand", "operand a changed to %s", raw2(a))
			}
			if c != b {
				h.Check(raw2(b) == rb, "g2-operand", "operand b changed to %s", raw2(b))
			}
		}
		h.Phase("G1/G2 API: multiples, base multiples, sums, negation", 0.3)
		for h.More(120) {
			k := vScalar(h)
			k0 := new(big.Int).Set(k)
			op := h.Intn(7)
			al := h.Intn(3) // receiver: fresh zero value, used value, operand
			if op < 4 {
				pa, pb, rel := pairOf(h, false)
				a, b, e := &G1{vJac1(h, pa)}, &G1{vJac1(h, pb)}, &G1{}
				ra, rb := raw1(a.p), raw1(b.p)
				if al == 1 {
					e.p = vJac1(h, vPt(h, false))
				} else if al == 2 {
					e = a
				}
				h.Case(true, "G1 op=%d receiver=%d relation=%d k=%v a=%s b=%s", op, al, rel, k, ra, rb)
				var want ept
				var r *G1
				switch op {
				case 0:
					want, r = eMul(pa, k), e.ScalarMult(a, k)
				case 1:
					want, r = eMul(refG1, k), e.ScalarBaseMult(k)
				case 2:
					want, r = eAdd(pa, pb), e.Add(a, b)
				case 3:
					want, r = eNeg(pa), e.Neg(a)
				}
				got := eOf1(e.p)
				h.Check(r == e, "api-result", "result is not the receiver")
				h.Check(eEq(got, want), "g1-api", "got %v want %v", got, want)
				h.Check(e == a || raw1(a.p) == ra, "g1-operand", "operand changed")
				h.Check(raw1(b.p) == rb, "g1-operand", "operand changed")
				h.Check(eEq(eOf1(curveGen), refG1), "g1-gen", "the generator changed to %v", eOf1(curveGen))
			} else {
				pa, pb, rel := pairOf(h, true)
				a, b, e := &G2{vJac2(h, pa)}, &G2{vJac2(h, pb)}, &G2{}
				ra, rb := raw2(a.p), raw2(b.p)
				if al == 1 {
					e.p = vJac2(h, vPt(h, true))
				} else if al == 2 {
					e = a
				}
				h.Case(true, "G2 op=%d receiver=%d relation=%d k=%v a=%s b=%s", op, al, rel, k, ra, rb)
				var want ept
				var r *G2
				switch op {
				case 4:
					want, r = eMul(pa, k), e.ScalarMult(a, k)
				case 5:
					want, r = eMul(refG2, k), e.ScalarBaseMult(k)
				case 6:
					want, r = eAdd(pa, pb), e.Add(a, b)
				}
				got := eOf2(e.p)
				h.Check(r == e, "api-result", "result is not the receiver")
				h.Check(eEq(got, want), "g2-api", "got %v want %v", got, want)
				h.Check(e == a || raw2(a.p) == ra, "g2-operand", "operand changed")
				h.Check(raw2(b.p) == rb, "g2-operand", "operand changed")
				h.Check(eEq(eOf2(twistGen), refG2), "g2-gen", "the generator changed to %v", eOf2(twistGen))
			}
			h.Check(k.Cmp(k0) == 0, "scalar-operand", "scalar changed to %v", k)
		}
		h.Phase("target group: product, inverse, power", 0.2)
		for h.More(60) {
			a, b, e := &GT{v12(h)}, &GT{v12(h)}, &GT{}
			if a.p.IsZero() {
				a.p.SetOne()
			}
			ra, rb := tw12(a.p), tw12(b.p)
			al := h.Intn(4)
			switch al {
			case 1:
				e.p = v12(h)
			case 2:
				e = a
			case 3:
				b, rb = a, ra
			}
			op := h.Intn(3)
			k := vScalar(h)
			if k.BitLen() > 60 && h.Intn(3) != 0 {
				k.SetInt64(int64(h.Intn(1000)))
			}
			k0 := new(big.Int).Set(k)
			h.Case(true, "GT op=%d receiver=%d k=%v a=%s b=%s", op, al, k, s12(a.p), s12(b.p))
			switch op {
			case 0:
				e.ScalarMult(a, k)
				h.Check(twEq(tw12(e.p), twPow(ra, k)), "gt-pow", "got %s want %s", twS(tw12(e.p)), twS(twPow(ra, k)))
			case 1:
				e.Add(a, b)
				h.Check(twEq(tw12(e.p), twMul(ra, rb)), "gt-mul", "got %s", twS(tw12(e.p)))
			case 2:
				e.Neg(a)
				h.Check(twEq(twMul(tw12(e.p), ra), twOne()), "gt-inv", "got %s", twS(tw12(e.p)))
			}
			h.Check(k.Cmp(k0) == 0, "scalar-operand", "scalar changed to %v", k)
			if e != a {
				h.Check(twEq(tw12(a.p), ra), "gt-operand", "operand a changed")
			}
			if e != b {
				h.Check(twEq(tw12(b.p), rb), "gt-operand", "operand b changed")
			}
		}
	})
}
