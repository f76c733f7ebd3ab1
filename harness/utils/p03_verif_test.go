package utils

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P03(t *testing.T) {
	vh.Run(t, "P03", func(h *vh.H) {
		fs := vfields()
		h.Phase("array division: a = q*b + r, r shorter than b, operands unchanged", 0.5)
		for h.More(800) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			pf := PolynomialField{F: f}
			b := append(vdense(h, 5, q, false), h.NonZero(q))
			a := vdense(h, 10, q, false)
			switch h.Intn(5) {
			case 0: // exact multiple
				if len(a) > 0 {
					a = pf.Mul(a, b)
				}
			case 1: // trailing zero coefficients
				for k := h.Intn(4); k > 0; k-- {
					a = append(a, new(big.Int))
				}
			}
			for len(a) < len(b) {
				a = append(a, h.Big(q))
			}
			a0, b0 := vh.CopyBs(a), vh.CopyBs(b)
			h.Case(true, "Q=%v a=%s b=%s", q, vh.Bs(a0), vh.Bs(b0))
			h.Timed(vslow, "div", func() {
				d, r := pf.Div(a, b)
				h.Check(len(r) < len(b), "degree", "remainder %s not shorter than the divisor", vh.Bs(r))
				lhs := rof(a0, q)
				rhs := radd(rmul(rof(d, q), rof(b0, q), q), rof(r, q), 1, q)
				h.Check(req(lhs, rhs), "recombine", "q=%s r=%s", vh.Bs(d), vh.Bs(r))
				h.Check(vh.EqBs(a, a0) && vh.EqBs(b, b0), "operand", "operand changed")
				h.Check(bigZero.Sign() == 0, "shared-zero", "the shared zero became %v", bigZero)
			})
		}
		h.Phase("sparse division: a = q*b + r, deg r < deg b or r = 0, operands unchanged", 0.5)
		for h.More(800) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			a, ra := vsparse(h, 14, 9, q)
			b, rb := vsparse(h, 6, 4, q)
			if h.Intn(4) == 0 { // constant divisor
				b = NewSparseArrayWith(0, h.NonZero(q))
				rb, _ = rwalk(b)
				rb = rcopy(rb)
			}
			if len(rb) == 0 {
				continue
			}
			if h.Intn(4) == 0 { // exact multiple
				ra = rmul(ra, rb, q)
				a = NewAvlTree()
				for k, v := range ra {
					a.Insert(k, v)
				}
				ra = rcopy(ra)
			}
			h.Case(true, "Q=%v a=%v b=%v", q, ra, rb)
			h.Timed(vslow, "div", func() {
				d, r := f.DivideSparse(a, b)
				rd, bad := rwalk(d)
				h.Check(bad == "", "tree", "quotient: %s", bad)
				rr, bad := rwalk(r)
				h.Check(bad == "", "tree", "remainder: %s", bad)
				h.Check(rdeg(rr) < rdeg(rb), "degree", "remainder %v, divisor %v", rr, rb)
				h.Check(req(ra, radd(rmul(rd, rb, q), rr, 1, q)), "recombine", "q=%v r=%v", rd, rr)
				rsparse(h, "dividend afterwards", a, ra)
				rsparse(h, "divisor afterwards", b, rb)
			})
		}
	})
}
