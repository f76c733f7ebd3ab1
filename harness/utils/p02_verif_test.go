package utils

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P02(t *testing.T) {
	vh.Run(t, "P02", func(h *vh.H) {
		fs := vfields()
		h.Phase("dense polynomial operations vs reference coefficient arithmetic", 0.8)
		for h.More(1500) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			pf := PolynomialField{F: f}
			ml := 7
			if h.Intn(20) == 0 {
				ml = 40
			}
			a, b := vdense(h, ml, q, false), vdense(h, ml, q, false)
			if h.Intn(6) == 0 {
				b = a
			}
			a0, b0 := vh.CopyBs(a), vh.CopyBs(b)
			ra, rb := rof(a0, q), rof(b0, q)
			h.Case(len(a)+len(b) > 0, "Q=%v a=%s b=%s", q, vh.Bs(a0), vh.Bs(b0))
			same := func(op string) {
				h.Check(vh.EqBs(a, a0) && vh.EqBs(b, b0), "operand", "%s changed an operand: a=%s b=%s", op, vh.Bs(a), vh.Bs(b))
			}
			chk := func(op string, got []*big.Int, want rpoly, n int) {
				for _, x := range got {
					h.Check(x != nil && x.Sign() >= 0 && x.Cmp(q) < 0, "canonical", "%s = %s: not canonical", op, vh.Bs(got))
				}
				h.Check(req(rof(got, q), want), "value", "%s = %s, want %v", op, vh.Bs(got), want)
				h.Check(n < 0 || len(got) == n, "length", "%s has %d coefficients, want %d", op, len(got), n)
				same(op)
			}
			m := len(a)
			if len(b) > m {
				m = len(b)
			}
			chk("Add", pf.Add(a, b), radd(ra, rb, 1, q), m)
			chk("Sub", pf.Sub(a, b), radd(ra, rb, -1, q), m)
			if len(a) > 0 && len(b) > 0 {
				chk("Mul", pf.Mul(a, b), rmul(ra, rb, q), len(a)+len(b)-1)
				r := pf.Mul(a, b)
				c := pf.Mul(r, a)
				chk("Mul of product", c, rmul(rof(r, q), ra, q), -1)
				chk("Sub of product", pf.Sub(r, c), radd(rof(r, q), rof(c, q), -1, q), -1)
			}
			w := h.Big(q)
			w0 := new(big.Int).Set(w)
			chk("MulScalar", pf.MulScalar(a, w), rscale(ra, w0, q), len(a))
			h.Check(w.Cmp(w0) == 0, "operand", "MulScalar changed the scalar")
			if len(a) > 0 {
				x := h.Big(q)
				x0 := new(big.Int).Set(x)
				v := f.EvalPoly(a, x)
				h.Check(vmod(v, q).Cmp(reval(ra, x0, q)) == 0, "eval", "EvalPoly at %v = %v, want %v", x0, v, reval(ra, x0, q))
				h.Check(x.Cmp(x0) == 0, "operand", "EvalPoly changed the point")
				same("EvalPoly")
			}
		}
		h.Phase("element-wise sums, weighted scalings, transposition, vanishing polynomial", 0.2)
		for h.More(300) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			pf := PolynomialField{F: f}
			n := h.Intn(6)
			var ps [][]*big.Int
			var ps0 [][]*big.Int
			var w []*big.Int
			sum := rpoly{}
			for i := 0; i < n; i++ {
				p := vdense(h, 6, q, false)
				if len(p) == 0 {
					p = []*big.Int{h.Big(q)}
				}
				ps = append(ps, p)
				ps0 = append(ps0, vh.CopyBs(p))
				w = append(w, h.Big(q))
				sum = radd(sum, rof(p, q), 1, q)
			}
			d := 1 + h.Intn(12)
			h.Case(n > 0, "Q=%v polys=%d first=%s domain=%d", q, n, func() string {
				s := ""
				for _, p := range ps0 {
					s += vh.Bs(p)
				}
				return s
			}(), d)
			got := pf.AddPolynomials(ps)
			h.Check(req(rof(got, q), sum), "value", "AddPolynomials = %s, want %v", vh.Bs(got), sum)
			lc := pf.LinearCombine(ps, w)
			h.Check(len(lc) == n, "length", "LinearCombine returned %d polynomials", len(lc))
			for i := range lc {
				h.Check(req(rof(lc[i], q), rscale(rof(ps0[i], q), w[i], q)), "value", "LinearCombine[%d] = %s (weight %v)", i, vh.Bs(lc[i]), w[i])
				h.Check(vh.EqBs(ps[i], ps0[i]), "operand", "operand %d changed", i)
			}
			dom := pf.DomainPolynomial(d)
			want := rof([]*big.Int{big.NewInt(1)}, q)
			for i := 0; i < d; i++ {
				want = rmul(want, rof([]*big.Int{big.NewInt(int64(-i)), big.NewInt(1)}, q), q)
			}
			h.Check(req(rof(dom, q), want), "value", "DomainPolynomial(%d) = %s, want %v", d, vh.Bs(dom), want)
			// transposition
			rows, cols := 1+h.Intn(5), h.Intn(6)
			mtx := make([][]*big.Int, rows)
			for y := range mtx {
				mtx[y] = make([]*big.Int, cols)
				for x := range mtx[y] {
					mtx[y][x] = h.Big(q)
				}
			}
			tr := Transpose(mtx)
			h.Check(len(tr) == cols, "transpose", "%dx%d transposed has %d rows", rows, cols, len(tr))
			for x := range tr {
				h.Check(len(tr[x]) == rows, "transpose", "row %d of the transpose has %d entries", x, len(tr[x]))
				for y := range tr[x] {
					h.Check(tr[x][y] != nil && tr[x][y].Cmp(mtx[y][x]) == 0, "transpose", "entry %d,%d", x, y)
				}
			}
			z := make([]*big.Int, h.Intn(5))
			for i := range z {
				z[i] = new(big.Int)
				if h.Intn(8) == 0 {
					z[i] = h.Big(q)
				}
			}
			iz := true
			for _, x := range z {
				iz = iz && x.Sign() == 0
			}
			h.Check(IsZeroArray(z) == iz, "iszero", "IsZeroArray(%s)", vh.Bs(z))
			h.Check(bigZero.Sign() == 0, "shared-zero", "the shared zero became %v", bigZero)
		}
	})
}
