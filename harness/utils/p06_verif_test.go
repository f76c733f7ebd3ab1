package utils

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P06(t *testing.T) {
	vh.Run(t, "P06", func(h *vh.H) {
		fs := vfields()
		h.Phase("sparse polynomial operations vs reference coefficient maps", 0.8)
		for h.More(600) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			mk := []int{4, 10, 30, 300}[h.Intn(4)]
			a, ra := vsparse(h, mk, 8, q)
			b, rb := vsparse(h, mk, 8, q)
			switch h.Intn(6) {
			case 0:
				b, rb = a, ra
			case 1: // much cancellation
				b, rb = NewAvlTree(), rscale(ra, big.NewInt(-1), q)
				for k, v := range rb {
					b.Insert(k, v)
				}
				if h.Intn(2) == 0 {
					k := uint(h.Intn(mk + 1))
					v := h.Elem(q)
					b.Insert(k, v)
					rset(rb, k, v, q)
				}
				rb = rcopy(rb)
			}
			w := h.Big(q)
			x := h.Big(q)
			h.Case(len(ra)+len(rb) > 0, "Q=%v a=%v b=%v same=%v w=%v x=%v", q, ra, rb, a == b, w, x)
			w0, x0 := new(big.Int).Set(w), new(big.Int).Set(x)
			h.Timed(vslow, "op", func() {
				same := func(op string) {
					rsparse(h, "operand a after "+op, a, ra)
					rsparse(h, "operand b after "+op, b, rb)
					h.Check(w.Cmp(w0) == 0 && x.Cmp(x0) == 0, "operand", "%s changed a scalar", op)
				}
				rsparse(h, "AddToSparse", f.AddToSparse(a, b), radd(ra, rb, 1, q))
				same("AddToSparse")
				rsparse(h, "SubToSparse", f.SubToSparse(a, b), radd(ra, rb, -1, q))
				same("SubToSparse")
				rsparse(h, "MulSparse", f.MulSparse(a, b), rmul(ra, rb, q))
				same("MulSparse")
				rsparse(h, "MulSparseScalar", f.MulSparseScalar(a, w), rscale(ra, w0, q))
				same("MulSparseScalar")
				rsparse(h, "MulSparseScalar by 0", f.MulSparseScalar(a, new(big.Int)), rpoly{})
				v := f.EvalSparsePoly(a, x)
				h.Check(v != nil && v.Cmp(reval(ra, x0, q)) == 0, "eval", "EvalSparsePoly = %v, want %v", v, reval(ra, x0, q))
				same("EvalSparsePoly")
				// scalar product and in-place combination with a vector
				vec := make([]*big.Int, mk+1)
				for i := range vec {
					vec[i] = h.Big(q)
					if h.Intn(4) == 0 {
						vec[i] = new(big.Int)
					}
				}
				vec0 := vh.CopyBs(vec)
				s := new(big.Int)
				comb := rpoly{}
				for k, c := range ra {
					s.Add(s, new(big.Int).Mul(c, vec0[k]))
					rset(comb, k, new(big.Int).Mul(c, vec0[k]), q)
				}
				g := f.SparseScalarProduct(a, vec)
				h.Check(g.Cmp(vmod(s, q)) == 0, "scalarproduct", "SparseScalarProduct with %s = %v, want %v", vh.Bs(vec0), g, vmod(s, q))
				same("SparseScalarProduct")
				c := a.Clone()
				r := f.Combine(c, vec)
				rsparse(h, "Combine", r, comb)
				h.Check(vh.EqBs(vec, vec0), "operand", "vector changed")
				same("Combine")
				// clones are independent
				d := a.Clone()
				d.Insert(uint(h.Intn(mk+1)), h.NonZero(q))
				same("changing a clone")
			})
		}
		h.Phase("list sums, weighted scalings, transposition", 0.2)
		for h.More(150) {
			f := fs[h.Intn(len(fs))]
			q := f.Q
			n, cols := h.Intn(6), 1+h.Intn(8)
			var ps []*AvlTree
			var rs []rpoly
			var w []*big.Int
			sum := rpoly{}
			desc := ""
			for i := 0; i < n; i++ {
				p, r := vsparse(h, cols-1, 6, q)
				ps, rs = append(ps, p), append(rs, r)
				sum = radd(sum, r, 1, q)
				w = append(w, h.Big(q))
				desc += r.String()
			}
			h.Case(n > 0, "Q=%v list=%s weights=%s", q, desc, vh.Bs(w))
			h.Timed(vslow, "op", func() {
				same := func(op string) {
					for i := range ps {
						rsparse(h, "operand after "+op, ps[i], rs[i])
					}
				}
				rsparse(h, "AddPolynomials", f.AddPolynomials(ps), sum)
				same("AddPolynomials")
				lc := f.LinearCombine(ps, w)
				h.Check(len(lc) == n, "length", "LinearCombine returned %d", len(lc))
				for i := range lc {
					rsparse(h, "LinearCombine", lc[i], rscale(rs[i], w[i], q))
				}
				same("LinearCombine")
				tr := TransposeSparse(ps, cols)
				h.Check(len(tr) == cols, "transpose", "%d columns, want %d", len(tr), cols)
				for x := range tr {
					want := rpoly{}
					for y := range rs {
						rset(want, uint(y), rget(rs[y], uint(x)), q)
					}
					rsparse(h, "TransposeSparse", tr[x], want)
				}
				same("TransposeSparse")
			})
		}
	})
}
