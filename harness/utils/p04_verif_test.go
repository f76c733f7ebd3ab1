package utils

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P04(t *testing.T) {
	vh.Run(t, "P04", func(h *vh.H) {
		h.Phase("call histories of array and sparse interpolations on one field object", 1)
		for h.More(60) {
			fs := vfields()
			f := fs[h.Intn(len(fs))]
			q := f.Q
			pf := PolynomialField{F: f}
			lim := 12
			if q.IsInt64() && q.Int64() <= int64(lim) {
				lim = int(q.Int64()) - 1
			}
			type rec struct {
				dense []*big.Int
				d0    []*big.Int
				sp    *AvlTree
				s0    rpoly
			}
			var hist []rec
			story := ""
			for step := 0; step < 2+h.Intn(12); step++ {
				n := h.Intn(lim + 1)
				data := make([]*big.Int, n)
				for i := range data {
					data[i] = h.Elem(q)
					if h.Intn(3) == 0 {
						data[i] = new(big.Int)
					}
				}
				data0 := vh.CopyBs(data)
				if h.Intn(2) == 0 {
					story += " D" + vh.Bs(data0)
					h.Case(n > 0, "Q=%v history:%s", q, story)
					h.Timed(vslow, "interpolate", func() {
						p := pf.LagrangeInterpolation(data)
						h.Check(len(p) <= n, "length", "%d coefficients for %d points", len(p), n)
						rp := rof(p, q)
						for i := 0; i < n; i++ {
							v := reval(rp, big.NewInt(int64(i)), q)
							h.Check(v.Cmp(data0[i]) == 0, "point", "value at %d is %v, want %v (polynomial %s)", i, v, data0[i], vh.Bs(p))
						}
						h.Check(vh.EqBs(data, data0), "operand", "data changed")
						hist = append(hist, rec{dense: p, d0: vh.CopyBs(p)})
					})
				} else {
					tr := NewAvlTree()
					for i := range data {
						tr.Insert(uint(i), data[i])
					}
					if n == 0 {
						n = 1
						data0 = []*big.Int{new(big.Int)}
					}
					want := rof(data0, q)
					story += " S" + vh.Bs(data0)
					h.Case(n > 0, "Q=%v history:%s", q, story)
					h.Timed(vslow, "interpolate", func() {
						p := f.InterpolateSparseArray(tr, n)
						rp, bad := rwalk(p)
						h.Check(bad == "", "tree", "%s", bad)
						h.Check(rdeg(rp) < n, "length", "degree %d for %d points", rdeg(rp), n)
						for i := 0; i < n; i++ {
							v := reval(rp, big.NewInt(int64(i)), q)
							h.Check(v.Cmp(rget(want, uint(i))) == 0, "point", "sparse value at %d is %v, want %v (polynomial %v)", i, v, rget(want, uint(i)), rp)
						}
						rsparse(h, "data afterwards", tr, want)
						hist = append(hist, rec{sp: p, s0: rcopy(rp)})
					})
				}
				// what callers do with results must not disturb later calls; earlier results keep their values
				for i, r := range hist {
					if r.dense != nil {
						h.Check(vh.EqBs(r.dense, r.d0), "earlier", "result of call %d changed from %s to %s", i, vh.Bs(r.d0), vh.Bs(r.dense))
					} else if r.sp != nil {
						rsparse(h, "an earlier result", r.sp, r.s0)
					}
				}
				if h.Intn(3) == 0 && len(hist) > 0 { // combine results as the provers do
					r := &hist[h.Intn(len(hist))]
					if r.dense != nil && len(r.dense) > 0 {
						pf.MulScalar(r.dense, h.Elem(q))
						pf.Add(r.dense, r.dense)
					} else if r.sp != nil {
						f.MulSparseScalar(r.sp, h.Elem(q))
						f.AddToSparse(r.sp, r.sp)
					}
				}
			}
		}
	})
}
