package utils

import (
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func TestVerif_P01(t *testing.T) {
	vh.Run(t, "P01", func(h *vh.H) {
		fs := vfields()
		h.Phase("field operations vs math/big on integers (corner and random values, aliasing)", 0.7)
		for h.More(3000) {
			f := fs[h.Intn(len(fs))]
			if h.Intn(3) == 0 {
				f = Field.ArithmeticField
			}
			q := f.Q
			a, b := h.Big(q), h.Big(q)
			switch h.Intn(6) {
			case 0:
				b = a
			case 1:
				b = new(big.Int).Neg(a)
			}
			a0, b0, q0 := new(big.Int).Set(a), new(big.Int).Set(b), new(big.Int).Set(q)
			h.Case(a.Sign() != 0, "Q=%v a=%v b=%v same=%v", q, a0, b0, a == b)
			chk := func(op string, got, want *big.Int) {
				h.Check(got != nil && got.Cmp(want) == 0, "value", "%s = %v, want %v", op, got, want)
			}
			same := func(op string) {
				h.Check(a.Cmp(a0) == 0 && b.Cmp(b0) == 0 && f.Q.Cmp(q0) == 0, "operand", "%s changed an operand: a=%v b=%v Q=%v", op, a, b, f.Q)
			}
			Z := func() *big.Int { return new(big.Int) }
			chk("Add", f.Add(a, b), vmod(Z().Add(a0, b0), q))
			same("Add")
			chk("Sub", f.Sub(a, b), vmod(Z().Sub(a0, b0), q))
			same("Sub")
			chk("Neg", f.Neg(a), vmod(Z().Neg(a0), q))
			same("Neg")
			chk("Double", f.Double(a), vmod(Z().Lsh(a0, 1), q))
			same("Double")
			chk("Mul", f.Mul(a, b), vmod(Z().Mul(a0, b0), q))
			same("Mul")
			chk("MulScalar", f.MulScalar(a, b), vmod(Z().Mul(a0, b0), q))
			same("MulScalar")
			chk("Square", f.Square(a), vmod(Z().Mul(a0, a0), q))
			same("Square")
			chk("Copy", f.Copy(a), vmod(a0, q))
			same("Copy")
			// results are fresh objects
			r := f.Add(a, b)
			r.Add(r, q)
			same("writing to a result")
			r = f.Copy(a)
			r.Add(r, q)
			same("writing to a copy")
			chk("Affine", f.Affine(a), vmod(a0, q))
			same("Affine")
			h.Check(f.IsZero(a) == (a0.Sign() == 0), "iszero", "IsZero = %v", f.IsZero(a))
			h.Check(f.Equal(a, b) == (vmod(Z().Sub(a0, b0), q).Sign() == 0), "equal", "Equal = %v", f.Equal(a, b))
			same("Equal")
			ar := vmod(a0, q)
			h.Check(f.Equal(a, ar), "equal", "Equal(a, a mod Q) false")
			h.Check(f.Equal(a, vmod(Z().Add(ar, big.NewInt(1)), q)) == false, "equal", "Equal(a, a+1) true")
			if ar.Sign() != 0 {
				inv := f.Inverse(a)
				h.Check(inv != nil && inv.Sign() >= 0 && inv.Cmp(q) < 0 && vmod(Z().Mul(inv, a0), q).Cmp(vmod(big.NewInt(1), q)) == 0, "inverse", "Inverse = %v", inv)
				same("Inverse")
				d := f.Div(b, a)
				h.Check(d != nil && d.Sign() >= 0 && d.Cmp(q) < 0 && vmod(Z().Sub(Z().Mul(d, a0), b0), q).Sign() == 0, "div", "Div(b,a) = %v", d)
				same("Div")
			}
			chk("Inverse(0)", f.Inverse(Z()), Z())
			chk("Div(a,0)", f.Div(a, Z()), Z())
			chk("Zero", f.Zero(), Z())
			chk("One", f.One(), big.NewInt(1))
			e := Z().Abs(b0)
			if h.Intn(3) > 0 {
				e = big.NewInt(int64(h.Intn(300)))
			}
			e0 := Z().Set(e)
			chk("Exp e="+e0.String(), f.Exp(a, e), vmod(Z().Exp(vmod(a0, q), e0, q), q))
			h.Check(e.Cmp(e0) == 0, "operand", "Exp changed its exponent to %v", e)
			same("Exp")
			u := uint(h.R.Uint64() >> uint(h.Intn(64)))
			chk("ExpInt", f.ExpInt(a, u), vmod(Z().Exp(vmod(a0, q), Z().SetUint64(uint64(u)), q), q))
			same("ExpInt")
		}
		h.Phase("scalar product of random vectors vs math/big", 0.3)
		for h.More(500) {
			f := fs[h.Intn(len(fs))]
			n := h.Intn(12)
			l, r := make([]*big.Int, n), make([]*big.Int, n)
			want := new(big.Int)
			for i := range l {
				l[i], r[i] = h.Big(f.Q), h.Big(f.Q)
				if h.Intn(8) == 0 {
					r[i] = l[i]
				}
				want.Add(want, new(big.Int).Mul(l[i], r[i]))
			}
			want.Mod(want, f.Q)
			l0, r0 := vh.CopyBs(l), vh.CopyBs(r)
			h.Case(n > 0, "ScalarProduct Q=%v l=%s r=%s", f.Q, vh.Bs(l), vh.Bs(r))
			g := f.ScalarProduct(l, r)
			h.Check(g != nil && g.Cmp(want) == 0, "scalarproduct", "got %v want %v", g, want)
			h.Check(vh.EqBs(l, l0) && vh.EqBs(r, r0), "operand", "vectors changed")
		}
	})
}
