package zkSNARK

import (
	"bytes"
	"math/big"
	"testing"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// x coordinate of k*G, from the raw coordinates
func vxco(k *big.Int) *big.Int {
	x, _, z, _ := new(bn256.G1).ScalarBaseMult(new(big.Int).Mod(k, bn256.Order)).CurvePoints()
	if new(big.Int).Mod(z, bn256.P).Sign() == 0 {
		return new(big.Int)
	}
	z2 := new(big.Int).Mul(z, z)
	z2.ModInverse(z2, bn256.P)
	return new(big.Int).Mod(z2.Mul(z2, x), bn256.P)
}

var veGH *bn256.GT

func vg1(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(new(big.Int).Mod(k, bn256.Order)) }
func vg2(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(new(big.Int).Mod(k, bn256.Order)) }
func vgt(k *big.Int) *bn256.GT {
	if veGH == nil {
		veGH = bn256.Pair(vg1(big.NewInt(1)), vg2(big.NewInt(1)))
	}
	return new(bn256.GT).ScalarMult(veGH, new(big.Int).Mod(k, bn256.Order))
}

// the logarithms of a key and a proof
type vlogs struct {
	beta, gamma, delta, egh, eab, a, b, c, f *big.Int
	ic                                       []*big.Int
}

func (l *vlogs) holds(s []*big.Int) bool { return l.defect(s).Sign() == 0 }

// left minus right side of the verification equation in the exponent
func (l *vlogs) defect(s []*big.Int) *big.Int {
	m := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	d := m(l.a, new(big.Int).Add(l.b, l.beta))
	d.Add(d, m(l.egh, vxco(l.f)))
	d.Sub(d, l.eab)
	pub := new(big.Int)
	for i := range s {
		pub.Add(pub, m(l.ic[i], s[i]))
	}
	d.Sub(d, m(pub, l.gamma))
	d.Sub(d, m(l.c, l.delta))
	d.Sub(d, m(l.f, l.b))
	return d.Mod(d, bn256.Order)
}

func (l *vlogs) build() (*Pk, *Proof) {
	pk := &Pk{eGH: vgt(l.egh), eGHalphaBeta: vgt(l.eab)}
	pk.G2.Beta, pk.G2.Gamma, pk.G2.Delta = vg2(l.beta), vg2(l.gamma), vg2(l.delta)
	for _, x := range l.ic {
		pk.G1.RLEO_Gamma = append(pk.G1.RLEO_Gamma, vg1(x))
	}
	return pk, &Proof{PiA: vg1(l.a), PiB: vg2(l.b), PiC: vg1(l.c), PiF: vg1(l.f)}
}

func vdump(pk *Pk, p *Proof) [][]byte {
	r := [][]byte{pk.eGH.Marshal(), pk.eGHalphaBeta.Marshal(), pk.G2.Beta.Marshal(), pk.G2.Gamma.Marshal(), pk.G2.Delta.Marshal(), p.PiA.Marshal(), p.PiB.Marshal(), p.PiC.Marshal(), p.PiF.Marshal()}
	for _, x := range pk.G1.RLEO_Gamma {
		r = append(r, x.Marshal())
	}
	return r
}

func TestVerif_P16(t *testing.T) {
	vh.Run(t, "P16", func(h *vh.H) {
		q := bn256.Order
		el := func() *big.Int {
			switch h.Intn(8) {
			case 0:
				return big.NewInt(int64(h.Intn(3)))
			case 1:
				return new(big.Int).Sub(q, big.NewInt(int64(1+h.Intn(2))))
			}
			return h.Elem(q)
		}
		h.Phase("keys and proofs of known logarithm, honest and perturbed", 1)
		for h.More(60) {
			n := 1 + h.Intn(4)
			l := &vlogs{el(), el(), el(), el(), el(), el(), el(), el(), el(), nil}
			if h.Intn(2) == 0 {
				l.egh = big.NewInt(1)
			}
			var s []*big.Int
			for i := 0; i < n; i++ {
				l.ic = append(l.ic, el())
				x := el()
				if h.Intn(5) == 0 {
					x.Add(x, q)
				}
				s = append(s, x)
			}
			if h.Intn(3) == 0 {
				s[0] = big.NewInt(1)
			}
			// make the equation hold, where some element can be chosen so
			what := "unrelated"
			if h.Intn(5) > 0 {
				d := l.defect(s)
				switch k := h.Intn(3); {
				case k == 0 && l.delta.Sign() != 0:
					x := new(big.Int).ModInverse(l.delta, q)
					l.c = x.Mod(x.Add(x.Mul(x, d), l.c), q)
					what = "solved for C"
				case k == 1 && l.gamma.Sign() != 0 && new(big.Int).Mod(s[n-1], q).Sign() != 0:
					x := new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Mul(l.gamma, s[n-1]), q), q)
					l.ic[n-1] = x.Mod(x.Add(x.Mul(x, d), l.ic[n-1]), q)
					what = "solved for an input's key element"
				default:
					l.eab = new(big.Int).Mod(new(big.Int).Add(l.eab, d), q)
					what = "solved for alpha*beta"
				}
				if !l.holds(s) {
					panic("harness: the solved equation does not hold")
				}
			}
			pert := h.Intn(16)
			one := big.NewInt(int64(1 + h.Intn(2)))
			bump := func(p **big.Int, name string) {
				*p = new(big.Int).Mod(new(big.Int).Add(*p, one), q)
				what += ", changed " + name
			}
			switch pert {
			case 0:
				bump(&l.a, "A")
			case 1:
				bump(&l.b, "B")
			case 2:
				bump(&l.c, "C")
			case 3:
				bump(&l.f, "F")
			case 4:
				bump(&l.beta, "beta")
			case 5:
				bump(&l.gamma, "gamma")
			case 6:
				bump(&l.delta, "delta")
			case 7:
				bump(&l.egh, "e(G,H)")
			case 8, 9, 10:
				i := h.Intn(n)
				s[i] = new(big.Int).Add(s[i], one)
				what += ", changed public input"
			case 11:
				i, j := h.Intn(n), h.Intn(n)
				s[i], s[j] = s[j], s[i]
				what += ", swapped public inputs"
			case 12:
				l.a = new(big.Int).Mod(new(big.Int).Neg(l.a), q)
				what += ", negated A"
			}
			h.Case(true, "%s: beta=%v gamma=%v delta=%v eGH=%v eGHab=%v A=%v B=%v C=%v F=%v ic=%s inputs=%s", what, l.beta, l.gamma, l.delta, l.egh, l.eab, l.a, l.b, l.c, l.f, vh.Bs(l.ic), vh.Bs(s))
			pk, pr := l.build()
			before := vdump(pk, pr)
			s0 := vh.CopyBs(s)
			want := l.holds(s)
			got := VerifyProof(pk, pr, s, h.Intn(2) == 0)
			if want {
				h.Check(got, "rejects", "the verification equation holds, but the proof is rejected")
			} else {
				h.Check(!got, "accepts", "the verification equation does not hold, but the proof is accepted")
			}
			after := vdump(pk, pr)
			for i := range before {
				h.Check(len(before) == len(after) && bytes.Equal(before[i], after[i]), "changed", "verification changed element %d of the key or the proof", i)
			}
			h.Check(vh.EqBs(s, s0), "changed", "verification changed the public inputs to %s", vh.Bs(s))
			if h.Intn(4) == 0 { // wrong number of inputs
				w := append(append([]*big.Int{}, s...), el())
				if h.Intn(2) == 0 && n > 1 {
					w = s[:n-1]
				}
				h.Check(!VerifyProof(pk, pr, w, false), "length", "accepted with %d instead of %d public inputs", len(w), n)
				h.Check(VerifyProof(pk, pr, s, false) == want, "history", "a second verification of the same proof gives another answer")
			}
		}
	})
}
