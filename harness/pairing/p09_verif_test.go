package bn256

import (
	"bytes"
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func be32(vs ...*big.Int) []byte {
	var out []byte
	for _, v := range vs {
		b := make([]byte, 32)
		w := v.Bytes()
		copy(b[32-len(w):], w)
		out = append(out, b...)
	}
	return out
}

// refInvalid: coordinates that are not below P or not on the curve
func badPoint(h *vh.H, p ept, second bool) ([]byte, string) {
	cs := []*big.Int{p.x.r, p.y.r}
	if second {
		cs = []*big.Int{p.x.i, p.x.r, p.y.i, p.y.r}
	}
	if p.inf {
		for i := range cs {
			cs[i] = new(big.Int)
		}
	}
	for i := range cs {
		cs[i] = new(big.Int).Set(cs[i])
	}
	i := h.Intn(len(cs))
	switch h.Intn(5) {
	case 0: // same residue, not below the modulus
		cs[i].Add(cs[i], P)
		return be32(cs...), "coordinate not below the modulus"
	case 1:
		cs[i].Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+h.Intn(3))))
		return be32(cs...), "coordinate not below the modulus"
	case 2:
		cs[i].Set(P)
		return be32(cs...), "coordinate equal to the modulus"
	case 3:
		cs[i].Add(cs[i], big.NewInt(int64(1+h.Intn(5)))).Mod(cs[i], P)
	default:
		cs[i].Set(h.Elem(P))
	}
	var q ept
	var b f2
	if second {
		q, b = ept{x: fNew(cs[0], cs[1]), y: fNew(cs[2], cs[3])}, refB2
	} else {
		q, b = ept{x: fNew(new(big.Int), cs[0]), y: fNew(new(big.Int), cs[1])}, refB1
	}
	zero := true
	for _, c := range cs {
		zero = zero && c.Sign() == 0
	}
	if zero || fEq(fMul(q.y, q.y), fAdd(fMul(q.x, fMul(q.x, q.x)), b)) {
		return nil, ""
	}
	return be32(cs...), "not on the curve"
}

func badLen(h *vh.H, m []byte) []byte {
	switch h.Intn(6) {
	case 0:
		return nil
	case 1:
		return append(append([]byte{}, m...), byte(h.Intn(2)))
	case 2:
		return append(append([]byte{}, m...), m...)
	case 3:
		return append(append([]byte{}, m...), make([]byte, 32)...)
	case 4:
		return m[:len(m)-1]
	}
	return m[:h.Intn(len(m))]
}

func TestVerif_P09(t *testing.T) {
	vh.Run(t, "P09", func(h *vh.H) {
		h.Phase("G1 encodings", 0.3)
		for h.More(600) {
			p := vPt(h, false)
			e := &G1{vJac1(h, p)}
			h.Case(true, "G1 %s", raw1(e.p))
			want := make([]byte, 64)
			if !p.inf {
				want = be32(p.x.r, p.y.r)
			}
			m := e.Marshal()
			h.Check(bytes.Equal(m, want), "g1-encode", "encoding %x want %x", m, want)
			h.Check(eEq(eOf1(e.p), p), "g1-encode-keeps", "Marshal changed the element to %s", raw1(e.p))
			h.Check(bytes.Equal(e.Marshal(), want), "g1-encode-again", "second encoding differs")
			e2 := &G1{vJac1(h, p)}
			h.Check(bytes.Equal(e2.Marshal(), want), "g1-equal-encodings", "equal elements encode differently")
			d := new(G1)
			if h.Intn(2) == 0 {
				d.p = vJac1(h, vPt(h, false))
			}
			m0 := append([]byte{}, m...)
			rest, err := d.Unmarshal(m)
			h.Check(err == nil && len(rest) == 0, "g1-decode", "rest=%x err=%v", rest, err)
			h.Check(bytes.Equal(m, m0), "g1-decode-input", "input changed")
			h.Check(eEq(eOf1(d.p), p), "g1-roundtrip", "decoded %s", raw1(d.p))
			h.Check(d.p.IsInfinity() == p.inf, "g1-roundtrip", "decoded %s", raw1(d.p))
			// the decoded element is usable
			s := new(G1).Add(d, &G1{vJac1(h, refG1)})
			h.Check(eEq(eOf1(s.p), eAdd(p, refG1)), "g1-decoded-usable", "decoded+generator = %s", raw1(s.p))
			x := d.X()
			h.Check(p.inf && x.Sign() == 0 || !p.inf && x.Cmp(p.x.r) == 0, "g1-x", "X()=%v", x)
			_, err = new(G1).Unmarshal(badLen(h, m))
			h.Check(err != nil, "g1-length", "wrong length accepted")
			if b, why := badPoint(h, p, false); b != nil {
				_, err = d.Unmarshal(b)
				h.Check(err != nil, "g1-invalid", "%x accepted: %s", b, why)
			}
		}
		h.Phase("G2 encodings", 0.5)
		for h.More(60) {
			p := vPt(h, true)
			for !p.inf && !eMul(p, refOrder).inf {
				p = vPt(h, true)
			}
			e := &G2{vJac2(h, p)}
			h.Case(true, "G2 %s", raw2(e.p))
			want := make([]byte, 128)
			if !p.inf {
				want = be32(p.x.i, p.x.r, p.y.i, p.y.r)
			}
			m := e.Marshal()
			h.Check(bytes.Equal(m, want), "g2-encode", "encoding %x want %x", m, want)
			h.Check(eEq(eOf2(e.p), p), "g2-encode-keeps", "Marshal changed the element to %s", raw2(e.p))
			h.Check(bytes.Equal(e.Marshal(), want), "g2-encode-again", "second encoding differs")
			e2 := &G2{vJac2(h, p)}
			h.Check(bytes.Equal(e2.Marshal(), want), "g2-equal-encodings", "equal elements encode differently")
			d := new(G2)
			if h.Intn(2) == 0 {
				d.p = vJac2(h, vPt(h, true))
			}
			m0 := append([]byte{}, m...)
			rest, err := d.Unmarshal(m)
			h.Check(err == nil && len(rest) == 0, "g2-decode", "rest=%x err=%v", rest, err)
			h.Check(bytes.Equal(m, m0), "g2-decode-input", "input changed")
			h.Check(eEq(eOf2(d.p), p), "g2-roundtrip", "decoded %s", raw2(d.p))
			h.Check(d.p.IsInfinity() == p.inf, "g2-roundtrip", "decoded %s", raw2(d.p))
			s := new(G2).Add(d, &G2{vJac2(h, refG2)})
			h.Check(eEq(eOf2(s.p), eAdd(p, refG2)), "g2-decoded-usable", "decoded+generator = %s", raw2(s.p))
			_, err = new(G2).Unmarshal(badLen(h, m))
			h.Check(err != nil, "g2-length", "wrong length accepted")
			for i := 0; i < 4; i++ {
				if b, why := badPoint(h, p, true); b != nil {
					_, err = d.Unmarshal(b)
					h.Check(err != nil, "g2-invalid", "%x accepted: %s", b, why)
				}
			}
		}
		h.Phase("target group encodings", 0.2)
		for h.More(600) {
			e := &GT{v12(h)}
			r := tw12(e.p)
			h.Case(true, "GT %s", s12(e.p))
			m := e.Marshal()
			h.Check(len(m) == 384, "gt-encode", "length %d", len(m))
			h.Check(twEq(tw12(e.p), r), "gt-encode-keeps", "Marshal changed the element")
			h.Check(bytes.Equal(e.Marshal(), m), "gt-encode-again", "second encoding differs")
			// another representation of the same element
			f := &GT{newGFp12(nil)}
			f.p.Set(e.p)
			f.p.y.x.y.Add(f.p.y.x.y, P)
			f.p.x.z.x.Sub(f.p.x.z.x, P)
			h.Check(bytes.Equal(f.Marshal(), m), "gt-equal-encodings", "equal elements encode differently")
			d := new(GT)
			if h.Intn(2) == 0 {
				d.p = v12(h)
			}
			g, ok := d.Unmarshal(m)
			h.Check(ok && g == d, "gt-decode", "ok=%v", ok)
			h.Check(twEq(tw12(d.p), r), "gt-roundtrip", "decoded %s", s12(d.p))
			_, ok = new(GT).Unmarshal(badLen(h, m))
			h.Check(!ok, "gt-length", "wrong length accepted")
		}
	})
}
