package bn256

import (
	"fmt"
	"math/big"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// reference tower: 12 coefficients at index a + 2*b + 6*c for i^a tau^b omega^c
type tw [12]*big.Int

func twZero() tw {
	var r tw
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}
func twOne() tw { r := twZero(); r[0].SetInt64(1); return r }

// twMono reduces i^a tau^b omega^c by repeated rewriting
func twMono(acc *tw, c *big.Int, a, b, w int) {
	if c.Sign() == 0 {
		return
	}
	if w >= 2 {
		twMono(acc, c, a, b+1, w-2)
		return
	}
	if b >= 3 { // tau^3 = i+9
		twMono(acc, c, a+1, b-3, w)
		twMono(acc, new(big.Int).Mul(c, big.NewInt(9)), a, b-3, w)
		return
	}
	if a >= 2 {
		twMono(acc, new(big.Int).Neg(c), a-2, b, w)
		return
	}
	x := acc[a+2*b+6*w]
	x.Add(x, c)
	x.Mod(x, P)
}
func twMul(x, y tw) tw {
	r := twZero()
	for i, p := range x {
		if p.Sign() == 0 {
			continue
		}
		for j, q := range y {
			if q.Sign() == 0 {
				continue
			}
			twMono(&r, new(big.Int).Mod(new(big.Int).Mul(p, q), P), i%2+j%2, i%6/2+j%6/2, i/6+j/6)
		}
	}
	return r
}
func twLin(x tw, k int64, y tw, l int64) tw {
	r := twZero()
	for i := range r {
		r[i].Add(new(big.Int).Mul(x[i], big.NewInt(k)), new(big.Int).Mul(y[i], big.NewInt(l)))
		r[i].Mod(r[i], P)
	}
	return r
}
func twPow(x tw, e *big.Int) tw {
	r := twOne()
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = twMul(r, r)
		if e.Bit(i) == 1 {
			r = twMul(r, x)
		}
	}
	return r
}
func twEq(x, y tw) bool {
	for i := range x {
		if new(big.Int).Mod(new(big.Int).Sub(x[i], y[i]), P).Sign() != 0 {
			return false
		}
	}
	return true
}
func tw2(a *gfP2) tw { r := twZero(); r[0].Mod(a.y, P); r[1].Mod(a.x, P); return r }
func twSh(dst *tw, src tw, off int) {
	for i := 0; i+off < 12; i++ {
		dst[i+off].Add(dst[i+off], src[i])
	}
}
func tw6(a *gfP6) tw {
	r := twZero()
	twSh(&r, tw2(a.z), 0)
	twSh(&r, tw2(a.y), 2)
	twSh(&r, tw2(a.x), 4)
	return r
}
func tw12(a *gfP12) tw {
	r := twZero()
	twSh(&r, tw6(a.y), 0)
	twSh(&r, tw6(a.x), 6)
	return r
}
func twS(x tw) string { return vh.Bs(x[:]) }

func vC(h *vh.H) *big.Int {
	switch h.Intn(11) {
	case 0, 1:
		return new(big.Int)
	case 9: // exact multiples of P and their neighbours
		return new(big.Int).Add(new(big.Int).Mul(P, big.NewInt(int64(h.Intn(5)-2))), big.NewInt(int64(h.Intn(3)-1)))
	case 10: // one or zero in the lowest machine word only
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(int64(h.Intn(9))), 64), big.NewInt(int64(h.Intn(2))))
	case 2:
		return big.NewInt(1)
	case 3: // outside 0..P-1, as intermediate values are
		return new(big.Int).Sub(new(big.Int).Rand(h.R, P), new(big.Int).Mul(P, big.NewInt(int64(h.Intn(4)))))
	case 4:
		return new(big.Int).Add(new(big.Int).Rand(h.R, P), new(big.Int).Mul(P, big.NewInt(int64(h.Intn(4)))))
	}
	return h.Elem(P)
}
func v2(h *vh.H) *gfP2 { return &gfP2{vC(h), vC(h)} }
func v6(h *vh.H) *gfP6 {
	r := &gfP6{v2(h), v2(h), v2(h)}
	if h.Intn(4) == 0 {
		r.x.SetZero()
	}
	if h.Intn(4) == 0 {
		r.y.SetZero()
	}
	return r
}
func v12(h *vh.H) *gfP12 {
	r := &gfP12{v6(h), v6(h)}
	if h.Intn(6) == 0 {
		r.x.SetZero()
	}
	return r
}
func c2(a *gfP2) *gfP2    { return newGFp2(nil).Set(a) }
func c6(a *gfP6) *gfP6    { return newGFp6(nil).Set(a) }
func c12(a *gfP12) *gfP12 { return newGFp12(nil).Set(a) }

func s2(a *gfP2) string   { return fmt.Sprintf("(%v,%v)", a.x, a.y) }
func s6(a *gfP6) string   { return "(" + s2(a.x) + "," + s2(a.y) + "," + s2(a.z) + ")" }
func s12(a *gfP12) string { return "(" + s6(a.x) + "," + s6(a.y) + ")" }

// vPool hands out a pool whose free objects hold garbage, and poison overwrites
// everything that was handed back.
func vPool(h *vh.H) (*bnPool, func()) {
	if h.Intn(3) == 0 {
		return nil, func() {}
	}
	p := new(bnPool)
	for i := 0; i < 3; i++ {
		p.Put(new(big.Int).Rand(h.R, P))
	}
	return p, func() {
		for i := 0; i < 400; i++ {
			p.Get().SetInt64(int64(7777777 + i))
		}
	}
}
func xiV() *gfP2 { return &gfP2{big.NewInt(1), big.NewInt(9)} }
