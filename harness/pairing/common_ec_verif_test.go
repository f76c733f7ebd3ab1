package bn256

import (
	"fmt"
	"math/big"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// reference curves y^2 = x^3 + b over GF(p)[i], in affine coordinates; G1 lives on the real part
type f2 struct{ i, r *big.Int }

func fNew(i, r *big.Int) f2 { return f2{new(big.Int).Mod(i, P), new(big.Int).Mod(r, P)} }
func fInt(k int64) f2       { return fNew(new(big.Int), big.NewInt(k)) }
func fAdd(a, b f2) f2       { return fNew(new(big.Int).Add(a.i, b.i), new(big.Int).Add(a.r, b.r)) }
func fSub(a, b f2) f2       { return fNew(new(big.Int).Sub(a.i, b.i), new(big.Int).Sub(a.r, b.r)) }
func fMul(a, b f2) f2 {
	i := new(big.Int).Mul(a.i, b.r)
	i.Add(i, new(big.Int).Mul(a.r, b.i))
	r := new(big.Int).Mul(a.r, b.r)
	r.Sub(r, new(big.Int).Mul(a.i, b.i))
	return fNew(i, r)
}
func fInv(a f2) f2 {
	n := new(big.Int).Mul(a.i, a.i)
	n.Add(n, new(big.Int).Mul(a.r, a.r))
	n.ModInverse(n, P)
	return fNew(new(big.Int).Neg(new(big.Int).Mul(a.i, n)), new(big.Int).Mul(a.r, n))
}
func fEq(a, b f2) bool { return a.i.Cmp(b.i) == 0 && a.r.Cmp(b.r) == 0 }
func fZero(a f2) bool  { return a.i.Sign() == 0 && a.r.Sign() == 0 }

type ept struct {
	inf  bool
	x, y f2
}

func (p ept) String() string {
	if p.inf {
		return "inf"
	}
	return fmt.Sprintf("(%v+%v*i, %v+%v*i)", p.x.r, p.x.i, p.y.r, p.y.i)
}

func eEq(a, b ept) bool {
	return a.inf && b.inf || !a.inf && !b.inf && fEq(a.x, b.x) && fEq(a.y, b.y)
}
func eNeg(a ept) ept {
	if a.inf {
		return a
	}
	return ept{x: a.x, y: fSub(fInt(0), a.y)}
}
func eAdd(a, b ept) ept {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	var l f2
	if fEq(a.x, b.x) {
		if !fEq(a.y, b.y) || fZero(a.y) {
			return ept{inf: true}
		}
		l = fMul(fMul(fInt(3), fMul(a.x, a.x)), fInv(fAdd(a.y, a.y)))
	} else {
		l = fMul(fSub(b.y, a.y), fInv(fSub(b.x, a.x)))
	}
	x := fSub(fSub(fMul(l, l), a.x), b.x)
	return ept{x: x, y: fSub(fMul(l, fSub(a.x, x)), a.y)}
}
func eMul(a ept, k *big.Int) ept {
	r := ept{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = eAdd(r, r)
		if k.Bit(i) == 1 {
			r = eAdd(r, a)
		}
	}
	return r
}
func eOn(a ept, b f2) bool {
	return a.inf || fEq(fMul(a.y, a.y), fAdd(fMul(a.x, fMul(a.x, a.x)), b))
}

// constants of the curves, written down independently of the code under test
var refB1 = fInt(3)
var refB2 = fMul(fInt(3), fInv(f2{big.NewInt(1), big.NewInt(9)}))
var refG1 = ept{x: fInt(1), y: fInt(2)}

func refBig(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

var refG2 = ept{
	x: f2{refBig("11559732032986387107991004021392285783925812861821192530917403151452391805634"), refBig("10857046999023057135944570762232829481370756359578518086990519993285655852781")},
	y: f2{refBig("4082367875863433681332203403145435568316851327593401208105741076214120093531"), refBig("8495653923123431417604973247489272438418190587263600148770280649306958101930")},
}
var refOrder = refBig("21888242871839275222246405745257275088548364400416034343698204186575808495617")

// fSqrtFp: square root in GF(p), p = 3 mod 4
func fSqrtFp(a *big.Int) *big.Int {
	e := new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
	r := new(big.Int).Exp(a, e, P)
	if new(big.Int).Mod(new(big.Int).Mul(r, r), P).Cmp(new(big.Int).Mod(a, P)) != 0 {
		return nil
	}
	return r
}

// fSqrt: square root in GF(p)[i], or nil
func fSqrt(a f2) *f2 {
	n := new(big.Int).Mul(a.i, a.i)
	n.Add(n, new(big.Int).Mul(a.r, a.r))
	n.Mod(n, P)
	d := fSqrtFp(n)
	if d == nil {
		return nil
	}
	half := new(big.Int).ModInverse(big.NewInt(2), P)
	for s := 0; s < 2; s++ {
		x2 := new(big.Int).Add(a.r, d)
		x2.Mul(x2, half).Mod(x2, P)
		if x := fSqrtFp(x2); x != nil && x.Sign() != 0 {
			y := new(big.Int).ModInverse(new(big.Int).Lsh(x, 1), P)
			r := fNew(y.Mul(y, a.i), x)
			if fEq(fMul(r, r), a) {
				return &r
			}
		}
		d.Neg(d)
	}
	return nil
}

// vScalar: scalars of many sizes, with the group order and its neighbours
func vScalar(h *vh.H) *big.Int {
	switch h.Intn(12) {
	case 0:
		return big.NewInt(int64(h.Intn(6)))
	case 1:
		return new(big.Int).Add(refOrder, big.NewInt(int64(h.Intn(5)-2)))
	case 2:
		return new(big.Int).Rand(h.R, new(big.Int).Lsh(big.NewInt(1), 330))
	case 3:
		r := new(big.Int).Lsh(big.NewInt(1), uint(h.Intn(270)))
		return r.Add(r, big.NewInt(int64(h.Intn(2))))
	case 4, 5:
		return new(big.Int).Rand(h.R, refOrder)
	case 6:
		return new(big.Int).Abs(h.Big(refOrder))
	}
	return new(big.Int).Rand(h.R, big.NewInt(1<<20))
}

// vPt1, vPt2: points of the source groups and (for the twist) other points of the curve
func vPt(h *vh.H, second bool) ept {
	g := refG1
	if second {
		g = refG2
	}
	switch h.Intn(10) {
	case 0:
		return ept{inf: true}
	case 1, 2, 3:
		return eMul(g, big.NewInt(int64(1+h.Intn(8))))
	case 4: // a point found by its x coordinate
		for {
			x := fNew(new(big.Int), h.Elem(P))
			b := refB1
			if second {
				x, b = fNew(h.Elem(P), h.Elem(P)), refB2
			}
			w := fAdd(fMul(x, fMul(x, x)), b)
			if !second {
				if y := fSqrtFp(w.r); y != nil {
					return ept{x: x, y: fNew(new(big.Int), y)}
				}
				continue
			}
			if y := fSqrt(w); y != nil {
				return ept{x: x, y: *y}
			}
		}
	case 5:
		return eNeg(g)
	}
	return eMul(g, new(big.Int).Rand(h.R, big.NewInt(1<<30)))
}

// Jacobian representations of p
func vJac1(h *vh.H, p ept) *curvePoint {
	c := newCurvePoint(nil)
	c.t.SetInt64(int64(h.Intn(9)))
	if p.inf {
		if h.Intn(3) == 0 {
			c.y.SetInt64(1)
			c.t.SetInt64(0)
		} else {
			c.x.Set(h.Elem(P))
			c.y.Set(h.Elem(P))
		}
		c.z.SetInt64(0)
		return c
	}
	z := big.NewInt(1)
	if h.Intn(3) != 0 {
		z = h.NonZero(P)
	}
	z2 := new(big.Int).Mul(z, z)
	c.x.Mul(p.x.r, z2).Mod(c.x, P)
	c.y.Mul(p.y.r, z2).Mul(c.y, z).Mod(c.y, P)
	c.z.Set(z)
	c.t.Mod(z2, P)
	if h.Intn(5) == 0 { // unreduced intermediate values
		c.x.Sub(c.x, P)
		c.y.Add(c.y, P)
	}
	return c
}
func vJac2(h *vh.H, p ept) *twistPoint {
	c := newTwistPoint(nil)
	set := func(d *gfP2, s f2) { d.x.Set(s.i); d.y.Set(s.r) }
	c.t.y.SetInt64(int64(h.Intn(9)))
	if p.inf {
		if h.Intn(3) == 0 {
			c.y.SetOne()
			c.t.SetZero()
		} else {
			set(c.x, fNew(h.Elem(P), h.Elem(P)))
			set(c.y, fNew(h.Elem(P), h.Elem(P)))
		}
		c.z.SetZero()
		return c
	}
	z := fInt(1)
	switch h.Intn(4) {
	case 0:
		z = fNew(new(big.Int), h.NonZero(P))
	case 1:
		z = fNew(h.NonZero(P), new(big.Int))
	case 2:
		z = fNew(h.NonZero(P), h.Elem(P))
	}
	z2 := fMul(z, z)
	set(c.x, fMul(p.x, z2))
	set(c.y, fMul(p.y, fMul(z2, z)))
	set(c.z, z)
	set(c.t, z2)
	if h.Intn(5) == 0 {
		c.x.x.Sub(c.x.x, P)
		c.y.y.Add(c.y.y, P)
	}
	return c
}
func eOf1(c *curvePoint) ept {
	if c.z.Sign() == 0 {
		return ept{inf: true}
	}
	z := fNew(new(big.Int), c.z)
	if fZero(z) {
		return ept{inf: true}
	}
	w := fInv(z)
	w2 := fMul(w, w)
	return ept{x: fMul(fNew(new(big.Int), c.x), w2), y: fMul(fNew(new(big.Int), c.y), fMul(w2, w))}
}
func eOf2(c *twistPoint) ept {
	z := fNew(c.z.x, c.z.y)
	if fZero(z) {
		return ept{inf: true}
	}
	w := fInv(z)
	w2 := fMul(w, w)
	return ept{x: fMul(fNew(c.x.x, c.x.y), w2), y: fMul(fNew(c.y.x, c.y.y), fMul(w2, w))}
}
func raw1(c *curvePoint) string { return fmt.Sprintf("[%v %v %v %v]", c.x, c.y, c.z, c.t) }
func raw2(c *twistPoint) string { return "[" + s2(c.x) + s2(c.y) + s2(c.z) + s2(c.t) + "]" }
