# Field tower: gfP2 = Fp[i]/(i^2+1), gfP6 = gfP2[tau]/(tau^3-(i+9)), gfP12 = gfP6[omega]/(omega^2-tau).
# ring(e) is the element a structure represents; "sets e = V" states ring(e) == V in the tower ring.
package bn256
property P07

func gfP2.Set e a
  modifies e
  returns e
  ensures eqleaf(e, old(a))
func gfP2.SetZero e
  modifies e
  returns e
  ensures e.x == 0 && e.y == 0
func gfP2.SetOne e
  modifies e
  returns e
  ensures e.x == 0 && e.y == 1
func gfP2.Minimal e
  modifies e
  sets e = ring(e) reduced
func gfP2.IsZero e
  ensures iff(result, e.x == 0 && e.y == 0)
func gfP2.IsOne e
  requires 0 <= e.y
  ensures iff(result, e.x == 0 && e.y == 1)
func gfP2.Conjugate e a
  modifies e
  returns e
  ensures e.x == 0 - old(a.x) && e.y == old(a.y)
func gfP2.Negative e a
  modifies e
  returns e
  ensures e.x == 0 - old(a.x) && e.y == 0 - old(a.y)
func gfP2.Add e a b
  modifies e
  returns e
  ensures e.x == old(a.x) + old(b.x) && e.y == old(a.y) + old(b.y)
func gfP2.Sub e a b
  modifies e
  returns e
  ensures e.x == old(a.x) - old(b.x) && e.y == old(a.y) - old(b.y)
func gfP2.Double e a
  modifies e
  returns e
  ensures e.x == 2*old(a.x) && e.y == 2*old(a.y)
func gfP2.Mul e a b pool
  modifies e
  returns e
  sets e = ring(a)*ring(b) reduced
func gfP2.MulScalar e a b
  modifies e
  returns e
  ensures e.x == old(a.x)*b && e.y == old(a.y)*b
func gfP2.MulXi e a pool
  modifies e
  returns e
  sets e = ring(a)*(I+9)
func gfP2.Square e a pool
  modifies e
  returns e
  sets e = ring(a)*ring(a) reduced
func gfP2.Invert e a pool
  ringresult
  modifies e
  returns e
  uses implies(cong(P, a.x*a.x + a.y*a.y, 0), cong(P, a.x, 0) && cong(P, a.y, 0))
  ensures implies(!cong(P, old(ring(a)), 0), cong(P, ring(e)*old(ring(a)), 1))
  ensures implies(cong(P, old(ring(a)), 0), cong(P, ring(e), 0))
  ensures red(P, e)
func gfP2.Exp c a power pool
  modifies c
  returns c
  requires power >= 0
  sets c = pow(ring(a), power) reduced
  loop 1
    invariant -1 <= i && i < bitlen(power)
    invariant cong(P, ring(sum), pow(ring(a), shr(power, i+1)))
    invariant red(P, sum)

func gfP6.Set e a
  modifies e
  returns e
  ensures eqleaf(e, old(a))
func gfP6.SetZero e
  modifies e
  returns e
  ensures zeroall(e)
func gfP6.SetOne e
  modifies e
  returns e
  ensures zeroall(e.x) && zeroall(e.y) && e.z.x == 0 && e.z.y == 1
func gfP6.Minimal e
  modifies e
  sets e = ring(e) reduced
func gfP6.IsZero e
  ensures iff(result, zeroall(e))
func gfP6.IsOne e
  requires red(P, e)
  ensures iff(result, zeroall(e.x) && zeroall(e.y) && e.z.x == 0 && e.z.y == 1)
func gfP6.Negative e a
  modifies e
  returns e
  sets e = 0 - ring(a)
func gfP6.Add e a b
  modifies e
  returns e
  sets e = ring(a) + ring(b)
func gfP6.Sub e a b
  modifies e
  returns e
  sets e = ring(a) - ring(b)
func gfP6.Double e a
  modifies e
  returns e
  sets e = 2*ring(a)
func gfP6.Mul e a b pool
  modifies e
  returns e
  sets e = ring(a)*ring(b)
func gfP6.MulScalar e a b pool
  modifies e
  returns e
  sets e = ring(a)*ring(b)
func gfP6.MulGFP e a b
  modifies e
  returns e
  sets e = ring(a)*b
func gfP6.MulTau e a pool
  modifies e
  sets e = ring(a)*TAU
func gfP6.Square e a pool
  modifies e
  returns e
  sets e = ring(a)*ring(a)
define XI() = I+9
define norm6(x,y,z) = x*x*x*XI()*XI() + y*y*y*XI() + z*z*z - 3*XI()*x*y*z
func gfP6.Invert e a pool
  modifies e
  returns e
  uses implies(cong(P, norm6(ring(a.x), ring(a.y), ring(a.z)), 0), cong(P, ring(a), 0))
  ensures implies(!cong(P, old(ring(a)), 0), cong(P, ring(e)*old(ring(a)), 1))
  ensures implies(cong(P, old(ring(a)), 0), cong(P, ring(e), 0))
# p-power Frobenius by coordinates: conjugation on gfP2 (z^p = conj z) and tau^p = xi^((p-1)/3) tau
func gfP6.Frobenius e a pool
  modifies e
  returns e
  sets e = conj(ring(a.x))*xipow(div(2*P-2,3))*TAU*TAU + conj(ring(a.y))*xipow(div(P-1,3))*TAU + conj(ring(a.z))
func gfP6.FrobeniusP2 e a
  modifies e
  returns e
  sets e = ring(a.x)*xipow(div(2*P*P-2,3))*TAU*TAU + ring(a.y)*xipow(div(P*P-1,3))*TAU + ring(a.z)

func gfP12.Set e a
  modifies e
  returns e
  ensures eqleaf(e, old(a))
func gfP12.SetZero e
  modifies e
  returns e
  ensures zeroall(e)
func gfP12.SetOne e
  modifies e
  returns e
  ensures zeroall(e.x) && zeroall(e.y.x) && zeroall(e.y.y) && e.y.z.x == 0 && e.y.z.y == 1
func gfP12.Minimal e
  modifies e
  sets e = ring(e) reduced
func gfP12.IsZero e
  modifies e
  sets e = ring(e) reduced
  ensures iff(result, cong(P, old(ring(e)), 0))
func gfP12.IsOne e
  modifies e
  sets e = ring(e) reduced
  ensures iff(result, cong(P, old(ring(e)), 1))
func gfP12.Conjugate e a
  modifies e
  noresult
  sets e = ring(a.y) - OMEGA*ring(a.x)
func gfP12.Negative e a
  modifies e
  returns e
  sets e = 0 - ring(a)
func gfP12.Add e a b
  modifies e
  returns e
  sets e = ring(a) + ring(b)
func gfP12.Sub e a b
  modifies e
  returns e
  sets e = ring(a) - ring(b)
func gfP12.Mul e a b pool
  modifies e
  returns e
  sets e = ring(a)*ring(b)
func gfP12.MulScalar e a b pool
  modifies e
  returns e
  requires same(e, a)
  sets e = ring(a)*ring(b)
func gfP12.Square e a pool
  modifies e
  returns e
  sets e = ring(a)*ring(a)
func gfP12.Exp c a power pool
  modifies c
  returns c
  requires power >= 0
  sets c = pow(ring(a), power)
  loop 1
    invariant -1 <= i && i < bitlen(power)
    invariant cong(P, ring(sum), pow(ring(a), shr(power, i+1)))
func gfP12.Invert e a pool
  modifies e
  returns e
  uses implies(cong(P, ring(a.y)*ring(a.y) - TAU*ring(a.x)*ring(a.x), 0), cong(P, ring(a), 0))
  ensures implies(!cong(P, old(ring(a)), 0), cong(P, ring(e)*old(ring(a)), 1))
  ensures implies(cong(P, old(ring(a)), 0), cong(P, ring(e), 0))
define frob6(x,y,z) = conj(x)*xipow(div(2*P-2,3))*TAU*TAU + conj(y)*xipow(div(P-1,3))*TAU + conj(z)
define frob62(x,y,z) = x*xipow(div(2*P*P-2,3))*TAU*TAU + y*xipow(div(P*P-1,3))*TAU + z
func gfP12.Frobenius e a pool
  modifies e
  returns e
  sets e = frob6(ring(a.x.x),ring(a.x.y),ring(a.x.z))*xipow(div(P-1,6))*OMEGA + frob6(ring(a.y.x),ring(a.y.y),ring(a.y.z))
func gfP12.FrobeniusP2 e a pool
  modifies e
  returns e
  sets e = frob62(ring(a.x.x),ring(a.x.y),ring(a.x.z))*xipow(div(P*P-1,6))*OMEGA + frob62(ring(a.y.x),ring(a.y.y),ring(a.y.z))
