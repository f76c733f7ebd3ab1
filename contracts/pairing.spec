# The pairing. Elements of the field with p^12 elements are read as opaque ring values; the
# readings below restate the proved coordinate formulas of the tower (P07) as powers: Frobenius is
# the p-th power, conjugation the p^6-th, and the inverse the (p^12-2)-nd.
package bn256
property P10
define EXPO() = div(pow(P,12)-1, Order)

view gfP12.SetOne e
  trusted proved with P07
  ringatoms12
  modifies e
  returns e
  sets e = 1
view gfP12.Mul e a b pool
  trusted proved with P07
  ringatoms12
  modifies e
  returns e
  sets e = ring(a)*ring(b)
view gfP12.Square e a pool
  trusted proved with P07
  ringatoms12
  modifies e
  returns e
  sets e = ring(a)*ring(a)
view gfP12.Exp c a power pool
  trusted proved with P07
  ringatoms12
  modifies c
  returns c
  requires power >= 0
  sets c = pow(ring(a), power)
view gfP12.Invert e a pool
  trusted the inverse of a non-zero element of the field with p^12 elements is its (p^12-2)-nd power, and P07 proves that zero is sent to zero
  ringatoms12
  modifies e
  returns e
  sets e = pow(ring(a), pow(P,12)-2)
view gfP12.Frobenius e a pool
  trusted the coordinate formula proved with P07 is the p-th power
  ringatoms12
  modifies e
  returns e
  sets e = pow(ring(a), P)
view gfP12.FrobeniusP2 e a
  trusted the coordinate formula proved with P07 is the p^2-th power
  ringatoms12
  modifies e
  returns e
  sets e = pow(ring(a), P*P)
view gfP12.Conjugate e a
  trusted the coordinate formula proved with P07 is the p^6-th power
  ringatoms12
  modifies e
  noresult
  sets e = pow(ring(a), pow(P,6))
view gfP12.IsOne e
  trusted proved with P07
  ringatoms12
  modifies e
  sets e = ring(e) reduced
  ensures iff(result, cong(P, old(ring(e)), 1))

func finalExponentiation in pool
  ringatoms12
  fresh
  ensures cong(P, ring(result), pow(ring(in), EXPO()))

# a line (a TAU + b) OMEGA + c, multiplied into ret
func mulLine ret a b c pool
  noalias
  modifies ret
  ensures cong(P, ring(ret), old(ring(ret))*((ring(a)*TAU + ring(b))*OMEGA + ring(c)))

# tangent at r, evaluated at the affine point q, times 4 r.y r.z^3
func lineFunctionDouble r q pool
  fresh
  ringatoms
  requires cong(P, r.t, r.z*r.z)
  ensures cong(P, ring(result0), 6*r.x*r.x*r.x - 4*r.y*r.y)
  ensures cong(P, ring(result1), 0 - 6*r.x*r.x*r.z*r.z*q.x)
  ensures cong(P, ring(result2), 4*r.y*r.z*r.z*r.z*q.y)
  ensures cong(P, result3.t, result3.z*result3.z)
  ensures cong(P, result3.x, DX(r)) && cong(P, result3.y, DY(r)) && cong(P, result3.z, 2*r.y*r.z)

define LH(r,p) = p.x*r.z*r.z - r.x
define LN(r,p) = p.y*r.z*r.z*r.z - r.y
# line through r and the affine point p, evaluated at the affine point q, times 4 r.z H
func lineFunctionAdd r p q r2 pool
  fresh
  ringatoms
  requires cong(P, r.t, r.z*r.z) && cong(P, ring(r2), p.y*p.y)
  ensures cong(P, ring(result0), 4*LN(r,p)*p.x - 4*p.y*r.z*LH(r,p))
  ensures cong(P, ring(result1), 0 - 4*LN(r,p)*q.x)
  ensures cong(P, ring(result2), 4*r.z*LH(r,p)*q.y)
  ensures cong(P, result3.t, result3.z*result3.z)
  ensures cong(P, result3.z, 2*r.z*LH(r,p))
  ensures cong(P, result3.x, 4*LN(r,p)*LN(r,p) - 4*LH(r,p)*LH(r,p)*LH(r,p) - 8*r.x*LH(r,p)*LH(r,p))
  ensures cong(P, result3.y, 2*LN(r,p)*(4*r.x*LH(r,p)*LH(r,p) - result3.x) - 8*r.y*LH(r,p)*LH(r,p)*LH(r,p))

func miller q p pool
  ringatoms12
  requires okpt2(q) && okpt(p)
  fresh
  yields cong(P, ring(result), mill(q,p))
  loop 1
    invariant 0 <= i && i < len(sixuPlus2NAF)
    invariant cong(P, r.t, r.z*r.z)

define apart(q,p) = !zeroall(q.z) && p.z != 0
define pairval(q,p) = ite(apart(q,p), pow(mill(q,p), EXPO()), 1)
func optimalAte a b pool
  ringatoms12
  requires okpt2(a) && okpt(b)
  ensures implies(apart(a,b), cong(P, ring(result), pow(mill(a,b), EXPO())))
  ensures implies(!apart(a,b), cong(P, ring(result), 1))
func Pair g1 g2
  ringatoms12
  requires !isnil(g1.p) && !isnil(g2.p) && okpt2(g2.p) && okpt(g1.p)
  ensures implies(apart(g2.p,g1.p), cong(P, ring(result.p), pow(mill(g2.p,g1.p), EXPO())))
  ensures implies(!apart(g2.p,g1.p), cong(P, ring(result.p), 1))
func PairingCheck a b
  ringatoms12
  requires len(a) <= len(b)
  requires forall(k,0,len(a),nonnil(a[k]) && nonnil(b[k]))
  requires forall(k,0,len(a),okpt(a[k].p) && okpt2(b[k].p))
  ensures iff(result, cong(P, prod(k,0,len(a),pairval(b[k].p,a[k].p)), 1))
  loop 1
    invariant 0 <= i && i <= len(a)
    invariant cong(P, pow(ring(acc), EXPO()), prod(k,0,i,pairval(b[k].p,a[k].p)))

view GT.Add e a b
  trusted proved with P08
  ringatoms12
  modifies e
  returns e
  requires !isnil(e.p)
  sets e.p = ring(a.p)*ring(b.p)
func lemmaProductCheck a b
  ringatoms12
  requires len(a) <= len(b)
  requires forall(k,0,len(a),nonnil(a[k]) && nonnil(b[k]))
  requires forall(k,0,len(a),okpt(a[k].p) && okpt2(b[k].p))
  ensures iff(result0, result1)
  loop 1
    invariant 0 <= i && i <= len(a)
    invariant cong(P, ring(acc.p), prod(k,0,i,pairval(b[k].p,a[k].p)))
