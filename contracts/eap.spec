# Constraint matrices to polynomials.
package circuitcompiler
property P04
define inter(d) = sum(i,0,len(d),d[i]*inv(lag(i,len(d),i),utils.Field.PolynomialField.F.Q)*lag(i,len(d),X))
define ragged(a) = forall(y,0,len(a),forall(x,0,len(a[y]),nonnil(a[y][x])))
define short(a) = forall(y,0,len(a),len(a[y]) < utils.Field.PolynomialField.F.Q)
define polys(p,m,n) = len(p) == n && forall(y,0,n,len(p[y]) == len(m[y]))
define eap(p,m,n) = forall(y,0,n,cong(utils.Field.PolynomialField.F.Q, poly(p[y]), inter(m[y])))
func ER1CSTransposed.ER1CSToEAP er1cs
  requires prime(utils.Field.PolynomialField.F.Q)
  requires len(er1cs.L) == len(er1cs.R) && len(er1cs.L) == len(er1cs.E) && len(er1cs.L) == len(er1cs.O)
  requires ragged(er1cs.L) && ragged(er1cs.R) && ragged(er1cs.E) && ragged(er1cs.O)
  requires short(er1cs.L) && short(er1cs.R) && short(er1cs.E) && short(er1cs.O)
  ensures polys(result0,er1cs.L,len(er1cs.L)) && polys(result1,er1cs.R,len(er1cs.R)) && polys(result2,er1cs.E,len(er1cs.E)) && polys(result3,er1cs.O,len(er1cs.O))
  ensures eap(result0,er1cs.L,len(er1cs.L))
  ensures eap(result1,er1cs.R,len(er1cs.R))
  ensures eap(result2,er1cs.E,len(er1cs.E))
  ensures eap(result3,er1cs.O,len(er1cs.O))
  loop 1
    invariant 0 <= i && i <= len(er1cs.L)
    invariant polys(lPoly,er1cs.L,i) && polys(rPoly,er1cs.R,i) && polys(ePoly,er1cs.E,i) && polys(oPoly,er1cs.O,i)
    invariant eap(lPoly,er1cs.L,i)
    invariant eap(rPoly,er1cs.R,i)
    invariant eap(ePoly,er1cs.E,i)
    invariant eap(oPoly,er1cs.O,i)
