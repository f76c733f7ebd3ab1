# Dense polynomials: coefficient arrays; poly(a) is the polynomial in the formal variable X.
package utils
property P02
define poly(a) = sum(k,0,len(a),a[k]*pow(X,k))
define part(a,n) = sum(k,0,n,a[k]*pow(X,k))
define redall(q,a) = forall(k,0,len(a),0 <= a[k] && a[k] < q)

func maxInt a b
  ensures result >= a && result >= b && (result == a || result == b)
func ArrayOfBigZeros num
  requires num >= 0
  ensures len(result) == num && forall(k,0,num,result[k] == 0)
  ensures poly(result) == 0
  fresh
  loop 1
    invariant 0 <= i && i <= num
    invariant forall(k,0,i,r[k] == 0)
    invariant part(r,i) == 0
func PolynomialField.Mul pf a b
  requires pf.F.Q > 1 && len(a) + len(b) >= 1
  requires len(a) >= 1 && len(b) >= 1
  ensures len(result) == len(a) + len(b) - 1
  ensures cong(pf.F.Q, poly(result), poly(a)*poly(b))
  ensures redall(pf.F.Q, result)
  ensures result[len(a)+len(b)-2] == mod(a[len(a)-1]*b[len(b)-1], pf.F.Q)
  fresh
  loop 1
    invariant 0 <= i && i <= len(a) && len(r) == len(a) + len(b) - 1
    invariant implies(i < len(a), r[len(a)+len(b)-2] == 0)
    invariant implies(i == len(a), r[len(a)+len(b)-2] == mod(a[len(a)-1]*b[len(b)-1], pf.F.Q))
    invariant cong(pf.F.Q, poly(r), part(a,i)*poly(b))
    invariant redall(pf.F.Q, r)
  loop 2
    invariant 0 <= j && j <= len(b) && len(r) == len(a) + len(b) - 1 && 0 <= i && i < len(a)
    invariant implies(i < len(a)-1 || j < len(b), r[len(a)+len(b)-2] == 0)
    invariant implies(i == len(a)-1 && j == len(b), r[len(a)+len(b)-2] == mod(a[len(a)-1]*b[len(b)-1], pf.F.Q))
    invariant cong(pf.F.Q, poly(r), part(a,i)*poly(b) + a[i]*pow(X,i)*part(b,j))
    invariant redall(pf.F.Q, r)
func PolynomialField.Add pf a b
  requires pf.F.Q > 0
  ensures len(result) >= len(a) && len(result) >= len(b) && (len(result) == len(a) || len(result) == len(b))
  ensures cong(pf.F.Q, poly(result), poly(a) + poly(b))
  ensures redall(pf.F.Q, result)
  fresh
  loop 1
    invariant 0 <= i && i <= len(a) && len(r) >= len(a) && len(r) >= len(b) && (len(r) == len(a) || len(r) == len(b))
    invariant cong(pf.F.Q, poly(r), part(a,i))
    invariant redall(pf.F.Q, r)
  loop 2
    invariant 0 <= i && i <= len(b) && len(r) >= len(a) && len(r) >= len(b) && (len(r) == len(a) || len(r) == len(b))
    invariant cong(pf.F.Q, poly(r), poly(a) + part(b,i))
    invariant redall(pf.F.Q, r)
func PolynomialField.Sub pf a b
  requires pf.F.Q > 0
  ensures len(result) >= len(a) && len(result) >= len(b) && (len(result) == len(a) || len(result) == len(b))
  ensures cong(pf.F.Q, poly(result), poly(a) - poly(b))
  ensures redall(pf.F.Q, result)
  ensures forall(k,0,len(a),implies(k < len(b), result[k] == mod(a[k]-b[k], pf.F.Q)))
  fresh
  loop 1
    invariant forall(k,0,i,r[k] == mod(a[k], pf.F.Q)) && forall(k,i,len(r),r[k] == 0)
    invariant 0 <= i && i <= len(a) && len(r) >= len(a) && len(r) >= len(b) && (len(r) == len(a) || len(r) == len(b))
    invariant cong(pf.F.Q, poly(r), part(a,i))
    invariant redall(pf.F.Q, r)
  loop 2
    invariant 0 <= i && i <= len(b) && len(r) >= len(a) && len(r) >= len(b) && (len(r) == len(a) || len(r) == len(b))
    invariant cong(pf.F.Q, poly(r), poly(a) - part(b,i))
    invariant forall(k,0,len(a),implies(k < i, r[k] == mod(a[k]-b[k], pf.F.Q)))
    invariant forall(k,i,len(a),r[k] == mod(a[k], pf.F.Q))
    invariant redall(pf.F.Q, r)
func PolynomialField.MulScalar pf polynomial w
  requires pf.F.Q > 0
  ensures len(result) == len(polynomial)
  ensures cong(pf.F.Q, poly(result), w*poly(polynomial))
  ensures redall(pf.F.Q, result)
  fresh
  loop 1
    invariant 0 <= i && i <= len(polynomial) && len(scaledPolynomial) == len(polynomial)
    invariant cong(pf.F.Q, part(scaledPolynomial,i), w*part(polynomial,i))
    invariant forall(k,0,i,0 <= scaledPolynomial[k] && scaledPolynomial[k] < pf.F.Q)
func PolynomialField.DomainPolynomial pf len
  requires pf.F.Q > 1 && len >= 1
  ensures cong(pf.F.Q, poly(result), prod(k,0,len,X - k))
  ensures redall(pf.F.Q, result)
  loop 1
    invariant 1 <= i && i <= len && len(Domain) == i+1
    invariant cong(pf.F.Q, poly(Domain), prod(k,0,i,X - k))
    invariant redall(pf.F.Q, Domain)
func PolynomialField.LinearCombine pf polynomials w
  requires pf.F.Q > 1 && len(polynomials) >= len(w)
  requires forall(k,0,len(w),len(polynomials[k]) >= 1)
  ensures len(result) == len(w)
  ensures forall(k,0,len(w),len(result[k]) == len(polynomials[k]))
  ensures forall(k,0,len(w),cong(pf.F.Q, poly(result[k]), w[k]*poly(polynomials[k])))
  fresh
  loop 1
    invariant 0 <= i && i <= len(w) && len(scaledPolynomials) == len(w)
    invariant forall(k,0,i,len(scaledPolynomials[k]) == len(polynomials[k]))
    invariant forall(k,0,i,cong(pf.F.Q, poly(scaledPolynomials[k]), w[k]*poly(polynomials[k])))
func PolynomialField.AddPolynomials pf polynomials
  requires pf.F.Q > 0
  ensures cong(pf.F.Q, poly(result), sum(k,0,len(polynomials),poly(polynomials[k])))
  ensures redall(pf.F.Q, result)
  fresh
  loop 1
    invariant 0 <= i && i <= len(polynomials)
    invariant cong(pf.F.Q, poly(sumPoly), sum(k,0,i,poly(polynomials[k])))
    invariant redall(pf.F.Q, sumPoly)
func BigArraysEqual a b
  ensures iff(result, len(a) == len(b) && forall(k,0,len(a),a[k] == b[k]))
  loop 1
    invariant 0 <= i && i <= len(a)
    invariant forall(k,0,i,a[k] == b[k])
func IsZeroArray a
  ensures iff(result, forall(k,0,len(a),a[k] == 0))
  loop 1
    invariant 0 <= i && i <= len(a)
    invariant forall(k,0,i,a[k] == 0)

property P03
func PolynomialField.Div pf a b
  requires pf.F.Q > 1 && prime(pf.F.Q)
  requires len(a) >= len(b) && len(b) >= 1
  requires !cong(pf.F.Q, b[len(b)-1], 0)
  ensures len(result0) == len(a) - len(b) + 1 && len(result1) == len(b) - 1
  ensures cong(pf.F.Q, poly(a), poly(result0)*poly(b) + poly(result1))
  loop 1
    invariant len(rem) <= len(a) && len(rem) >= len(b) - 1 && len(r) == len(a) - len(b) + 1
    invariant forall(k,0,len(rem)-len(b)+1,r[k] == 0)
    invariant cong(pf.F.Q, poly(a), poly(r)*poly(b) + poly(rem))

# Lagrange's formula: L(i,n,x) is the product of (x-k) over 0 <= k < n, k != i.
property P04
define lag(i,n,x) = prod(k,0,n,ite(k == i,1,x-k))
func PolynomialField.LagrangeInterpolation pf datapoints
  requires prime(pf.F.Q) && len(datapoints) < pf.F.Q
  mapinv basesClassic : implies(0 <= key.baseIndex && key.baseIndex < key.Length && key.Length < pf.F.Q, len(val) == key.Length && !cong(pf.F.Q, lag(key.baseIndex,key.Length,key.baseIndex), 0) && cong(pf.F.Q, poly(val)*lag(key.baseIndex,key.Length,key.baseIndex), lag(key.baseIndex,key.Length,X)))
  ensures len(result) == len(datapoints)
  ensures redall(pf.F.Q, result)
  ensures cong(pf.F.Q, poly(result), sum(i,0,len(datapoints),datapoints[i]*inv(lag(i,len(datapoints),i),pf.F.Q)*lag(i,len(datapoints),X)))
  loop 1
    invariant 0 <= i && i <= pointPos
    invariant cong(pf.F.Q, facBig, lag(pointPos,i,pointPos)) && !cong(pf.F.Q, facBig, 0)
  loop 2
    invariant pointPos+1 <= i && i <= totalPoints
    invariant cong(pf.F.Q, facBig, lag(pointPos,i,pointPos)) && !cong(pf.F.Q, facBig, 0)
  loop 3
    invariant 0 <= i && i <= totalPoints
    invariant len(r) == ite(i > pointPos, i, i+1)
    invariant cong(pf.F.Q, poly(r), lag(pointPos,i,X))
  loop 4
    invariant len(polynom) == len(datapoints) && redall(pf.F.Q, polynom)
    invariant cong(pf.F.Q, poly(polynom), sum(i,0,idx,datapoints[i]*inv(lag(i,len(datapoints),i),pf.F.Q)*lag(i,len(datapoints),X)))
