# Prime field Fq and dense polynomials.
package utils
property P01

func BigIsOdd n
  requires n >= 0
  ensures iff(result, bit(n,0) == 1)
func Fq.Zero fq
  ensures result == 0
  fresh
func Fq.One fq
  ensures result == 1
  fresh
func Fq.Add fq a b
  requires fq.Q > 0
  ensures result == mod(a+b, fq.Q)
  fresh
func Fq.Double fq a
  requires fq.Q > 0
  ensures result == mod(2*a, fq.Q)
  fresh
func Fq.Sub fq a b
  requires fq.Q > 0
  ensures result == mod(a-b, fq.Q)
  fresh
func Fq.Neg fq a
  requires fq.Q > 0
  ensures result == mod(0-a, fq.Q)
  fresh
func Fq.Mul fq a b
  requires fq.Q > 0
  ensures result == mod(a*b, fq.Q)
  fresh
func Fq.MulScalar fq base e
  requires fq.Q > 0
  ensures result == mod(base*e, fq.Q)
  fresh
func Fq.Square fq a
  requires fq.Q > 0
  ensures result == mod(a*a, fq.Q)
  fresh
func Fq.Copy fq a
  requires fq.Q > 0
  ensures result == mod(a, fq.Q)
  fresh
func Fq.Inverse fq a
  requires fq.Q > 1 && prime(fq.Q)
  requires a == 0 || !cong(fq.Q, a, 0)
  ensures implies(a == 0, result == 0)
  ensures implies(a != 0, cong(fq.Q, result*a, 1) && red(fq.Q, result))
func Fq.Div fq a b
  requires fq.Q > 1 && prime(fq.Q)
  requires b == 0 || !cong(fq.Q, b, 0)
  ensures implies(b == 0, result == 0)
  ensures implies(b != 0, cong(fq.Q, result*b, a)) && red(fq.Q, result)
  fresh
func Fq.Exp fq base e
  requires fq.Q > 1 && e >= 0
  ensures cong(fq.Q, result, pow(base, e))
  ensures red(fq.Q, result)
  loop 1
    invariant rem >= 0 && red(fq.Q, res)
    invariant cong(fq.Q, res*pow(exp, rem), pow(base, old(e)))
func Fq.ExpInt fq base e
  requires fq.Q > 1
  ensures cong(fq.Q, result, pow(base, e))
  ensures red(fq.Q, result)
  loop 1
    invariant e >= 0 && red(fq.Q, res)
    invariant cong(fq.Q, res*pow(exp, e), pow(base, old(e)))
func Fq.ScalarProduct fq l r
  requires fq.Q > 0
  panics len(l) != len(r)
  ensures result == mod(sum(k, 0, len(l), l[k]*r[k]), fq.Q)
  fresh
  loop 1
    invariant 0 <= i && i <= len(r)
    invariant sum == mod(sum(k, 0, i, l[k]*r[k]), fq.Q)
func Fq.EvalPoly fq v x
  also P02
  requires fq.Q > 0 && len(v) >= 1
  ensures cong(fq.Q, result, sum(k, 0, len(v), v[k]*pow(x,k)))
func Fq.IsZero fq a
  ensures iff(result, a == 0)
func Fq.Affine fq a
  requires fq.Q > 0
  ensures result == mod(a, fq.Q)
func Fq.Equal fq a b
  requires fq.Q > 0
  ensures iff(result, cong(fq.Q, a, b))
