# The sparse array as a map, on top of the node operations.
package utils
property P05
define wf(t) = all(k,implies(th(t,k), 0 <= k && k < tb(t) && tv(t,k) != 0)) && all(k,implies(!th(t,k), tv(t,k) == 0))
define nrm(t) = all(k,implies(th(t,k), 0 <= k && k < tb(t))) && all(k,implies(!th(t,k), tv(t,k) == 0))
define canon(t,q) = all(k,0 <= tv(t,k) && tv(t,k) < q)
define eqt(a,b) = all(k,th(a,k) == th(b,k) && tv(a,k) == tv(b,k))

func NewAvlTree
  fresh
  ensures wf(result)
  ensures all(k,!th(result,k))
  ensures all(k,tv(result,k) == 0)

func AvlTree.Insert t key value
  requires wf(t)
  modifies t
  ensures wf(t)
  ensures all(k,tv(t,k) == ite(k == key, value, tv(old(t),k)))
  ensures isnil(result)

func AvlTree.Clone a
  fresh
  requires wf(a)
  ensures wf(result)
  ensures eqt(result,a)
  loop 1
    invariant wf(r)
    invariant all(k,tv(r,k) == ite(k >= tb(a)-idx, tv(a,k), 0))

func AvlTree.InsertNoOverwriteAllowed t key value
  requires wf(t)
  requires !th(t,key)
  modifies t
  ensures wf(t)
  ensures all(k,tv(t,k) == ite(k == key, value, tv(old(t),k)))

func AvlTree.Remove self key
  requires nrm(self)
  modifies self
  nil 0 when !th(old(self),key)
  ensures nrm(self)
  ensures all(k,th(self,k) == (th(old(self),k) && k != key))
  ensures isnil(result1) == th(old(self),key)
  ensures all(k,tv(self,k) == ite(k == key, 0, tv(old(self),k)))

func NewSparseArrayWith key value
  fresh
  ensures wf(result)
  ensures all(k,tv(result,k) == ite(k == key, value, 0))

func NewSparseArrayFromArray in
  fresh
  ensures wf(result)
  ensures all(k,tv(result,k) == ite(0 <= k && k < len(in), in[k], 0))
  loop 1
    invariant wf(sp)
    invariant all(k,tv(sp,k) == ite(0 <= k && k < idx, in[k], 0))

func AvlTree.MaxPower t
  requires wf(t)
  ensures all(k,implies(th(t,k), k <= result))
  ensures ite(ts(t) > 0, th(t,result), result == 0)

func AvlTree.ToArray t length
  requires wf(t)
  requires length >= 0 && tb(t) <= length
  ensures len(result) == length
  ensures forall(k,0,length,result[k] == tv(t,k))
  loop 1
    invariant len(collectedNodes) == length
    invariant forall(k,0,length,collectedNodes[k] == ite(k >= tb(t)-idx, tv(t,k), 0))

property P06

func Fq.AddToSparse fq a b
  requires fq.Q > 1 && wf(a) && wf(b)
  fresh
  ensures wf(result)
  ensures canon(result,fq.Q) || !canon(a,fq.Q)
  ensures all(k,cong(fq.Q, tv(result,k), tv(a,k)+tv(b,k)))
  loop 1
    invariant wf(a)
    invariant all(k,0 <= tv(a,k) && tv(a,k) < fq.Q) || !canon(atentry(a),fq.Q)
    invariant all(k,cong(fq.Q, tv(a,k), tv(atentry(a),k) + ite(k >= tb(b)-idx, tv(b,k), 0)))

func Fq.SubToSparse fq a b
  requires fq.Q > 1 && wf(a) && wf(b)
  fresh
  ensures wf(result)
  ensures canon(result,fq.Q) || !canon(a,fq.Q)
  ensures all(k,cong(fq.Q, tv(result,k), tv(a,k)-tv(b,k)))
  loop 1
    invariant wf(a)
    invariant all(k,0 <= tv(a,k) && tv(a,k) < fq.Q) || !canon(atentry(a),fq.Q)
    invariant all(k,cong(fq.Q, tv(a,k), tv(atentry(a),k) - ite(k >= tb(b)-idx, tv(b,k), 0)))

func Fq.MulSparseScalar fq a scalar
  requires fq.Q > 1 && wf(a)
  fresh
  ensures wf(result)
  ensures canon(result,fq.Q)
  ensures all(k,cong(fq.Q, tv(result,k), tv(a,k)*scalar))
  loop 1
    invariant wf(a)
    invariant all(k,ite(k >= tb(atentry(a))-idx, 0 <= tv(a,k) && tv(a,k) < fq.Q, tv(a,k) == tv(atentry(a),k)))
    invariant all(k,cong(fq.Q, tv(a,k), tv(atentry(a),k)*ite(k >= tb(atentry(a))-idx, scalar, 1)))

func Fq.Combine f a w
  requires f.Q > 1 && wf(a) && tb(a) <= len(w)
  modifies a
  aliasresult
  ensures wf(a)
  ensures canon(a,f.Q)
  ensures forall(k,0,len(w),cong(f.Q, tv(a,k), tv(old(a),k)*w[k]))
  loop 1
    invariant wf(a)
    invariant all(k,ite(k >= tb(atentry(a))-idx, 0 <= tv(a,k) && tv(a,k) < f.Q, tv(a,k) == tv(atentry(a),k)))
    invariant forall(k,0,len(w),cong(f.Q, tv(a,k), tv(atentry(a),k)*ite(k >= tb(atentry(a))-idx, w[k], 1)))

func Fq.SparseScalarProduct f a b
  requires f.Q > 1 && wf(a) && tb(a) <= len(b)
  ensures 0 <= result && result < f.Q
  ensures cong(f.Q, result, sum(k,0,tb(a),tv(a,k)*b[k]))
  loop 1
    invariant 0 <= res && res < f.Q
    invariant cong(f.Q, res, sum(k,0,idx,tv(a,k)*b[k]))

func Fq.MulSparse fq a b
  requires fq.Q > 1 && wf(a) && wf(b)
  fresh
  ensures wf(result)
  ensures canon(result,fq.Q)
  ensures all(k,cong(fq.Q, tv(result,k), sum(i,0,tb(a),tv(a,i)*tv(b,k-i))))
  loop 1
    invariant wf(r)
    invariant canon(r,fq.Q)
    invariant all(k,cong(fq.Q, tv(r,k), sum(i,0,idx,tv(a,i)*tv(b,k-i))))
  loop 2
    invariant wf(r)
    invariant canon(r,fq.Q)
    invariant all(k,cong(fq.Q, tv(r,k), sum(i,0,idx1,tv(a,i)*tv(b,k-i)) + tv(a,idx1)*ite(k-idx1 < idx, tv(b,k-idx1), 0)))

func Fq.LinearCombine f polynomials w
  requires f.Q > 1 && len(w) <= len(polynomials) && forall(i,0,len(w),wf(polynomials[i]) && nonnil(polynomials[i]))
  fresh
  ensures len(result) == len(w)
  ensures forall(i,0,len(w),wf(result[i]) && canon(result[i],f.Q))
  ensures forall(i,0,len(w),all(k,cong(f.Q, tv(result[i],k), tv(polynomials[i],k)*w[i])))
  loop 1
    invariant 0 <= i && i <= len(w) && len(scaledPolynomials) == len(w)
    invariant forall(j,0,i,wf(scaledPolynomials[j]) && canon(scaledPolynomials[j],f.Q))
    invariant forall(j,0,i,all(k,cong(f.Q, tv(scaledPolynomials[j],k), tv(polynomials[j],k)*w[j])))

func Fq.AddPolynomials f polynomials
  requires f.Q > 1 && forall(i,0,len(polynomials),wf(polynomials[i]) && nonnil(polynomials[i]))
  fresh
  ensures wf(result)
  ensures canon(result,f.Q)
  ensures all(k,cong(f.Q, tv(result,k), sum(i,0,len(polynomials),tv(polynomials[i],k))))
  loop 1
    invariant 0 <= i && i <= len(polynomials)
    invariant wf(sumPoly)
    invariant canon(sumPoly,f.Q)
    invariant all(k,cong(f.Q, tv(sumPoly,k), sum(j,0,i,tv(polynomials[j],k))))

func TransposeSparse matrix witness
  requires witness >= 0 && forall(y,0,len(matrix),wf(matrix[y]) && nonnil(matrix[y]) && tb(matrix[y]) <= witness)
  fresh
  ensures len(result) == witness
  ensures forall(x,0,witness,wf(result[x]))
  ensures forall(x,0,witness,all(k,tv(result[x],k) == ite(0 <= k && k < len(matrix), tv(matrix[k],x), 0)))
  loop 1
    invariant 0 <= i && i <= witness && len(r) == witness
    invariant forall(x,0,i,wf(r[x]) && nonnil(r[x]) && all(k,!th(r[x],k)))
  loop 2
    invariant len(r) == witness
    invariant forall(x,0,witness,wf(r[x]) && nonnil(r[x]))
    invariant forall(x,0,witness,all(k,tv(r[x],k) == ite(0 <= k && k < idx, tv(matrix[k],x), 0)))
  loop 3
    invariant len(r) == witness
    invariant forall(x,0,witness,wf(r[x]) && nonnil(r[x]))
    invariant forall(x,0,witness,all(k,tv(r[x],k) == ite(0 <= k && k < idx2, tv(matrix[k],x), ite(k == idx2 && x < idx, tv(matrix[idx2],x), 0))))

func euclid a b
  requires b > 0
  ensures result0*b + result1 == a && 0 <= result1 && result1 < b && result0 >= 0
