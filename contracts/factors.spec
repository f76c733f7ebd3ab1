# Linear combinations: a list of (token, coefficient); tval(t) is the value the assignment gives a token
# (1 for constants), so lc(f) is the value of the combination.
package circuitcompiler
property P13 P19
define lc(f) = sum(k,0,len(f),f[k].multiplicative*tval(f[k].typ))
define samefac(a,b) = a.multiplicative == b.multiplicative && a.typ.Type == b.typ.Type && a.typ.Identifier == b.typ.Identifier
define lcp(f,n) = sum(k,0,n,f[k].multiplicative*tval(f[k].typ))

func factors.Len f
  ensures result == len(f)
func factors.clone f
  ensures len(result) == len(f)
  ensures forall(k,0,len(f),result[k].multiplicative == f[k].multiplicative && result[k].typ.Type == f[k].typ.Type && result[k].typ.Identifier == f[k].typ.Identifier)
  ensures lc(result) == lc(f)
  fresh
  loop 1
    invariant len(res) == len(f)
    invariant forall(j,0,idx,res[j].multiplicative == f[j].multiplicative && res[j].typ.Type == f[j].typ.Type && res[j].typ.Identifier == f[j].typ.Identifier)
    invariant lcp(res,idx) == lcp(f,idx)
func factors.isSingleNumber f
  ensures iff(result, len(f) == 1 && f[0].typ.Type == 1)
func addFactor facLeft facRight
  ensures implies(result0, cong(field.Q, result1.multiplicative*tval(result1.typ), facLeft.multiplicative*tval(facLeft.typ) + facRight.multiplicative*tval(facRight.typ)))
func addFactors leftFactors rightFactors
  modifies rightFactors
  ensures cong(field.Q, lc(result), lc(leftFactors) + old(lc(rightFactors)))
  ensures len(result) >= 1
  loop 1
    invariant cong(field.Q, lc(res) + lc(rightFactors), lcp(leftFactors,idx) + old(lc(rightFactors)))
  loop 2
    invariant cong(field.Q, lc(res) + lc(rightFactors), lcp(leftFactors,idx1) + old(lc(rightFactors))) && 0 <= idx1 && idx1 < len(leftFactors) && !found
  loop 3
    invariant cong(field.Q, lc(res) + lc(rightFactors) - lcp(rightFactors,idx), lc(leftFactors) + old(lc(rightFactors)))
func negateFactors leftFactors
  modifies leftFactors
  returns leftFactors
  ensures cong(field.Q, lc(leftFactors), 0 - old(lc(leftFactors)))
  loop 1
    invariant cong(field.Q, lc(leftFactors), old(lc(leftFactors)) - 2*lcp(old(leftFactors),idx))
    invariant forall(j,idx,len(leftFactors),samefac(leftFactors[j],old(leftFactors)[j]))
func factors.scalarMultiplyFactors fact x
  modifies fact
  returns fact
  ensures cong(field.Q, lc(fact), x*old(lc(fact)))
  loop 1
    invariant cong(field.Q, lc(fact), old(lc(fact)) + (x-1)*lcp(old(fact),idx))
    invariant forall(j,idx,len(fact),samefac(fact[j],old(fact)[j]))
define mulinv(l,r,L,R,i) = len(l) == len(L) && len(r) == 1 && samefac(r[0],R[0]) && cong(field.Q, lc(l), lc(L) + (R[0].multiplicative*tval(R[0].typ) - 1)*lcp(L,i)) && forall(j,i,len(L),samefac(l[j],L[j]))
func mulFactors leftFactors rightFactors
  aliasresult
  modifies leftFactors
  modifies rightFactors
  requires len(leftFactors) >= 1 && len(rightFactors) >= 1
  requires len(leftFactors) == 1 && leftFactors[0].typ.Type == 1 || len(rightFactors) == 1 && rightFactors[0].typ.Type == 1
  requires forall(k,0,len(leftFactors),leftFactors[k].typ.Type == 1 || bitand(leftFactors[k].typ.Type,IN) != 0)
  requires forall(k,0,len(rightFactors),rightFactors[k].typ.Type == 1 || bitand(rightFactors[k].typ.Type,IN) != 0)
  ensures cong(field.Q, lc(result), old(lc(leftFactors))*old(lc(rightFactors)))
  loop 1
    invariant implies(len(old(leftFactors)) >= len(old(rightFactors)), mulinv(leftFactors,rightFactors,old(leftFactors),old(rightFactors),idx))
    invariant implies(len(old(leftFactors)) < len(old(rightFactors)), mulinv(leftFactors,rightFactors,old(rightFactors),old(leftFactors),idx) && old(leftFactors)[0].typ.Type == 1)
func extractGCD f
  modifies f
  returns f
  requires len(f) >= 1
  ensures cong(field.Q, result1*lc(f), old(lc(f)))
  loop 1
    invariant 1 <= i && i <= len(f)
    invariant forall(k,0,i,dvd(gcd,f[k].multiplicative))
  loop 2
    invariant 0 <= i && i <= len(f)
    invariant forall(k,i,len(f),dvd(gcd,f[k].multiplicative) && samefac(f[k],old(f)[k]))
    invariant cong(field.Q, gcd*lcp(f,i) + lc(f) - lcp(f,i), old(lc(f)))
func invertFactors leftFactors
  requires len(leftFactors) == 1 && leftFactors[0].typ.Type == 1
  requires leftFactors[0].multiplicative == 0 || !cong(field.Q, leftFactors[0].multiplicative, 0)
  ensures implies(leftFactors[0].multiplicative != 0, cong(field.Q, lc(result)*lc(leftFactors), 1))
  ensures len(result) == 1 && result[0].typ.Type == 1
  fresh
func factors.Swap f i j
  modifies f
  requires 0 <= i && i < len(f) && 0 <= j && j < len(f)
  ensures samefac(f[i],old(f)[j]) && samefac(f[j],old(f)[i])
  ensures forall(k,0,len(f),implies(k != i && k != j, samefac(f[k],old(f)[k])))
  ensures cong(field.Q, lc(f), old(lc(f)))
func factorSignature facs
  requires len(facs) >= 1
  ensures cong(field.Q, result0*lc(result1), lc(facs))
func extractConstant leftFactors rightFactors
  requires len(leftFactors) >= 1 && len(rightFactors) >= 1
  ensures cong(field.Q, result0*lc(result1)*lc(result2), lc(leftFactors)*lc(rightFactors))
  ensures red(field.Q, result0)
