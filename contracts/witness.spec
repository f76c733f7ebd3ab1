# Witness generation from dense constraint systems.
package circuitcompiler
property P11
trackmaps
define width(r1cs) = len(r1cs.indexMap)
define vpos(r1cs,id) = r1cs.indexMap[id]
define matrix(m,n) = forall(r,0,len(m),len(m[r]) == n) && forall(r,0,len(m),forall(k,0,n,!isnil(m[r][k]))) && forall(r,0,len(m),forall(k,0,n,m[r][k] == 0 || !cong(bn256.Order, m[r][k], 0)))
define dot(m,r,w) = sum(k,0,len(w),m[r][k]*w[k])
define rowholds(r1cs,r,w) = cong(field.Q, dot(r1cs.L,r,w)*dot(r1cs.R,r,w) + xco(mod(dot(r1cs.E,r,w),field.Q)), dot(r1cs.O,r,w))
define rowset(r1cs,r,s) = forall(k,0,len(s),implies(!s[k], r1cs.L[r][k] == 0 && r1cs.R[r][k] == 0 && r1cs.E[r][k] == 0 && r1cs.O[r][k] == 0))
define inputsheld(r1cs,input,w) = forall(k,0,len(input),w[vpos(r1cs,input[k].identifier)] == input[k].value)
define inputsset(r1cs,input,s) = forall(k,0,len(input),s[vpos(r1cs,input[k].identifier)])
define nonneg(w) = forall(k,0,len(w),0 <= w[k])
func CalculateWitness r1cs input
  logs
  requires prime(field.Q) && field.Q > 2 && field.Q == bn256.Order
  requires width(r1cs) >= 1
  requires forall(k,0,len(input),0 <= input[k].value)
  panics vpos(r1cs,randInput) != 0
  requires len(r1cs.L) == len(r1cs.R) && len(r1cs.L) == len(r1cs.E) && len(r1cs.L) == len(r1cs.O)
  requires matrix(r1cs.L, width(r1cs)) && matrix(r1cs.R, width(r1cs)) && matrix(r1cs.E, width(r1cs)) && matrix(r1cs.O, width(r1cs))
  requires all(id,0 <= vpos(r1cs,id) && vpos(r1cs,id) < width(r1cs))
  requires forall(k,0,len(input),vpos(r1cs,input[k].identifier) != 0)
  requires forall(k,0,len(input),forall(j,0,k,vpos(r1cs,input[k].identifier) != vpos(r1cs,input[j].identifier)))
  requires all(id,implies(has(r1cs.splitmap,id), forall(b,0,len(r1cs.splitmap[id]),1 <= r1cs.splitmap[id][b] && r1cs.splitmap[id][b] < width(r1cs) && forall(k,0,len(input),vpos(r1cs,input[k].identifier) != r1cs.splitmap[id][b]))))
  ensures implies(isnil(result1), len(result0) == width(r1cs) && result0[0] == 1 && inputsheld(r1cs,input,result0))
  ensures implies(isnil(result1), forall(r,0,len(r1cs.L),rowholds(r1cs,r,result0)))
  loop 1
    invariant len(witness) == width(r1cs) && len(set) == width(r1cs)
    invariant witness[0] == 1 && set[0] && nonneg(witness)
    invariant forall(k,0,idx,witness[vpos(r1cs,input[k].identifier)] == input[k].value && set[vpos(r1cs,input[k].identifier)])
  loop 2
    invariant len(witness) == width(r1cs) && len(set) == width(r1cs)
    invariant witness[0] == 1 && set[0] && nonneg(witness)
    invariant inputsheld(r1cs,input,witness) && inputsset(r1cs,input,set)
    invariant all(k,implies(has(inverseSplitmap,k), len(inverseSplitmap[k]) == 2 && 0 <= inverseSplitmap[k][0] && 0 <= inverseSplitmap[k][1] && inverseSplitmap[k][1] < width(r1cs)))
  loop 3
    invariant len(witness) == width(r1cs) && len(set) == width(r1cs)
    invariant witness[0] == 1 && set[0] && nonneg(witness)
    invariant inputsheld(r1cs,input,witness) && inputsset(r1cs,input,set)
  loop 4
    invariant all(k,implies(has(inverseSplitmap,k), len(inverseSplitmap[k]) == 2 && 0 <= inverseSplitmap[k][0] && 0 <= inverseSplitmap[k][1] && inverseSplitmap[k][1] < width(r1cs)))
  loop 5
    invariant len(knowns) == len(array) && nonneg(witness)
    invariant all(k,implies(atentry(set)[k], set[k] && witness[k] == atentry(witness)[k]))
    invariant all(k,implies(set[k] && !atentry(set)[k], has(inverseSplitmap,k)))
    invariant forall(k,0,idx,knowns[k] == ite(set[k],array[k],0))
    invariant forall(k,idx,len(knowns),knowns[k] == 0)
    invariant forall(u,0,len(unknownsAtIndices),0 <= unknownsAtIndices[u] && unknownsAtIndices[u] < idx && array[unknownsAtIndices[u]] != 0 && !set[unknownsAtIndices[u]] && !has(inverseSplitmap,unknownsAtIndices[u]))
    invariant implies(len(unknownsAtIndices) == 0, forall(k,0,idx,set[k] || array[k] == 0))
    invariant implies(len(unknownsAtIndices) == 1, forall(k,0,idx,k == unknownsAtIndices[0] || set[k] || array[k] == 0))
  loop 6
    invariant 0 <= i && i <= len(r1cs.L)
    invariant witness[0] == 1 && set[0] && nonneg(witness)
    invariant inputsheld(r1cs,input,witness) && inputsset(r1cs,input,set)
    invariant forall(r,0,i,rowset(r1cs,r,set))
    invariant forall(r,0,i,rowholds(r1cs,r,witness))
