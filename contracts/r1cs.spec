# Constraint rows from gates.
package circuitcompiler
property P12
trackmaps
define col(m,f) = ite(f.typ.Type == NumberToken, 0, m[f.typ.Identifier])
define upto(m,ins,k,n) = sum(j,0,n,ite(col(m,ins[j]) == k, ins[j].multiplicative, 0))
define coef(m,ins,k) = upto(m,ins,k,len(ins))
define facsok(ins) = forall(j,0,len(ins),nonnil(ins[j]))
define colsok(m) = all(k,implies(has(m,k), 0 <= m[k] && m[k] < len(m)))
define onecol(m) = all(k,all(j,implies(has(m,k) && has(m,j) && m[k] == m[j], k == j)))
define pubs(m,p) = forall(i,0,len(p.PublicInputs),has(m,p.PublicInputs[i]) && m[p.PublicInputs[i]] == i)
define notrand(k) = k != randInput && k != randOutput
define norand(m) = !has(m,randInput) && !has(m,randOutput)
define big(m,g,k) = ite(len(g.rightIns) > len(g.leftIns), coef(m,g.rightIns,k), coef(m,g.leftIns,k))
define small(m,g,k) = ite(len(g.rightIns) > len(g.leftIns), coef(m,g.leftIns,k), coef(m,g.rightIns,k))
define at(k,c) = ite(k == c, 1, 0)
define rowL(m,g,k) = ite(g.gateType == zeroOrOneGate, ite(k == m[g.identifier], 1, ite(k == 0, 0-1, 0)), ite(g.gateType == scalarBaseMultiplyGate, 0, big(m,g,k)))
define rowR(m,g,k) = ite(g.gateType == multiplicationGate, small(m,g,k), ite(g.gateType == scalarBaseMultiplyGate, 0, ite(g.gateType == zeroOrOneGate, at(k,m[g.identifier]), at(k,0))))
define rowE(m,g,k) = ite(g.gateType == scalarBaseMultiplyGate, coef(m,g.expoIns,k), 0)
define rowO(m,g,k) = ite(g.gateType == multiplicationGate || g.gateType == additionGate, coef(m,g.outIns,k), ite(g.gateType == scalarBaseMultiplyGate, at(k,m[g.identifier]), ite(g.gateType == equalityGate, small(m,g,k), ite(g.gateType == sumCheckGate, at(k,m[g.arithmeticRepresentatnt.Identifier]), 0))))
define rowsL(r1cs,m,gs,n,w) = forall(r,0,n,forall(k,0,w,cong(field.Q, r1cs.L[r][k], rowL(m,gs[r],k))))
define rowsR(r1cs,m,gs,n,w) = forall(r,0,n,forall(k,0,w,cong(field.Q, r1cs.R[r][k], rowR(m,gs[r],k))))
define rowsE(r1cs,m,gs,n,w) = forall(r,0,n,forall(k,0,w,cong(field.Q, r1cs.E[r][k], rowE(m,gs[r],k))))
define rowsO(r1cs,m,gs,n,w) = forall(r,0,n,forall(k,0,w,cong(field.Q, r1cs.O[r][k], rowO(m,gs[r],k))))
define lens(r1cs,n) = len(r1cs.L) == n && len(r1cs.R) == n && len(r1cs.E) == n && len(r1cs.O) == n
define rect(a) = forall(y,0,len(a),len(a[y]) == len(a[0]))
define full(a) = forall(y,0,len(a),forall(x,0,len(a[0]),nonnil(a[y][x])))
define transp(t,a) = len(t) == len(a[0]) && forall(x,0,len(a[0]),len(t[x]) == len(a)) && forall(x,0,len(a[0]),forall(y,0,len(a),t[x][y] == a[y][x]))
func Program.GatesToR1CS p mGates randomize
  panics 1 == 1
  requires field.Q > 1
  requires len(p.PublicInputs) >= 1
  requires forall(i,0,len(p.PublicInputs),forall(j,0,i,p.PublicInputs[i] != p.PublicInputs[j]))
  requires forall(r,0,len(mGates),facsok(mGates[r].leftIns)) && forall(r,0,len(mGates),facsok(mGates[r].rightIns)) && forall(r,0,len(mGates),facsok(mGates[r].outIns)) && forall(r,0,len(mGates),facsok(mGates[r].expoIns))
  requires forall(i,0,len(p.PublicInputs),notrand(p.PublicInputs[i])) && forall(i,0,len(p.globalFunction.Inputs),notrand(p.globalFunction.Inputs[i])) && forall(i,0,len(mGates),notrand(mGates[i].identifier))
  ensures pubs(result.indexMap,p)
  ensures colsok(result.indexMap)
  ensures onecol(result.indexMap)
  ensures result.WitnessLength == len(result.indexMap)
  ensures result.NumberOfGates == len(result.L) && lens(result,len(mGates)+ite(randomize,1,0))
  ensures rowsL(result,result.indexMap,mGates,len(mGates),len(result.indexMap))
  ensures rowsR(result,result.indexMap,mGates,len(mGates),len(result.indexMap))
  ensures rowsE(result,result.indexMap,mGates,len(mGates),len(result.indexMap))
  ensures rowsO(result,result.indexMap,mGates,len(mGates),len(result.indexMap))
  loop 1
    invariant len(indexMap) == idx
    invariant forall(i,0,idx,has(indexMap,p.PublicInputs[i]) && indexMap[p.PublicInputs[i]] == i)
    invariant colsok(indexMap)
    invariant onecol(indexMap)
    invariant norand(indexMap)
    invariant all(k,implies(has(indexMap,k), p.PublicInputs[indexMap[k]] == k))
  loop 2
    invariant len(indexMap) >= len(p.PublicInputs) && pubs(indexMap,p)
    invariant colsok(indexMap)
    invariant onecol(indexMap)
    invariant norand(indexMap)
  loop 3
    invariant len(indexMap) >= len(p.PublicInputs) && pubs(indexMap,p)
    invariant colsok(indexMap)
    invariant onecol(indexMap)
    invariant norand(indexMap)
  loop 4
    invariant size == len(indexMap) && size >= 1
    invariant lens(r1CS,idx)
    generalise indexMap
    invariant pubs(indexMap,p)
    invariant onecol(indexMap)
    hidden rowsL(r1CS,indexMap,mGates,idx,len(indexMap))
    hidden rowsR(r1CS,indexMap,mGates,idx,len(indexMap))
    hidden rowsE(r1CS,indexMap,mGates,idx,len(indexMap))
    hidden rowsO(r1CS,indexMap,mGates,idx,len(indexMap))
    invariant colsok(indexMap)
  loop 5
    invariant len(aConstraint) == size && forall(k,0,size, cong(field.Q, aConstraint[k], upto(indexMap,g.leftIns,k,idx)))
  loop 6
    invariant len(bConstraint) == size && forall(k,0,size, cong(field.Q, bConstraint[k], upto(indexMap,g.rightIns,k,idx)))
  loop 7
    invariant len(cConstraint) == size && forall(k,0,size, cong(field.Q, cConstraint[k], upto(indexMap,g.outIns,k,idx)))
  loop 8
    invariant len(eConstraint) == size && forall(k,0,size, cong(field.Q, eConstraint[k], upto(indexMap,g.expoIns,k,idx)))
  loop 9
    invariant len(aConstraint) == size && forall(k,0,size, cong(field.Q, aConstraint[k], upto(indexMap,g.leftIns,k,idx)))
  loop 10
    invariant len(cConstraint) == size && forall(k,0,size, cong(field.Q, cConstraint[k], upto(indexMap,g.rightIns,k,idx)))
  loop 11
    invariant len(aConstraint) == size && forall(k,0,size, cong(field.Q, aConstraint[k], upto(indexMap,g.leftIns,k,idx)))
  loop 12
    invariant len(cConstraint) == size && forall(k,0,size, cong(field.Q, cConstraint[k], upto(indexMap,g.outIns,k,idx)))
  loop 13
    invariant len(aConstraint) == size && forall(k,0,size, cong(field.Q, aConstraint[k], upto(indexMap,g.leftIns,k,idx)))

func ER1CS.Transpose er1cs
  requires len(er1cs.L) >= 1 && len(er1cs.R) >= 1 && len(er1cs.E) >= 1 && len(er1cs.O) >= 1
  requires rect(er1cs.L) && rect(er1cs.R) && rect(er1cs.E) && rect(er1cs.O)
  requires full(er1cs.L) && full(er1cs.R) && full(er1cs.E) && full(er1cs.O)
  ensures transp(result.L,er1cs.L) && transp(result.R,er1cs.R) && transp(result.E,er1cs.E) && transp(result.O,er1cs.O)
  ensures result.NumberOfGates == er1cs.NumberOfGates && result.WitnessLength == er1cs.WitnessLength
  ensures all(k,has(result.indexMap,k) == has(er1cs.indexMap,k) && result.indexMap[k] == er1cs.indexMap[k])
