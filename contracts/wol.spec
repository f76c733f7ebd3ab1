# Verification equation of the proof system. Group elements are read through their discrete
# logarithms (see DESIGN.md): Add is addition, ScalarMult multiplication, Pair multiplication of
# logarithms modulo bn256.Order; xco(l) is the affine x coordinate of the point with logarithm l.
package zkSNARK
property P16
define pubsum(pk,s) = sum(k,0,len(s),pk.G1.RLEO_Gamma[k]*s[k])
define equation(pk,proof,s) = cong(bn256.Order, proof.PiA*(proof.PiB + pk.G2.Beta) + pk.eGH*xco(proof.PiF), pk.eGHalphaBeta + pubsum(pk,s)*pk.G2.Gamma + proof.PiC*pk.G2.Delta + proof.PiF*proof.PiB)
func VerifyProof pk proof publicSignals
  requires len(pk.G1.RLEO_Gamma) >= 1
  requires forall(k,0,len(publicSignals),0 <= publicSignals[k])
  ensures iff(result, len(publicSignals) == len(pk.G1.RLEO_Gamma) && equation(pk,proof,publicSignals))
  loop 1
    invariant 1 <= i && i <= len(publicSignals)
    invariant cong(bn256.Order, icPubl, sum(k,0,i,pk.G1.RLEO_Gamma[k]*publicSignals[k]))
func lemmaOneInputChanged pk proof s j x
  modifies s
  requires prime(bn256.Order) && 0 <= j && j < len(s) && 0 <= x
  requires len(pk.G1.RLEO_Gamma) >= 1
  requires forall(k,0,len(s),0 <= s[k])
  requires !cong(bn256.Order, pk.G1.RLEO_Gamma[j], 0) && !cong(bn256.Order, pk.G2.Gamma, 0)
  requires !cong(bn256.Order, s[j], x)
  ensures !(result0 && result1)
