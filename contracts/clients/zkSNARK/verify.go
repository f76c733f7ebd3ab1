package zkSNARK

import "math/big"

// Client lemma: ghost code over the contract of VerifyProof (never compiled into the repository).
// One public input is replaced between two verifications of the same proof.
func lemmaOneInputChanged(pk *Pk, proof *Proof, s []*big.Int, j int, x *big.Int) (bool, bool) {
	first := VerifyProof(pk, proof, s, false)
	s[j] = x
	return first, VerifyProof(pk, proof, s, false)
}
