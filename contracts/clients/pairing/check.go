package bn256

// Client lemma: the product check agrees with multiplying the single pairings.
func lemmaProductCheck(a []*G1, b []*G2) (bool, bool) {
	ok := PairingCheck(a, b)
	acc := OneGT()
	for i := 0; i < len(a); i++ {
		acc.Add(acc, Pair(a[i], b[i]))
	}
	return ok, acc.p.IsOne()
}
