package bn256

// Client lemmas: ghost code over the contracts of Marshal and Unmarshal (never compiled into the
// repository). Their contracts state the round trip; the branches only split the proof.

func lemmaRoundTripG1(e, d *G1) error {
	if e.p.IsInfinity() {
		m := e.Marshal()
		_, err := d.Unmarshal(m)
		return err
	}
	m := e.Marshal()
	_, err := d.Unmarshal(m)
	return err
}

func lemmaRoundTripG2(e, d *G2) error {
	if e.p.IsInfinity() {
		m := e.Marshal()
		_, err := d.Unmarshal(m)
		return err
	}
	m := e.Marshal()
	_, err := d.Unmarshal(m)
	return err
}

func lemmaRoundTripGT(e, d *GT) bool {
	m := e.Marshal()
	_, ok := d.Unmarshal(m)
	return ok
}

func lemmaEqualEncodingsG1(a, b *G1) ([]byte, []byte) {
	if a.p.IsInfinity() {
		return a.Marshal(), b.Marshal()
	}
	return a.Marshal(), b.Marshal()
}

func lemmaEqualEncodingsGT(a, b *GT) ([]byte, []byte) {
	return a.Marshal(), b.Marshal()
}
