package circuitcompiler

import (
	"fmt"
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// v11judge holds a returned vector against the system.
func v11judge(h *vh.H, what string, s *v11sys, in []*big.Int, w []*big.Int, err error) bool {
	if err != nil {
		return false
	}
	h.Check(len(w) == s.n, "length", "%s: the witness has %d entries for %d variables", what, len(w), s.n)
	for i, x := range w {
		h.Check(x != nil, "nil entry", "%s: entry %d of the witness is nil", what, i)
	}
	h.Check(w[0].Cmp(big.NewInt(1)) == 0, "one", "%s: first entry is %v; witness %s", what, w[0], vh.Bs(w))
	for i, k := range s.inputs {
		h.Check(w[k].Cmp(in[i]) == 0, "input", "%s: input %s=%v, the witness has %v", what, s.names[k], in[i], w[k])
	}
	for i, r := range s.rows {
		h.Check(r.defect(w).Sign() == 0, "row", "%s: inputs %s; row %d of %s is violated by the returned witness %s", what, vh.Bs(in), i, s.show(), vh.Bs(w))
	}
	return true
}

func v11run(h *vh.H, s *v11sys, in []*big.Int, must bool) {
	var args []InputArgument
	for i, k := range s.inputs {
		args = append(args, InputArgument{identifier: s.names[k], value: new(big.Int).Set(in[i])})
	}
	d := s.dense()
	w, err := CalculateWitness(d, args)
	ok := v11judge(h, "CalculateWitness", s, in, w, err)
	h.Check(ok || !must, "refused", "CalculateWitness: error %v although every row determines its one unknown: %s inputs %s", err, s.show(), vh.Bs(in))
	w, err = CalculateSparseWitness(s.sparse(), args)
	ok = v11judge(h, "CalculateSparseWitness", s, in, w, err)
	h.Check(ok || !must, "refused-sparse", "CalculateSparseWitness: error %v although every row determines its one unknown: %s inputs %s", err, s.show(), vh.Bs(in))
	c := s.dense()
	for i := range c.L {
		h.Check(vh.EqBs(c.L[i], d.L[i]) && vh.EqBs(c.R[i], d.R[i]) && vh.EqBs(c.E[i], d.E[i]) && vh.EqBs(c.O[i], d.O[i]), "system unchanged", "CalculateWitness changed row %d of the system", i)
	}
}

// a system satisfied by a hidden assignment, in which every row determines at most one further variable
func v11gen(h *vh.H) (s *v11sys, in []*big.Int, solvable bool) {
	q := v11q()
	s = &v11sys{split: map[string][]int{}}
	solvable = true
	ni := h.Intn(4)
	nv := 1 + h.Intn(5)
	s.names = []string{"1"}
	wit := []*big.Int{big.NewInt(1)}
	known := []int{0}
	small := func() *big.Int {
		switch h.Intn(3) {
		case 0:
			return big.NewInt(int64(h.Intn(9)))
		case 1:
			return new(big.Int).Mod(big.NewInt(int64(h.Intn(9)-4)), q)
		}
		return h.Elem(q)
	}
	add := func(name string, v *big.Int) int {
		s.names = append(s.names, name)
		wit = append(wit, v)
		return len(wit) - 1
	}
	for i := 0; i < ni; i++ {
		k := add(fmt.Sprintf("x%d", i), small())
		s.inputs = append(s.inputs, k)
		known = append(known, k)
	}
	var unk []int
	for i := 0; i < nv; i++ {
		unk = append(unk, add(fmt.Sprintf("v%d", i), small()))
	}
	// bits of inputs and of computed variables
	bits := map[int][]int{}
	for _, k := range h.R.Perm(len(wit) - 1) {
		k++
		if h.Intn(3) > 0 {
			continue
		}
		for b := 0; b < 1+h.Intn(6); b++ {
			bits[k] = append(bits[k], add(fmt.Sprintf("%d%s", b, s.names[k]), big.NewInt(int64(wit[k].Bit(b)))))
		}
		s.split[s.names[k]] = bits[k]
	}
	s.n = len(wit)
	avail := append([]int{}, known...)
	for _, k := range known {
		avail = append(avail, bits[k]...)
	}
	list := func(max int) []*big.Int {
		a := v11zeros(s.n)
		for n := h.Intn(max + 1); n > 0; n-- {
			c := small()
			if h.Intn(2) == 0 {
				c = big.NewInt(1)
			}
			a[avail[h.Intn(len(avail))]] = c
		}
		return a
	}
	for len(unk) > 0 || h.Intn(3) > 0 {
		r := v11row{list(3), list(3), v11zeros(s.n), list(3)}
		if h.Intn(5) == 0 {
			r.e = list(2)
		}
		u := -1
		if len(unk) > 0 && h.Intn(4) > 0 {
			u, unk = unk[0], unk[1:]
			c := h.NonZero(q)
			if h.Intn(2) == 0 {
				c = big.NewInt(1)
			}
			switch h.Intn(3) {
			case 0:
				r.l[u] = c
				if v11dot(r.r, wit).Sign() == 0 {
					solvable = false
				}
			case 1:
				r.r[u] = c
				if v11dot(r.l, wit).Sign() == 0 {
					solvable = false
				}
			case 2:
				r.o[u] = c
			}
		}
		r.o[0] = new(big.Int).Mod(new(big.Int).Add(r.o[0], r.defect(wit)), q)
		s.rows = append(s.rows, r)
		if u > 0 {
			avail = append(avail, u)
			avail = append(avail, bits[u]...)
		}
	}
	for _, k := range s.inputs {
		in = append(in, wit[k])
	}
	return
}

func TestVerif_P11(t *testing.T) {
	vh.Run(t, "P11", func(h *vh.H) {
		h.Phase("systems satisfied by a hidden assignment", 0.45)
		for h.More(50) {
			s, in, ok := v11gen(h)
			h.Case(len(s.rows) > 1, "%s inputs %s", s.show(), vh.Bs(in))
			v11run(h, s, in, ok)
		}
		h.Phase("damaged systems", 0.35)
		for h.More(50) {
			s, in, _ := v11gen(h)
			for n := 1 + h.Intn(2); n > 0 && len(s.rows) > 0; n-- {
				r := s.rows[h.Intn(len(s.rows))]
				a := [][]*big.Int{r.l, r.r, r.e, r.o}[h.Intn(4)]
				switch h.Intn(4) {
				case 0:
					a[h.Intn(s.n)] = h.Elem(v11q())
				case 1:
					a[h.Intn(s.n)] = big.NewInt(1)
				case 2:
					a[h.Intn(s.n)] = new(big.Int)
				case 3:
					if len(in) > 0 {
						in[h.Intn(len(in))] = h.Elem(v11q())
					}
				}
			}
			h.Case(len(s.rows) > 1, "%s inputs %s", s.show(), vh.Bs(in))
			v11run(h, s, in, false)
		}
		h.Phase("unknown inputs and the random variable", 0.15)
		for h.More(30) {
			s, in, ok := v11gen(h)
			if h.Intn(2) == 0 {
				h.Case(true, "unknown input; %s", s.show())
				args := []InputArgument{{identifier: "nosuch", value: h.NonZero(v11q())}}
				for i, k := range s.inputs {
					args = append(args, InputArgument{identifier: s.names[k], value: in[i]})
				}
				for i, f := range []func() ([]*big.Int, error){func() ([]*big.Int, error) { return CalculateWitness(s.dense(), args) }, func() ([]*big.Int, error) { return CalculateSparseWitness(s.sparse(), args) }} {
					w, err := f()
					v11judge(h, []string{"CalculateWitness", "CalculateSparseWitness"}[i]+" with an unknown input", s, in, w, err)
				}
				continue
			}
			// rIn*rIn + x(rIn*G) = rOut
			s.names = append(s.names, randInput, randOutput)
			s.n += 2
			for i := range s.rows {
				for _, a := range []*[]*big.Int{&s.rows[i].l, &s.rows[i].r, &s.rows[i].e, &s.rows[i].o} {
					*a = append(*a, new(big.Int), new(big.Int))
				}
			}
			r := v11row{v11zeros(s.n), v11zeros(s.n), v11zeros(s.n), v11zeros(s.n)}
			r.l[s.n-2], r.r[s.n-2], r.e[s.n-2], r.o[s.n-1] = big.NewInt(1), big.NewInt(1), big.NewInt(1), big.NewInt(1)
			s.rows, s.random = append(s.rows, r), true
			h.Case(true, "%s inputs %s", s.show(), vh.Bs(in))
			v11run(h, s, in, ok)
		}
	})
}
