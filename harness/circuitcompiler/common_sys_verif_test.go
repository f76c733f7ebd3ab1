package circuitcompiler

import (
	"fmt"
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

type v11row struct{ l, r, e, o []*big.Int }
type v11sys struct {
	n      int
	names  []string
	split  map[string][]int
	inputs []int
	random bool
	rows   []v11row
}

func v11q() *big.Int { return bn256.Order }
func v11zeros(n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}
func v11dot(a, w []*big.Int) *big.Int {
	s := new(big.Int)
	for i := range a {
		s.Add(s, new(big.Int).Mul(a[i], w[i]))
	}
	return s.Mod(s, v11q())
}

var v11memo = map[string]*big.Int{}

func v11base(k *big.Int) *big.Int {
	if k.Sign() == 0 {
		return new(big.Int)
	}
	if r, ok := v11memo[k.String()]; ok {
		return r
	}
	b := new(bn256.G1).ScalarBaseMult(k).Marshal()
	r := new(big.Int).SetBytes(b[:32])
	v11memo[k.String()] = r
	return r
}

// left*right + x(exp*G) - out modulo the field order
func (r v11row) defect(w []*big.Int) *big.Int {
	d := new(big.Int).Mul(v11dot(r.l, w), v11dot(r.r, w))
	d.Add(d, v11base(v11dot(r.e, w)))
	d.Sub(d, v11dot(r.o, w))
	return d.Mod(d, v11q())
}
func (s *v11sys) dense() *ER1CS {
	c := &ER1CS{indexMap: map[string]int{}, splitmap: map[string][]int{}, WitnessLength: s.n, NumberOfGates: len(s.rows)}
	for i, n := range s.names {
		c.indexMap[n] = i
	}
	for k, v := range s.split {
		c.splitmap[k] = append([]int{}, v...)
	}
	for _, r := range s.rows {
		c.L = append(c.L, vh.CopyBs(r.l))
		c.R = append(c.R, vh.CopyBs(r.r))
		c.E = append(c.E, vh.CopyBs(r.e))
		c.O = append(c.O, vh.CopyBs(r.o))
	}
	return c
}
func (s *v11sys) sparse() *ER1CSSparse {
	d := s.dense()
	c := &ER1CSSparse{indexMap: d.indexMap, splitmap: d.splitmap, WitnessLength: s.n, NumberOfGates: len(s.rows)}
	for i := range s.rows {
		c.L = append(c.L, utils.NewSparseArrayFromArray(d.L[i]))
		c.R = append(c.R, utils.NewSparseArrayFromArray(d.R[i]))
		c.E = append(c.E, utils.NewSparseArrayFromArray(d.E[i]))
		c.O = append(c.O, utils.NewSparseArrayFromArray(d.O[i]))
	}
	return c
}
func (s *v11sys) show() string {
	sp := func(a []*big.Int) string {
		t := "["
		for i, x := range a {
			if x.Sign() != 0 {
				t += fmt.Sprintf(" %d:%v", i, x)
			}
		}
		return t + " ]"
	}
	t := fmt.Sprintf("columns=%d inputs=%v split=%v random=%v", s.n, s.inputs, s.split, s.random)
	for _, r := range s.rows {
		t += fmt.Sprintf("; L%s R%s E%s O%s", sp(r.l), sp(r.r), sp(r.e), sp(r.o))
	}
	return t
}

var v14kinds = []gateType{multiplicationGate, scalarBaseMultiplyGate, equalityGate, additionGate, sumCheckGate, zeroOrOneGate}
var v14names = map[gateType]string{multiplicationGate: "mult", scalarBaseMultiplyGate: "base", equalityGate: "equal", additionGate: "add", sumCheckGate: "sum", zeroOrOneGate: "bit"}
