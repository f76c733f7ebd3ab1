package circuitcompiler

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

type v14fac struct {
	id string
	c  int64
}

func v14list(h *vh.H, max int) (r []v14fac) {
	ids := []string{"a", "b", "c", "1234567890123456"}
	cs := []int64{1, 1, 2, 3, -1}
	used := map[string]bool{}
	for n := h.Intn(max + 1); n > 0; n-- {
		x := v14fac{ids[h.Intn(len(ids))], cs[h.Intn(len(cs))]}
		if used[x.id] {
			continue
		}
		used[x.id] = true
		r = append(r, x)
	}
	return
}

// a private copy in a random order
func v14facs(h *vh.H, l []v14fac) (f factors) {
	for _, i := range h.R.Perm(len(l)) {
		f = append(f, factor{typ: Token{Type: ARGUMENT, Identifier: l[i].id}, multiplicative: big.NewInt(l[i].c)})
	}
	return
}
func v14key(l []v14fac) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%s*%d", x.id, x.c))
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func TestVerif_P14(t *testing.T) {
	vh.Run(t, "P14", func(h *vh.H) {
		h.Phase("histories of insertions", 0.6)
		for h.More(60) {
			g := newGateContainer()
			seen := map[string]*Gate{}
			var want []*Gate
			var desc []string
			n := 2 + h.Intn(12)
			pool := [][]v14fac{nil, v14list(h, 3), v14list(h, 3), v14list(h, 2)}
			for i := 0; i < n; i++ {
				kind := v14kinds[h.Intn(len(v14kinds))]
				var l, r, e, o []v14fac
				gate := &Gate{gateType: kind}
				key := v14names[kind]
				switch kind {
				case multiplicationGate: // products and, with an output, quotients
					l, r = pool[h.Intn(len(pool))], pool[1+h.Intn(len(pool)-1)]
					if h.Intn(3) == 0 {
						o = l
						l = nil
					}
					k := []string{v14key(l), v14key(r)}
					sort.Strings(k)
					key += "(" + strings.Join(k, ",") + ")->" + v14key(o)
				case equalityGate:
					l, r = pool[h.Intn(len(pool))], pool[1+h.Intn(len(pool)-1)]
					k := []string{v14key(l), v14key(r)}
					sort.Strings(k)
					key += "(" + strings.Join(k, ",") + ")"
				case scalarBaseMultiplyGate:
					e = pool[1+h.Intn(len(pool)-1)]
					key += "(" + v14key(e) + ")"
				case additionGate, sumCheckGate:
					l = pool[1+h.Intn(len(pool)-1)]
					key += "(" + v14key(l) + ")"
				case zeroOrOneGate:
					gate.identifier = fmt.Sprintf("%dx", h.Intn(4))
					gate.arithmeticRepresentatnt = Token{Type: ARGUMENT, Identifier: "x"}
					key += gate.identifier
				}
				gate.leftIns, gate.rightIns, gate.expoIns, gate.outIns = v14facs(h, l), v14facs(h, r), v14facs(h, e), v14facs(h, o)
				if h.Intn(4) == 0 {
					gate.ID() // identifiers may be asked for before the gate is added
				}
				desc = append(desc, key)
				g.Add(gate)
				if seen[key] == nil {
					seen[key] = gate
					want = append(want, gate)
				}
				if h.Intn(4) == 0 { // adding the same object twice changes nothing
					g.Add(gate)
				}
				h.Check(g.contains(gate.ID()), "added gate is known", "history %v", desc)
			}
			h.Case(len(want) > 1, "history of %d insertions, %d different gates: %v", n, len(want), desc)
			same := len(g.orderedmGates) == len(want)
			for i := range want {
				same = same && g.orderedmGates[i] == want[i]
			}
			h.Check(same, "kept gates", "history %v keeps %d gates %v, wanted %d different ones in the order of insertion", desc, len(g.orderedmGates), g.orderedmGates, len(want))
			ids := map[string]bool{}
			for _, x := range g.orderedmGates {
				h.Check(!ids[x.ID()] && x.ID() != "", "own identifier", "history %v: identifier %q of two kept gates", desc, x.ID())
				ids[x.ID()] = true
			}
			h.Check(len(g.computedFactors) == len(g.orderedmGates), "index", "history %v: %d identifiers for %d gates", desc, len(g.computedFactors), len(g.orderedmGates))
		}
		h.Phase("gates of compiled programs", 0.4)
		for h.More(30) {
			vs := []string{"a", "b", "c"}
			want := map[string]int{}
			var order []string
			code := "func main(a,b,c){\n"
			n := 1 + h.Intn(6)
			for i := 0; i < n; i++ {
				x, y := vs[h.Intn(3)], vs[h.Intn(3)]
				p := x + "," + y
				if y < x {
					p = y + "," + x
				}
				k := ""
				switch h.Intn(4) {
				case 0:
					code += fmt.Sprintf("var v%d = %s * %s\nequal(v%d , c)\n", i, x, y, i)
					for _, k := range []string{"mult(" + p + ")", "equal(" + p + ";c)"} {
						if want[k] == 0 {
							order = append(order, k[:4])
						}
						want[k]++
					}
					continue
				case 1:
					code += fmt.Sprintf("equal(%s,%s)\n", x, y)
					k = "equal(" + p + ")"
				case 2:
					if x == y {
						continue
					}
					code += fmt.Sprintf("var v%d = addGateConstraint(%s,%s)\nequal(v%d,a)\n", i, x, y, i)
					for _, k := range []string{"add_(" + p + ")", "equal(+" + p + ";a)"} {
						if want[k] == 0 {
							order = append(order, k[:4])
						}
						want[k]++
					}
					continue
				case 3:
					code += fmt.Sprintf("var v%d = scalarBaseMultiply(%s)\nequal(v%d,b)\n", i, x, i)
					for _, k := range []string{"base(" + x + ")", "equal(g" + x + ";b)"} {
						if want[k] == 0 {
							order = append(order, k[:4])
						}
						want[k]++
					}
					continue
				}
				if want[k] == 0 {
					order = append(order, k[:4])
				}
				want[k]++
			}
			code += "return\n}"
			h.Case(n > 1, "%s", code)
			var got []string
			if p := h.Try(func() {
				for _, g := range Parse(code, true).Execute() {
					got = append(got, map[gateType]string{multiplicationGate: "mult", scalarBaseMultiplyGate: "base", equalityGate: "equa", additionGate: "add_"}[g.gateType])
				}
			}); p != nil {
				h.Fail("program", "%s\npanics: %v", code, p)
				continue
			}
			// equality constraints on a fresh product are made while the product is compiled again
			h.Check(strings.Join(got, " ") == strings.Join(order, " "), "gates of the program", "%s\ngives gates %v, wanted %v", code, got, order)
		}
	})
}
