package circuitcompiler

import (
	"fmt"
	"math/big"
	"testing"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

type v12term struct {
	id  string
	num bool
	c   *big.Int
}
type v12gate struct {
	kind       gateType
	id, rep    string
	noOut      bool
	l, r, e, o []v12term
}

func v12facs(l []v12term) (f factors) {
	for _, t := range l {
		ty := ARGUMENT
		if t.num {
			ty = NumberToken
		}
		f = append(f, factor{typ: Token{Type: ty, Identifier: t.id}, multiplicative: new(big.Int).Set(t.c)})
	}
	return
}
func (g *v12gate) build() *Gate {
	return &Gate{gateType: g.kind, identifier: g.id, noNewOutput: g.noOut, arithmeticRepresentatnt: Token{Type: ARGUMENT, Identifier: g.rep},
		leftIns: v12facs(g.l), rightIns: v12facs(g.r), expoIns: v12facs(g.e), outIns: v12facs(g.o)}
}
func (g *v12gate) String() string {
	s := func(l []v12term) string {
		t := ""
		for _, x := range l {
			n := x.id
			if x.num {
				n = "const(" + n + ")"
			}
			t += fmt.Sprintf("+%v*%s", x.c, n)
		}
		return t
	}
	return fmt.Sprintf("{%s %s rep=%s l=%s r=%s e=%s o=%s}", v14names[g.kind], g.id, g.rep, s(g.l), s(g.r), s(g.e), s(g.o))
}

func TestVerif_P12(t *testing.T) {
	q := bn256.Order
	vh.Run(t, "P12", func(h *vh.H) {
		for phase := 0; phase < 2; phase++ {
			h.Phase([]string{"gate lists with distinct operands", "gate lists with repeated operands and constants named like variables"}[phase], 0.5)
			for h.More(60) {
				v12one(h, q, phase == 1)
			}
		}
	})
}

func v12one(h *vh.H, q *big.Int, dup bool) {
	var pub, inputs, vars []string
	ni := h.Intn(5)
	for i := 0; i < ni; i++ {
		inputs = append(inputs, fmt.Sprintf("x%d", i))
	}
	pub = []string{"1"}
	for _, i := range h.R.Perm(ni) {
		if h.Intn(2) == 0 {
			pub = append(pub, inputs[i])
		}
	}
	vars = append(vars, inputs...)
	coef := func() *big.Int {
		switch h.Intn(4) {
		case 0:
			return h.NonZero(q)
		case 1:
			return new(big.Int).Sub(q, big.NewInt(int64(1+h.Intn(3))))
		case 2:
			return big.NewInt(int64(1 + h.Intn(5)))
		}
		return big.NewInt(1)
	}
	list := func(max int) (l []v12term) {
		used := map[string]bool{}
		nums := 0
		for n := h.Intn(max + 1); n > 0; n-- {
			x := v12term{c: coef()}
			if len(vars) == 0 || h.Intn(4) == 0 {
				if nums > 0 && !dup {
					continue
				}
				nums++
				x.num, x.id = true, x.c.String()
				if dup && len(vars) > 0 && h.Intn(2) == 0 {
					x.id = vars[h.Intn(len(vars))]
				}
			} else {
				x.id = vars[h.Intn(len(vars))]
				if used[x.id] && !dup {
					continue
				}
				used[x.id] = true
			}
			l = append(l, x)
		}
		return
	}
	var gates []*v12gate
	for n := h.Intn(7); n > 0; n-- {
		id := fmt.Sprintf("g%d", len(gates))
		g := &v12gate{id: id}
		self := []v12term{{id: id, c: big.NewInt(1)}}
		switch h.Intn(7) {
		case 0, 1:
			g.kind, g.l, g.r, g.o = multiplicationGate, list(3), list(3), self
		case 2:
			g.kind, g.l, g.r, g.o = multiplicationGate, self, list(4), list(3)
		case 3:
			g.kind, g.l, g.o = additionGate, list(4), self
		case 4:
			g.kind, g.l, g.r, g.noOut = equalityGate, list(3), list(3), true
		case 5:
			g.kind, g.e = scalarBaseMultiplyGate, list(3)
		case 6:
			if len(vars) == 0 {
				continue
			}
			rep := vars[h.Intn(len(vars))]
			var sum []v12term
			seen := false
			for _, x := range gates {
				seen = seen || x.kind == zeroOrOneGate && x.rep == rep
			}
			if seen {
				continue
			}
			for b := 0; b < 1+h.Intn(4); b++ {
				bit := fmt.Sprintf("%d%s", b, rep)
				gates = append(gates, &v12gate{kind: zeroOrOneGate, id: bit, rep: rep})
				vars = append(vars, bit)
				sum = append(sum, v12term{id: bit, c: new(big.Int).Lsh(big.NewInt(1), uint(b))})
			}
			g.kind, g.rep, g.l, g.noOut = sumCheckGate, rep, sum, true
		}
		gates = append(gates, g)
		if !g.noOut {
			vars = append(vars, id)
		}
	}
	rnd := h.Intn(3) == 0
	desc := fmt.Sprintf("public=%v inputs=%v randomize=%v", pub, inputs, rnd)
	for _, g := range gates {
		desc += " " + g.String()
	}
	h.Case(len(gates) > 1, "%s", desc)

	// the expected columns
	var cols []string
	at := map[string]int{}
	col := func(n string) {
		if _, ok := at[n]; !ok {
			at[n] = len(cols)
			cols = append(cols, n)
		}
	}
	for _, n := range pub {
		col(n)
	}
	for _, n := range inputs {
		col(n)
	}
	split := map[string][]int{}
	for _, g := range gates {
		if !g.noOut {
			col(g.id)
			if g.kind == zeroOrOneGate {
				split[g.rep] = append(split[g.rep], at[g.id])
			}
		}
	}
	if rnd {
		col(randInput)
		col(randOutput)
	}
	n := len(cols)
	vec := func(l []v12term) []*big.Int {
		a := v11zeros(n)
		for _, x := range l {
			k := 0
			if !x.num {
				k = at[x.id]
			}
			a[k].Add(a[k], x.c)
			a[k].Mod(a[k], q)
		}
		return a
	}
	unit := func(id string, c int64) []v12term { return []v12term{{id: id, c: big.NewInt(c)}} }
	var rows []v11row
	for _, g := range gates {
		switch g.kind {
		case multiplicationGate:
			rows = append(rows, v11row{vec(g.l), vec(g.r), vec(nil), vec(g.o)})
		case additionGate:
			rows = append(rows, v11row{vec(g.l), vec(unit("1", 1)), vec(nil), vec(g.o)})
		case equalityGate:
			rows = append(rows, v11row{vec(g.l), vec(unit("1", 1)), vec(nil), vec(g.r)})
		case scalarBaseMultiplyGate:
			rows = append(rows, v11row{vec(nil), vec(nil), vec(g.e), vec(unit(g.id, 1))})
		case zeroOrOneGate:
			rows = append(rows, v11row{vec(append(unit("1", -1), unit(g.id, 1)...)), vec(unit(g.id, 1)), vec(nil), vec(nil)})
		case sumCheckGate:
			rows = append(rows, v11row{vec(g.l), vec(unit("1", 1)), vec(nil), vec(unit(g.rep, 1))})
		}
	}
	if rnd {
		rows = append(rows, v11row{vec(unit(randInput, 1)), vec(unit(randInput, 1)), vec(unit(randInput, 1)), vec(unit(randOutput, 1))})
	}

	mk := func() (*Program, []*Gate) {
		p := newProgram()
		p.PublicInputs = append([]string{}, pub...)
		p.globalFunction.functions["main"] = &function{Inputs: append([]string{}, inputs...)}
		var gs []*Gate
		for _, g := range gates {
			gs = append(gs, g.build())
		}
		return p, gs
	}
	p, gs := mk()
	d := p.GatesToR1CS(gs, rnd)
	p, gs = mk()
	s := p.GatesToSparseR1CS(gs, rnd)
	for i, m := range []map[string]int{d.indexMap, s.indexMap} {
		what := []string{"dense", "sparse"}[i]
		h.Check(len(m) == n, "columns", "%s: %d columns for %d variables: %v", what, len(m), n, m)
		for k, v := range at {
			x, ok := m[k]
			h.Check(ok && x == v, "column", "%s: variable %s is at column %d, expected %d", what, k, x, v)
		}
	}
	for i, m := range []map[string][]int{d.splitmap, s.splitmap} {
		what := []string{"dense", "sparse"}[i]
		h.Check(fmt.Sprint(m) == fmt.Sprint(split), "bits", "%s: bit columns %v, expected %v", what, m, split)
	}
	h.Check(d.WitnessLength == n && s.WitnessLength == n && d.NumberOfGates == len(rows) && s.NumberOfGates == len(rows), "sizes", "sizes dense %d,%d sparse %d,%d, expected %d,%d", d.WitnessLength, d.NumberOfGates, s.WitnessLength, s.NumberOfGates, n, len(rows))
	h.Check(len(d.L) == len(rows) && len(d.R) == len(rows) && len(d.E) == len(rows) && len(d.O) == len(rows), "rows", "dense: %d,%d,%d,%d rows, expected %d", len(d.L), len(d.R), len(d.E), len(d.O), len(rows))
	h.Check(len(s.L) == len(rows) && len(s.R) == len(rows) && len(s.E) == len(rows) && len(s.O) == len(rows), "sparse rows", "sparse: %d,%d,%d,%d rows, expected %d", len(s.L), len(s.R), len(s.E), len(s.O), len(rows))
	arr := func(a *utils.AvlTree) []*big.Int {
		r := v11zeros(n)
		for _, e := range a.DecendingNodes() {
			h.Check(int(e.Key) < n, "sparse column", "sparse: coefficient at column %d of %d", e.Key, n)
			h.Check(e.Value.Sign() != 0, "sparse zero", "sparse: a zero coefficient is stored at column %d", e.Key)
			r[e.Key] = e.Value
		}
		return r
	}
	eq := func(a, b []*big.Int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if new(big.Int).Mod(new(big.Int).Sub(a[i], b[i]), q).Sign() != 0 {
				return false
			}
		}
		return true
	}
	sp := make([]v11row, len(rows))
	for i, w := range rows {
		sp[i] = v11row{arr(s.L[i]), arr(s.R[i]), arr(s.E[i]), arr(s.O[i])}
		for k, g := range []v11row{{d.L[i], d.R[i], d.E[i], d.O[i]}, sp[i]} {
			what := []string{"dense", "sparse"}[k]
			// a product may be written either way round, and an equality too
			ok := eq(g.e, w.e) && (eq(g.o, w.o) && (eq(g.l, w.l) && eq(g.r, w.r) || eq(g.l, w.r) && eq(g.r, w.l)))
			if !ok && i < len(gates) && gates[i].kind == equalityGate {
				ok = eq(g.e, w.e) && eq(g.r, w.r) && eq(g.l, w.o) && eq(g.o, w.l)
			}
			h.Check(ok, what+" row", "%s row %d: L=%s R=%s E=%s O=%s, expected L=%s R=%s E=%s O=%s (columns %v)", what, i, vh.Bs(g.l), vh.Bs(g.r), vh.Bs(g.e), vh.Bs(g.o), vh.Bs(w.l), vh.Bs(w.r), vh.Bs(w.e), vh.Bs(w.o), cols)
		}
		h.Check(eq(d.L[i], sp[i].l) && eq(d.R[i], sp[i].r) && eq(d.E[i], sp[i].e) && eq(d.O[i], sp[i].o), "dense and sparse", "row %d differs between the dense and the sparse system", i)
	}
	if len(rows) == 0 {
		return
	}
	dt := d.Transpose()
	st := s.TransposeSparse()
	h.Check(dt.WitnessLength == n && dt.NumberOfGates == len(rows) && st.WitnessLength == n && st.NumberOfGates == len(rows), "transposed sizes", "transposed sizes %d,%d and %d,%d", dt.WitnessLength, dt.NumberOfGates, st.WitnessLength, st.NumberOfGates)
	for k := 0; k < 4; k++ {
		a := [][][]*big.Int{d.L, d.R, d.E, d.O}[k]
		b := [][][]*big.Int{dt.L, dt.R, dt.E, dt.O}[k]
		c := [][]*utils.AvlTree{st.L, st.R, st.E, st.O}[k]
		h.Check(len(b) == n && len(c) == n, "transposed columns", "matrix %s: %d and %d transposed columns for %d variables", "LREO"[k:k+1], len(b), len(c), n)
		for j := 0; j < n; j++ {
			h.Check(len(b[j]) == len(rows), "transposed rows", "matrix %s: transposed column %d has %d entries", "LREO"[k:k+1], j, len(b[j]))
			sz := 0
			for i := range rows {
				h.Check(a[i][j].Cmp(b[j][i]) == 0, "transpose", "matrix %s: entry (%d,%d) is %v, transposed %v", "LREO"[k:k+1], i, j, a[i][j], b[j][i])
				x, err := c[j].Get(uint(i))
				if err != nil {
					x = new(big.Int)
				} else {
					sz++
				}
				h.Check(new(big.Int).Mod(new(big.Int).Sub(a[i][j], x), q).Sign() == 0, "sparse transpose", "matrix %s: entry (%d,%d) is %v, sparse transposed %v", "LREO"[k:k+1], i, j, a[i][j], x)
			}
			h.Check(c[j].Size() == sz, "sparse transpose extra", "matrix %s: transposed column %d has %d entries, %d rows", "LREO"[k:k+1], j, c[j].Size(), len(rows))
		}
	}
}
