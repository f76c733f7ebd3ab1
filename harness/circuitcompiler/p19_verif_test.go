package circuitcompiler

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// expressions of the program language, with their own evaluator
type v19exp struct {
	op   byte // 'n' number, 'v' variable, 'c' call, otherwise + - * /
	num  *big.Int
	name string
	args []*v19exp
}
type v19stmt struct {
	kind string // var, set, equal, call
	name string
	e, f *v19exp
}
type v19fun struct {
	name   string
	params []string
	body   []v19stmt
	ret    *v19exp
}
type v19prog struct {
	funs []*v19fun // funs[0] is main
}

func v19level(op byte) int {
	switch op {
	case '+', '-':
		return 1
	case '*', '/':
		return 2
	}
	return 3
}

// source text: brackets where the grouping of Go needs them and sometimes where it does not
func (e *v19exp) text(h *vh.H) string {
	sp := func() string { return []string{"", "", " ", " ", "  ", "\t"}[h.Intn(6)] }
	s := ""
	switch e.op {
	case 'n':
		s = e.num.String()
	case 'v':
		s = e.name
	case 'c':
		var a []string
		for _, x := range e.args {
			a = append(a, sp()+x.text(h)+sp())
		}
		s = e.name + "(" + strings.Join(a, ",") + ")"
	default:
		l, r := e.args[0].text(h), e.args[1].text(h)
		if v19level(e.args[0].op) < v19level(e.op) {
			l = "(" + l + ")"
		}
		if v19level(e.args[1].op) <= v19level(e.op) {
			r = "(" + r + ")"
		}
		s = l + sp() + string(e.op) + sp() + r
	}
	for h.Intn(12) == 0 {
		s = "(" + sp() + s + sp() + ")"
	}
	return s
}

type v19env struct {
	p     *v19prog
	vars  map[string]*big.Int
	holds bool // every equality seen so far holds
}

var v19undefined = fmt.Errorf("division by zero")

func (e *v19exp) eval(env *v19env) *big.Int {
	q := v11q()
	switch e.op {
	case 'n':
		return new(big.Int).Mod(e.num, q)
	case 'v':
		return env.vars[e.name]
	case 'c':
		for _, f := range env.p.funs {
			if f.name == e.name {
				in := &v19env{p: env.p, vars: map[string]*big.Int{}, holds: true}
				for i, x := range e.args {
					in.vars[f.params[i]] = x.eval(env)
				}
				v := f.run(in)
				env.holds = env.holds && in.holds
				return v
			}
		}
	}
	l, r := e.args[0].eval(env), e.args[1].eval(env)
	v := new(big.Int)
	switch e.op {
	case '+':
		v.Add(l, r)
	case '-':
		v.Sub(l, r)
	case '*':
		v.Mul(l, r)
	case '/':
		if r.Sign() == 0 {
			panic(v19undefined)
		}
		v.Mul(l, new(big.Int).ModInverse(r, q))
	}
	return v.Mod(v, q)
}
func (f *v19fun) run(env *v19env) *big.Int {
	for _, s := range f.body {
		switch s.kind {
		case "var", "set":
			env.vars[s.name] = s.e.eval(env)
		case "equal":
			l, r := s.e.eval(env), s.f.eval(env)
			env.holds = env.holds && l.Cmp(r) == 0
		}
	}
	if f.ret != nil {
		return f.ret.eval(env)
	}
	return nil
}
func (f *v19fun) text(h *vh.H) string {
	var b strings.Builder
	fmt.Fprintf(&b, "func %s(%s){\n", f.name, strings.Join(f.params, ","))
	for _, s := range f.body {
		if h.Intn(10) == 0 {
			b.WriteString("\n")
		}
		if h.Intn(10) == 0 {
			b.WriteString("#a comment, with (brackets and 1+2\n")
		}
		switch s.kind {
		case "var":
			fmt.Fprintf(&b, "\tvar %s = %s\n", s.name, s.e.text(h))
		case "set":
			fmt.Fprintf(&b, " %s=%s\n", s.name, s.e.text(h))
		case "equal":
			fmt.Fprintf(&b, " equal(%s , %s)\n", s.e.text(h), s.f.text(h))
		}
	}
	b.WriteString("return")
	if f.ret != nil {
		b.WriteString(" " + f.ret.text(h))
	}
	b.WriteString("\n}\n")
	return b.String()
}

func v19num(h *vh.H) *big.Int {
	switch h.Intn(8) {
	case 0:
		return new(big.Int).Rand(h.R, v11q())
	case 1:
		return new(big.Int)
	}
	return big.NewInt(int64(h.Intn(10)))
}
func v19expr(h *vh.H, depth int, vars []string, callees []*v19fun) *v19exp {
	if depth > 0 && h.Intn(4) != 0 {
		if len(callees) > 0 && h.Intn(5) == 0 {
			f := callees[h.Intn(len(callees))]
			e := &v19exp{op: 'c', name: f.name}
			for range f.params {
				e.args = append(e.args, v19expr(h, depth-1, vars, callees))
			}
			return e
		}
		op := []byte("++--**/")[h.Intn(7)]
		return &v19exp{op: op, args: []*v19exp{v19expr(h, depth-1, vars, callees), v19expr(h, depth-1, vars, callees)}}
	}
	if len(vars) == 0 || h.Intn(4) == 0 {
		return &v19exp{op: 'n', num: v19num(h)}
	}
	return &v19exp{op: 'v', name: vars[h.Intn(len(vars))]}
}
func v19generate(h *vh.H) (p *v19prog, checked int) {
	p = &v19prog{}
	names := []string{"x", "y", "z", "tmp", "a1", "a_b"}
	var callees []*v19fun
	depth := 1 + h.Intn(3)
	for i := h.Intn(3); i > 0; i-- {
		f := &v19fun{name: fmt.Sprintf("f%d", i)}
		f.params = append(f.params, []string{"x", "y", "p", "q"}[h.Intn(4)])
		if h.Intn(2) == 0 {
			f.params = append(f.params, "r")
		}
		vars := append([]string{}, f.params...)
		for j := h.Intn(3); j > 0; j-- {
			if h.Intn(3) == 0 { // give a parameter or variable a new value
				f.body = append(f.body, v19stmt{kind: "set", name: vars[h.Intn(len(vars))], e: v19expr(h, depth, vars, callees)})
				continue
			}
			n := fmt.Sprintf("l%d", j)
			f.body = append(f.body, v19stmt{kind: "var", name: n, e: v19expr(h, depth, vars, callees)})
			vars = append(vars, n)
		}
		f.ret = v19expr(h, depth, vars, callees)
		callees = append(callees, f)
	}
	m := &v19fun{name: "main"}
	vars := append([]string{}, names[:1+h.Intn(3)]...)
	m.params = append([]string{}, vars...)
	for j := h.Intn(5); j > 0; j-- {
		switch h.Intn(4) {
		case 0:
			m.body = append(m.body, v19stmt{kind: "set", name: vars[h.Intn(len(vars))], e: v19expr(h, depth, vars, callees)})
		case 1:
			n := fmt.Sprintf("expect%d", checked)
			checked++
			m.body = append(m.body, v19stmt{kind: "equal", e: v19expr(h, depth, vars, callees), f: &v19exp{op: 'v', name: n}})
			if h.Intn(2) == 0 {
				s := &m.body[len(m.body)-1]
				s.e, s.f = s.f, s.e
			}
		default:
			n := fmt.Sprintf("w%d", j)
			m.body = append(m.body, v19stmt{kind: "var", name: n, e: v19expr(h, depth, vars, callees)})
			vars = append(vars, n)
		}
	}
	// the final values of all variables
	for _, v := range vars {
		m.body = append(m.body, v19stmt{kind: "equal", e: &v19exp{op: 'v', name: v}, f: &v19exp{op: 'v', name: fmt.Sprintf("expect%d", checked)}})
		checked++
	}
	for i := 0; i < checked; i++ {
		m.params = append(m.params, fmt.Sprintf("expect%d", i))
	}
	if h.Intn(3) != 0 {
		m.ret = v19expr(h, depth, vars, callees)
	}
	p.funs = append([]*v19fun{m}, callees...)
	return
}

// the inputs together with the values which the equalities are to be given
func (p *v19prog) inputs(h *vh.H, in []*big.Int) (vals []*big.Int, ret *big.Int, ok bool) {
	m := p.funs[0]
	env := &v19env{p: p, vars: map[string]*big.Int{}, holds: true}
	for i, v := range in {
		env.vars[m.params[i]] = v
	}
	vals = append(vals, in...)
	vals = append(vals, make([]*big.Int, len(m.params)-len(in))...)
	defer func() {
		if r := recover(); r != nil {
			if r != v19undefined {
				panic(r)
			}
			ok = false
		}
	}()
	for _, s := range m.body {
		switch s.kind {
		case "var", "set":
			env.vars[s.name] = s.e.eval(env)
		case "equal":
			e, f := s.e, s.f
			if e.op == 'v' && strings.HasPrefix(e.name, "expect") {
				e, f = f, e
			}
			v := e.eval(env)
			env.vars[f.name] = v
			for i, n := range m.params {
				if n == f.name {
					vals[i] = v
				}
			}
		}
	}
	if m.ret != nil {
		ret = m.ret.eval(env)
	}
	return vals, ret, true
}

func v19witness(h *vh.H, code string, gates func() (*Program, []*Gate), vals []*big.Int, sparse bool) (w []*big.Int, err error) {
	p, g := gates()
	args := CombineInputs(p.GetMainCircuit().Inputs, vh.CopyBs(vals))
	if sparse {
		return CalculateSparseWitness(p.GatesToSparseR1CS(g, false), args)
	}
	return CalculateWitness(p.GatesToR1CS(g, false), args)
}

func v19occurs(w []*big.Int, v *big.Int) bool {
	for _, x := range w {
		if x.Cmp(v) == 0 {
			return true
		}
	}
	return false
}

func TestVerif_P19(t *testing.T) {
	vh.Run(t, "P19", func(h *vh.H) {
		q := v11q()
		h.Phase("random straight-line programs", 1)
		for h.More(60) {
			p, checked := v19generate(h)
			m := p.funs[0]
			ni := len(m.params) - checked
			code := ""
			for _, i := range h.R.Perm(len(p.funs)) {
				code += p.funs[i].text(h)
			}
			in := make([]*big.Int, ni)
			for i := range in {
				in[i] = h.Elem(q)
				if h.Intn(2) == 0 {
					in[i] = new(big.Int).Rand(h.R, q)
				}
			}
			vals, ret, ok := p.inputs(h, in)
			if !ok {
				continue
			}
			h.Case(checked > 0, "%s inputs %s", strings.Replace(code, "\n", "\\n", -1), vh.Bs(vals))
			gates := func() (*Program, []*Gate) {
				pr := Parse(code, true)
				return pr, pr.Execute()
			}
			for _, sparse := range []bool{false, true} {
				var w []*big.Int
				var err error
				bad := h.Try(func() { w, err = v19witness(h, code, gates, vals, sparse) })
				h.Check(bad == nil && err == nil, "refused", "sparse=%v: the program's equalities hold for these values but: panic %v, error %v", sparse, bad, err)
				if ret != nil && len(in) > 0 {
					// a returned value which depends on the inputs is part of the trace
					dep := false
					for k := 0; k < 3; k++ {
						alt := make([]*big.Int, ni)
						for i := range alt {
							alt[i] = new(big.Int).Rand(h.R, q)
						}
						_, r2, ok := p.inputs(h, alt)
						dep = dep || ok && r2.Cmp(ret) != 0
					}
					if dep {
						h.Check(v19occurs(w, ret), "result", "sparse=%v: returned value %v is not in the trace %s", sparse, ret, vh.Bs(w))
					}
				}
				// a wrong expectation must not get a witness
				if checked > 0 {
					k := ni + h.Intn(checked)
					wrong := vh.CopyBs(vals)
					d := big.NewInt(1)
					if h.Intn(2) == 0 {
						d = h.NonZero(q)
					}
					wrong[k].Add(wrong[k], d).Mod(wrong[k], q)
					bad = h.Try(func() { w, err = v19witness(h, code, gates, wrong, sparse) })
					h.Check(bad != nil || err != nil, "accepted", "sparse=%v: %s should be %v, witness accepted with %v", sparse, m.params[k], vals[k], wrong[k])
				}
			}
		}
	})
}
