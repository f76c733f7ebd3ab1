package zkSNARK

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// a random program whose equalities hold: its text, inputs and the names of its inputs
func v15program(h *vh.H) (code string, in []*big.Int) {
	q := bn256.Order
	val := map[string]*big.Int{}
	ni := 1 + h.Intn(3)
	var names []string
	for i := 0; i < ni; i++ {
		n := string(rune('a' + i))
		names = append(names, n)
		val[n] = h.Elem(q)
		if h.Intn(2) == 0 {
			val[n] = big.NewInt(int64(h.Intn(5)))
		}
	}
	inputs := append([]string{}, names...)
	var pub []string
	for _, n := range names {
		if h.Intn(2) == 0 {
			pub = append(pub, n)
		}
	}
	body := ""
	if len(pub) > 0 {
		h.R.Shuffle(len(pub), func(i, j int) { pub[i], pub[j] = pub[j], pub[i] })
		body += "public{\n" + strings.Join(pub, ",") + "\n}\n"
	}
	k := 1 + h.Intn(4)
	for i := 0; i < k; i++ {
		x, y := names[h.Intn(len(names))], names[h.Intn(len(names))]
		v := fmt.Sprintf("v%d", i)
		r := new(big.Int)
		c := int64(1 + h.Intn(4))
		switch h.Intn(6) {
		case 0:
			body += fmt.Sprintf("var %s = (%s+%d)*%s\n", v, x, c, y)
			r.Mul(r.Add(val[x], big.NewInt(c)), val[y])
		case 1:
			body += fmt.Sprintf("var %s = %s-%d*%s\n", v, x, c, y)
			r.Sub(val[x], r.Mul(val[y], big.NewInt(c)))
		case 2:
			if val[y].Sign() == 0 {
				continue
			}
			body += fmt.Sprintf("var %s = %s/%s\n", v, x, y)
			r.Mul(val[x], r.ModInverse(val[y], q))
		case 3:
			// an equality which is checked by a gate without an output
			e := fmt.Sprintf("e%d", i)
			body += fmt.Sprintf("equal(%s*%s,%s)\n", x, y, e)
			val[e] = new(big.Int).Mul(val[x], val[y])
			val[e].Mod(val[e], q)
			inputs = append(inputs, e)
			continue
		default:
			body += fmt.Sprintf("var %s = %s*%s\n", v, x, y)
			r.Mul(val[x], val[y])
		}
		val[v] = r.Mod(r, q)
		names = append(names, v)
	}
	if os.Getenv("VERIF_TIER") == "thorough" && h.Intn(30) == 0 {
		body += fmt.Sprintf("SPLIT(%s)\n", inputs[0])
	}
	code = "func main(" + strings.Join(inputs, ",") + "){\n" + body + "return " + names[h.Intn(len(names))] + "*" + names[h.Intn(len(names))] + "\n}\n"
	for _, n := range inputs {
		in = append(in, val[n])
	}
	return
}

func v15dense(h *vh.H, pr *circuitcompiler.Program, gates []*circuitcompiler.Gate, in []*big.Int) (ok bool, why string) {
	r1cs := pr.GatesToR1CS(gates, false)
	w, err := circuitcompiler.CalculateWitness(r1cs, circuitcompiler.CombineInputs(pr.GetMainCircuit().Inputs, vh.CopyBs(in)))
	if err != nil {
		return true, "no witness"
	}
	t := r1cs.Transpose()
	n := pr.GlobalInputCount()
	px := CombinePolynomials2(w, t)
	for i := 0; i < r1cs.NumberOfGates; i++ {
		if utils.Field.ArithmeticField.EvalPoly(px, big.NewInt(int64(i))).Sign() != 0 {
			return false, fmt.Sprintf("combined polynomial is not zero at gate %d", i)
		}
	}
	setup, err := GenerateTrustedSetup(n, t)
	if err != nil {
		return false, err.Error()
	}
	for k := 0; k < 2; k++ {
		proof, err := GenerateProofs(n, &setup.Pk, w, px)
		if err != nil {
			return false, err.Error()
		}
		if !VerifyProof(&setup.Pk, proof, w[:n], false) {
			return false, fmt.Sprintf("honest proof %d rejected; witness %s", k, vh.Bs(w))
		}
	}
	return true, ""
}

func v15sparse(h *vh.H, pr *circuitcompiler.Program, gates []*circuitcompiler.Gate, in []*big.Int) (ok bool, why string) {
	r1cs := pr.GatesToSparseR1CS(gates, false)
	w, err := circuitcompiler.CalculateSparseWitness(r1cs, circuitcompiler.CombineInputs(pr.GetMainCircuit().Inputs, vh.CopyBs(in)))
	if err != nil {
		return true, "no witness"
	}
	t := r1cs.TransposeSparse()
	n := pr.GlobalInputCount()
	px := CombineSparsePolynomials(w, t)
	setup, err := GenerateTrustedSetupSparse(n, t)
	if err != nil {
		return false, err.Error()
	}
	proof, err := GenerateProof_Sparse(n, &setup.Pk, w, px)
	if err != nil {
		return false, err.Error()
	}
	if !VerifyProof(&setup.Pk, proof, w[:n], false) {
		return false, fmt.Sprintf("honest proof rejected; witness %s", vh.Bs(w))
	}
	return true, ""
}

func TestVerif_P15(t *testing.T) {
	// the code under test prints a lot
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = old }()
	}
	vh.Run(t, "P15", func(h *vh.H) {
		one := func(code string, in []*big.Int) {
			h.Case(true, "%s inputs %s", strings.Replace(code, "\n", "\\n", -1), vh.Bs(in))
			pr := circuitcompiler.Parse(code, true)
			gates := pr.Execute()
			if len(gates) == 0 {
				return // nothing to prove
			}
			var ok bool
			var why string
			bad := h.Try(func() { ok, why = v15dense(h, pr, gates, in) })
			h.Check(bad == nil, "dense", "dense: panic %v", bad)
			h.Check(ok, "dense", "dense: %s", why)
			pr = circuitcompiler.Parse(code, true)
			gates = pr.Execute()
			bad = h.Try(func() { ok, why = v15sparse(h, pr, gates, in) })
			h.Check(bad == nil, "sparse", "sparse: panic %v", bad)
			h.Check(ok, "sparse", "sparse: %s", why)
		}
		h.Phase("small programs", 0.2)
		for _, c := range []string{"func main(a){\nreturn a*a\n}\n", "func main(a){\npublic{\na\n}\nreturn a*a*a\n}\n", "func main(a){\nequal(a,a)\nreturn\n}\n", "func main(a,b){\npublic{\nb\n}\nequal(a,b)\nequal(b,a)\nreturn a*b\n}\n"} {
			n := strings.Count(c[:strings.Index(c, ")")], ",") + 1
			for k := int64(0); k < 3; k++ {
				in := make([]*big.Int, n)
				for i := range in {
					in[i] = big.NewInt(k)
				}
				one(c, in)
			}
		}
		h.Phase("random programs", 0.9)
		for h.More(6) {
			code, in := v15program(h)
			one(code, in)
		}
	})
}
