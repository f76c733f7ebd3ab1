package circuitcompiler

import (
	"fmt"
	"math/big"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

type vassign map[string]*big.Int

func (a vassign) tok(t Token) *big.Int {
	if t.Type == NumberToken {
		return big.NewInt(1)
	}
	return a[fmt.Sprintf("%d/%s", t.Type, t.Identifier)]
}
func (a vassign) lc(f factors) *big.Int {
	r := new(big.Int)
	for _, x := range f {
		r.Add(r, new(big.Int).Mul(x.multiplicative, a.tok(x.typ)))
	}
	return r.Mod(r, field.Q)
}

type vlit struct {
	t Token
	m *big.Int
}

func vcopyF(f factors) (r []vlit) {
	for _, x := range f {
		r = append(r, vlit{x.typ, new(big.Int).Set(x.multiplicative)})
	}
	return
}
func vsameF(f factors, c []vlit) bool {
	if len(f) != len(c) {
		return false
	}
	for i := range f {
		if f[i].typ != c[i].t || f[i].multiplicative.Cmp(c[i].m) != 0 {
			return false
		}
	}
	return true
}
func vstrF(f []vlit) string {
	s := "["
	for _, x := range f {
		s += fmt.Sprintf(" %v*%s<%d>", x.m, x.t.Identifier, x.t.Type)
	}
	return s + " ]"
}

var vnames = []string{"a", "b", "c", "x", "1234567890123456"}
var vtypes = []TokenType{ARGUMENT, ARGUMENT, IDENTIFIER_VARIABLE, UNASIGNEDVAR, VARIABLE_DECLARE}

func TestVerif_P13(t *testing.T) {
	vh.Run(t, "P13", func(h *vh.H) {
		q := field.Q
		mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, q) }
		h.Phase("rewriting of linear combinations vs their value", 0.7)
		for h.More(1500) {
			asg := vassign{}
			for _, n := range vnames {
				for _, ty := range vtypes {
					asg[fmt.Sprintf("%d/%s", ty, n)] = h.Elem(q)
				}
			}
			// shared coefficients: several lists refer to one object, as the compiler's do
			pool := []*big.Int{bigOne, bigZero}
			for i := 0; i < 4; i++ {
				switch h.Intn(4) {
				case 0:
					pool = append(pool, big.NewInt(int64(h.Intn(25)-12)))
				case 1:
					pool = append(pool, new(big.Int).Neg(h.Elem(q)))
				default:
					pool = append(pool, h.Elem(q))
				}
			}
			pool0 := vh.CopyBs(pool)
			coef := func() *big.Int {
				if h.Intn(3) == 0 {
					return big.NewInt(int64(h.Intn(40) - 15))
				}
				return pool[h.Intn(len(pool))]
			}
			fac := func() factor {
				if h.Intn(3) == 0 {
					m := coef()
					return factor{typ: Token{Type: NumberToken, Identifier: m.String()}, multiplicative: m}
				}
				return factor{typ: Token{Type: vtypes[h.Intn(len(vtypes))], Identifier: vnames[h.Intn(len(vnames))]}, multiplicative: coef()}
			}
			list := func(n int) factors {
				r := make(factors, n, n+h.Intn(3))
				for i := range r {
					r[i] = fac()
				}
				return r
			}
			num := func(nz bool) factors {
				m := coef()
				for nz && mod(m).Sign() == 0 {
					m = coef()
				}
				return factors{factor{typ: Token{Type: NumberToken, Identifier: m.String()}, multiplicative: m}}
			}
			other := list(3)
			other0 := vcopyF(other)
			var l0, r0 []vlit
			untouched := func(op string) {
				h.Check(bigOne.Cmp(big.NewInt(1)) == 0 && bigZero.Sign() == 0, "shared", "%s(%s,%s) changed the shared constants 0 and 1 to %v and %v", op, vstrF(l0), vstrF(r0), bigZero, bigOne)
				h.Check(vh.EqBs(pool, pool0), "shared", "%s(%s,%s) changed a coefficient object shared with other combinations: %s, was %s", op, vstrF(l0), vstrF(r0), vh.Bs(pool), vh.Bs(pool0))
				h.Check(vsameF(other, other0), "shared", "%s(%s,%s) changed a combination used elsewhere: %s, was %s", op, vstrF(l0), vstrF(r0), vstrF(vcopyF(other)), vstrF(other0))
				bigOne.SetInt64(1)
				bigZero.SetInt64(0)
				for i := range pool {
					pool[i].Set(pool0[i])
				}
				for i := range other {
					other[i].typ = other0[i].t
					other[i].multiplicative.Set(other0[i].m)
				}
				for i := range pool {
					pool[i].Set(pool0[i])
				}
			}
			val := func(op string, got, want *big.Int) {
				h.Check(mod(got).Cmp(mod(want)) == 0, "value", "%s of %s and %s: value %v, want %v", op, vstrF(l0), vstrF(r0), mod(got), mod(want))
			}
			mk := func(a, b factors) (factors, factors, *big.Int, *big.Int) {
				l0, r0 = vcopyF(a), vcopyF(b)
				return a, b, asg.lc(a), asg.lc(b)
			}
			l, r, vl, vr := mk(list(h.Intn(5)), list(h.Intn(5)))
			h.Case(len(l)+len(r) > 0, "l=%s r=%s", vstrF(l0), vstrF(r0))
			s := addFactors(l, r)
			val("addFactors", asg.lc(s), new(big.Int).Add(vl, vr))
			h.Check(len(s) > 0, "value", "addFactors(%s,%s) is empty", vstrF(l0), vstrF(r0))
			h.Check(vsameF(l, l0), "operand", "addFactors(%s,%s) changed its left operand to %s", vstrF(l0), vstrF(r0), vstrF(vcopyF(l)))
			untouched("addFactors")

			l, r, vl, vr = mk(list(h.Intn(5)), nil)
			n := negateFactors(l)
			val("negateFactors", asg.lc(n), new(big.Int).Neg(vl))
			untouched("negateFactors")
			for _, x := range n {
				h.Check(x.typ.Type != NumberToken || x.typ.Identifier == x.multiplicative.String(), "name", "negateFactors(%s): constant %v is called %s", vstrF(l0), x.multiplicative, x.typ.Identifier)
			}

			l, r, vl, vr = mk(list(1+h.Intn(4)), num(false))
			if h.Intn(2) == 0 {
				l, r, vl, vr = r, l, vr, vl
			}
			m := mulFactors(l, r)
			val("mulFactors", asg.lc(m), new(big.Int).Mul(vl, vr))
			untouched("mulFactors")

			l, r, vl, vr = mk(list(h.Intn(5)), nil)
			x := coef()
			x0 := new(big.Int).Set(x)
			m = l.scalarMultiplyFactors(x)
			val(fmt.Sprintf("scalarMultiplyFactors(%v)", x0), asg.lc(m), new(big.Int).Mul(vl, x0))
			h.Check(x.Cmp(x0) == 0, "operand", "scalarMultiplyFactors changed the scalar %v to %v", x0, x)
			untouched("scalarMultiplyFactors")

			l, r, vl, vr = mk(list(1+h.Intn(4)), nil)
			c := l.clone()
			val("clone", asg.lc(c), vl)
			h.Check(vsameF(c, l0), "clone", "clone of %s is %s", vstrF(l0), vstrF(vcopyF(c)))
			for i := range c {
				c[i].multiplicative.Add(c[i].multiplicative, big.NewInt(1))
				c[i].typ.Identifier = "changed"
			}
			h.Check(vsameF(l, l0), "clone", "changing a clone of %s changed the original to %s", vstrF(l0), vstrF(vcopyF(l)))
			untouched("changing a clone")

			l, r, vl, vr = mk(list(1+h.Intn(4)), nil)
			gcd, e := factorSignature(l)
			val("factorSignature", new(big.Int).Mul(gcd, asg.lc(e)), vl)
			h.Check(vsameF(l, l0), "operand", "factorSignature(%s) changed its operand to %s", vstrF(l0), vstrF(vcopyF(l)))
			untouched("factorSignature")

			l, r, vl, vr = mk(list(1+h.Intn(4)), list(1+h.Intn(4)))
			k, el, er := extractConstant(l, r)
			p := new(big.Int).Mul(asg.lc(el), asg.lc(er))
			val("extractConstant", p.Mul(p, k), new(big.Int).Mul(vl, vr))
			h.Check(vsameF(l, l0) && vsameF(r, r0), "operand", "extractConstant(%s,%s) changed an operand", vstrF(l0), vstrF(r0))
			untouched("extractConstant")

			l, r, vl, vr = mk(list(1+h.Intn(4)), nil)
			e, gcd = extractGCD(l)
			val("extractGCD", new(big.Int).Mul(gcd, asg.lc(e)), vl)
			untouched("extractGCD")

			l, r, vl, vr = mk(num(true), nil)
			inv := invertFactors(l)
			val("invertFactors", new(big.Int).Mul(asg.lc(inv), vl), big.NewInt(1))
			h.Check(vsameF(l, l0), "operand", "invertFactors(%s) changed its operand", vstrF(l0))
			untouched("invertFactors")
		}
		h.Phase("combinations stored as functions keep their value", 0.3)
		for h.More(200) {
			// a variable holding a combination is used several times, in sums, differences and products
			asg := vassign{}
			for _, n := range vnames {
				asg[fmt.Sprintf("%d/%s", ARGUMENT, n)] = h.Elem(q)
			}
			n := 1 + h.Intn(3)
			used := map[string]bool{}
			var f factors
			for len(f) < n {
				name := vnames[h.Intn(3)]
				if used[name] {
					name = ""
				}
				if used[name] {
					break
				}
				used[name] = true
				c := h.NonZero(q)
				if h.Intn(3) == 0 {
					c = big.NewInt(int64(1 + h.Intn(3)))
				}
				if h.Intn(3) == 0 {
					c.Neg(c)
				}
				if name == "" {
					f = append(f, factor{typ: Token{Type: NumberToken, Identifier: c.String()}, multiplicative: c})
				} else {
					f = append(f, factor{typ: Token{Type: ARGUMENT, Identifier: name}, multiplicative: c})
				}
			}
			want := asg.lc(f)
			f0 := vcopyF(f)
			h.Case(true, "f=%s", vstrF(f0))
			fn := f.primitiveReturnfunction()
			// a plain number is not executable: the compiler reads it as a value
			eval := func() factors {
				if fn.isNumber {
					return factors{factor{typ: Token{Type: NumberToken, Identifier: fn.Name}, multiplicative: fn.value}}
				}
				r, ret, _ := fn.execute(newGateContainer())
				h.Check(ret, "value", "the function for %s does not return", vstrF(f0))
				return r
			}
			a := eval()
			h.Check(asg.lc(a).Cmp(want) == 0, "stored", "a variable holding %s reads as %s", vstrF(f0), vstrF(vcopyF(a)))
			negateFactors(a)
			b := eval()
			h.Check(asg.lc(b).Cmp(want) == 0, "stored", "a variable holding %s reads as %s after it was subtracted once", vstrF(f0), vstrF(vcopyF(b)))
			addFactors(eval(), b)
			mulFactors(eval(), factors{factor{typ: Token{Type: NumberToken, Identifier: "7"}, multiplicative: big.NewInt(7)}})
			c := eval()
			h.Check(asg.lc(c).Cmp(want) == 0, "stored", "a variable holding %s reads as %s after it was added and multiplied", vstrF(f0), vstrF(vcopyF(c)))
			h.Check(bigOne.Cmp(big.NewInt(1)) == 0 && bigZero.Sign() == 0, "shared", "uses of a variable holding %s changed the shared constants", vstrF(f0))
			bigOne.SetInt64(1)
			bigZero.SetInt64(0)
		}
	})
}
