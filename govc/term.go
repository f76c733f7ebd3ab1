package main

// Hash-consed terms. Integer-sorted terms are kept as canonical polynomials
// (sums of integer-coefficient monomials over non-polynomial atoms), so two
// terms equal by commutative-ring laws are the same pointer.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"  // integers; also strings (coded) and ring/group elements
	SBool  Sort = "Bool" // formulas
	SArrI  Sort = "(Array Int Int)"
	SArrB  Sort = "(Array Int Bool)"
	SArr2  Sort = "(Array Int (Array Int Int))"
	SArr2B Sort = "(Array Int (Array Int Bool))"
)

func arrOf(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }
func elemSort(s Sort) Sort {
	t := string(s)
	if !strings.HasPrefix(t, "(Array Int ") {
		panic("elemSort of " + t)
	}
	return Sort(t[len("(Array Int ") : len(t)-1])
}

type Node struct {
	id    int
	op    string
	sort  Sort
	args  []*Node
	name  string
	k     *big.Int
	ms    []Mono // op == "poly"
	ring  bool   // contains ring-sorted atoms (never sent to SMT)
	bound bool   // contains bound variable
	smt   string
}

type Fac struct {
	a *Node
	e int
}
type Mono struct {
	c  *big.Int
	fs []Fac
}

var nodes = map[string]*Node{}
var nodeCount int

func intern(key string, mk func() *Node) *Node {
	if n, ok := nodes[key]; ok {
		return n
	}
	n := mk()
	nodeCount++
	n.id = nodeCount
	for _, a := range n.args {
		n.ring = n.ring || a.ring
		n.bound = n.bound || a.bound
	}
	if n.op == "fn" && n.name == "mill" {
		n.ring = true
	}
	for _, m := range n.ms {
		for _, f := range m.fs {
			n.ring = n.ring || f.a.ring
			n.bound = n.bound || f.a.bound
		}
	}
	nodes[key] = n
	return n
}

func Num(k *big.Int) *Node {
	return intern("#"+k.String(), func() *Node { return &Node{op: "num", sort: SInt, k: new(big.Int).Set(k)} })
}
func NumI(k int64) *Node { return Num(big.NewInt(k)) }

var Zero, One = NumI(0), NumI(1)

func Var(name string, s Sort) *Node {
	return intern("v"+string(s)+":"+name, func() *Node { return &Node{op: "var", sort: s, name: name} })
}

// RingVar is an abstract ring element (not an integer).
func RingVar(name string) *Node {
	return intern("r:"+name, func() *Node { return &Node{op: "var", sort: SInt, name: name, ring: true} })
}

func BoundVar(name string, s Sort) *Node {
	return intern("b"+string(s)+":"+name, func() *Node { return &Node{op: "var", sort: s, name: name, bound: true} })
}

var freshN int

func Fresh(prefix string, s Sort) *Node {
	freshN++
	return Var(fmt.Sprintf("%s!%d", prefix, freshN), s)
}
func FreshRing(prefix string) *Node {
	freshN++
	return RingVar(fmt.Sprintf("%s!%d", prefix, freshN))
}

func rawApp(op string, s Sort, name string, args ...*Node) *Node {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('/')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	sb.WriteByte(':')
	sb.WriteString(string(s))
	cp := append([]*Node{}, args...)
	return intern(sb.String(), func() *Node { return &Node{op: op, sort: s, name: name, args: cp} })
}

// ---- polynomials ----

func monosOf(n *Node) []Mono {
	switch n.op {
	case "num":
		if n.k.Sign() == 0 {
			return nil
		}
		return []Mono{{c: n.k}}
	case "poly":
		return n.ms
	}
	return []Mono{{c: bigOne, fs: []Fac{{n, 1}}}}
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func facKey(fs []Fac) string {
	b := make([]byte, 0, len(fs)*6)
	for _, f := range fs {
		b = strconv.AppendInt(b, int64(f.a.id), 36)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(f.e), 36)
		b = append(b, '.')
	}
	return string(b)
}

type pacc struct {
	m map[string]*Mono
}

func newAcc() *pacc { return &pacc{m: map[string]*Mono{}} }
func (p *pacc) add(c *big.Int, fs []Fac) {
	if c.Sign() == 0 {
		return
	}
	k := facKey(fs)
	if e, ok := p.m[k]; ok {
		e.c.Add(e.c, c)
		return
	}
	p.m[k] = &Mono{c: new(big.Int).Set(c), fs: fs}
}
func (p *pacc) node(mod *big.Int) *Node {
	keys := make([]string, 0, len(p.m))
	for k, e := range p.m {
		if mod != nil {
			e.c.Mod(e.c, mod)
		}
		if e.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	ms := make([]Mono, 0, len(keys))
	for _, k := range keys {
		ms = append(ms, *p.m[k])
	}
	return polyNode(ms, keys)
}

func polyNode(ms []Mono, keys []string) *Node {
	if len(ms) == 0 {
		return Zero
	}
	if len(ms) == 1 {
		if len(ms[0].fs) == 0 {
			return Num(ms[0].c)
		}
		if len(ms[0].fs) == 1 && ms[0].fs[0].e == 1 && ms[0].c.Cmp(bigOne) == 0 {
			return ms[0].fs[0].a
		}
	}
	var sb strings.Builder
	sb.WriteString("P")
	for i, m := range ms {
		sb.WriteString(m.c.String())
		sb.WriteByte('*')
		sb.WriteString(keys[i])
		sb.WriteByte('+')
	}
	return intern(sb.String(), func() *Node { return &Node{op: "poly", sort: SInt, ms: ms} })
}

// mulFacs merges two sorted factor lists; pow atoms with a common base merge.
func mulFacs(a, b []Fac) []Fac {
	r := make([]Fac, 0, len(a)+len(b))
	i, j := 0, 0
	haspow := false
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, Fac{a[i].a, a[i].e + b[j].e})
			i++
			j++
		}
		if r[len(r)-1].a.op == "pow" {
			haspow = true
		}
	}
	if haspow {
		r = mergePow(r)
	}
	return r
}

// mergePow: pow(b,e)^k * pow(b,e')^k' * b^j -> pow(b, k e + k' e' + j)
func mergePow(fs []Fac) []Fac {
	bases := map[*Node]*Node{}
	cnt := map[*Node]int{}
	for _, f := range fs {
		if f.a.op == "pow" {
			b := f.a.args[0]
			cnt[b] += f.e
		}
	}
	need := false
	negc := map[*Node]bool{}
	for _, f := range fs {
		if f.a.op == "pow" && constPart(f.a.args[1]).Sign() < 0 {
			negc[f.a.args[0]] = true
		}
	}
	for _, f := range fs {
		if f.a.op == "pow" {
			if cnt[f.a.args[0]] > 1 {
				need = true
			}
		} else if negc[f.a] {
			need = true
		}
	}
	if !need {
		return fs
	}
	var rest []Fac
	for _, f := range fs {
		if f.a.op == "pow" {
			b := f.a.args[0]
			if bases[b] == nil {
				bases[b] = Zero
			}
			bases[b] = Add(bases[b], MulI(f.a.args[1], int64(f.e)))
		} else if negc[f.a] {
			if bases[f.a] == nil {
				bases[f.a] = Zero
			}
			bases[f.a] = Add(bases[f.a], NumI(int64(f.e)))
		} else {
			rest = append(rest, f)
		}
	}
	for b, e := range bases {
		p := Pow(b, e)
		if p.op == "pow" {
			rest = append(rest, Fac{p, 1})
		} else if p == One {
			continue
		} else {
			// base atom with constant exponent
			ms := monosOf(p)
			if len(ms) == 1 && ms[0].c.Cmp(bigOne) == 0 {
				rest = append(rest, ms[0].fs...)
			} else {
				panic("mergePow: product form")
			}
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].a.id < rest[j].a.id })
	return rest
}

func constPart(e *Node) *big.Int {
	for _, m := range monosOf(e) {
		if len(m.fs) == 0 {
			return m.c
		}
	}
	return new(big.Int)
}

// Pow is base^exp in a commutative ring, exp a (non-negative) integer term.
func Pow(b, e *Node) *Node {
	if e.op == "num" {
		if e.k.IsInt64() && e.k.Int64() >= 0 && e.k.Int64() < 64 {
			r := One
			for i := int64(0); i < e.k.Int64(); i++ {
				r = Mul(r, b)
			}
			return r
		}
	}
	if b == One {
		return One
	}
	if b.op == "pow" { // (b^x)^y = b^(xy)
		return Pow(b.args[0], Mul(b.args[1], e))
	}
	if b.op == "poly" && len(b.ms) == 1 && b.ms[0].c.Cmp(bigOne) == 0 { // (x*y)^e = x^e*y^e
		r := One
		for _, f := range b.ms[0].fs {
			r = Mul(r, Pow(f.a, MulI(e, int64(f.e))))
		}
		return r
	}
	if c := constPart(e); c.Sign() > 0 && c.IsInt64() && c.Int64() < 64 { // canonical: positive constant part split off
		return Mul(Pow(b, Sub(e, Num(c))), Pow(b, Num(c)))
	}
	return rawApp("pow", SInt, "", b, e)
}

func Add(xs ...*Node) *Node {
	if len(xs) == 1 {
		return xs[0]
	}
	acc := newAcc()
	for _, x := range xs {
		for _, m := range monosOf(x) {
			acc.add(m.c, m.fs)
		}
	}
	return acc.node(nil)
}
func MulI(a *Node, k int64) *Node { return MulB(a, big.NewInt(k)) }
func MulB(a *Node, k *big.Int) *Node {
	acc := newAcc()
	for _, m := range monosOf(a) {
		acc.add(new(big.Int).Mul(m.c, k), m.fs)
	}
	return acc.node(nil)
}
func Neg(a *Node) *Node    { return MulI(a, -1) }
func Sub(a, b *Node) *Node { return Add(a, Neg(b)) }
func Mul(a, b *Node) *Node { return mulMod(a, b, nil) }
func mulMod(a, b *Node, mod *big.Int) *Node {
	if a == Zero || b == Zero {
		return Zero
	}
	if a == One {
		return b
	}
	if b == One {
		return a
	}
	acc := newAcc()
	t := new(big.Int)
	for _, x := range monosOf(a) {
		for _, y := range monosOf(b) {
			t.Mul(x.c, y.c)
			acc.add(t, mulFacs(x.fs, y.fs))
		}
	}
	return acc.node(mod)
}

func isNum(n *Node) bool { return n.op == "num" }

// ---- formulas ----

var True = rawApp("true", SBool, "")
var False = rawApp("false", SBool, "")

func BoolN(b bool) *Node {
	if b {
		return True
	}
	return False
}

func Eq(a, b *Node) *Node {
	if a == b {
		return True
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return rawApp("=", SBool, "", a, b)
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == "num" {
			return False
		}
		if d == Zero {
			return True
		}
		// canonical sign and content
		d = canonLin(d)
		if d.op == "ite" {
			return Ite(d.args[0], Eq(d.args[1], Zero), Eq(d.args[2], Zero))
		}
		return rawApp("=", SBool, "", d, Zero)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v: %v %v", a.sort, b.sort, a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp("=", SBool, "", a, b)
}

func canonLin(d *Node) *Node {
	ms := monosOf(d)
	g := new(big.Int)
	for _, m := range ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	neg := ms[0].c.Sign() < 0
	if g.Cmp(bigOne) == 0 && !neg {
		return d
	}
	acc := newAcc()
	for _, m := range ms {
		c := new(big.Int).Quo(m.c, g)
		if neg {
			c.Neg(c)
		}
		acc.add(c, m.fs)
	}
	return acc.node(nil)
}

// Le is a <= b, kept as 0 <= b-a.
func Le(a, b *Node) *Node {
	d := Sub(b, a)
	if d.op == "num" {
		return BoolN(d.k.Sign() >= 0)
	}
	return rawApp("ge0", SBool, "", d)
}
func Lt(a, b *Node) *Node { return Le(Add(a, One), b) }

func Not(a *Node) *Node {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "ge0": // not (0<=d)  ->  0 <= -d-1
		return Le(Zero, Sub(Neg(a.args[0]), One))
	case "and":
		r := make([]*Node, len(a.args))
		for i, x := range a.args {
			r[i] = Not(x)
		}
		return Or(r...)
	case "or":
		r := make([]*Node, len(a.args))
		for i, x := range a.args {
			r[i] = Not(x)
		}
		return And(r...)
	}
	return rawApp("not", SBool, "", a)
}

func And(xs ...*Node) *Node {
	var r []*Node
	seen := map[*Node]bool{}
	for _, x := range xs {
		if x == True || seen[x] {
			continue
		}
		if x == False {
			return False
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					r = append(r, y)
				}
			}
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	if len(r) == 0 {
		return True
	}
	if len(r) == 1 {
		return r[0]
	}
	if i, j, v := zeroPair(r, false); v != nil {
		q := append([]*Node{}, r[:i]...)
		q = append(append(q, r[i+1:j]...), r[j+1:]...)
		return And(append(q, Cong(towerPN, v, Zero))...)
	}
	return rawApp("and", SBool, "", r...)
}

// halfZero: x is imc(V)=0 or imc(A)-imc(B)=0 (or the same with rec); returns V or A-B up to sign.
// Both values lie in [0,P), so the equation says that coordinate of V is zero.
func halfZero(x *Node) (*Node, string) {
	if x.op != "=" || x.args[0].sort != SInt || towerPN == nil {
		return nil, ""
	}
	ms := monosOf(Sub(x.args[0], x.args[1]))
	if len(ms) == 0 || len(ms) > 2 {
		return nil, ""
	}
	op := ""
	var v *Node
	for i, m := range ms {
		if len(m.fs) != 1 || m.fs[0].e != 1 {
			return nil, ""
		}
		a := m.fs[0].a
		if (a.op != "imc" && a.op != "rec") || a.args[1] != towerPN || (op != "" && op != a.op) {
			return nil, ""
		}
		op = a.op
		if i == 0 {
			v = a.args[0]
			if len(ms) == 1 {
				return v, op
			}
		} else {
			if new(big.Int).Add(m.c, ms[0].c).Sign() != 0 {
				return nil, ""
			}
			u := a.args[0]
			if u.id < v.id {
				u, v = v, u
			}
			v = Sub(v, u)
		}
	}
	return v, op
}

// zeroPair finds imc(V)=0 and rec(V)=0 (or both negated) among the formulas: together they say V=0.
func zeroPair(r []*Node, neg bool) (int, int, *Node) {
	var at map[*Node]int
	var ops map[*Node]string
	for i, x := range r {
		if neg {
			if x.op != "not" {
				continue
			}
			x = x.args[0]
		}
		v, op := halfZero(x)
		if v == nil {
			continue
		}
		if at == nil {
			at, ops = map[*Node]int{}, map[*Node]string{}
		}
		if j, ok := at[v]; ok && ops[v] != op {
			return j, i, v
		}
		at[v], ops[v] = i, op
	}
	return 0, 0, nil
}
func Or(xs ...*Node) *Node {
	var r []*Node
	seen := map[*Node]bool{}
	for _, x := range xs {
		if x == False || seen[x] {
			continue
		}
		if x == True {
			return True
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					r = append(r, y)
				}
			}
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	for _, x := range r {
		if seen[Not(x)] {
			return True
		}
	}
	if len(r) == 0 {
		return False
	}
	if len(r) == 1 {
		return r[0]
	}
	if i, j, v := zeroPair(r, true); v != nil {
		q := append([]*Node{}, r[:i]...)
		q = append(append(q, r[i+1:j]...), r[j+1:]...)
		return Or(append(q, Not(Cong(towerPN, v, Zero)))...)
	}
	return rawApp("or", SBool, "", r...)
}
func Imp(a, b *Node) *Node { return Or(Not(a), b) }
func Iff(a, b *Node) *Node { return Eq(a, b) }

func Ite(c, a, b *Node) *Node {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return rawApp("ite", a.sort, "", c, a, b)
}

// Cong is the formula d ≡ 0 (mod m); for m the field prime it ranges over the tower ring.
func Cong(m, a, b *Node) *Node {
	d := Sub(a, b)
	if d == Zero {
		return True
	}
	if m.op == "num" {
		d = reduceCoefs(stripMd(d, m), m.k)
		if d == Zero {
			return True
		}
		if d.op == "num" {
			return False
		}
	} else {
		d = stripMd(d, m)
		if d == Zero {
			return True
		}
	}
	// canonical sign
	if ms := monosOf(d); m.op != "num" && ms[0].c.Sign() < 0 {
		d = Neg(d)
	}
	return rawApp("cong", SBool, "", m, d)
}

func reduceCoefs(d *Node, p *big.Int) *Node {
	acc := newAcc()
	for _, m := range monosOf(d) {
		acc.add(m.c, m.fs)
	}
	return acc.node(p)
}

// stripMd replaces md(t,m) by t where it occurs polynomially, drops multiples of m.
func stripMd(d, m *Node) *Node {
	need := false
	for _, mo := range monosOf(d) {
		for _, f := range mo.fs {
			if (f.a.op == "md" && f.a.args[1] == m) || f.a == m || (f.a.op == "ite" && f.a.sort == SInt && iteHasMd(f.a, m)) {
				need = true
			}
			if isBinder(f.a) && stripSum(f.a, m) != f.a {
				need = true
			}
			if f.a.op == "pow" && stripMd(f.a.args[0], m) != f.a.args[0] {
				need = true
			}
		}
	}
	if !need {
		return d
	}
	r := Zero
	var parts []*Node
outer:
	for _, mo := range monosOf(d) {
		var keep []Fac
		var subs []*Node
		for _, f := range mo.fs {
			if f.a == m {
				continue outer
			}
			if f.a.op == "md" && f.a.args[1] == m {
				for i := 0; i < f.e; i++ {
					subs = append(subs, f.a.args[0])
				}
			} else if f.a.op == "pow" && stripMd(f.a.args[0], m) != f.a.args[0] {
				t := Pow(stripMd(f.a.args[0], m), f.a.args[1])
				for i := 0; i < f.e; i++ {
					subs = append(subs, t)
				}
			} else if isBinder(f.a) && stripSum(f.a, m) != f.a {
				t := stripSum(f.a, m)
				for i := 0; i < f.e; i++ {
					subs = append(subs, t)
				}
			} else if f.a.op == "ite" && f.a.sort == SInt && iteHasMd(f.a, m) {
				t := Ite(f.a.args[0], stripMd(f.a.args[1], m), stripMd(f.a.args[2], m))
				for i := 0; i < f.e; i++ {
					subs = append(subs, t)
				}
			} else {
				keep = append(keep, f)
			}
		}
		acc := newAcc()
		acc.add(mo.c, keep)
		t := acc.node(nil)
		for _, s := range subs {
			var mod *big.Int
			if m.op == "num" {
				mod = m.k
			}
			t = mulMod(t, s, mod)
		}
		parts = append(parts, t)
	}
	if len(parts) > 0 {
		r = Add(parts...)
	}
	return stripMd(r, m)
}

func iteHasMd(n, m *Node) bool {
	for _, x := range n.args[1:] {
		for _, mo := range monosOf(x) {
			for _, f := range mo.fs {
				if (f.a.op == "md" && f.a.args[1] == m) || f.a == m || (f.a.op == "ite" && iteHasMd(f.a, m)) {
					return true
				}
			}
		}
	}
	return false
}

// Md is the Euclidean remainder t mod m (m > 0).
func Md(t, m *Node) *Node {
	if m.op == "num" {
		t = reduceCoefs(stripMd(t, m), m.k)
		if t.op == "num" {
			return Num(new(big.Int).Mod(t.k, m.k))
		}
		// already reduced atoms
		if (t.op == "imc" || t.op == "rec" || t.op == "minv") && len(t.args) > 1 && t.args[1] == m {
			return t
		}
	} else {
		t = stripMd(t, m)
		if t == Zero {
			return Zero
		}
		if t.op == "minv" && t.args[1] == m {
			return t
		}
	}
	return rawApp("md", SInt, "", t, m)
}

func Select(a, i *Node) *Node {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			d := Sub(a.args[1], i)
			if d.op == "num" { // provably different
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case "fn":
			switch a.name {
			case "shift":
				i = Add(a.args[1], i)
				a = a.args[0]
				continue
			case "concat":
				c := Lt(i, a.args[1])
				return Ite(c, Select(a.args[0], i), Select(a.args[2], Sub(i, a.args[1])))
			case "overlay":
				c := And(Le(a.args[1], i), Lt(i, Add(a.args[1], a.args[3])))
				return Ite(c, Select(a.args[2], Sub(i, a.args[1])), Select(a.args[0], i))
			}
		}
		break
	}
	return rawApp("select", elemSort(a.sort), "", a, i)
}
func Store(a, i, v *Node) *Node {
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "constarr" && a.args[0] == v {
		return a
	}
	return rawApp("store", a.sort, "", a, i, v)
}
func ConstArr(v *Node) *Node { return rawApp("constarr", arrOf(v.sort), "", v) }

// Fn is an uninterpreted function application.
func Fn(name string, s Sort, args ...*Node) *Node { return rawApp("fn", s, name, args...) }

func Forall(vars []*Node, body *Node) *Node {
	if body == True {
		return True
	}
	args := append([]*Node{}, vars...)
	args = append(args, body)
	n := rawApp("forall", SBool, strconv.Itoa(len(vars)), args...)
	n.bound = false
	return n
}

func Shr(k, i *Node) *Node {
	if i == Zero {
		return k
	}
	d := Sub(i, BitLen(k))
	if d.op == "num" && d.k.Sign() >= 0 {
		return Zero
	}
	if isNum(k) && isNum(i) {
		return Num(new(big.Int).Rsh(k.k, uint(i.k.Int64())))
	}
	return rawApp("shr", SInt, "", k, i)
}
func Bit(k, i *Node) *Node {
	if isNum(k) && isNum(i) && i.k.IsInt64() {
		return NumI(int64(k.k.Bit(int(i.k.Int64()))))
	}
	return rawApp("bit", SInt, "", k, i)
}
func BitLen(k *Node) *Node {
	if isNum(k) {
		return NumI(int64(k.k.BitLen()))
	}
	return rawApp("bitlen", SInt, "", k)
}

// ---- substitution ----

type Subst struct {
	m    map[*Node]*Node
	memo map[*Node]*Node
}

func newSubst(m map[*Node]*Node) *Subst { return &Subst{m: m, memo: map[*Node]*Node{}} }

func (s *Subst) apply(n *Node) *Node {
	if len(s.m) == 0 {
		return n
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	r := s.apply1(n)
	s.memo[n] = r
	return r
}
func (s *Subst) apply1(n *Node) *Node {
	if r, ok := s.m[n]; ok {
		return r
	}
	if n.op == "poly" {
		changed := false
		for _, m := range n.ms {
			for _, f := range m.fs {
				if s.apply(f.a) != f.a {
					changed = true
				}
			}
		}
		if !changed {
			return n
		}
		var parts []*Node
		for _, m := range n.ms {
			var keep []Fac
			t := One
			for _, f := range m.fs {
				a := s.apply(f.a)
				if a == f.a {
					keep = append(keep, f)
				} else {
					for i := 0; i < f.e; i++ {
						t = Mul(t, a)
					}
				}
			}
			acc := newAcc()
			acc.add(m.c, keep)
			parts = append(parts, Mul(acc.node(nil), t))
		}
		return Add(parts...)
	}
	if len(n.args) == 0 {
		return n
	}
	if isBinder(n) {
		return s.binder(n)
	}
	args := make([]*Node, len(n.args))
	ch := false
	for i, a := range n.args {
		args[i] = s.apply(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return n
	}
	return rebuild(n, args)
}

func rebuild(n *Node, a []*Node) *Node {
	switch n.op {
	case "=":
		return Eq(a[0], a[1])
	case "ge0":
		return Le(Zero, a[0])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "cong":
		return Cong(a[0], a[1], Zero)
	case "md":
		return Md(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(a[0])
	case "pow":
		return Pow(a[0], a[1])
	case "shr":
		return Shr(a[0], a[1])
	case "bit":
		return Bit(a[0], a[1])
	case "bitlen":
		return BitLen(a[0])
	case "forall":
		k, _ := strconv.Atoi(n.name)
		return Forall(a[:k], a[k])
	case "imc":
		return Imc(a[0], a[1])
	case "rec":
		return Rec(a[0], a[1])
	case "fn":
		if h, ok := fnRebuild[n.name]; ok {
			return h(a)
		}
	}
	return rawApp(n.op, n.sort, n.name, a...)
}

var fnRebuild = map[string]func([]*Node) *Node{}

// ---- printing ----

func (n *Node) String() string {
	switch n.op {
	case "num":
		s := n.k.String()
		if len(s) > 24 {
			s = s[:8] + "…" + s[len(s)-4:]
		}
		return s
	case "var":
		return n.name
	case "poly":
		var parts []string
		for i, m := range n.ms {
			if i > 30 {
				parts = append(parts, fmt.Sprintf("…(%d terms)", len(n.ms)))
				break
			}
			var fs []string
			if m.c.Cmp(bigOne) != 0 || len(m.fs) == 0 {
				fs = append(fs, Num(m.c).String())
			}
			for _, f := range m.fs {
				if f.e == 1 {
					fs = append(fs, f.a.String())
				} else {
					fs = append(fs, fmt.Sprintf("%s^%d", f.a, f.e))
				}
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(parts, " + ") + ")"
	}
	var as []string
	for _, a := range n.args {
		as = append(as, a.String())
	}
	nm := n.op
	if n.name != "" {
		nm += ":" + n.name
	}
	if n.op == "fn" {
		nm = n.name
	}
	return nm + "(" + strings.Join(as, ", ") + ")"
}

func atomsOf(n *Node, f func(*Node)) {
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.op != "poly" {
			f(n)
		}
		for _, a := range n.args {
			rec(a)
		}
		for _, m := range n.ms {
			for _, fc := range m.fs {
				rec(fc.a)
			}
		}
	}
	rec(n)
}
