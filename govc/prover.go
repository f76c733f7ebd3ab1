package main

import (
	"bufio"
	"container/heap"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type ProveResult struct {
	ok      bool
	backend string
	model   map[string]*big.Int // values for integer variables if a solver gave a model
	detail  string
}

type Stats struct {
	sync.Mutex
	queries    int
	solverTime time.Duration
	byBackend  map[string]int
}

var stats = Stats{byBackend: map[string]int{}}

// refute tries to derive a contradiction from the facts.
func refute(facts []*Node, timeoutMs int) ProveResult {
	// facts about very large polynomials are left out first: the rest is often contradictory already
	var small []*Node
	for _, f := range facts {
		if !bigFact(f) {
			small = append(small, f)
		}
	}
	if len(small) < len(facts) {
		noSMT++
		r := refuteD(small, timeoutMs, 0)
		noSMT--
		if r.ok {
			return r
		}
	}
	return refuteD(facts, timeoutMs, 0)
}

func flattenFacts(facts []*Node) ([]*Node, bool) {
	var out []*Node
	seen := map[*Node]bool{}
	var add func(f *Node) bool
	add = func(f *Node) bool {
		if f == False {
			return false
		}
		if f == True || seen[f] {
			return true
		}
		if f.op == "and" {
			for _, x := range f.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[f] = true
		out = append(out, f)
		return true
	}
	for _, f := range facts {
		if !add(f) {
			return nil, false
		}
	}
	for _, f := range out {
		if seen[Not(f)] {
			return nil, false
		}
	}
	return out, true
}

func litOf(lit map[*Node]*Node, x *Node) (*Node, bool) {
	if v, ok := lit[x]; ok {
		return v, true
	}
	if x.op == "not" {
		if v, ok := lit[x.args[0]]; ok {
			return Not(v), true
		}
	}
	if x.op == "and" {
		all := true
		for _, y := range x.args {
			v, ok := litOf(lit, y)
			if ok && v == False {
				return False, true
			}
			if !ok || v != True {
				all = false
			}
		}
		if all {
			return True, true
		}
	}
	return nil, false
}

// basisSplit: the powers i^a tau^b omega^c are a basis over the base field, so a tower
// equation between combinations of them with base-field coefficients holds coefficient-wise.
func basisSplit(fs []*Node) ([]*Node, bool) {
	if towerPN == nil {
		return fs, true
	}
	var out []*Node
	ch := false
	for _, f := range fs {
		if f.op == "cong" && f.args[0] == towerPN && !f.bound {
			n := ringNorm(f.args[1])
			if n == Zero {
				ch = true
				continue
			}
			if levelOf(n) > 1 && onlyAtoms(n, 1, TI, TTau, TOm) {
				ch = true
				for _, a := range splitBy(n, TOm, 2) {
					for _, b := range splitBy(a, TTau, 3) {
						for _, c := range splitBy(b, TI, 2) {
							out = append(out, Cong(towerPN, c, Zero))
						}
					}
				}
				continue
			}
		}
		out = append(out, f)
	}
	if !ch {
		return fs, true
	}
	return flattenFacts(out)
}

// tightEqs: 0<=t and 0<=-t give t=0
func tightEqs(fs []*Node) []*Node {
	le := map[*Node]bool{}
	for _, f := range fs {
		if f.op == "ge0" {
			le[f.args[0]] = true
		}
	}
	out := fs
	for _, f := range fs {
		if f.op == "ge0" && le[Neg(f.args[0])] {
			out = append(out, Eq(f.args[0], Zero))
		}
	}
	return out
}

var noSMT int

func bigFact(f *Node) bool {
	switch f.op {
	case "and", "or", "not":
		for _, x := range f.args {
			if bigFact(x) {
				return true
			}
		}
	case "cong":
		return len(monosOf(f.args[1])) > 120
	}
	return false
}

// hardStop: nothing further is worth proving (a failing input is at hand); obStop bounds one query
var hardStop atomic.Int64
var obStop time.Time

func stopped() bool {
	h := hardStop.Load()
	return h != 0 && time.Now().UnixNano() > h
}

func refuteD(facts []*Node, timeoutMs int, depth int) ProveResult {
	if !obStop.IsZero() && time.Now().After(obStop) || stopped() {
		return ProveResult{detail: "time budget of the obligation exhausted"}
	}
	fs, ok := flattenFacts(facts)
	if !ok {
		return ProveResult{ok: true, backend: "simp"}
	}
	fs = tightEqs(fs)
	if g, ok2 := basisSplit(fs); !ok2 {
		return ProveResult{ok: true, backend: "ring"}
	} else {
		fs = g
	}
	// substitution fixpoint
	var subs []*Subst
	for round := 0; round < 30; round++ {
		sub := map[*Node]*Node{}
		var kept []*Node
		bi, brank := -1, -1
		for i, f := range fs {
			if a, _ := pivotOf(f); a != nil {
				if r := pivotRank(a); r > brank {
					bi, brank = i, r
				}
			}
		}
		for i, f := range fs {
			if i == bi {
				a, r := pivotOf(f)
				sub[a] = r
				if os.Getenv("GOVC_DEBUG") == "2" {
					fmt.Println("  subst", a, ":=", r)
				}
				kept = append(kept, rawFact(f))
				continue
			}
			kept = append(kept, f)
		}
		if len(sub) == 0 {
			break
		}
		s := newSubst(sub)
		subs = append(subs, s)
		for i, f := range kept {
			if f.op == "keep" {
				continue
			}
			kept[i] = s.apply(f)
		}
		fs, ok = flattenFacts(kept)
		if !ok {
			return ProveResult{ok: true, backend: "simp"}
		}
	}
	// unwrap kept equalities
	var eqs []*Node
	var rest []*Node
	for _, f := range fs {
		if f.op == "keep" {
			eqs = append(eqs, f.args[0])
		} else {
			rest = append(rest, f)
		}
	}
	fs = rest
	// unit propagation on boolean atoms / disjunctions with decided literals
	changed := true
	for changed {
		changed = false
		lit := map[*Node]*Node{}
		have := map[*Node]bool{}
		for _, f := range fs {
			have[f] = true
			if f.op == "not" {
				lit[f.args[0]] = False
			} else if f.op != "or" && f.op != "forall" {
				lit[f] = True
				if n := Not(f); n.op != "not" && n.op != "or" {
					lit[n] = False
				}
			}
		}
		for i, f := range fs {
			if f.op == "or" {
				r := make([]*Node, len(f.args))
				for j, x := range f.args {
					r[j] = x
					if v, ok := lit[x]; ok {
						r[j] = v
					} else if x.op == "not" {
						if v, ok := lit[x.args[0]]; ok {
							r[j] = Not(v)
						}
					} else if n := Not(x); n != f && have[n] {
						r[j] = False
					} else if v, ok := lit[n]; ok {
						r[j] = Not(v)
					}
				}
				g := Or(r...)
				if g != f {
					fs[i] = g
					changed = true
				}
			}
			if f.op == "=" && f.args[0].sort == SBool {
				if v, ok := litOf(lit, f.args[0]); ok && v != f.args[0] {
					fs[i] = Eq(v, f.args[1])
					changed = true
				} else if v, ok := litOf(lit, f.args[1]); ok && v != f.args[1] {
					fs[i] = Eq(f.args[0], v)
					changed = true
				}
			}
		}
		if changed {
			fs, ok = flattenFacts(fs)
			if !ok {
				return ProveResult{ok: true, backend: "simp"}
			}
			for _, f := range fs {
				if a, _ := pivotOf(f); a != nil {
					all := append(append([]*Node{}, eqs...), fs...)
					return refuteD(all, timeoutMs, depth)
				}
			}
		}
	}
	if g, ch := resolveConds(fs, eqs); ch {
		return refuteD(append(append([]*Node{}, eqs...), g...), timeoutMs, depth)
	}
	// distinct residues: md(a,m) != md(b,m) exactly when a and b are not congruent
	for _, f := range fs {
		if f.op == "not" && f.args[0].op == "=" && f.args[0].args[0].sort == SInt && !f.bound {
			if c := mdDiff(Sub(f.args[0].args[0], f.args[0].args[1])); c != nil {
				fs = append(fs[:len(fs):len(fs)], Not(c))
			}
		}
	}
	// ring reasoning
	ringFs := fs
	for _, q := range eqs {
		if q.op == "=" && q.args[0].sort == SInt && !q.bound && hasMdTop(q) {
			ringFs = append(ringFs, q)
		}
	}
	ringFs = withInvFacts(withSumFacts(ringFs), eqs)
	if r := ringRefute(ringFs, subs); r.ok {
		return r
	} else if r.detail == "again" && depth < 40 {
		// ring reasoning produced new integer facts
	}
	newFacts, r := ringSaturate(ringFs, subs)
	if r {
		return ProveResult{ok: true, backend: "ring"}
	}
	// case split on boolean equivalences that contain congruence/ring literals
	for i, f := range newFacts {
		neg := f.op == "not"
		g := f
		if neg {
			g = f.args[0]
		}
		if g.op != "=" || g.args[0].sort != SBool || !hasCong(g) || depth >= 14 {
			continue
		}
		for _, v := range []bool{true, false} {
			a, b := g.args[0], g.args[1]
			if !v {
				a = Not(a)
			}
			if v == neg {
				b = Not(b)
			}
			sub := append([]*Node{}, newFacts[:i]...)
			sub = append(sub, newFacts[i+1:]...)
			sub = append(sub, eqs...)
			sub = append(sub, a, b)
			if res := refuteD(sub, timeoutMs, depth+1); !res.ok {
				return res
			}
		}
		return ProveResult{ok: true, backend: "ring+split"}
	}
	// case split on disjunctions that contain congruence/ring literals
	for i, f := range newFacts {
		if f.op == "or" && depth < 14 {
			has := false
			for _, x := range f.args {
				if hasCong(x) || touchesRing(x, newFacts) {
					has = true
				}
			}
			if has && len(f.args) <= 6 {
				okAll := true
				for j, x := range f.args {
					sub := append([]*Node{}, newFacts[:i]...)
					sub = append(sub, newFacts[i+1:]...)
					sub = append(sub, eqs...)
					sub = append(sub, x)
					for k := 0; k < j; k++ {
						sub = append(sub, Not(f.args[k]))
					}
					res := refuteD(sub, timeoutMs, depth+1)
					if !res.ok {
						okAll = false
						return res
					}
				}
				if okAll {
					return ProveResult{ok: true, backend: "ring+split"}
				}
			}
		}
	}
	// split on selects over stores with undecided indices inside congruences
	all := append(append([]*Node{}, eqs...), newFacts...)
	if depth < 14 {
		if c := splitCond(newFacts, all); c != nil {
			r1 := refuteD(append(append([]*Node{}, all...), c), timeoutMs, depth+1)
			if !r1.ok {
				return r1
			}
			r2 := refuteD(append(append([]*Node{}, all...), Not(c)), timeoutMs, depth+1)
			if !r2.ok {
				return r2
			}
			return ProveResult{ok: true, backend: "ring+split"}
		}
	}
	if noSMT > 0 {
		return ProveResult{}
	}
	if os.Getenv("GOVC_DEBUG") == "5" {
		fmt.Println("SMT LEAF depth", depth)
		for _, f := range all {
			fmt.Println("     ", f)
		}
	}
	r0 := smtRefute(all, timeoutMs)
	if r0.ok || depth >= 14 {
		return r0
	}
	// last resort: split on disjunctions one of whose cases makes a part of a congruence vanish
	for i, f := range newFacts {
		if f.op != "or" || f.bound || len(f.args) > 4 || !zeroCase(f, newFacts) {
			continue
		}
		for j, x := range f.args {
			sub := append([]*Node{}, newFacts[:i]...)
			sub = append(sub, newFacts[i+1:]...)
			sub = append(sub, eqs...)
			sub = append(sub, x)
			for k := 0; k < j; k++ {
				sub = append(sub, Not(f.args[k]))
			}
			if res := refuteD(sub, timeoutMs, depth+1); !res.ok {
				return res
			}
		}
		return ProveResult{ok: true, backend: "ring+split"}
	}
	return r0
}

// zeroCase: some case of the disjunction says that a list element read in a congruence is zero
func zeroCase(f *Node, fs []*Node) bool {
	for _, x := range f.args {
		if x.op != "=" || x.args[0].op != "select" || x.args[1] != Zero {
			continue
		}
		for _, g := range fs {
			if g.op == "not" {
				g = g.args[0]
			}
			if g.op != "cong" || g.bound {
				continue
			}
			hit := false
			atomsOf(g.args[1], func(a *Node) { hit = hit || a == x.args[0] })
			if hit {
				return true
			}
		}
	}
	return false
}

// mdDiff: t = md(a,m) - md(b,m) vanishes exactly when a and b are congruent modulo m
func mdDiff(t *Node) *Node {
	ms := monosOf(t)
	if len(ms) != 2 {
		return nil
	}
	for _, m := range ms {
		if len(m.fs) != 1 || m.fs[0].e != 1 || m.fs[0].a.op != "md" || m.c.CmpAbs(bigOne) != 0 {
			return nil
		}
	}
	x, y := ms[0].fs[0].a, ms[1].fs[0].a
	if ms[0].c.Sign() == ms[1].c.Sign() || x.args[1] != y.args[1] || x.args[1].op != "num" || x.args[1].k.Sign() <= 0 {
		return nil
	}
	return Cong(x.args[1], x.args[0], y.args[0])
}

// resolveConds replaces conditional terms whose condition is decided by a literal fact.
func resolveConds(fs, eqs []*Node) ([]*Node, bool) {
	lit := map[*Node]*Node{}
	for _, l := range [][]*Node{fs, eqs} {
		for _, f := range l {
			if f.bound || f.op == "forall" || f.op == "or" {
				continue
			}
			lit[f] = True
			n := Not(f)
			lit[n] = False
		}
	}
	for _, f := range fs { // negated conjunctions
		if f.op == "or" {
			lit[Not(f)] = False
			lit[f] = True
		}
	}
	low := map[*Node]*big.Int{} // p -> c: p+c >= 0 known
	for _, l := range [][]*Node{fs, eqs} {
		for _, f := range l {
			if f.op == "ge0" && !f.bound {
				c := constPart(f.args[0])
				p := Sub(f.args[0], Num(c))
				if o, ok := low[p]; !ok || c.Cmp(o) < 0 {
					low[p] = c
				}
			}
		}
	}
	geKnown := func(t *Node) bool { // t >= 0 follows from one literal
		if t.op == "num" {
			return t.k.Sign() >= 0
		}
		c := constPart(t)
		o, ok := low[Sub(t, Num(c))]
		return ok && c.Cmp(o) >= 0
	}
	var decide func(c *Node) (*Node, bool)
	decide = func(c *Node) (*Node, bool) {
		if v, ok := litOf(lit, c); ok {
			return v, ok
		}
		switch c.op {
		case "ge0":
			if geKnown(c.args[0]) {
				return True, true
			}
			if geKnown(Sub(NumI(-1), c.args[0])) {
				return False, true
			}
		case "=":
			if c.args[0].sort == SInt {
				t := Sub(c.args[0], c.args[1])
				if geKnown(Sub(t, One)) || geKnown(Sub(NumI(-1), t)) {
					return False, true
				}
			}
		case "and":
			all := true
			for _, x := range c.args {
				v, ok := decide(x)
				if ok && v == False {
					return False, true
				}
				if !ok || v != True {
					all = false
				}
			}
			if all {
				return True, true
			}
		case "not":
			if v, ok := decide(c.args[0]); ok {
				return Not(v), true
			}
		}
		return nil, false
	}
	sub := map[*Node]*Node{}
	seen := map[*Node]bool{}
	for _, f := range fs {
		atomsOf(f, func(a *Node) {
			if seen[a] || a.bound {
				return
			}
			seen[a] = true
			if a.op == "ite" {
				if v, ok := decide(a.args[0]); ok {
					if v == True {
						sub[a] = a.args[1]
					} else {
						sub[a] = a.args[2]
					}
				}
			} else if a.op == "select" && a.args[0].op == "store" {
				c := Eq(a.args[0].args[1], a.args[1])
				if v, ok := decide(c); ok && v == False {
					sub[a] = Select(a.args[0].args[0], a.args[1])
				}
			}
		})
	}
	if len(sub) == 0 {
		return fs, false
	}
	s := newSubst(sub)
	out := make([]*Node, len(fs))
	ch := false
	for i, f := range fs {
		out[i] = s.apply(f)
		if out[i] != f {
			ch = true
		}
	}
	return out, ch
}

// splitCond finds an undecided index equality or ite condition inside a congruence.
func splitCond(fs, all []*Node) *Node {
	known := map[*Node]bool{}
	for _, f := range all {
		known[f] = true
	}
	var cands []*Node
	seen := map[*Node]bool{}
	for _, f := range fs {
		if !(f.op == "cong" || (f.op == "not" && (f.args[0].op == "cong" || (f.args[0].op == "=" && f.args[0].args[0].sort == SInt && hasMd(f))))) {
			continue
		}
		atomsOf(f, func(a *Node) {
			if a.bound {
				return
			}
			var c *Node
			if a.op == "select" && a.args[0].op == "store" {
				c = Eq(a.args[0].args[1], a.args[1])
			} else if a.op == "ite" && a.sort == SInt {
				c = a.args[0]
			}
			if c != nil && !seen[c] && c != True && c != False && !known[c] && !known[Not(c)] {
				seen[c] = true
				cands = append(cands, c)
			}
		})
	}
	if len(cands) == 0 {
		return nil
	}
	return cands[0]
}

// touchesRing: an integer equality t=0 for an atom that occurs as a factor in a congruence
func touchesRing(x *Node, fs []*Node) bool {
	if x.op == "and" {
		for _, y := range x.args {
			if touchesRing(y, fs) {
				return true
			}
		}
		return false
	}
	if x.op != "=" {
		return false
	}
	if x.args[0].sort != SInt || x.bound {
		return false
	}
	if hasMdTop(x) {
		for _, f := range fs {
			if f.op == "not" && f.args[0].op == "=" && hasMd(f) {
				return true
			}
		}
	}
	ats := map[*Node]bool{}
	for _, s := range x.args {
		for _, m := range monosOf(s) {
			for _, f := range m.fs {
				if f.a.op == "select" || f.a.op == "var" {
					ats[f.a] = true
				}
			}
		}
	}
	for _, f := range fs {
		if f.op == "not" {
			f = f.args[0]
		}
		if f.op != "cong" || !f.ring {
			continue
		}
		for _, m := range monosOf(f.args[1]) {
			for _, g := range m.fs {
				if ats[g.a] {
					return true
				}
			}
		}
	}
	return false
}

func hasCong(n *Node) bool {
	h := false
	atomsOf(n, func(a *Node) {
		if a.op == "cong" || a.ring {
			h = true
		}
	})
	return h
}

func hasMdTop(q *Node) bool {
	for _, s := range q.args {
		for _, m := range monosOf(s) {
			for _, f := range m.fs {
				if f.a.op == "md" || f.a.op == "imc" || f.a.op == "rec" || ringPivot[f.a] != nil || atomHalf[f.a] {
					return true
				}
			}
		}
	}
	return false
}

func rawFact(f *Node) *Node { return rawApp("keep", SBool, "", f) }

// pivotOf: for an integer equality find atom := term
func pivotOf(f *Node) (*Node, *Node) {
	if f.op == "=" && f.args[0].sort == SInt {
		d := Sub(f.args[0], f.args[1])
		if d.bound {
			return nil, nil
		}
		var best *Node
		var bestc int
		for _, m := range monosOf(d) {
			if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
				a := m.fs[0].a
				if occursElsewhere(d, a) {
					continue
				}
				if pivotRank(a) == 0 {
					continue
				}
				if best == nil || pivotRank(a) > pivotRank(best) || (pivotRank(a) == pivotRank(best) && a.id > best.id) {
					best = a
					bestc = int(m.c.Int64())
				}
			}
		}
		if best == nil {
			return nil, nil
		}
		// d = c*a + rest = 0 -> a = -c*rest
		rest := Sub(d, MulI(best, int64(bestc)))
		return best, MulI(rest, int64(-bestc))
	}
	if f.op == "=" && f.args[0].sort != SBool && f.args[0].sort != SInt {
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if a.op == "var" && !a.bound && !b.bound && !contains(b, a) {
				return a, b
			}
		}
	}
	return nil, nil
}

func pivotRank(a *Node) int {
	switch a.op {
	case "var":
		if a.ring || a.bound {
			return 0
		}
		return 5
	case "bit", "shr", "bitlen", "select", "fn":
		return 3
	case "imc", "rec", "md", "minv":
		return 2
	case "ite":
		return 0
	}
	return 1
}

func contains(n, a *Node) bool {
	f := false
	atomsOf(n, func(x *Node) {
		if x == a {
			f = true
		}
	})
	return f
}

func occursElsewhere(d, a *Node) bool {
	cnt := 0
	for _, m := range monosOf(d) {
		for _, f := range m.fs {
			if f.a == a {
				cnt += 1
				if f.e > 1 || len(m.fs) > 1 {
					cnt += 2
				}
			} else if contains(f.a, a) {
				return true
			}
		}
	}
	return cnt > 1
}

// ---------- ring reasoning ----------

type ringCtx struct {
	m    *Node
	E    []*Node // ≡ 0
	D    []*Node // ≢ 0
	sub  map[*Node]*Node
	subs []*Subst
}

func (rc *ringCtx) norm(n *Node) *Node {
	for i := 0; i < 8; i++ {
		n = rc.norm1(n)
		o := n
		for _, s := range rc.subs {
			n = s.apply(n)
		}
		if n == o {
			return n
		}
	}
	return n
}

func (rc *ringCtx) norm1(n *Node) *Node {
	if rc.m.op == "num" {
		if towerPN != nil && rc.m == towerPN {
			return ringNorm(n)
		}
		return reduceCoefs(stripMd(n, rc.m), rc.m.k)
	}
	return stripMd(n, rc.m)
}

// isUnitConst: nonzero numeric constant mod numeric prime, or ±1
func (rc *ringCtx) isUnitConst(n *Node) bool {
	if n.op != "num" {
		return false
	}
	if rc.m.op == "num" {
		return new(big.Int).Mod(n.k, rc.m.k).Sign() != 0
	}
	return n.k.CmpAbs(bigOne) == 0
}

func collectRing(fs []*Node, subs []*Subst) []*ringCtx {
	by := map[*Node]*ringCtx{}
	var order []*ringCtx
	get := func(m *Node) *ringCtx {
		if c, ok := by[m]; ok {
			return c
		}
		c := &ringCtx{m: m, sub: map[*Node]*Node{}, subs: subs}
		by[m] = c
		order = append(order, c)
		return c
	}
	for _, f := range fs {
		if f.bound {
			continue
		}
		switch {
		case f.op == "cong":
			c := get(f.args[0])
			c.E = append(c.E, f.args[1])
		case f.op == "not" && f.args[0].op == "cong":
			c := get(f.args[0].args[0])
			c.D = append(c.D, f.args[0].args[1])
		}
	}
	// integer equalities also hold modulo everything (they were substituted when linear);
	for _, f := range fs {
		if f.op == "=" && f.args[0].sort == SInt {
			for _, c := range order {
				if f.args[0].ring == false || c.m == towerPN || levelOf(f.args[0]) == 1 {
					c.E = append(c.E, Sub(f.args[0], f.args[1]))
				}
			}
		}
	}
	return order
}

func ringRefute(fs []*Node, subs []*Subst) ProveResult {
	for _, c := range collectRing(fs, subs) {
		if c.solve() {
			return ProveResult{ok: true, backend: "ring"}
		}
		if os.Getenv("GOVC_DEBUG") == "3" {
			fmt.Println("  ring residue mod", c.m)
			for _, e := range c.E {
				fmt.Println("    E", e)
			}
			for _, e := range c.D {
				fmt.Println("    D", e)
			}
		}
	}
	return ProveResult{}
}

// applyRS substitutes ring pivots polynomially and renormalises
func (rc *ringCtx) applyS(n, a, r *Node) *Node {
	s := ringSubst(n, map[*Node]*Node{a: r}, rc.m)
	return rc.norm(s)
}

// ringSubst replaces atoms polynomially, and inside md/imc/rec/pow arguments of the same modulus.
func ringSubst(n *Node, sub map[*Node]*Node, m *Node) *Node {
	memo := map[*Node]*Node{}
	var poly func(n *Node) *Node
	atom := func(a *Node) *Node {
		if r, ok := sub[a]; ok {
			return r
		}
		if r, ok := memo[a]; ok {
			return r
		}
		r := a
		switch a.op {
		case "md":
			if a.args[1] == m {
				r = Md(poly(a.args[0]), m)
			}
		case "imc":
			r = Imc(poly(a.args[0]), a.args[1])
		case "rec":
			r = Rec(poly(a.args[0]), a.args[1])
		case "tc1":
			r = Tc(1, poly(a.args[0]))
		case "tc2":
			r = Tc(2, poly(a.args[0]))
		case "wc1":
			r = Wc(1, poly(a.args[0]))
		case "pow":
			r = Pow(poly(a.args[0]), a.args[1])
		case "sum":
			if b := poly(a.args[1]); b != a.args[1] {
				r = Sum(a.args[0], b, a.args[2])
			}
		}
		memo[a] = r
		return r
	}
	poly = func(n *Node) *Node {
		ch := false
		for _, mo := range monosOf(n) {
			for _, f := range mo.fs {
				if atom(f.a) != f.a {
					ch = true
				}
			}
		}
		if !ch {
			return n
		}
		var mod *big.Int
		if m.op == "num" {
			mod = m.k
		}
		var parts []*Node
		for _, mo := range monosOf(n) {
			var keep []Fac
			t := One
			for _, f := range mo.fs {
				x := atom(f.a)
				if x == f.a {
					keep = append(keep, f)
				} else {
					for i := 0; i < f.e; i++ {
						t = mulMod(t, x, mod)
						if m == towerPN {
							t = towerRed(t)
						}
					}
				}
			}
			acc := newAcc()
			acc.add(mo.c, keep)
			parts = append(parts, mulMod(acc.node(nil), t, mod))
		}
		return Add(parts...)
	}
	return poly(n)
}

// linPivot picks a pivot atom in polynomial e (e ≡ 0)
func (rc *ringCtx) linPivot(e *Node) (*Node, *Node) {
	var best *Node
	var bc *big.Int
	for _, m := range monosOf(e) {
		if len(m.fs) != 1 || m.fs[0].e != 1 {
			continue
		}
		a := m.fs[0].a
		if a == TI || a == TTau || a == TOm || a.op == "minv" || a.op == "pow" {
			continue
		}
		if rc.m.op != "num" && m.c.CmpAbs(bigOne) != 0 {
			continue
		}
		if occursElsewhere(e, a) {
			continue
		}
		if best == nil || a.id > best.id {
			best, bc = a, m.c
		}
	}
	if best == nil {
		return nil, nil
	}
	rest := Sub(e, MulB(best, bc))
	if rc.m.op == "num" {
		inv := new(big.Int).ModInverse(new(big.Int).Mod(bc, rc.m.k), rc.m.k)
		if inv == nil {
			return nil, nil
		}
		rest = reduceCoefs(MulB(rest, new(big.Int).Neg(inv)), rc.m.k)
	} else {
		rest = MulB(rest, new(big.Int).Neg(bc))
	}
	return best, rest
}

// solve: true if contradiction
func (rc *ringCtx) solve() bool {
	for i := range rc.E {
		rc.E[i] = rc.norm(rc.E[i])
	}
	for i := range rc.D {
		rc.D[i] = rc.norm(rc.D[i])
	}
	for round := 0; round < 60; round++ {
		var pa, pr *Node
		var keepE []*Node
		for _, e := range rc.E {
			if e == Zero {
				continue
			}
			if rc.isUnitConst(e) {
				return true
			}
			if pa == nil {
				if a, r := rc.linPivot(e); a != nil {
					pa, pr = a, r
					continue
				}
			}
			keepE = append(keepE, e)
		}
		rc.E = keepE
		if pa == nil {
			break
		}
		rc.sub[pa] = pr
		for k, v := range rc.sub {
			if k != pa {
				rc.sub[k] = rc.applyS(v, pa, pr)
			}
		}
		for i := range rc.E {
			rc.E[i] = rc.applyS(rc.E[i], pa, pr)
		}
		for i := range rc.D {
			rc.D[i] = rc.applyS(rc.D[i], pa, pr)
		}
	}
	for _, d := range rc.D {
		if d == Zero {
			return true
		}
	}
	// inverse elimination: equations a*z - 1 with a a minv atom
	for round := 0; round < 20; round++ {
		var ia, z *Node
		idx := -1
		for i, e := range rc.E {
			if a, zz := invEq(e); a != nil {
				if ia == nil || a.id > ia.id {
					ia, z, idx = a, zz, i
				}
			}
		}
		if ia == nil {
			break
		}
		rc.E = append(append([]*Node{}, rc.E[:idx]...), rc.E[idx+1:]...)
		for i := range rc.E {
			rc.E[i] = rc.norm(elimInv(rc.E[i], ia, z, rc.m))
		}
		for i := range rc.D {
			rc.D[i] = rc.norm(elimInv(rc.D[i], ia, z, rc.m))
		}
		rc.D = append(rc.D, z)
	}
	for _, d := range rc.D {
		if d == Zero {
			return true
		}
	}
	// equations c*y^k = rest with y not in rest, used as rewriting rules for powers of y
	if rules := rc.powerRules(); len(rules) > 0 {
		for _, d := range rc.D {
			if rc.powerReduce(d, rules) == Zero {
				return true
			}
		}
	}
	// products of non-zeros: an equation that factors completely into non-zero factors
	for _, e := range rc.E {
		if e != Zero && rc.factorsOut(e) {
			return true
		}
	}
	// a disequation d times some non-zeros lies in the ideal?
	if len(rc.E) > 0 && len(rc.E) < 60 {
		var nz []*Node
		for _, e := range rc.E {
			if e != Zero {
				nz = append(nz, e)
			}
		}
		for _, d := range rc.D {
			if rc.reduce(d, nz) == Zero {
				return true
			}
		}
	}
	if len(rc.E) > 0 && len(rc.E) < 30 {
		G := rc.groebner(rc.E, 60)
		for _, g := range G {
			if rc.isUnitConst(g) {
				return true
			}
			if rc.factorsOut(g) {
				return true
			}
		}
		for _, d := range rc.D {
			r := rc.reduce(d, G)
			if r == Zero {
				return true
			}
		}
		// saturate with nonzero factors: prod(D)*... try d*d' for pairs
		if len(rc.D) <= 6 {
			for i, d := range rc.D {
				for j, d2 := range rc.D {
					if i == j || len(monosOf(d))*len(monosOf(d2)) > 4000 {
						continue
					}
					p := rc.norm(Mul(d, d2))
					if rc.reduce(p, G) == Zero {
						return true
					}
					p3 := rc.norm(Mul(p, d2))
					if len(monosOf(p3)) < 4000 && rc.reduce(p3, G) == Zero {
						return true
					}
				}
			}
		}
	}
	return false
}

type powerRule struct {
	y    *Node
	k    int
	rest *Node // y^k = rest
}

// powerRules selects rules in an order in which no rule reintroduces an atom of an earlier one.
func (rc *ringCtx) powerRules() []powerRule {
	var rules []powerRule
	used := map[*Node]bool{}
	for _, e := range rc.E {
		var best *powerRule
	ms:
		for _, m := range monosOf(e) {
			if len(m.fs) != 1 || m.fs[0].e < 2 || used[m.fs[0].a] || towerDirty(m.fs) {
				continue
			}
			y, k := m.fs[0].a, m.fs[0].e
			if best != nil && best.k <= k {
				continue
			}
			c := rc.coefDiv(bigOne, m.c)
			if c == nil {
				continue
			}
			acc := newAcc()
			for _, o := range monosOf(e) {
				if len(o.fs) == 1 && o.fs[0].a == y && o.fs[0].e == k {
					continue
				}
				for _, f := range o.fs {
					if f.a == y {
						continue ms
					}
				}
				acc.add(new(big.Int).Neg(new(big.Int).Mul(o.c, c)), o.fs)
			}
			rest := acc.node(rc.modulus())
			for _, r := range rules {
				if contains(rest, r.y) || contains(r.rest, y) {
					continue ms
				}
			}
			best = &powerRule{y, k, rest}
		}
		if best != nil {
			used[best.y] = true
			rules = append(rules, *best)
		}
	}
	return rules
}

func (rc *ringCtx) powerReduce(n *Node, rules []powerRule) *Node {
	for _, r := range rules {
		if !contains(n, r.y) || len(monosOf(n)) > 20000 {
			continue
		}
		pw := []*Node{One}
		acc := newAcc()
		for _, m := range monosOf(n) {
			q := 0
			var keep []Fac
			for _, f := range m.fs {
				if f.a == r.y && f.e >= r.k {
					q = f.e / r.k
					f.e %= r.k
				}
				if f.e > 0 {
					keep = append(keep, f)
				}
			}
			for len(pw) <= q {
				pw = append(pw, mulMod(pw[len(pw)-1], r.rest, rc.modulus()))
			}
			for _, x := range monosOf(pw[q]) {
				acc.add(new(big.Int).Mul(m.c, x.c), mulFacs(keep, x.fs))
			}
		}
		n = acc.node(rc.modulus())
		if rc.m == towerPN && towerPN != nil {
			n = towerRed(n)
		}
	}
	return n
}

// invEq recognises c*(a*z) - c ≡ 0 with a a minv atom not in z
func invEq(e *Node) (*Node, *Node) {
	ms := monosOf(e)
	var a *Node
	for _, m := range ms {
		for _, f := range m.fs {
			if f.a.op == "minv" && (a == nil || f.a.id > a.id) {
				a = f.a
			}
		}
	}
	if a == nil {
		return nil, nil
	}
	var cst *big.Int
	acc := newAcc()
	for _, m := range ms {
		if len(m.fs) == 0 {
			cst = m.c
			continue
		}
		var keep []Fac
		ok := false
		for _, f := range m.fs {
			if f.a == a {
				if f.e != 1 {
					return nil, nil
				}
				ok = true
			} else {
				keep = append(keep, f)
			}
		}
		if !ok {
			return nil, nil
		}
		acc.add(m.c, keep)
	}
	if cst == nil {
		return nil, nil
	}
	z := acc.node(nil)
	if contains(z, a) {
		return nil, nil
	}
	// a*z + cst = 0 -> inverse of a is z/(-cst)
	if cst.CmpAbs(bigOne) == 0 {
		return a, MulB(z, new(big.Int).Neg(cst))
	}
	return nil, nil
}

func elimInv(e, a, z, m *Node) *Node {
	deg := 0
	for _, mo := range monosOf(e) {
		for _, f := range mo.fs {
			if f.a == a && f.e > deg {
				deg = f.e
			}
		}
	}
	if deg == 0 {
		return e
	}
	var mod *big.Int
	if m.op == "num" {
		mod = m.k
	}
	zp := []*Node{One}
	for i := 1; i <= deg; i++ {
		t := mulMod(zp[i-1], z, mod)
		if m == towerPN {
			t = towerRed(t)
		}
		zp = append(zp, t)
	}
	var parts []*Node
	for _, mo := range monosOf(e) {
		d := 0
		var keep []Fac
		for _, f := range mo.fs {
			if f.a == a {
				d = f.e
			} else {
				keep = append(keep, f)
			}
		}
		acc := newAcc()
		acc.add(mo.c, keep)
		parts = append(parts, mulMod(acc.node(nil), zp[deg-d], mod))
	}
	return Add(parts...)
}

// factorsOut: e divides out completely by known non-zero factors to a unit constant
func (rc *ringCtx) factorsOut(e *Node) bool {
	cur := e
	for steps := 0; steps < 40; steps++ {
		if rc.isUnitConst(cur) {
			return true
		}
		prog := false
		for _, d := range rc.D {
			if d.op == "num" {
				continue
			}
			if q := rc.divExact(cur, d); q != nil {
				cur = q
				prog = true
				break
			}
		}
		if !prog {
			return false
		}
	}
	return false
}

// monomial order: lexicographic on atom ids (graded)
func monoDeg(fs []Fac) int {
	d := 0
	for _, f := range fs {
		d += f.e
	}
	return d
}
func monoLess(a, b []Fac) bool {
	da, db := monoDeg(a), monoDeg(b)
	if da != db {
		return da < db
	}
	i, j := len(a)-1, len(b)-1
	for i >= 0 && j >= 0 {
		if a[i].a.id != b[j].a.id {
			return a[i].a.id < b[j].a.id
		}
		if a[i].e != b[j].e {
			return a[i].e < b[j].e
		}
		i--
		j--
	}
	return i < j
}
func lead(n *Node) Mono {
	ms := monosOf(n)
	best := ms[0]
	for _, m := range ms[1:] {
		if monoLess(best.fs, m.fs) {
			best = m
		}
	}
	return best
}
func monoDiv(a, b []Fac) ([]Fac, bool) {
	var r []Fac
	j := 0
	for _, f := range a {
		if j < len(b) && b[j].a == f.a {
			if b[j].e > f.e {
				return nil, false
			}
			if f.e > b[j].e {
				r = append(r, Fac{f.a, f.e - b[j].e})
			}
			j++
		} else {
			r = append(r, f)
		}
	}
	if j < len(b) {
		return nil, false
	}
	return r, true
}
func (rc *ringCtx) coefDiv(a, b *big.Int) *big.Int {
	if rc.m.op == "num" {
		inv := new(big.Int).ModInverse(new(big.Int).Mod(b, rc.m.k), rc.m.k)
		if inv == nil {
			return nil
		}
		inv.Mul(inv, a)
		return inv.Mod(inv, rc.m.k)
	}
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		return nil
	}
	return q
}

// wpoly is a mutable polynomial with access to its leading monomial.
type wpoly struct {
	m   map[string]*Mono
	h   monoHeap
	mod *big.Int
}
type monoHeap []Mono

func (h monoHeap) Len() int           { return len(h) }
func (h monoHeap) Less(i, j int) bool { return monoLess(h[j].fs, h[i].fs) }
func (h monoHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *monoHeap) Push(x any)        { *h = append(*h, x.(Mono)) }
func (h *monoHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func newWpoly(n *Node, mod *big.Int) *wpoly {
	w := &wpoly{m: map[string]*Mono{}, mod: mod}
	for _, m := range monosOf(n) {
		w.add(m.c, m.fs)
	}
	return w
}
func (w *wpoly) add(c *big.Int, fs []Fac) {
	k := facKey(fs)
	e, ok := w.m[k]
	if !ok {
		e = &Mono{c: new(big.Int), fs: fs}
		w.m[k] = e
		heap.Push(&w.h, Mono{fs: fs})
	}
	e.c.Add(e.c, c)
	if w.mod != nil {
		e.c.Mod(e.c, w.mod)
	}
	if e.c.Sign() == 0 {
		delete(w.m, k)
	}
}

// lead returns the leading monomial (nil when zero); stale heap entries are dropped.
func (w *wpoly) lead() *Mono {
	for len(w.h) > 0 {
		k := facKey(w.h[0].fs)
		if e, ok := w.m[k]; ok {
			return e
		}
		heap.Pop(&w.h)
	}
	return nil
}

// subMul subtracts c*x^mq*g; in the tower the product is reduced by the tower relations.
func (w *wpoly) subMul(c *big.Int, mq []Fac, g *Node, tower bool) {
	nc := new(big.Int).Neg(c)
	for _, m := range monosOf(g) {
		fs := mulFacs(mq, m.fs)
		cc := new(big.Int).Mul(nc, m.c)
		if tower && towerDirty(fs) {
			acc := newAcc()
			acc.add(cc, fs)
			for _, x := range monosOf(towerRed(acc.node(towerP))) {
				w.add(x.c, x.fs)
			}
			continue
		}
		w.add(cc, fs)
	}
}
func towerDirty(fs []Fac) bool {
	for _, f := range fs {
		if (f.a == TI && f.e >= 2) || (f.a == TTau && f.e >= 3) || (f.a == TOm && f.e >= 2) {
			return true
		}
	}
	return false
}
func (w *wpoly) node() *Node {
	acc := newAcc()
	for _, m := range w.m {
		acc.add(m.c, m.fs)
	}
	return acc.node(nil)
}
func (rc *ringCtx) modulus() *big.Int {
	if rc.m.op == "num" {
		return rc.m.k
	}
	return nil
}

func (rc *ringCtx) divExact(n, d *Node) *Node {
	if len(monosOf(n)) > 3000 || d == Zero {
		return nil
	}
	ld := lead(d)
	q := newAcc()
	w := newWpoly(n, rc.modulus())
	for steps := 0; ; steps++ {
		ln := w.lead()
		if ln == nil {
			break
		}
		if steps > 3000 {
			return nil
		}
		mq, ok := monoDiv(ln.fs, ld.fs)
		if !ok {
			return nil
		}
		c := rc.coefDiv(ln.c, ld.c)
		if c == nil {
			return nil
		}
		q.add(c, mq)
		w.subMul(c, mq, d, false)
	}
	return q.node(nil)
}

// reduce rewrites n modulo the equations G (sound for any G: it only subtracts multiples).
func (rc *ringCtx) reduce(n *Node, G []*Node) *Node {
	w := newWpoly(n, rc.modulus())
	tower := rc.m == towerPN && towerPN != nil
	leads := make([]Mono, len(G))
	for i, g := range G {
		leads[i] = lead(g)
	}
	r := newAcc()
	for steps := 0; ; steps++ {
		ln := w.lead()
		if ln == nil {
			break
		}
		if steps > 4000 || len(w.m) > 6000 {
			return Add(w.node(), r.node(rc.modulus()))
		}
		lc, lf := new(big.Int).Set(ln.c), ln.fs
		done := false
		for i, g := range G {
			mq, ok := monoDiv(lf, leads[i].fs)
			if !ok {
				continue
			}
			c := rc.coefDiv(lc, leads[i].c)
			if c == nil {
				continue
			}
			w.subMul(c, mq, g, tower)
			done = true
			break
		}
		if !done {
			r.add(lc, lf)
			w.add(new(big.Int).Neg(lc), lf)
		}
	}
	return r.node(rc.modulus())
}

var groebnerBudget = 3 * time.Second

func (rc *ringCtx) groebner(E []*Node, limit int) []*Node {
	var G []*Node
	for _, e := range E {
		if e != Zero {
			G = append(G, e)
		}
	}
	type pair struct{ i, j int }
	var ps []pair
	for i := range G {
		for j := 0; j < i; j++ {
			ps = append(ps, pair{i, j})
		}
	}
	deadline := time.Now().Add(groebnerBudget)
	for n := 0; len(ps) > 0 && n < limit; n++ {
		if time.Now().After(deadline) {
			break
		}
		p := ps[0]
		ps = ps[1:]
		a, b := G[p.i], G[p.j]
		la, lb := lead(a), lead(b)
		// lcm
		lcm := lcmFacs(la.fs, lb.fs)
		if monoDeg(lcm) == monoDeg(la.fs)+monoDeg(lb.fs) || monoDeg(lcm) > 12 {
			continue
		}
		ma, _ := monoDiv(lcm, la.fs)
		mb, _ := monoDiv(lcm, lb.fs)
		A := newAcc()
		A.add(lb.c, ma)
		B := newAcc()
		B.add(la.c, mb)
		s := Sub(Mul(A.node(nil), a), Mul(B.node(nil), b))
		s = rc.norm(s)
		if len(monosOf(s)) > 500 {
			continue
		}
		s = rc.reduce(s, G)
		if s != Zero {
			for i := range G {
				ps = append(ps, pair{len(G), i})
			}
			G = append(G, s)
			if rc.isUnitConst(s) {
				return G
			}
		}
	}
	return G
}
func lcmFacs(a, b []Fac) []Fac {
	m := map[*Node]int{}
	for _, f := range a {
		m[f.a] = f.e
	}
	for _, f := range b {
		if f.e > m[f.a] {
			m[f.a] = f.e
		}
	}
	var r []Fac
	for k, v := range m {
		r = append(r, Fac{k, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].a.id < r[j].a.id })
	return r
}

// ringSaturate derives integer facts from ring equations (equal residues have equal canonical
// representatives) and rewrites md/imc/rec arguments; true if that is contradictory.
func ringSaturate(fs []*Node, subs []*Subst) ([]*Node, bool) {
	out := append([]*Node{}, fs...)
	for _, c := range collectRing(fs, subs) {
		c.solve()
		out = append(out, c.quotients(fs)...)
		// collect integer atoms md/imc/rec w.r.t. this modulus occurring outside ring facts
		atoms := map[*Node]bool{}
		var order []*Node
		for _, f := range fs {
			if f.ring {
				// still visit for imc/rec
			}
			atomsOf(f, func(a *Node) {
				if a.bound || atoms[a] {
					return
				}
				if (a.op == "md" && a.args[1] == c.m) || ((a.op == "imc" || a.op == "rec") && c.m == towerPN) {
					atoms[a] = true
					order = append(order, a)
				}
			})
		}
		if len(order) > 60 {
			order = order[:60]
		}
		canon := map[string]*Node{}
		var G []*Node
		if len(c.E) > 0 && len(c.E) < 12 {
			G = c.groebner(c.E, 25)
		}
		for _, a := range order {
			t := c.norm(ringSubst(a.args[0], c.sub, c.m))
			if len(G) > 0 && len(monosOf(t)) < 300 {
				t = c.reduce(t, G)
				t = c.norm(t)
			}
			var r *Node
			switch a.op {
			case "md":
				r = Md(t, c.m)
			case "imc":
				r = Imc(t, towerPN)
			case "rec":
				r = Rec(t, towerPN)
			}
			if r != a {
				out = append(out, Eq(a, r))
			}
			key := a.op + ":" + fmt.Sprint(r.id)
			if b, ok := canon[key]; ok && b != a {
				out = append(out, Eq(a, b))
			} else {
				canon[key] = a
			}
		}
	}
	r, ok := flattenFacts(out)
	if !ok {
		return nil, true
	}
	return r, false
}

// isPrime: primality of m is ground or among the facts
func isPrime(m *Node, fs ...[]*Node) bool {
	if m.op == "num" {
		return m.k.Sign() > 0 && m.k.ProbablyPrime(20)
	}
	p := Fn("prime", SBool, m)
	for _, l := range fs {
		for _, f := range l {
			if f == p {
				return true
			}
		}
	}
	return false
}

// withInvFacts adds inv(t)*t = 1 for inverses of elements known to be non-zero modulo a prime.
func withInvFacts(fs, eqs []*Node) []*Node {
	out := fs
	invs := map[*Node][]*Node{}
	seen := map[*Node]bool{}
	for _, f := range fs {
		g := f
		if g.op == "not" {
			g = g.args[0]
		}
		if g.op == "cong" || g.op == "=" {
			atomsOf(g, func(a *Node) {
				if a.op == "minv" && !a.bound && !seen[a] {
					seen[a] = true
					invs[a.args[1]] = append(invs[a.args[1]], a)
				}
			})
		}
	}
	for m, as := range invs {
		if m == towerPN || !isPrime(m, fs, eqs) {
			continue
		}
		for _, a := range as {
			c := Cong(m, a.args[0], Zero)
			if c == False {
				out = append(out[:len(out):len(out)], Cong(m, Mul(a, a.args[0]), One))
				continue
			}
			n := Not(c)
			for _, f := range fs {
				if f == n {
					out = append(out[:len(out):len(out)], Cong(m, Mul(a, a.args[0]), One))
					break
				}
			}
		}
	}
	return out
}

// quotients: modulo a prime, an equation divisible by a non-zero leaves its cofactor zero.
func (rc *ringCtx) quotients(fs []*Node) []*Node {
	if rc.m == towerPN || !isPrime(rc.m, fs) || len(rc.E) > 20 || len(rc.D) > 20 {
		return nil
	}
	var out []*Node
	for _, e := range rc.E {
		if len(monosOf(e)) > 50 {
			continue
		}
		for _, d := range rc.D {
			if d.op == "num" || e == Zero || e.op == "num" {
				continue
			}
			if q := rc.divExact(e, d); q != nil && q.op != "num" && !q.ring && smallLinear(q, 6) {
				out = append(out, Cong(rc.m, q, Zero))
			}
		}
	}
	return out
}

// ---------- SMT ----------

var smtMu sync.Mutex
var solverBin = "z3-new"
var solverCache = map[[32]byte]ProveResult{}

func smtRefute(fs []*Node, timeoutMs int) ProveResult {
	var use []*Node
	for _, f := range fs {
		if f.op == "keep" {
			f = f.args[0]
		}
		if f.ring {
			continue
		}
		use = append(use, f)
	}
	q, vars := smtQuery(use)
	h := sha256.Sum256([]byte(q))
	if r, ok := solverCache[h]; ok {
		return r
	}
	r := runSolver(q, vars, timeoutMs)
	if r.ok || r.detail == "sat" {
		solverCache[h] = r
	}
	return r
}

func smtName(n *Node) string {
	switch n.op {
	case "var":
		return "|" + string(strings.Map(func(r rune) rune {
			if r == '|' || r == '\\' {
				return '_'
			}
			return r
		}, n.name)) + ":" + shortSort(n.sort) + "|"
	}
	return ""
}
func shortSort(s Sort) string {
	return strings.NewReplacer("(", "", ")", "", " ", "", "Array", "A").Replace(string(s))
}

type smtCtx struct {
	decls map[string]string
	order []string
	facts []string
	done  map[*Node]bool
	memo  map[*Node]string
	ivars map[string]*Node
}

func (s *smtCtx) declare(name, sig string) {
	if _, ok := s.decls[name]; !ok {
		s.decls[name] = sig
		s.order = append(s.order, name)
	}
}

func smtNum(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (s *smtCtx) tr(n *Node) string {
	if r, ok := s.memo[n]; ok {
		return r
	}
	r := s.tr1(n)
	s.memo[n] = r
	return r
}

func (s *smtCtx) uf(name string, n *Node) string {
	var as []string
	var ss []string
	for _, a := range n.args {
		as = append(as, s.tr(a))
		ss = append(ss, string(a.sort))
	}
	nm := "|" + name + "|"
	s.declare(nm, "("+strings.Join(ss, " ")+") "+string(n.sort))
	if len(as) == 0 {
		return nm
	}
	return "(" + nm + " " + strings.Join(as, " ") + ")"
}

func (s *smtCtx) opaque(n *Node) string {
	// ground ring-valued args: name by node id
	nm := fmt.Sprintf("|%s#%d|", n.op, n.id)
	s.declare(nm, "() "+string(n.sort))
	return nm
}

func (s *smtCtx) rangeFact(t string, lo, hi string) {
	s.facts = append(s.facts, fmt.Sprintf("(and (<= %s %s) (< %s %s))", lo, t, t, hi))
}

func (s *smtCtx) tr1(n *Node) string {
	switch n.op {
	case "num":
		return smtNum(n.k)
	case "var":
		nm := smtName(n)
		if !n.bound {
			s.declare(nm, "() "+string(n.sort))
			if n.sort == SInt {
				s.ivars[n.name] = n
			}
		}
		return nm
	case "poly":
		var parts []string
		for _, m := range n.ms {
			var fs []string
			if m.c.Cmp(bigOne) != 0 || len(m.fs) == 0 {
				fs = append(fs, smtNum(m.c))
			}
			for _, f := range m.fs {
				for i := 0; i < f.e; i++ {
					fs = append(fs, s.tr(f.a))
				}
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "true", "false":
		return n.op
	case "=":
		return "(= " + s.tr(n.args[0]) + " " + s.tr(n.args[1]) + ")"
	case "ge0":
		// split positive and negative parts for readability/efficiency
		return "(>= " + s.tr(n.args[0]) + " 0)"
	case "not":
		return "(not " + s.tr(n.args[0]) + ")"
	case "and", "or":
		var as []string
		for _, a := range n.args {
			as = append(as, s.tr(a))
		}
		return "(" + n.op + " " + strings.Join(as, " ") + ")"
	case "ite":
		return "(ite " + s.tr(n.args[0]) + " " + s.tr(n.args[1]) + " " + s.tr(n.args[2]) + ")"
	case "cong":
		if n.ring {
			return s.opaque(n)
		}
		if n.bound || !smallLinear(n.args[1], 6) || n.args[0].op != "num" {
			u := s.uf("modf", rawApp("fn", SInt, "modf", n.args[1], n.args[0]))
			if !n.bound && !s.done[n] && n.args[0].op != "num" && smallLinear(n.args[1], 6) {
				s.facts = append(s.facts, fmt.Sprintf("(=> (= %s 0) (= %s 0))", s.tr(n.args[1]), u))
			}
			if !n.bound && !s.done[n] && smallLinear(n.args[1], 6) {
				s.done[n] = true
				a, m := s.tr(n.args[1]), s.tr(n.args[0])
				s.facts = append(s.facts, fmt.Sprintf("(=> (and (= %s 0) (< 0 %s)) (or (= %s 0) (<= %s %s) (<= %s (- %s))))", u, m, a, m, a, a, m))
			}
			if m := n.args[0]; !n.bound && !s.done[n] && m.op == "num" && len(monosOf(n.args[1])) <= 8 && degree(n.args[1]) <= 3 {
				s.done[n] = true
				tb := s.tr(balanced(n.args[1], m.k))
				ms := s.tr(m)
				s.facts = append(s.facts, fmt.Sprintf("(=> (and (= %s 0) (< (- %s) %s) (< %s %s)) (= %s 0))", u, ms, tb, tb, ms, tb), fmt.Sprintf("(=> (= %s 0) (= %s 0))", tb, u))
			}
			return "(= " + u + " 0)"
		}
		return "(= (mod " + s.tr(n.args[1]) + " " + s.tr(n.args[0]) + ") 0)"
	case "select":
		return "(select " + s.tr(n.args[0]) + " " + s.tr(n.args[1]) + ")"
	case "store":
		return "(store " + s.tr(n.args[0]) + " " + s.tr(n.args[1]) + " " + s.tr(n.args[2]) + ")"
	case "constarr":
		return "((as const " + string(n.sort) + ") " + s.tr(n.args[0]) + ")"
	case "forall":
		n = shiftForall(n)
		k := len(n.args) - 1
		var vs []string
		for _, v := range n.args[:k] {
			vs = append(vs, "("+smtName(v)+" "+string(v.sort)+")")
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + s.tr(n.args[k]) + ")"
	case "md":
		var t string
		if n.args[0].ring {
			t = s.opaque(n)
		} else {
			t = s.uf("modf", n)
		}
		if !n.bound && !s.done[n] {
			s.done[n] = true
			s.rangeFact(t, "0", s.tr(n.args[1]))
			if !n.args[0].ring && smallLinear(n.args[0], 6) {
				if n.args[1].op == "num" {
					s.facts = append(s.facts, fmt.Sprintf("(= %s (mod %s %s))", t, s.tr(n.args[0]), s.tr(n.args[1])))
				} else {
					a, m := s.tr(n.args[0]), s.tr(n.args[1])
					s.facts = append(s.facts, fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s)) (= %s %s))", a, a, m, t, a))
					s.facts = append(s.facts, fmt.Sprintf("(=> (and (<= %s %s) (< %s (+ %s %s))) (= %s (- %s %s)))", m, a, a, m, m, t, a, m))
					s.facts = append(s.facts, fmt.Sprintf("(=> (and (<= (- %s) %s) (< %s 0)) (= %s (+ %s %s)))", m, a, a, t, a, m))
				}
			}
		}
		return t
	case "imc", "rec", "minv":
		t := s.opaque(n)
		if !s.done[n] {
			s.done[n] = true
			s.rangeFact(t, "0", s.tr(n.args[1]))
		}
		return t
	case "bit":
		t := s.uf("bit", n)
		if !n.bound && !s.done[n] {
			s.done[n] = true
			s.rangeFact(t, "0", "2")
		}
		return t
	case "bitlen":
		t := s.uf("bitlen", n)
		if !n.bound && !s.done[n] {
			s.done[n] = true
			s.facts = append(s.facts, "(<= 0 "+t+")")
		}
		return t
	case "shr":
		t := s.uf("shr", n)
		if !n.bound && !s.done[n] {
			s.done[n] = true
			s.facts = append(s.facts, fmt.Sprintf("(=> (<= 0 %s) (<= 0 %s))", s.tr(n.args[0]), t))
		}
		return t
	case "sum", "prod":
		if n.ring {
			return s.opaque(n)
		}
		// one function per summand: of the bound variables around it and the upper bound
		var fb []*Node
		for _, b := range freeBound(n.args[1]) {
			if b != n.args[0] {
				fb = append(fb, b)
			}
		}
		name := fmt.Sprintf("%s#%d", n.op, n.args[1].id)
		t := s.uf(name, &Node{sort: SInt, args: append(fb, n.args[2])})
		if !n.bound && !s.done[n] && !n.args[1].ring {
			// unfold once at the upper bound
			s.done[n] = true
			last := Sub(n.args[2], One)
			b := s.tr(newSubst(map[*Node]*Node{n.args[0]: last}).apply(n.args[1]))
			u := s.uf(name, &Node{sort: SInt, args: []*Node{last}})
			op, unit := "+", "0"
			if n.op == "prod" {
				op, unit = "*", "1"
			}
			hi := s.tr(n.args[2])
			s.facts = append(s.facts, fmt.Sprintf("(ite (<= %s 0) (= %s %s) (= %s (%s %s %s)))", hi, t, unit, t, op, u, b))
			for k, c := 0, t; k < 2; k++ {
				at := Add(n.args[2], NumI(int64(k)))
				b := s.tr(newSubst(map[*Node]*Node{n.args[0]: at}).apply(n.args[1]))
				u := s.uf(name, &Node{sort: SInt, args: []*Node{Add(at, One)}})
				s.facts = append(s.facts, fmt.Sprintf("(=> (<= 0 %s) (= %s (%s %s %s)))", s.tr(at), u, op, c, b))
				c = u
			}
		}
		return t
	case "fn":
		if n.ring {
			return s.opaque(n)
		}
		if ax, ok := fnAxioms[n.name]; ok && s.decls["|"+n.name+"|"] == "" {
			s.facts = append(s.facts, ax)
		}
		t := s.uf(n.name, n)
		if h, ok := fnFacts[n.name]; ok && !n.bound && !s.done[n] {
			s.done[n] = true
			for _, f := range h(n) {
				if !f.ring {
					s.facts = append(s.facts, s.tr(f))
				}
			}
		}
		return t
	}
	if n.ring {
		return s.opaque(n)
	}
	return s.uf(n.op+n.name, n)
}

func degree(n *Node) int {
	d := 0
	for _, m := range monosOf(n) {
		k := 0
		for _, f := range m.fs {
			k += f.e
		}
		if k > d {
			d = k
		}
	}
	return d
}

// balanced takes every coefficient modulo m to the representative of least absolute value.
func balanced(n *Node, m *big.Int) *Node {
	var parts []*Node
	for _, mo := range monosOf(n) {
		c := new(big.Int).Mod(mo.c, m)
		if new(big.Int).Lsh(c, 1).Cmp(m) > 0 {
			c.Sub(c, m)
		}
		t := Num(c)
		for _, f := range mo.fs {
			for i := 0; i < f.e; i++ {
				t = Mul(t, f.a)
			}
		}
		parts = append(parts, t)
	}
	return Add(parts...)
}

// fnFacts: extra ground facts about uninterpreted functions
// fnAxioms: quantified solver axioms about uninterpreted functions
var fnAxioms = map[string]string{}

var fnFacts = map[string]func(n *Node) []*Node{}

func smallLinear(n *Node, max int) bool {
	ms := monosOf(n)
	if len(ms) > max {
		return false
	}
	for _, m := range ms {
		if len(m.fs) > 1 || (len(m.fs) == 1 && m.fs[0].e > 1) {
			return false
		}
	}
	return true
}

func smtQuery(fs []*Node) (string, map[string]*Node) {
	s := &smtCtx{decls: map[string]string{}, done: map[*Node]bool{}, memo: map[*Node]string{}, ivars: map[string]*Node{}}
	var body []string
	for _, f := range fs {
		body = append(body, s.tr(f))
	}
	var sb strings.Builder
	for _, d := range s.order {
		sig := s.decls[d]
		if strings.HasPrefix(sig, "() ") {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", d, sig[3:])
		} else {
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", d, sig)
		}
	}
	for _, f := range s.facts {
		fmt.Fprintf(&sb, "(assert %s)\n", f)
	}
	for _, b := range body {
		fmt.Fprintf(&sb, "(assert %s)\n", b)
	}
	return sb.String(), s.ivars
}

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var theSolver *solverProc

func startSolver() *solverProc {
	cmd := exec.Command(solverBin, "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &solverProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

func (p *solverProc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func runSolver(q string, vars map[string]*Node, timeoutMs int) ProveResult {
	smtMu.Lock()
	defer smtMu.Unlock()
	t0 := time.Now()
	defer func() {
		stats.Lock()
		stats.queries++
		stats.solverTime += time.Since(t0)
		stats.Unlock()
	}()
	if d := os.Getenv("GOVC_SMTDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", d, stats.queries), []byte(q+"(check-sat)\n"), 0o644)
	}
	if theSolver == nil {
		theSolver = startSolver()
	}
	p := theSolver
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n%s(check-sat)\n(echo \"END\")\n", timeoutMs, q)
	type res struct {
		lines []string
		err   error
	}
	read := func() res {
		var ls []string
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				return res{ls, err}
			}
			l = strings.TrimSpace(l)
			if l == "END" {
				return res{ls, nil}
			}
			ls = append(ls, l)
		}
	}
	ch := make(chan res, 1)
	go func() { ch <- read() }()
	var r res
	select {
	case r = <-ch:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
		p.kill()
		theSolver = nil
		return ProveResult{detail: "timeout"}
	}
	if r.err != nil {
		p.kill()
		theSolver = nil
		return ProveResult{detail: "solver died"}
	}
	ans := ""
	for _, l := range r.lines {
		if strings.HasPrefix(l, "(error") {
			return ProveResult{detail: "solver error " + l}
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			ans = l
		}
	}
	if ans == "unsat" {
		return ProveResult{ok: true, backend: solverBin}
	}
	if ans == "sat" && len(names) > 0 {
		// model values
		fmt.Fprintf(p.in, "(get-value (")
		for _, n := range names {
			fmt.Fprintf(p.in, "%s ", smtName(vars[n]))
		}
		fmt.Fprintf(p.in, "))\n(echo \"END\")\n")
		go func() { ch <- read() }()
		select {
		case r = <-ch:
			return ProveResult{detail: "sat", model: parseModel(strings.Join(r.lines, " "), vars)}
		case <-time.After(5 * time.Second):
			p.kill()
			theSolver = nil
		}
	}
	return ProveResult{detail: ans}
}

func parseModel(s string, vars map[string]*Node) map[string]*big.Int {
	m := map[string]*big.Int{}
	for n, v := range vars {
		nm := "(" + smtName(v) + " "
		i := strings.Index(s, nm)
		if i < 0 {
			continue
		}
		t := strings.TrimSpace(s[i+len(nm):])
		neg := false
		if strings.HasPrefix(t, "(- ") {
			neg = true
			t = t[3:]
		}
		j := 0
		for j < len(t) && t[j] >= '0' && t[j] <= '9' {
			j++
		}
		if k, ok := new(big.Int).SetString(t[:j], 10); ok {
			if neg {
				k.Neg(k)
			}
			m[n] = k
		}
	}
	return m
}

// shiftForall renames q to q-d in a formula that uses q only in array indices q+d, so that the index becomes a pattern.
func shiftForall(n *Node) *Node {
	if len(n.args) != 2 {
		return n
	}
	q := n.args[0]
	var off *Node
	ok := true
	atomsOf(n.args[1], func(x *Node) {
		if x.op != "select" || !ok || !x.args[1].bound {
			return
		}
		d := Sub(x.args[1], q)
		if d.bound || d.ring || off != nil && off != d {
			ok = false
			return
		}
		off = d
	})
	if !ok || off == nil || off == Zero {
		return n
	}
	return Forall([]*Node{q}, newSubst(map[*Node]*Node{q: Sub(q, off)}).apply(n.args[1]))
}
