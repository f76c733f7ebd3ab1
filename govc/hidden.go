package main

import "math/big"

// proveHidden proves an invariant that is kept out of the path condition. A universal whose range grew
// by one is the old fact below the old bound, where the written arrays agree with the old ones, and
// the body at the bound; the latter is simplified by the literals of the path condition and proved
// without the old fact.
func (e *Engine) proveHidden(st *State, c Clause, goal *Node) ProveResult {
	if goal.op == "and" {
		r := ProveResult{ok: true, backend: "simp"}
		for _, g := range goal.args {
			if r = e.proveHidden(st, c, g); !r.ok {
				break
			}
		}
		return r
	}
	if goal == True {
		return ProveResult{ok: true, backend: "simp"}
	}
	sub := pcEqualities(st)
	goal = newSubst(sub).apply(goal)
	var hyp []*Node
	for _, h := range st.hid {
		if h.name == c.topName() {
			hyp = append(hyp, newSubst(sub).apply(h.n))
		}
	}
	for _, h := range hyp {
		if h == goal {
			return ProveResult{ok: true, backend: "simp"}
		}
	}
	for _, h := range hyp {
		if sameBelow(st, goal, h) {
			return ProveResult{ok: true, backend: "simp"}
		}
	}
	alts := splitLastAny(goal)
	if alts == nil || len(hyp) == 0 {
		return e.prove(st.reveal(c), goal)
	}
	q, body := alts[0].args[0], alts[0].args[1]
	k := Fresh("sk_"+q.name, SInt)
	inst := newSubst(map[*Node]*Node{q: k}).apply(body)
	inst = otherIndex(inst, k, alts[2])
	done := inst == True
	for _, h := range hyp {
		if h.op == "forall" && h.name == "1" && otherIndex(newSubst(map[*Node]*Node{h.args[0]: k}).apply(h.args[1]), k, alts[2]) == inst {
			done = true
		}
	}
	if !done {
		if r := e.prove(st.reveal(c), inst); !r.ok {
			return r
		}
	}
	last := alts[1]
	for i := 0; i < 4; i++ {
		n := simpLits(st, newSubst(sub).apply(last))
		if n == last {
			break
		}
		last = n
	}
	return e.prove(st, last)
}

// splitLastAny: the universal below its last index, its body there, and that index
func splitLastAny(goal *Node) []*Node {
	if goal.op != "forall" || goal.name != "1" {
		return nil
	}
	q, body := goal.args[0], goal.args[1]
	if body.op != "or" {
		return nil
	}
	for i, l := range body.args {
		if l.op != "ge0" {
			continue
		}
		d := Sub(l.args[0], q)
		if freeIn(d, q) || isNum(d) {
			continue
		}
		t := Sub(Neg(d), One)
		alt := append([]*Node{}, body.args...)
		alt[i] = GeZero(Sub(q, t))
		return []*Node{Forall([]*Node{q}, Or(alt...)), newSubst(map[*Node]*Node{q: t}).apply(body), t}
	}
	return nil
}

// otherIndex simplifies reads at k of arrays written at t, for k different from t.
func otherIndex(n, k, t *Node) *Node {
	for i := 0; i < 8; i++ {
		m := map[*Node]*Node{}
		atomsOf(n, func(x *Node) {
			if x.op == "select" && x.args[1] == k && x.args[0].op == "store" && x.args[0].args[1] == t {
				m[x] = Select(x.args[0].args[0], k)
			}
		})
		if len(m) == 0 {
			break
		}
		n = newSubst(m).apply(n)
	}
	return n
}

// pcEqualities: terms the path condition equates with a number or another variable
func pcEqualities(st *State) map[*Node]*Node {
	m := map[*Node]*Node{}
	for _, f := range st.pc {
		if f.op != "=" || len(f.args) != 2 {
			continue
		}
		d := Sub(f.args[0], f.args[1])
		if f.args[0].sort != SInt {
			continue
		}
		ms := monosOf(d)
		c := new(big.Int)
		var vs []Mono
		for _, x := range ms {
			if len(x.fs) == 0 {
				c = x.c
			} else {
				vs = append(vs, x)
			}
		}
		one := func(x Mono) (*Node, int) {
			if len(x.fs) == 1 && x.fs[0].e == 1 && x.c.IsInt64() && (x.c.Int64() == 1 || x.c.Int64() == -1) {
				return x.fs[0].a, int(x.c.Int64())
			}
			return nil, 0
		}
		switch len(vs) {
		case 1:
			if a, s := one(vs[0]); a != nil {
				v := new(big.Int).Neg(c)
				if s < 0 {
					v.Neg(v)
				}
				m[a] = Num(v)
			}
		case 2:
			a, s := one(vs[0])
			b, t := one(vs[1])
			if a != nil && b != nil && s == -t && c.Sign() == 0 && a.op == "var" && b.op == "var" {
				if a.id < b.id { // the later variable is named by the earlier one
					a, b = b, a
				}
				if m[a] == nil {
					m[a] = b
				}
			}
		}
	}
	return m
}

// simpLits decides conditions that are literally in the path condition.
func simpLits(st *State, n *Node) *Node {
	pos := map[*Node]bool{}
	for _, f := range st.pc {
		pos[f] = true
	}
	m := map[*Node]*Node{}
	atomsOf(n, func(x *Node) {
		if x.op == "ite" {
			c := x.args[0]
			if pos[c] {
				m[c] = True
			} else if pos[Not(c)] {
				m[c] = False
			}
		}
	})
	if len(m) == 0 {
		return n
	}
	return newSubst(m).apply(n)
}

// sameBelow: goal and h are universals with the same body, and the range of goal lies in that of h
// where the arrays written since agree.
func sameBelow(st *State, goal, h *Node) bool {
	if goal.op != "forall" || h.op != "forall" || goal.name != "1" || h.name != "1" {
		return false
	}
	parts := func(n *Node, k *Node) []*Node {
		b := newSubst(map[*Node]*Node{n.args[0]: k}).apply(n.args[1])
		if b.op == "or" {
			return b.args
		}
		return []*Node{b}
	}
	k := Fresh("sk", SInt)
	var plain []*Node
	for _, f := range st.pc {
		if !hasForall(f) && !hasCong(f) && !hasSum(f) {
			plain = append(plain, f)
		}
	}
	gp := parts(goal, k)
	var rest []*Node
	for _, g := range gp {
		if g.op == "ge0" || g.op == "=" {
			plain = append(plain, Not(g))
		} else {
			rest = append(rest, g)
		}
	}
	ts := map[*Node]bool{}
	for _, g := range rest {
		atomsOf(g, func(x *Node) {
			if x.op == "select" && x.args[1] == k && x.args[0].op == "store" {
				ts[x.args[0].args[1]] = true
			}
		})
	}
	have := map[*Node]bool{}
	for _, g := range gp {
		have[g] = true
	}
	for t := range ts {
		if refute(append(plain[:len(plain):len(plain)], Eq(k, t)), 3000).ok {
			for i := range rest {
				rest[i] = otherIndex(rest[i], k, t)
			}
		}
	}
	for _, g := range rest {
		have[g] = true
	}
	for _, a := range parts(h, k) {
		if have[a] {
			continue
		}
		if (a.op != "ge0" && a.op != "=") || !refute(append(plain[:len(plain):len(plain)], a), 3000).ok {
			return false
		}
	}
	return true
}
