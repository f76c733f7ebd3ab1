package main

import "os"
import "fmt"

// Extensionality of sums: two sums whose summands agree at every index below the common bound are
// equal, and if they agree everywhere but at u they differ by the summands' difference at u. The
// agreement is decided by the solver at a fresh index, summand by summand and factor by factor (or
// by vanishing factors on both sides), so no non-linear reasoning is needed.

// splitLast turns forall q < t+1 into the case q = t and forall q < t, for goals with sums.
func splitLast(goal *Node) []*Node {
	if goal.op != "forall" || goal.name != "1" || !hasSum(goal) {
		return nil
	}
	q, body := goal.args[0], goal.args[1]
	if body.op != "or" {
		return nil
	}
	for i, l := range body.args {
		if l.op != "ge0" {
			continue
		}
		d := Sub(l.args[0], q) // -hi
		if freeIn(d, q) || isNum(d) || constPart(d).Sign() >= 0 {
			continue
		}
		t := Sub(Neg(d), One)
		alt := append([]*Node{}, body.args...)
		alt[i] = GeZero(Sub(q, t))
		return []*Node{Forall([]*Node{q}, Or(alt...)), newSubst(map[*Node]*Node{q: t}).apply(body)}
	}
	return nil
}

func GeZero(n *Node) *Node { return Le(Zero, n) }

func hasSum(n *Node) bool {
	h := false
	atomsOf(n, func(a *Node) {
		if a.op == "sum" {
			h = true
		}
	})
	return h
}

// facsOf: the factors of a single-monomial summand with coefficient one
func facsOf(body *Node) []*Node {
	ms := monosOf(body)
	if len(ms) != 1 || ms[0].c.Cmp(bigOne) != 0 {
		return nil
	}
	var r []*Node
	for _, f := range ms[0].fs {
		for i := 0; i < f.e; i++ {
			r = append(r, f.a)
		}
	}
	return r
}

func closedSums(fs []*Node) (r []*Node) {
	seen := map[*Node]bool{}
	for _, f := range fs {
		atomsOf(f, func(a *Node) {
			if a.op == "sum" && !a.bound && !seen[a] {
				seen[a] = true
				if k := facsOf(a.args[1]); len(k) == 2 && k[0].op == "select" && k[1].op == "select" {
					r = append(r, a)
				}
			}
		})
	}
	return
}

// sumExt rewrites the sums of a goal into sums of the hypotheses where they provably agree.
func (e *Engine) sumExt(pc []*Node, g *Node) *Node {
	gs := closedSums([]*Node{g})
	if len(gs) == 0 {
		return g
	}
	var hyp, plain []*Node
	for _, f := range pc {
		if f.op != "forall" {
			hyp = append(hyp, f)
		}
		if !hasCong(f) {
			plain = append(plain, f)
		}
	}
	for _, f := range g.args { // the goal's own guards
		if g.op == "or" && !hasCong(f) && !hasSum(f) {
			plain = append(plain, Not(f))
		}
	}
	inst := ringInstances(pc, g)
	fsums := closedSums(append(hyp, inst...))
	have := map[*Node]bool{}
	for _, f := range fsums {
		have[f] = true
	}
	var us []*Node
	seenU := map[*Node]bool{}
	atomsOf(g, func(a *Node) {
		if a.op == "select" && !a.bound && a.sort == SInt && !isNum(a.args[1]) && a.args[1].sort == SInt && !seenU[a.args[1]] {
			seenU[a.args[1]] = true
			us = append(us, a.args[1])
		}
	})
	try := func(G, F, u *Node, ms int) bool {
		d := Fresh("sk_d", SInt)
		gf, ff := facsOf(substBV(G.args[1], G.args[0], d)), facsOf(substBV(F.args[1], F.args[0], d))
		if len(gf) != 2 || len(ff) != 2 {
			return false
		}
		z := func(x []*Node) *Node { return Or(Eq(x[0], Zero), Eq(x[1], Zero)) }
		same := Or(And(Eq(gf[0], ff[0]), Eq(gf[1], ff[1])), And(Eq(gf[0], ff[1]), Eq(gf[1], ff[0])), And(z(gf), z(ff)))
		fs := append(plain[:len(plain):len(plain)], Le(Zero, d), Lt(d, G.args[2]))
		if u != nil {
			fs = append(fs, Not(Eq(d, u)))
		}
		r := refute(append(fs, Not(And(Eq(G.args[2], F.args[2]), same))), ms)
		if os.Getenv("GOVC_DEBUG") == "6" {
			fmt.Println("sumext", r.ok, G, "|", F, "|", u, r.backend)
		}
		return r.ok
	}
	sub := map[*Node]*Node{}
	for _, G := range gs {
		if have[G] {
			continue
		}
		gk := map[*Node]bool{}
		for _, x := range facsOf(G.args[1]) {
			gk[x] = true
		}
		done := false
		for pass := 0; pass < 4 && !done; pass++ {
			ms := 300
			if pass >= 2 {
				ms = 2500
			}
			for k := len(fsums) - 1; k >= 0 && !done; k-- {
				F := fsums[k]
				share := false
				for _, x := range facsOf(F.args[1]) {
					share = share || gk[substBV(x, F.args[0], G.args[0])]
				}
				if !share {
					continue
				}
				if pass%2 == 0 {
					if try(G, F, nil, ms) {
						sub[G], done = F, true
					}
					continue
				}
				for _, u := range us {
					if try(G, F, u, ms) {
						in := And(Le(Zero, u), Lt(u, G.args[2]))
						sub[G] = Add(F, Ite(in, Sub(substBV(G.args[1], G.args[0], u), substBV(F.args[1], F.args[0], u)), Zero))
						done = true
						break
					}
				}
			}
		}
	}
	if len(sub) > 0 {
		g = newSubst(sub).apply(g)
	}
	// coefficients that vanish
	z := map[*Node]*Node{}
	n := 0
	atomsOf(g, func(a *Node) {
		if a.op == "select" && !a.bound && a.sort == SInt && !isNum(a.args[1]) && n < 16 {
			n++
			if refute(append(plain[:len(plain):len(plain)], Not(Eq(a, Zero))), 400).ok {
				z[a] = Zero
			}
		}
	})
	if len(z) > 0 {
		g = newSubst(z).apply(g)
	}
	return g
}
