package utils

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func vkeys(p rpoly) []uint {
	var ks []uint
	for k := range p {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// vagree compares every observation of the tree with the model map
func vagree(h *vh.H, t *AvlTree, m rpoly, maxKey uint, deep bool) {
	rsparse(h, "contents", t, m)
	ks := vkeys(m)
	h.Check(t.Size() == len(m), "size", "Size = %d, want %d", t.Size(), len(m))
	for k := uint(0); k <= maxKey+1; k++ {
		w, in := m[k]
		h.Check(t.Has(k) == in, "has", "Has(%d) = %v, want %v", k, t.Has(k), in)
		g, err := t.Get(k)
		if in {
			h.Check(err == nil && g != nil && g.Cmp(w) == 0, "get", "Get(%d) = %v, %v; want %v", k, g, err, w)
		} else {
			h.Check(err != nil && g != nil && g.Sign() == 0, "get", "Get(%d) = %v, %v for an absent key", k, g, err)
		}
	}
	if len(ks) > 0 {
		mx, mn := t.MaxNode(), t.MinNode()
		h.Check(mx != nil && mx.Key() == ks[len(ks)-1] && mx.Value().Cmp(m[ks[len(ks)-1]]) == 0, "max", "MaxNode = %v, want key %d", mx, ks[len(ks)-1])
		h.Check(mn != nil && mn.Key() == ks[0] && mn.Value().Cmp(m[ks[0]]) == 0, "min", "MinNode = %v, want key %d", mn, ks[0])
		h.Check(t.MaxPower() == ks[len(ks)-1], "max", "MaxPower = %d", t.MaxPower())
	} else {
		h.Check(t.MaxPower() == 0, "max", "MaxPower of the empty array = %d", t.MaxPower())
	}
	if !deep {
		return
	}
	seq := func(name string, got []Entry, desc bool) {
		h.Check(len(got) == len(ks), "traverse", "%s delivers %d entries, want %d", name, len(got), len(ks))
		for i, e := range got {
			k := ks[i]
			if desc {
				k = ks[len(ks)-1-i]
			}
			h.Check(e.Key == k && e.Value != nil && e.Value.Cmp(m[k]) == 0, "traverse", "%s entry %d is (%d,%v), want (%d,%v)", name, i, e.Key, e.Value, k, m[k])
		}
	}
	seq("DecendingNodes", t.DecendingNodes(), true)
	for _, asc := range []bool{true, false} {
		var got []Entry
		for e := range t.ChannelNodes(asc) {
			got = append(got, e)
			if len(got) > len(ks)+3 {
				break
			}
		}
		seq(fmt.Sprintf("ChannelNodes(%v)", asc), got, !asc)
	}
	top := 0
	if len(ks) > 0 {
		top = int(ks[len(ks)-1]) + 1
	}
	for _, n := range []int{top, top + 1, top + 4} {
		if n == 0 {
			continue
		}
		arr := t.ToArray(n)
		h.Check(len(arr) == n, "array", "ToArray(%d) has %d entries", n, len(arr))
		for i, x := range arr {
			h.Check(x != nil && x.Cmp(rget(m, uint(i))) == 0, "array", "ToArray(%d)[%d] = %v, want %v", n, i, x, rget(m, uint(i)))
		}
	}
}

func TestVerif_P05(t *testing.T) {
	vh.Run(t, "P05", func(h *vh.H) {
		q := big.NewInt(1009)
		f := NewFq(q)
		type op struct {
			kind int
			key  uint
			val  int64
		}
		run := func(ops []op, maxKey uint, deepEvery int) {
			tr, m := NewAvlTree(), rpoly{}
			type cp struct {
				t *AvlTree
				m rpoly
			}
			var copies []cp
			story := ""
			for i, o := range ops {
				v := big.NewInt(o.val)
				var names = []string{"Insert", "InsertNoOverwrite", "Put/add", "Remove", "Clone", "Put/sub", "Put/mul"}
				story += fmt.Sprintf(" %s(%d,%d)", names[o.kind], o.key, o.val)
				h.Case(true, "%s", story)
				fin := make(chan struct{})
				_ = fin
				h.Timed(vslow, "op", func() {
					old, in := m[o.key]
					switch o.kind {
					case 0:
						tr.Insert(o.key, v)
						rset2(m, o.key, v)
					case 1:
						p := h.Try(func() { tr.InsertNoOverwriteAllowed(o.key, v) })
						h.Check((p != nil) == in, "nooverwrite", "InsertNoOverwriteAllowed panics=%v, key present=%v", p != nil, in)
						if !in {
							rset2(m, o.key, v)
						}
					case 2:
						tr.Put(o.key, v, f.Add)
						rset2(m, o.key, vmod(new(big.Int).Add(rget(m, o.key), v), q))
					case 5:
						tr.Put(o.key, v, f.Sub)
						rset2(m, o.key, vmod(new(big.Int).Sub(rget(m, o.key), v), q))
					case 6:
						tr.Put(o.key, v, f.Mul)
						rset2(m, o.key, vmod(new(big.Int).Mul(rget(m, o.key), v), q))
					case 3:
						g, err := tr.Remove(o.key)
						if in {
							h.Check(err == nil && g != nil && g.Cmp(old) == 0, "remove", "Remove = %v, %v; want %v", g, err, old)
							delete(m, o.key)
						} else {
							h.Check(err != nil, "remove", "Remove of an absent key reports no error")
						}
					case 4:
						c := tr.Clone()
						vagree(h, c, m, maxKey, true)
						copies = append(copies, cp{c, rcopy(m)})
						if len(copies) > 3 {
							copies = copies[1:]
						}
						// continue on the copy half of the time: the original must stay
						if o.val%2 == 0 {
							copies[len(copies)-1].t, tr = tr, c
						}
					}
					vagree(h, tr, m, maxKey, deepEvery <= 1 || i%deepEvery == 0)
					for _, c := range copies {
						rsparse(h, "a separate copy", c.t, c.m)
					}
				})
			}
			vagree(h, tr, m, maxKey, true)
		}
		h.Phase("all orders of inserting up to 6 keys, then removing one or two", 0.1)
		for n := 1; n <= 6; n++ {
			perm := make([]int, n)
			var gen func(i int, used int)
			cnt := 0
			gen = func(i, used int) {
				if i == n {
					cnt++
					if n == 6 && cnt%4 != int(h.Seed&3) {
						return
					}
					var ops []op
					for _, k := range perm {
						ops = append(ops, op{0, uint(k), int64(k + 1)})
					}
					ops = append(ops, op{3, uint(perm[cnt%n]), 0}, op{3, uint(perm[(cnt/n)%n]), 0}, op{2, uint(perm[(cnt/2)%n]), 1009 - int64(perm[(cnt/2)%n]) - 1})
					run(ops, uint(n), 100)
					return
				}
				for k := 0; k < n; k++ {
					if used>>k&1 == 0 {
						perm[i] = k
						gen(i+1, used|1<<k)
					}
				}
			}
			gen(0, 0)
		}
		h.Phase("random operation sequences", 0.9)
		for h.More(60) {
			maxKey := uint([]int{3, 8, 20, 60}[h.Intn(4)])
			n := 5 + h.Intn(int(maxKey)*3)
			style := h.Intn(5)
			var ops []op
			for i := 0; i < n; i++ {
				o := op{[]int{0, 0, 0, 2, 2, 2, 3, 3, 1, 4, 5, 6}[h.Intn(12)], uint(h.Intn(int(maxKey) + 1)), int64(h.Intn(1009))}
				switch style {
				case 0: // ascending growth
					if i < n/2 {
						o.kind, o.key = 0, uint(i)%(maxKey+1)
					}
				case 1: // descending growth
					if i < n/2 {
						o.kind, o.key = 0, maxKey-uint(i)%(maxKey+1)
					}
				case 2:
					if h.Intn(3) == 0 {
						o.val = 0
					}
				case 3: // grow first, then remove a lot
					if i < n/2 {
						o.kind = 0
					} else {
						o.kind = 3
					}
				}
				if h.Intn(6) == 0 {
					o.val = 0
				}
				ops = append(ops, o)
			}
			run(ops, maxKey, 7)
		}
	})
}

func rset2(m rpoly, k uint, v *big.Int) {
	if v.Sign() == 0 {
		delete(m, k)
	} else {
		m[k] = v
	}
}
