package utils

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

func vfields() []Fq {
	var r []Fq
	m61 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 61), big.NewInt(1))
	for _, q := range []*big.Int{big.NewInt(2), big.NewInt(3), big.NewInt(5), big.NewInt(7), big.NewInt(13), big.NewInt(101), big.NewInt(65537), m61, bn256.Order, bn256.P} {
		r = append(r, NewFq(new(big.Int).Set(q)))
	}
	return r
}

func vmod(x, q *big.Int) *big.Int { return new(big.Int).Mod(x, q) }


// ---- reference polynomials: maps from exponent to canonical non-zero coefficient ----

type rpoly map[uint]*big.Int

func rset(p rpoly, k uint, v, q *big.Int) {
	v = vmod(v, q)
	if v.Sign() == 0 {
		delete(p, k)
	} else {
		p[k] = v
	}
}
func rof(a []*big.Int, q *big.Int) rpoly {
	p := rpoly{}
	for i, x := range a {
		rset(p, uint(i), x, q)
	}
	return p
}
func rget(p rpoly, k uint) *big.Int {
	if v, ok := p[k]; ok {
		return v
	}
	return new(big.Int)
}
func radd(a, b rpoly, sign int64, q *big.Int) rpoly {
	r := rpoly{}
	for k, v := range a {
		rset(r, k, v, q)
	}
	for k, v := range b {
		rset(r, k, new(big.Int).Add(rget(r, k), new(big.Int).Mul(big.NewInt(sign), v)), q)
	}
	return r
}
func rmul(a, b rpoly, q *big.Int) rpoly {
	r := rpoly{}
	for k, v := range a {
		for l, w := range b {
			rset(r, k+l, new(big.Int).Add(rget(r, k+l), new(big.Int).Mul(v, w)), q)
		}
	}
	return r
}
func rscale(a rpoly, w, q *big.Int) rpoly {
	r := rpoly{}
	for k, v := range a {
		rset(r, k, new(big.Int).Mul(v, w), q)
	}
	return r
}
func reval(a rpoly, x, q *big.Int) *big.Int {
	s := new(big.Int)
	for k, v := range a {
		s.Add(s, new(big.Int).Mul(v, new(big.Int).Exp(vmod(x, q), new(big.Int).SetUint64(uint64(k)), q)))
	}
	return vmod(s, q)
}
func rdeg(a rpoly) int {
	d := -1
	for k := range a {
		if int(k) > d {
			d = int(k)
		}
	}
	return d
}
func req(a, b rpoly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w.Cmp(v) != 0 {
			return false
		}
	}
	return true
}
func (p rpoly) String() string {
	var ks []int
	for k := range p {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d:%v", k, p[uint(k)]))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// exact reading of a sparse polynomial by independent tree walk; ok=false if the tree is no
// ordered map of non-zero values
func rwalk(t *AvlTree) (rpoly, string) {
	p := rpoly{}
	bad := ""
	var rec func(n *AvlNode, lo, hi int64)
	rec = func(n *AvlNode, lo, hi int64) {
		if n == nil || bad != "" {
			return
		}
		k := int64(n.key)
		if k <= lo || k >= hi {
			bad = fmt.Sprintf("key %d outside (%d,%d)", k, lo, hi)
			return
		}
		if n.value == nil || n.value.Sign() == 0 {
			bad = fmt.Sprintf("stored zero or nil at key %d", k)
			return
		}
		p[n.key] = n.value
		rec(n.left, lo, k)
		rec(n.right, k, hi)
	}
	rec(t.root, -1, 1<<62)
	return p, bad
}

// rsparse checks that t holds exactly want (canonical)
func rsparse(h *vh.H, what string, t *AvlTree, want rpoly) {
	h.Check(t != nil, "value", "%s = nil", what)
	got, bad := rwalk(t)
	h.Check(bad == "", "tree", "%s: %s in %v", what, bad, got)
	h.Check(req(got, want), "value", "%s = %v, want %v", what, got, want)
}
func rcopy(p rpoly) rpoly {
	r := rpoly{}
	for k, v := range p {
		r[k] = new(big.Int).Set(v)
	}
	return r
}

// dense operand with interesting shapes; elems gives the values
func vdense(h *vh.H, maxLen int, q *big.Int, canonical bool) []*big.Int {
	n := h.Intn(maxLen + 1)
	r := make([]*big.Int, n)
	style := h.Intn(4)
	for i := range r {
		switch {
		case style == 0 && h.Intn(2) == 0:
			r[i] = new(big.Int)
		case style == 1 && i > 0 && h.Intn(3) == 0:
			r[i] = r[h.Intn(i)] // shared coefficient object
		case canonical:
			r[i] = h.Elem(q)
		default:
			r[i] = h.Big(q)
		}
	}
	if n > 0 && h.Intn(4) == 0 {
		r[n-1] = new(big.Int)
	}
	return r
}

// sparse operand, canonical, built in random key order
func vsparse(h *vh.H, maxKey, maxN int, q *big.Int) (*AvlTree, rpoly) {
	p := rpoly{}
	n := h.Intn(maxN + 1)
	var ks []uint
	for i := 0; i < n; i++ {
		k := uint(h.Intn(maxKey + 1))
		if _, ok := p[k]; ok {
			continue
		}
		p[k] = h.NonZero(q)
		ks = append(ks, k)
	}
	switch h.Intn(3) {
	case 0:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case 1:
		sort.Slice(ks, func(i, j int) bool { return ks[i] > ks[j] })
	}
	t := NewAvlTree()
	for _, k := range ks {
		t.Insert(k, p[k])
	}
	return t, rcopy(p)
}

const vslow = 20 * time.Second
