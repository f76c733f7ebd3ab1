package utils

import "math/big"

func ZSC(l []*big.Int) *big.Int {
	s := ZT{l: make([]*big.Int, 1)}
	s.l[0] = big.NewInt(1)
	t := s
	t.l[0] = big.NewInt(2)
	return s.l[0]
}
func ZRowW(n int) *big.Int {
	m := make([][]*big.Int, 2)
	m[0] = []*big.Int{big.NewInt(1)}
	m[1] = []*big.Int{big.NewInt(1)}
	for _, row := range m {
		row[0] = big.NewInt(2)
	}
	return m[0][0]
}
func ZLive(l []int) int {
	r := make([]int, 3)
	s := 0
	for i, v := range r {
		if i == 0 {
			r[1] = 5
		}
		s += v
	}
	return s
}
func ZRowApp(x *big.Int) *big.Int {
	row := make([]*big.Int, 1, 4)
	row[0] = x
	a := append(row, big.NewInt(1))
	b := append(row, big.NewInt(2))
	_ = b
	return a[1]
}
func ZClosSl(x *big.Int) *big.Int {
	l := []*big.Int{x}
	f := func() { l[0] = big.NewInt(4) }
	f()
	return l[0]
}
func ZMapSl() int {
	m := map[string][]int{}
	m["a"] = []int{1}
	r := m["a"]
	r[0] = 4
	return m["a"][0]
}
func ZMapAlias() int {
	m := map[int]int{1: 2}
	q := m
	q[1] = 7
	return m[1]
}
func ZMapRange(m map[int]int) int {
	s := 0
	for k := range m {
		s = k
	}
	return s
}
func ZPtrPtr() int {
	a, b := &ZT{n: 1}, &ZT{n: 2}
	p := a
	if b.n > 1 {
		p = b
	}
	p.n = 9
	return b.n
}
func ZPtrLoop(n int) int {
	a, b := &ZT{n: 1}, &ZT{n: 2}
	p := a
	for i := 0; i < n; i++ {
		p.n = 5
		p = b
	}
	return b.n
}
func ZNest(n int) int {
	c := 0
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			c++
		}
	}
	return c
}
func ZCopyOv() int {
	l := []int{1, 2, 3}
	copy(l[1:], l)
	return l[2]
}
func ZSlWin() int {
	l := []int{1, 2, 3}
	w := l[1:]
	w[0] = 9
	return l[1]
}
func ZSlWin2(l []*big.Int, k int) *big.Int {
	r := make([]*big.Int, len(l))
	copy(r, l)
	w := r[k:]
	w[0] = big.NewInt(4)
	return r[k]
}
func ZTern(x *big.Int) *big.Int {
	a := new(big.Int).Set(x)
	var p *big.Int
	if x.Sign() > 0 {
		p = a
	} else {
		p = new(big.Int)
	}
	p.SetInt64(3)
	return a
}
func ZSwapIdx(l []*big.Int) *big.Int {
	r := make([]*big.Int, 2)
	r[0], r[1] = big.NewInt(1), big.NewInt(2)
	r[0], r[1] = r[1], r[0]
	return r[0]
}
func ZMulti(l []int) int {
	i := 0
	r := make([]int, 3)
	i, r[i] = 1, 7
	return r[0]
}
func ZAddSelf(x *big.Int) *big.Int {
	a := new(big.Int).Set(x)
	a.Mul(a, a).Add(a, a)
	return a
}
func ZNeg(x *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).Neg(x), big.NewInt(5))
}
func ZMethodVal(x *big.Int) *big.Int {
	a := new(big.Int).Set(x)
	f := a.Add
	f(a, a)
	return a
}
