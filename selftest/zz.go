package utils

// Functions whose contracts in zz.spec are wrong: the engine must reject every one of them.

import "math/big"

type ZT struct {
	x *big.Int
	n int
	l []*big.Int
}

func (t *ZT) ZSetX(b *big.Int)            { t.x = b }
func (t *ZT) ZSetL(l []*big.Int)          { t.l = l }
func ZSwap(a, b *ZT)                      { a.x, b.x = b.x, a.x }
func ZId(l []*big.Int) []*big.Int         { return l }
func ZOkElem(l []*big.Int) *big.Int       { return l[0] }
func ZOkPick(a, b *big.Int) *big.Int      { return a }
func ZOkWrap(a *big.Int) []*big.Int       { return []*big.Int{a} }
func ZOkStore(l []*big.Int, a *big.Int)   { l[0] = a }
func ZOkRow(m [][]*big.Int, r []*big.Int) { m[0] = r }
func ZOkRows(r []*big.Int) [][]*big.Int   { return [][]*big.Int{r} }

func ZElemUse(l []*big.Int) *big.Int {
	e := ZOkElem(l)
	e.SetInt64(4)
	return l[0]
}
func ZPickUse(x *big.Int) *big.Int {
	a := new(big.Int).Set(x)
	m := ZOkPick(a, x)
	a.SetInt64(9)
	return m
}
func ZWrapUse(x *big.Int) []*big.Int {
	a := new(big.Int).Set(x)
	m := ZOkWrap(a)
	a.SetInt64(9)
	return m
}
func ZStoreUse(x *big.Int) []*big.Int {
	a := new(big.Int).Set(x)
	l := make([]*big.Int, 1)
	ZOkStore(l, a)
	a.SetInt64(9)
	return l
}
func ZRowUse(x *big.Int) [][]*big.Int {
	r := []*big.Int{x}
	m := make([][]*big.Int, 1)
	ZOkRow(m, r)
	r[0] = big.NewInt(77)
	return m
}
func ZRowsUse(x *big.Int) [][]*big.Int {
	r := []*big.Int{x}
	m := ZOkRows(r)
	r[0] = big.NewInt(77)
	return m
}
func ZAppend(l []*big.Int) []*big.Int { return append(l[:1], big.NewInt(8)) }
func ZShare(l []*big.Int) []*big.Int {
	r := make([]*big.Int, len(l))
	copy(r, l)
	t := r[:1]
	t = append(t, big.NewInt(4))
	return r
}
func ZAliasRows(m [][]*big.Int) *big.Int {
	r := make([][]*big.Int, 2)
	row := make([]*big.Int, 2)
	row[0], row[1] = big.NewInt(0), big.NewInt(0)
	r[0], r[1] = row, row
	r[0][0] = big.NewInt(3)
	return r[1][0]
}
func ZDefer(a int) (r int) {
	defer func() { r++ }()
	r = a
	return r
}
func ZShadow(a int) int {
	r := 1
	if a > 0 {
		r := 2
		_ = r
	}
	return r
}
func ZClos(a int) int {
	r := 0
	f := func(x int) { r += x }
	for i := 0; i < 3; i++ {
		f(a)
	}
	return r
}
func ZLab(n int) int {
	c := 0
outer:
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if j == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			c++
		}
	}
	return c
}
func ZMap(k int) int {
	m := map[int]int{}
	m[1] = 5
	m[k] = 6
	return m[1]
}
func ZByte(a byte) byte   { return a + 1 }
func ZI32(a int) int32    { return int32(a) }
func ZSub(a, b uint) uint { return a - b }
func ZDiv(a int) int      { return a / 2 }
func ZInts(a int) int     { return int(uint8(a)) }
func ZIntAlias(a *big.Int) *big.Int {
	c := new(big.Int).Set(a)
	d := &c
	(*d).SetInt64(5)
	return c
}
func ZLoopPtr(l []*big.Int) *big.Int {
	acc := new(big.Int)
	p := acc
	for i := 0; i < len(l); i++ {
		p.Add(p, l[i])
	}
	return acc
}
func ZLoopStore(n int) []*big.Int {
	y := new(big.Int)
	l := make([]*big.Int, n)
	for i := 0; i < n; i++ {
		y.SetInt64(int64(i))
		l[i] = y
	}
	return l
}
func ZRangePtr(l []*big.Int) *big.Int {
	r := make([]*big.Int, len(l))
	x := big.NewInt(0)
	for i := range r {
		r[i] = x
	}
	if len(l) > 1 {
		r[0].SetInt64(6)
		return r[1]
	}
	return x
}
func ZStructCopy(x int) int {
	s := ZT{n: x}
	t := s
	t.n = 7
	return s.n
}
func ZStructPtr() *big.Int {
	s := ZT{x: big.NewInt(1)}
	t := s
	t.x.SetInt64(5)
	return s.x
}
func ZVar(n int) int {
	c := 0
	for c < n {
		c += 2
	}
	return c
}
func ZRecur(n int) int {
	if n <= 0 {
		return 0
	}
	return ZRecur(n-1) + 1
}
func ZVariadic(a ...int) int {
	if len(a) > 0 {
		a[0] = 5
	}
	return len(a)
}
func ZOOB(l []int, i int) int { return l[i] }
func ZEarly(l []int) int {
	for _, x := range l {
		if x == 3 {
			return 1
		}
	}
	return 0
}
func ZTMut(t *AvlTree) *AvlTree {
	r := t.Clone()
	for v := range r.ChannelNodes(false) {
		v.Value.SetInt64(5)
	}
	return r
}
func ZTStored(x *big.Int) *AvlTree {
	y := new(big.Int).Set(x)
	t := NewAvlTree()
	t.Insert(3, y)
	y.SetInt64(9)
	return t
}
func ZTPut(x *big.Int) *AvlTree {
	y := new(big.Int).Set(x)
	t := NewAvlTree()
	t.Put(3, y, setInsertNoOvreride)
	y.SetInt64(9)
	return t
}
func ZTAlias(t *AvlTree) *AvlTree {
	r := NewAvlTree()
	s := r
	s.Insert(3, big.NewInt(4))
	return r
}
func ZTTwice(t *AvlTree) *AvlTree {
	r := NewAvlTree()
	r.Insert(3, big.NewInt(4))
	r.Insert(3, big.NewInt(5))
	return r
}
func ZTArg(t *AvlTree) int {
	t.Insert(3, big.NewInt(4))
	return 0
}
func ZTSlice(l []*AvlTree) *AvlTree {
	r := make([]*AvlTree, 2)
	x := NewAvlTree()
	r[0], r[1] = x, x
	r[0].Insert(1, big.NewInt(1))
	return r[1]
}
func ZTIter(t *AvlTree) *AvlTree {
	for v := range t.ChannelNodes(false) {
		t.Remove(v.Key)
	}
	return t
}
func ZTCopy(t *AvlTree) *AvlTree {
	s := *t
	s.Insert(2, big.NewInt(3))
	return t
}
