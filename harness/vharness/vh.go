// Package vharness drives executable oracles against the real code: it supplies
// seeded values, counts what was tried and records the first failing input.
package vharness

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Seed   int64  `json:"seed"`
}
type Result struct {
	Property    string     `json:"property"`
	Evaluations int        `json:"evaluations"`
	Distinct    int        `json:"distinct"`
	Rules       []string   `json:"rules"`
	Samples     []string   `json:"samples"`
	Known       []string   `json:"known"`
	Violation   *Violation `json:"violation"`
	Done        bool       `json:"done"`
	Wall        float64    `json:"wall_s"`
}

type H struct {
	R        *rand.Rand
	Seed     int64
	Lits     []*big.Int
	res      Result
	seen     map[[8]byte]bool
	known    map[string]bool
	end      time.Time
	cur      string
	start    time.Time
	out      string
	curf     string
	step     int
	phaseEnd time.Time
	nsamp    map[string]int
	phase    string
}

type stop struct{}

// Run executes the oracle f until its time budget ends or a violation is found.
func Run(t *testing.T, prop string, f func(h *H)) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("driven by the verification check only")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget <= 0 {
		budget = 10
	}
	h := &H{R: rand.New(rand.NewSource(seed)), Seed: seed, seen: map[[8]byte]bool{}, known: map[string]bool{}, start: time.Now(), out: out, curf: os.Getenv("VERIF_CUR"), nsamp: map[string]int{}}
	h.end = h.start.Add(time.Duration(budget * float64(time.Second)))
	h.phaseEnd = h.end
	h.res.Property = prop
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			h.known[k] = true
		}
	}
	for _, k := range strings.Split(os.Getenv("VERIF_LITS"), ",") {
		if b, ok := new(big.Int).SetString(k, 0); ok {
			h.Lits = append(h.Lits, b)
		}
	}
	defer func() {
		h.res.Wall = time.Since(h.start).Seconds()
		h.res.Done = true
		h.res.Distinct = len(h.seen)
		b, _ := json.MarshalIndent(&h.res, "", " ")
		os.WriteFile(out, b, 0644)
		if h.res.Violation != nil {
			t.Errorf("violation: %s: %s", h.res.Violation.Case, h.res.Violation.Detail)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			// a panic that escaped the oracle: the code under test panicked on this case
			h.res.Violation = &Violation{Key: "panic", Case: h.cur, Detail: fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()))), Seed: h.Seed}
		}
	}()
	f(h)
}

func trim(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// Phase gives the following loop a share (0..1] of the whole budget.
func (h *H) Phase(name string, share float64) {
	h.phase = name
	total := h.end.Sub(h.start)
	h.phaseEnd = time.Now().Add(time.Duration(float64(total) * share))
	h.res.Rules = append(h.res.Rules, name)
	h.step = 0
}

// More reports whether the phase should try another case; at least min cases run.
func (h *H) More(min int) bool {
	h.step++
	return h.step <= min || time.Now().Before(h.phaseEnd)
}

// Case announces the input about to be tried.
func (h *H) Case(nontrivial bool, format string, a ...interface{}) {
	h.cur = fmt.Sprintf(format, a...)
	h.res.Evaluations++
	if nontrivial {
		s := sha256.Sum256([]byte(h.phase + h.cur))
		var k [8]byte
		copy(k[:], s[:8])
		h.seen[k] = true
	}
	if h.nsamp[h.phase] < 2 && len(h.res.Samples) < 60 {
		h.nsamp[h.phase]++
		c := h.cur
		if len(c) > 400 {
			c = c[:400] + "…"
		}
		h.res.Samples = append(h.res.Samples, h.phase+": "+c)
	}
	if h.curf != "" {
		os.WriteFile(h.curf, []byte(h.phase+": "+h.cur), 0644)
	}
}

// Fail records that the current case violates the property.
func (h *H) Fail(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if h.known[key] {
		for _, k := range h.res.Known {
			if k == key {
				return
			}
		}
		h.res.Known = append(h.res.Known, key)
		return
	}
	h.res.Violation = &Violation{Key: key, Case: h.phase + ": " + h.cur, Detail: trim(d), Seed: h.Seed}
	panic(stop{})
}

func (h *H) Check(ok bool, key, format string, a ...interface{}) {
	if !ok {
		h.Fail(key, format, a...)
	}
}

// Try runs f and returns the recovered panic value, or nil.
func (h *H) Try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Timed runs f in a goroutine; it fails the case if f does not return in time.
func (h *H) Timed(d time.Duration, key string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			h.Fail(key+"-panic", "panic: %v", r)
		}
	case <-time.After(d):
		h.Fail(key+"-hang", "no result after %v", d)
	}
}

// ---- values ----

func (h *H) Intn(n int) int { return h.R.Intn(n) }
func (h *H) Pick(n int) int { return h.R.Intn(n) }

// Big gives integers around 0, around multiples of m, source literals, and random ones.
func (h *H) Big(m *big.Int) *big.Int {
	small := big.NewInt(int64(h.R.Intn(7) - 3))
	switch h.R.Intn(10) {
	case 0:
		return small
	case 1: // around a multiple of m
		k := big.NewInt(int64(h.R.Intn(5) - 2))
		return small.Add(small, k.Mul(k, m))
	case 2: // powers of two
		r := new(big.Int).Lsh(big.NewInt(1), uint(h.R.Intn(m.BitLen()+70)))
		return r.Add(r, small)
	case 3:
		if len(h.Lits) > 0 {
			return new(big.Int).Add(h.Lits[h.R.Intn(len(h.Lits))], small)
		}
		return small
	case 4: // larger than m
		r := new(big.Int).Rand(h.R, new(big.Int).Mul(m, m))
		if h.R.Intn(2) == 0 {
			r.Neg(r)
		}
		return r
	case 5:
		return big.NewInt(h.R.Int63n(1 << 20))
	case 6: // word patterns
		r := new(big.Int)
		for i := 0; i <= m.BitLen()/64; i++ {
			r.Lsh(r, 64)
			switch h.R.Intn(4) {
			case 0:
			case 1:
				r.Add(r, new(big.Int).SetUint64(^uint64(0)))
			default:
				r.Add(r, new(big.Int).SetUint64(h.R.Uint64()))
			}
		}
		return r
	}
	return new(big.Int).Rand(h.R, m)
}

// Elem gives canonical field elements, often small or near the modulus.
func (h *H) Elem(m *big.Int) *big.Int {
	switch h.R.Intn(8) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Mod(big.NewInt(1), m)
	case 2:
		return new(big.Int).Sub(m, big.NewInt(1))
	case 3:
		return new(big.Int).Mod(big.NewInt(int64(h.R.Intn(20))), m)
	case 4:
		return new(big.Int).Mod(h.Big(m), m)
	}
	return new(big.Int).Rand(h.R, m)
}
func (h *H) NonZero(m *big.Int) *big.Int {
	for {
		e := h.Elem(m)
		if e.Sign() != 0 {
			return e
		}
	}
}
func Bs(b []*big.Int) string {
	var s []string
	for _, x := range b {
		if x == nil {
			s = append(s, "nil")
		} else {
			s = append(s, x.String())
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}
func CopyBs(b []*big.Int) []*big.Int {
	r := make([]*big.Int, len(b))
	for i, x := range b {
		r[i] = new(big.Int).Set(x)
	}
	return r
}
func EqBs(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}
