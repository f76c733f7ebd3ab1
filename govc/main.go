package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func newEngine(root, specDir string) (*Engine, error) {
	l := NewLoader(root)
	l.specDir = specDir
	for _, p := range []string{"pairing", "utils", "circuitcompiler", "zkSNARK"} {
		if _, err := l.Load(p); err != nil {
			return nil, err
		}
	}
	e := &Engine{l: l, globalHeap: map[int]Val{}, globals: map[types.Object]int{}, contracts: map[string]*Contract{}, timeout: 10000, maxFail: 3, mutGlobals: map[types.Object]bool{}, depends: map[string]bool{}, inlined: map[string]bool{}, externals: map[string]bool{}, assumed: map[string]bool{}, deadline: time.Now().Add(time.Hour)}
	e.findMutGlobals()
	return e, nil
}

func (e *Engine) setup(specDir string) error {
	fs, _ := filepath.Glob(filepath.Join(specDir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := e.loadSpecs(f); err != nil {
			return err
		}
	}
	for k, c := range e.contracts {
		c.fi = e.l.findFunc(k)
	}
	for _, c := range e.views {
		c.fi = e.l.findFunc(c.key)
	}
	// the tower prime is the source's own constant
	p := e.l.pkgs["pairing"]
	o := p.tpkg.Scope().Lookup("P")
	if o == nil {
		return fmt.Errorf("pairing.P not found")
	}
	st := &State{eng: e, heap: map[int]Val{}}
	v := st.get(e.globalLoc(st, o))
	n := st.get(v.(Ptr).loc).(*BigV).v
	if n.op != "num" {
		return fmt.Errorf("pairing.P is not a ground number")
	}
	towerP, towerPN = n.k, n
	return nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	root, specs := "/repo", "/verif/contracts"
	var only []string
	verbose := false
	if r := os.Getenv("GOVC_ROOT"); r != "" {
		root = r
	}
	if r := os.Getenv("GOVC_SPECS"); r != "" {
		specs = r
	}
	for _, a := range os.Args[1:] {
		if a == "-v" {
			verbose = true
		} else {
			only = append(only, a)
		}
	}
	e, err := newEngine(root, specs)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if err := e.setup(specs); err != nil {
		fmt.Println("setup:", err)
		os.Exit(2)
	}
	var keys []string
	for k := range e.contracts {
		if len(only) == 0 {
			keys = append(keys, k)
		}
		for _, o := range only {
			if strings.Contains(k, o) {
				keys = append(keys, k)
				break
			}
		}
	}
	sort.Strings(keys)
	bad := 0
	for _, k := range keys {
		r := e.verifyFn(e.contracts[k], 600*time.Second)
		status := "ok"
		if !r.ok() {
			status = "FAIL"
			bad++
		}
		if r.trusted != "" {
			status = "trusted"
		}
		fmt.Printf("%-40s %-6s obl=%d paths=%d parts=%d %dms %s\n", k, status, len(r.obls), r.paths, r.parts, r.wall.Milliseconds(), r.err)
		for _, o := range r.obls {
			if !o.ok || verbose {
				fmt.Printf("     %v %s at %s: %s [%s] %dms %s\n", o.ok, o.kind, o.pos, o.backend, o.detail, o.ms, trunc(o.goal, 3000))
				if !o.ok && len(o.model) > 0 {
					fmt.Println("       model", o.model)
				}
			}
		}
	}
	fmt.Println("failed functions:", bad, "queries", stats.queries, stats.solverTime, stats.byBackend)
}
