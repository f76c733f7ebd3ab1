package main

// The per-property check: proofs of every contract the property rests on, then
// (always, as a bounded defence and as the replayer of failed proofs) a search
// for a concrete failing input on the real code.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type harnessResult struct {
	Property    string   `json:"property"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rules       []string `json:"rules"`
	Samples     []string `json:"samples"`
	Known       []string `json:"known"`
	Violation   *struct {
		Key    string `json:"key"`
		Case   string `json:"case"`
		Detail string `json:"detail"`
		Seed   int64  `json:"seed"`
	} `json:"violation"`
	Done bool    `json:"done"`
	Wall float64 `json:"wall_s"`

	note string
	cmd  string
	pkg  string
}

var harnessPkgs = map[string][]string{} // property -> package directories

func findHarness(verif string) {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "p*_verif_test.go"))
	for _, f := range fs {
		d := filepath.Base(filepath.Dir(f))
		p := strings.ToUpper(strings.TrimSuffix(filepath.Base(f), "_verif_test.go"))
		harnessPkgs[p] = append(harnessPkgs[p], d)
	}
}

func goEnv(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOFLAGS", "GO111MODULE", "GOWORK", "GOTOOLCHAIN", "GOPROXY", "GODEBUG", "GOCACHE":
			continue
		}
		env = append(env, kv)
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(append(env, "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOCACHE="+cache, "GOMODCACHE=/root/go/pkg/mod"), extra...)
}

// buildHarness compiles the harness of one property and package against the current tree.
func buildHarness(root, verif, prop, pkg, tmp string) (string, error) {
	rep := map[string]string{}
	if b, err := os.ReadFile("/opt/vp/gomod/overlay.json"); err == nil {
		var o struct{ Replace map[string]string }
		if json.Unmarshal(b, &o) == nil {
			for k, v := range o.Replace {
				rep[strings.Replace(k, "/repo/", root+"/", 1)] = v
			}
		}
	}
	rep[filepath.Join(root, "vharness", "vh.go")] = filepath.Join(verif, "harness", "vharness", "vh.go")
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	for _, f := range fs {
		b := filepath.Base(f)
		if b == strings.ToLower(prop)+"_verif_test.go" || strings.HasPrefix(b, "common") || strings.HasPrefix(b, "use_"+strings.ToLower(prop)+"_") {
			rep[filepath.Join(root, pkg, b)] = f
		}
	}
	// the repository's own tests are not needed in the harness binary
	ts, _ := filepath.Glob(filepath.Join(root, pkg, "*_test.go"))
	for _, f := range ts {
		rep[f] = ""
	}
	ov := filepath.Join(tmp, "overlay_"+prop+"_"+pkg+".json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(tmp, prop+"_"+pkg+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay="+ov, "-o", bin, "./"+pkg)
	cmd.Dir = root
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runHarness(bin, root, prop, pkg, tmp string, seed int64, budget float64, lits, known string, tag string) *harnessResult {
	out := filepath.Join(tmp, prop+pkg+tag+".json")
	cur := filepath.Join(tmp, prop+pkg+tag+".cur")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*1.5+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif_"+prop+"$", "-test.timeout", "0")
	cmd.Dir = filepath.Join(root, pkg)
	cmd.Env = goEnv("VERIF_OUT="+out, "VERIF_CUR="+cur, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%g", budget), "VERIF_LITS="+lits, "VERIF_KNOWN="+known, "GOTRACEBACK=single", "GOMEMLIMIT=6GiB")
	o, err := cmd.CombinedOutput()
	r := &harnessResult{pkg: pkg, cmd: fmt.Sprintf("VERIF_SEED=%d VERIF_BUDGET=%g TestVerif_%s in %s", seed, budget, prop, pkg)}
	b, e2 := os.ReadFile(out)
	if e2 == nil && json.Unmarshal(b, r) == nil && r.Done {
		return r
	}
	c, _ := os.ReadFile(cur)
	os_ := string(o)
	if len(os_) > 3000 {
		os_ = os_[:3000]
	}
	if ctx.Err() != nil {
		r.note = "timeout"
		if len(c) > 0 {
			r.setViolation("hang", string(c), "the code under test did not return within the time limit", seed)
		}
		return r
	}
	if err != nil && len(c) > 0 {
		r.setViolation("crash", string(c), "the process running the code under test died: "+os_, seed)
		return r
	}
	r.note = "harness failed: " + os_
	return r
}

func (r *harnessResult) setViolation(key, c, d string, seed int64) {
	r.Violation = &struct {
		Key    string `json:"key"`
		Case   string `json:"case"`
		Detail string `json:"detail"`
		Seed   int64  `json:"seed"`
	}{key, c, d, seed}
}

// sourceLiterals collects integer literals of the packages under test as search seeds.
func (e *Engine) sourceLiterals() string {
	seen := map[string]bool{}
	var out []string
	for _, p := range e.l.pkgs {
		for _, f := range p.files {
			ast.Inspect(f, func(n ast.Node) bool {
				if b, ok := n.(*ast.BasicLit); ok {
					s := b.Value
					if b.Kind == token.STRING {
						s = strings.Trim(s, "\"`")
					} else if b.Kind != token.INT {
						return true
					}
					s = strings.ReplaceAll(s, "_", "")
					if v, ok := new(big.Int).SetString(s, 0); ok && len(s) < 400 && !seen[v.String()] {
						seen[v.String()] = true
						out = append(out, v.String())
					}
				}
				return true
			})
		}
	}
	sort.Strings(out)
	if len(out) > 400 {
		out = out[:400]
	}
	return strings.Join(out, ",")
}

func knownFindings(verif, prop string) (keys []string, desc map[string]string) {
	desc = map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) >= 3 && f[0] == "KNOWN-FINDING:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			k := strings.TrimPrefix(f[2], "key=")
			keys = append(keys, k)
			desc[k] = strings.Join(f[3:], " ")
		}
	}
	return
}

// closure verifies the contracts tagged with the property and everything they rest on.
func (e *Engine) closure(prop string, budget time.Duration, t0 time.Time) []*FnResult {
	done := map[string]*FnResult{}
	var queue []string
	for k, c := range e.contracts {
		if c.props[prop] {
			queue = append(queue, k)
		}
	}
	sort.Strings(queue)
	var order []*FnResult
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] != nil {
			continue
		}
		left := budget - time.Since(t0)
		per := 420 * time.Second
		if left < per {
			per = left
		}
		var r *FnResult
		if per <= 0 {
			r = &FnResult{key: k, err: "time budget exhausted before this function"}
		} else {
			r = e.verifyFn(e.contracts[k], per)
		}
		done[k] = r
		order = append(order, r)
		for _, d := range r.depends {
			if done[d] == nil {
				queue = append(queue, d)
			}
		}
	}
	return order
}

func checkMain(args []string) int {
	prop, tier, root, verif := "", os.Getenv("VERIF_TIER"), "/repo", "/verif"
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	proofOnly := false
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-tier":
			i++
			tier = args[i]
		case "-root":
			i++
			root = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-proof-only":
			proofOnly = true
		default:
			prop = args[i]
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	findHarness(verif)
	known, knownDesc := knownFindings(verif, prop)

	proofBudget, hb := 420*time.Second, 25.0
	if tier == "thorough" {
		proofBudget, hb = 2400*time.Second, 400.0
	}

	e, lerr := newEngine(root, filepath.Join(verif, "contracts"))
	if lerr == nil {
		lerr = e.setup(filepath.Join(verif, "contracts"))
	}
	lits := ""
	if e != nil && e.l != nil {
		lits = e.sourceLiterals()
	}

	// bounded search on the real code, concurrently with the proofs
	type hres struct {
		r   *harnessResult
		bin string
	}
	hch := make(chan hres, 16)
	pkgs := harnessPkgs[prop]
	if proofOnly {
		pkgs = nil
	}
	for _, p := range pkgs {
		go func(p string) {
			bin, err := buildHarness(root, verif, prop, p, tmp)
			if err != nil {
				hch <- hres{&harnessResult{pkg: p, note: "harness does not build against this tree: " + trunc(err.Error(), 1500)}, ""}
				return
			}
			r := runHarness(bin, root, prop, p, tmp, seed, hb, lits, strings.Join(known, ","), "q")
			if r.Violation != nil { // the verdict is settled: let the verifier name what it can soon
				hardStop.Store(time.Now().Add(60 * time.Second).UnixNano())
			}
			hch <- hres{r, bin}
		}(p)
	}

	var fns []*FnResult
	var failed []string
	var failedDetail []map[string]interface{}
	if lerr != nil {
		failed = append(failed, "load: "+lerr.Error())
		failedDetail = append(failedDetail, map[string]interface{}{"function": "-", "error": lerr.Error()})
	} else {
		fns = e.closure(prop, proofBudget, t0)
	}
	obl, dis := 0, 0
	under := map[string]bool{}
	trusted, assumed, externals, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	backends := map[string]int{}
	var perFn []map[string]interface{}
	for _, r := range fns {
		if r.trusted != "" {
			trusted["assumed contract of "+r.key+": "+r.trusted] = true
			continue
		}
		if ct := e.contracts[r.key]; ct != nil && ct.inline && r.err == "" {
			continue
		}
		under[r.key] = true
		n, d := 0, 0
		for _, o := range r.obls {
			n++
			if o.ok {
				d++
				backends[o.backend]++
			} else {
				failed = append(failed, r.key+": "+o.kind)
				m := map[string]interface{}{"function": r.key, "obligation": o.kind, "at": o.pos, "goal": trunc(o.goal, 2000), "solver": o.detail}
				if len(o.model) > 0 {
					mm := map[string]string{}
					for k, v := range o.model {
						mm[k] = v.String()
					}
					m["model"] = mm
				}
				failedDetail = append(failedDetail, m)
			}
		}
		if r.err != "" {
			if d == n {
				n++
			}
			failed = append(failed, r.key+": "+r.err)
			failedDetail = append(failedDetail, map[string]interface{}{"function": r.key, "error": r.err})
		}
		obl += n
		dis += d
		perFn = append(perFn, map[string]interface{}{"function": r.key, "obligations": n, "discharged": d, "paths": r.paths, "alias_patterns": r.parts, "ms": r.wall.Milliseconds()})
		for _, x := range r.assumed {
			assumed[x] = true
		}
		for _, x := range r.externals {
			externals["model of "+strings.TrimPrefix(x, "model of ")] = true
		}
		for _, x := range r.inlined {
			inlined[x] = true
		}
	}

	var hrs []*harnessResult
	bins := map[string]string{}
	for range pkgs {
		r := <-hch
		hrs = append(hrs, r.r)
		bins[r.r.pkg] = r.bin
	}
	var vio *harnessResult
	for _, r := range hrs {
		if r.Violation != nil {
			vio = r
		}
	}
	// a failed proof: look harder for a failing input, seeding the search with the solver's models
	if len(failed) > 0 && vio == nil && !proofOnly {
		l2 := lits
		for _, m := range failedDetail {
			if mm, ok := m["model"].(map[string]string); ok {
				for _, v := range mm {
					l2 += "," + v
				}
			}
		}
		type out struct{ r *harnessResult }
		och := make(chan out, 64)
		n := 0
		longer := 90.0
		if tier == "thorough" {
			longer = 600
		}
		for _, p := range pkgs {
			if bins[p] == "" {
				continue
			}
			for s := int64(1); s <= 3; s++ {
				n++
				go func(p string, s int64) {
					och <- out{runHarness(bins[p], root, prop, p, tmp, seed*1000+s, longer, l2, strings.Join(known, ","), fmt.Sprintf("x%d", s))}
				}(p, s)
			}
		}
		for i := 0; i < n; i++ {
			o := <-och
			hrs = append(hrs, o.r)
			if o.r.Violation != nil && vio == nil {
				vio = o.r
			}
		}
	}

	// evidence
	evals, distinct := 0, 0
	var rules, samples, notes []string
	kseen := map[string]bool{}
	for _, r := range hrs {
		evals += r.Evaluations
		distinct += r.Distinct
		for _, x := range r.Rules {
			if !kseen["r"+x] {
				kseen["r"+x] = true
				rules = append(rules, x)
			}
		}
		if len(samples) < 12 {
			samples = append(samples, r.Samples...)
		}
		if r.note != "" {
			notes = append(notes, r.pkg+": "+r.note)
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	stats.Lock()
	st := stats.solverTime.Seconds()
	sq := stats.queries
	stats.Unlock()
	var trust []string
	trust = append(trust, "govc (this repository's verification-condition generator, executing the Go AST of /repo; /verif/govc)", "z3-new and govc's ring/substitution prover", "go/types", "integers of Go type int are treated as unbounded (no overflow checks); memory is unbounded")
	trust = append(trust, sortedKeys(trusted)...)
	trust = append(trust, sortedKeys(externals)...)
	cov := map[string]interface{}{
		"obligations":              obl,
		"discharged":               dis,
		"checker_cmd":              "/verif/check.sh " + prop + " " + tier,
		"trusted_base":             trust,
		"functions":                perFn,
		"functions_under_contract": len(under),
		"inlined":                  sortedKeys(inlined),
		"backends":                 backends,
		"solver_queries":           sq,
		"solver_time_s":            st,
		"bounded_search":           map[string]interface{}{"label": "bounded: seeded search on the real code, never counted as proved", "evaluations": evals, "distinct_nontrivial": distinct, "rules": rules, "samples": samples, "notes": notes},
		"failed_obligations":       failed,
	}
	level := "proof"
	if obl == 0 {
		level = "exploration"
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = evals, distinct, strings.Join(rules, "; "), samples
	}
	nv := 0
	if vio != nil || len(failed) > 0 {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "assumptions": append([]string{}, sortedKeys(assumed)...), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)

	for _, r := range hrs {
		for _, k := range r.Known {
			if !kseen["k"+k] {
				kseen["k"+k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, knownDesc[k])
			}
		}
	}
	fmt.Printf("%s %s: %d functions under contract, %d/%d obligations discharged (%d solver queries, %.1fs), %d cases executed, %.1fs\n", prop, tier, len(under), dis, obl, sq, st, evals, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if nv == 0 {
		if len(hrs) > 0 && evals == 0 && len(notes) > 0 {
			fmt.Println("warning: the bounded search did not run")
		}
		return 0
	}
	replay := filepath.Join(verif, "evidence", "replay-"+prop+".json")
	rp := map[string]interface{}{"property": prop, "failed_obligations": failedDetail}
	for i, f := range failed {
		if i < 12 {
			fmt.Println("failed obligation:", trunc(f, 300))
		}
	}
	if vio != nil {
		rp["failing_input"] = vio.Violation
		rp["rerun"] = vio.cmd
		fmt.Printf("failing input: %s\n  %s\n", trunc(vio.Violation.Case, 1500), trunc(vio.Violation.Detail, 1500))
	}
	b, _ = json.MarshalIndent(rp, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0644)
	if vio != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	return 1
}
