package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check is the property driver: it verifies every contract of a property (and
// every contract those rely on) against the current source, runs the bounded
// stand-ins, and, when an obligation fails, looks for a concrete failing input.

type propRun struct {
	v         *Verifier
	prop      string
	tier      string
	seed      string
	start     time.Time
	results   map[string]*FnResult
	fallen    map[string]*FnResult // helper contracts that did not verify and were inlined instead
	elsewhere map[string]string    // used contracts verified by the checks of other properties
	bounded   []harnessResult
	err       string
	lean      string // what Lean said about the axioms of the field
	leanN     int
}

// leanAxioms are the prelude texts that lean/gen.py translates and lean/Field.lean proves.
var leanAxioms = []string{"field_ax", "finv_ax", "sum_ax", "zsum_ax", "lag_ax", "interp_ax", "halve_ax", "mul3_ax", "bn_ax", "bsum_ax"}

// runLean has Lean check the axioms about the field when the property's contracts use them.
func (p *propRun) runLean() {
	use := false
	for _, r := range p.results {
		for _, a := range leanAxioms {
			use = use || r.trusted["axioms "+a]
		}
	}
	if !use {
		return
	}
	f, err := os.CreateTemp("", "field*.lean")
	if err != nil {
		return
	}
	defer os.Remove(f.Name())
	gen := exec.Command("python3", filepath.Join(p.v.verif, "lean", "gen.py"))
	txt, err := gen.Output()
	if err != nil {
		p.lean = "not run: " + err.Error()
		return
	}
	f.Write(txt)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	out, err := exec.CommandContext(ctx, "lean", f.Name()).CombinedOutput()
	if err != nil || strings.Contains(string(out), "sorry") || strings.Contains(string(out), "error") {
		p.lean = "not accepted: " + firstLines(string(out), 3)
		return
	}
	p.lean = "accepted"
	p.leanN = strings.Count(string(txt), "\ntheorem ") // statements and auxiliary lemmas
}

type harnessResult struct {
	Pkg   string `json:"package"`
	Test  string `json:"test"`
	Evals int64  `json:"evaluations"`
	Dist  int64  `json:"distinct_nontrivial"`
	Rule  string `json:"rule"`
	Bound string `json:"bound"`
	fails []string
	ok    bool
	ran   bool
	out   string
}

func (r *FnResult) bad() bool {
	if r.err != "" || len(r.failed()) > 0 {
		return true
	}
	for _, c := range r.covers {
		if c.status == "unsat" {
			return true
		}
	}
	return false
}

func (v *Verifier) checkable(sp *FnSpec) bool {
	return sp.kind == "lemma" || sp.kind == "fn" && (len(sp.ensures) > 0 || sp.nopanic || sp.hasMod)
}

func (v *Verifier) runSet(sps []*FnSpec, disabled map[string]bool, results map[string]*FnResult) {
	sort.SliceStable(sps, func(i, j int) bool { return v.moduleOfSpec(sps[i]) < v.moduleOfSpec(sps[j]) })
	i := 0
	for i < len(sps) {
		m := v.moduleOfSpec(sps[i])
		j := i
		for j < len(sps) && v.moduleOfSpec(sps[j]) == m {
			j++
		}
		if err := v.switchModule(m); err != nil {
			for ; i < j; i++ {
				results[sps[i].name] = &FnResult{spec: sps[i], err: "cannot load the source: " + err.Error()}
			}
			continue
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		gate := make(chan struct{}, 6)
		for ; i < j; i++ {
			wg.Add(1)
			go func(sp *FnSpec) {
				defer wg.Done()
				gate <- struct{}{}
				defer func() { <-gate }()
				r := v.verify(sp, disabled)
				mu.Lock()
				results[sp.name] = r
				mu.Unlock()
				if v.verbose {
					fmt.Fprintf(os.Stderr, "  [%s] %s %d obligations %d failed %dms %s\n", time.Now().Format("15:04:05"), shortFn(sp.name), len(r.obls), len(r.failed()), r.ms, r.err)
				}
			}(sps[i])
		}
		wg.Wait()
	}
}

func (v *Verifier) switchModule(m string) error {
	if err := v.load(m, "./..."); err != nil {
		return err
	}
	v.typeCache = map[string]typesType{}
	return nil
}

func (p *propRun) verifyAll() {
	v := p.v
	p.results = map[string]*FnResult{}
	p.fallen = map[string]*FnResult{}
	p.elsewhere = map[string]string{}
	disabled := map[string]bool{}
	var todo []*FnSpec
	isTop := map[string]bool{}
	for _, sp := range v.specs.order {
		if contains(sp.props, p.prop) && v.checkable(sp) {
			todo = append(todo, sp)
			isTop[sp.name] = true
		}
	}
	for len(todo) > 0 {
		v.runSet(todo, disabled, p.results)
		todo = nil
		queued := map[string]bool{}
		// helper contracts the verified functions rely on
		var names []string
		for n := range p.results {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for u := range p.results[n].used {
				if p.results[u] == nil && p.fallen[u] == nil && !queued[u] {
					if sp := v.specs.fns[u]; sp != nil && sp.own {
						p.elsewhere[u] = strings.Join(sp.props, ",")
					} else if sp != nil && v.checkable(sp) {
						todo = append(todo, sp)
						queued[u] = true
					}
				}
			}
		}
		if len(todo) > 0 {
			continue
		}
		// a helper whose own contract fails: execute it in line instead
		again := map[string]bool{}
		for _, n := range names {
			if isTop[n] || disabled[n] || !p.results[n].bad() {
				continue
			}
			if r := p.results[n]; r.err == "" && len(r.failed()) <= 8 {
				// rule out solver noise first
				v.discharge(r.x, r.failed(), 2*v.tlimit, false)
			}
			if p.results[n].bad() {
				disabled[n] = true
				p.fallen[n] = p.results[n]
				delete(p.results, n)
				again[n] = true
			}
		}
		if len(again) > 0 {
			for _, n := range names {
				r := p.results[n]
				if r == nil {
					continue
				}
				for u := range r.used {
					if again[u] {
						todo = append(todo, r.spec)
						delete(p.results, n)
						break
					}
				}
			}
		}
	}
}

type violation struct {
	obl    string
	detail string
}

func (p *propRun) violations() []violation {
	var out []violation
	var names []string
	for n := range p.results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := p.results[n]
		if r.err != "" {
			out = append(out, violation{shortFn(n) + " [not verifiable]", r.err})
			continue
		}
		for _, o := range r.failed() {
			d := fmt.Sprintf("%s obligation, solver answer %s (%s, %d ms)", o.kind, o.status, o.solver, o.ms)
			if o.where != "" {
				d += " at " + o.where
			}
			out = append(out, violation{o.name, d})
		}
		for _, c := range r.covers {
			if c.status == "unsat" {
				out = append(out, violation{shortFn(n) + " [vacuous: " + c.name + "]", "the assumptions became contradictory or no execution returns"})
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- harness

func (p *propRun) harnessFiles() map[string][]string {
	res := map[string][]string{} // module/pkg -> files
	root := filepath.Join(p.v.verif, "replay")
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(path)
		if bytes.Contains(b, []byte("_"+p.prop+"_")) {
			rel, _ := filepath.Rel(root, filepath.Dir(path))
			res[rel] = append(res[rel], path)
		}
		return nil
	})
	return res
}

// runHarness compiles the property's harness with the current source of /repo
// (through an overlay; nothing is written in /repo) and runs it.
func (p *propRun) runHarness(pattern string, n int, limit time.Duration) (out []harnessResult) {
	hf := p.harnessFiles()
	var dirs []string
	for d := range hf {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, d := range dirs {
		re := regexp.MustCompile(`func (Test` + pattern + `_` + p.prop + `_\w*)\(`)
		var tests []string
		for _, f := range hf[d] {
			b, _ := os.ReadFile(f)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				tests = append(tests, m[1])
			}
		}
		if len(tests) == 0 {
			continue
		}
		wg.Add(1)
		go func(d string) {
			defer wg.Done()
			rs := p.runPkg(d, tests, n, limit)
			mu.Lock()
			out = append(out, rs...)
			mu.Unlock()
		}(d)
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Test < out[j].Test })
	return out
}

func (p *propRun) runPkg(d string, tests []string, n int, limit time.Duration) []harnessResult {
	parts := strings.SplitN(d, "/", 2)
	mod, pkg := parts[0], parts[1]
	repl := map[string]string{}
	// hide the package's own tests, add the harness and its kit
	own, _ := filepath.Glob(filepath.Join(p.v.repo, d, "*_test.go"))
	for _, f := range own {
		repl[f] = ""
	}
	mine, _ := filepath.Glob(filepath.Join(p.v.verif, "replay", d, "*_test.go"))
	for _, f := range mine {
		repl[filepath.Join(p.v.repo, d, "zzverif_"+filepath.Base(f))] = f
	}
	repl[filepath.Join(p.v.repo, mod, "zzverif", "kit.go")] = filepath.Join(p.v.verif, "replay", "kit", "kit.go")
	tmp, err := os.MkdirTemp("", "govc-replay-")
	if err != nil {
		return []harnessResult{{Pkg: d, Test: "?", out: err.Error()}}
	}
	defer os.RemoveAll(tmp)
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", "test", "-vet=off", "-overlay", ov, "-count=1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())),
		"-run", "^("+strings.Join(tests, "|")+")$", "-v", "./"+pkg)
	cmd.Dir = filepath.Join(p.v.repo, mod)
	env := goEnv()
	env = append(env, "VERIF_SEED="+p.seed, "VERIF_N="+strconv.Itoa(n), "VERIF_TIER="+p.tier, "VERIF_TMP="+tmp)
	cmd.Env = env
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = 5 * time.Second
	cmd.Run()
	txt := buf.String()
	var res []harnessResult
	for _, t := range tests {
		h := harnessResult{Pkg: d, Test: t}
		for _, line := range strings.Split(txt, "\n") {
			line = strings.TrimSpace(line)
			if strings.HasPrefix(line, "REPLAY-FAIL "+t+" ") {
				h.fails = append(h.fails, strings.TrimPrefix(line, "REPLAY-FAIL "+t+" "))
			}
			if strings.HasPrefix(line, "REPLAY-STAT "+t+" ") {
				json.Unmarshal([]byte(strings.TrimPrefix(line, "REPLAY-STAT "+t+" ")), &h)
				h.ran = true
			}
			if strings.HasPrefix(line, "--- PASS: "+t+" ") {
				h.ok = true
			}
		}
		if !h.ok && len(h.fails) == 0 && strings.Contains(txt, "--- FAIL: "+t+" ") && strings.Contains(txt, "panic:") {
			h.fails = append(h.fails, "the real code panicked: "+panicLine(txt))
		}
		if !h.ok {
			h.out = tail(txt, 6000)
		}
		res = append(res, h)
	}
	return res
}

func panicLine(txt string) string {
	i := strings.Index(txt, "panic:")
	return firstLines(txt[i:], 3)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------- known findings

func (p *propRun) known() map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(p.v.verif, "known_findings.txt"))
	if err != nil {
		return res
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]+)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == p.prop {
			res[m[2]] = m[3]
		}
	}
	return res
}

// ---------------------------------------------------------------- main driver

func runCheck(v *Verifier, prop, tier string) int {
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	p := &propRun{v: v, prop: prop, tier: tier, seed: seed, start: time.Now()}
	if tier == "thorough" {
		v.tlimit = 60 * time.Second
	} else {
		v.tlimit = 20 * time.Second
	}
	// the bounded stand-ins run beside the proof
	var bwg sync.WaitGroup
	bwg.Add(1)
	nb := 1
	if tier == "thorough" {
		nb = 20
	}
	go func() {
		defer bwg.Done()
		pat := "Bounded"
		if tier == "thorough" {
			pat = "(?:Bounded|Replay)"
		}
		p.bounded = p.runHarness(pat, nb, 300*time.Second)
	}()
	p.verifyAll()
	bwg.Wait()
	p.runLean()
	known := p.known()
	viol := p.violations()
	var searched []harnessResult
	if len(viol) > 0 {
		unlisted := false
		for _, k := range viol {
			if _, ok := known[k.obl]; !ok {
				unlisted = true
			}
		}
		concrete := false
		if unlisted {
			// look for a concrete failing input first
			searched = p.runHarness("(?:Bounded|Replay)", 5, 200*time.Second)
			for _, h := range append(append([]harnessResult{}, p.bounded...), searched...) {
				for _, f := range h.fails {
					if _, ok := known[h.Test+": "+f]; !ok {
						concrete = true
					}
				}
			}
		}
		// one more attempt with more time, against solver noise on a loaded machine
		n, retry := 0, false
		for _, r := range p.results {
			n += len(r.failed())
			for _, o := range r.failed() {
				if o.status != "sat" {
					retry = true
				}
			}
		}
		if retry && !concrete && n <= 24 && time.Since(p.start) < 450*time.Second {
			for _, r := range p.results {
				if r.err == "" && len(r.failed()) > 0 {
					v.discharge(r.x, r.failed(), 2*v.tlimit, false)
				}
			}
			viol = p.violations()
		}
	}
	var real []violation
	for _, k := range viol {
		if d, ok := known[k.obl]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.obl, d)
			continue
		}
		real = append(real, k)
	}
	var fails []string
	var herrs []string
	collect := func(hs []harnessResult) {
		for _, h := range hs {
			if len(h.fails) > 0 {
				for _, f := range h.fails {
					if d, ok := known[h.Test+": "+f]; ok {
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, h.Test, d)
						continue
					}
					fails = append(fails, h.Test+": "+f)
				}
			} else if !h.ok {
				herrs = append(herrs, h.Test+": harness did not finish: "+firstLines(h.out, 12))
			}
		}
	}
	collect(p.bounded)
	if len(real) > 0 || len(fails) == 0 {
		collect(searched)
	}
	nob, ndis := 0, 0
	for _, r := range p.results {
		nob += len(r.obls) + len(r.invs)
		ndis += len(r.obls) - len(r.failed()) + len(r.invs)
	}
	boundedBroken := false
	for _, h := range p.bounded {
		if len(h.fails) == 0 && !h.ok {
			boundedBroken = true
		}
	}
	code := 0
	if nob == 0 && len(real) == 0 {
		real = append(real, violation{prop + " [no obligations]", "no proof obligation was generated from the current source"})
	}
	if boundedBroken && len(real) == 0 && len(fails) == 0 {
		real = append(real, violation{prop + " [bounded stand-in]", strings.Join(herrs, "; ")})
	}
	if len(real) > 0 || len(fails) > 0 {
		code = 1
	}
	p.evidence(real, fails, nob, ndis)
	fmt.Printf("property %s: %d functions and lemmas under contract, %d obligations, %d discharged, %d bounded stand-ins, %.1fs\n", prop, len(p.results), nob, ndis, len(p.bounded), time.Since(p.start).Seconds())
	for n, r := range p.fallen {
		fmt.Printf("note: helper contract %s does not hold on this source (%s); its body was used at every call instead\n", shortFn(n), r.err)
	}
	if code == 1 {
		for _, k := range real {
			fmt.Printf("failed obligation: %s -- %s\n", k.obl, k.detail)
		}
		for _, f := range fails {
			fmt.Printf("failing input: %s\n", f)
		}
		dir := filepath.Join(v.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, prop+".txt")
		os.WriteFile(rp, []byte(p.replayText(real, fails, herrs)), 0o644)
		end := ""
		if len(fails) == 0 {
			end = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, end)
	}
	return code
}

func (p *propRun) replayText(real []violation, fails, herrs []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", p.prop)
	for _, f := range fails {
		fmt.Fprintf(&b, "failing input on the real code: %s\n", f)
	}
	if len(fails) > 0 {
		fmt.Fprintf(&b, "\nreproduce: VERIF_SEED=%s /verif/run.sh replay %s\n\n", p.seed, p.prop)
	} else {
		fmt.Fprintf(&b, "no failing input found by the replay harness\n\n")
	}
	for _, k := range real {
		fmt.Fprintf(&b, "failed obligation: %s\n    %s\n", k.obl, k.detail)
	}
	for _, h := range herrs {
		fmt.Fprintf(&b, "harness: %s\n", h)
	}
	var names []string
	for n := range p.results {
		names = append(names, n)
	}
	sort.Strings(names)
	k := 0
	for _, n := range names {
		r := p.results[n]
		for _, o := range r.failed() {
			if k++; k > 3 {
				break
			}
			fmt.Fprintf(&b, "\n==== solver output for %s ====\n", o.name)
			if r.x != nil {
				fmt.Fprintf(&b, "%s\n", tail(p.v.model(r.x, o, 5*time.Second), 20000))
			}
		}
		if r.bad() && len(r.notes) > 0 {
			fmt.Fprintf(&b, "\nover-approximations in %s:\n", shortFn(n))
			for _, t := range r.notes {
				fmt.Fprintf(&b, "  %s\n", t)
			}
		}
	}
	return b.String()
}

func (p *propRun) evidence(real []violation, fails []string, nob, ndis int) {
	var names []string
	for n := range p.results {
		names = append(names, n)
	}
	sort.Strings(names)
	trusted := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	fns := []map[string]interface{}{}
	var samples []string
	solvers := map[string]int{}
	for _, n := range names {
		r := p.results[n]
		for t := range r.trusted {
			trusted[t] = true
		}
		for t := range r.inlined {
			inl[shortFn(t)] = true
		}
		for _, t := range r.notes {
			notes[shortFn(n)+": "+t] = true
		}
		for _, o := range append(append([]*Obl{}, r.obls...), r.invs...) {
			if o.status == "unsat" {
				solvers[o.solver]++
			}
		}
		if len(r.obls) > 0 && len(samples) < 12 {
			samples = append(samples, r.obls[len(r.obls)-1].name)
		}
		kinds := map[string]int{}
		for _, o := range r.obls {
			kinds[o.kind]++
		}
		fns = append(fns, map[string]interface{}{
			"function": shortFn(n), "kind": r.spec.kind, "obligations": len(r.obls), "by_kind": kinds, "loop_invariant_obligations": len(r.invs),
			"failed": len(r.failed()), "ms": r.ms, "error": r.err, "reachability_covers": len(r.covers),
		})
	}
	tb := []string{
		"govc condition generator (/verif/govc): SSA semantics, memory model, loop cutting",
		"golang.org/x/tools go/packages and go/ssa v0.52.0 (front end)",
		"Z3 5.3.2, Z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
	}
	if p.lean == "accepted" {
		tb = append(tb, "Lean 4.33.0 with Mathlib (lean/Field.lean, and lean/gen.py which translates the axioms)")
	}
	for _, t := range sortedKeys(trusted) {
		proved := false
		for _, a := range leanAxioms {
			proved = proved || p.lean == "accepted" && t == "axioms "+a
		}
		if !proved {
			tb = append(tb, "assumed contract: "+t)
		}
	}
	assume := []string{
		"int, uint64 and other machine integers: mathematical integers with explicit wrap-around at each operation's width",
		"no data races: each verified function runs without concurrent writers to the memory it reads",
		"no stack or heap exhaustion; termination is not proved",
	}
	for u, ps := range p.elsewhere {
		assume = append(assume, "contract of "+shortFn(u)+" is used here and verified by the checks of "+ps)
	}
	sort.Strings(assume[3:])
	for _, n := range sortedKeys(notes) {
		assume = append(assume, "over-approximated (sound): "+n)
	}
	ms := map[string]int64{}
	for k, x := range solverMS {
		ms[k] = *x
	}
	ev := map[string]interface{}{
		"property": p.prop, "tier": p.tier, "seed": atoi(p.seed), "level": "proof",
		"wall_s": time.Since(p.start).Seconds(), "violations": len(real) + len(fails),
		"assumptions": assume,
		"coverage": map[string]interface{}{
			"obligations": nob, "discharged": ndis,
			"checker_cmd":                         "/verif/run.sh check " + p.prop + " (govc check; solvers z3-new, cvc5, z3)",
			"trusted_base":                        tb,
			"functions_under_contract":            fns,
			"functions_executed_in_line":          sortedKeys(inl),
			"discharged_by":                       solvers,
			"solver_ms":                           ms,
			"samples":                             samples,
			"bounded_stand_ins":                   p.bounded,
			"field_axioms_in_lean":                p.lean,
			"helper_contracts_replaced_by_bodies": len(p.fallen),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(p.v.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(p.v.verif, "evidence", p.prop+".json"), b, 0o644)
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func runReplay(v *Verifier, prop string) int {
	p := &propRun{v: v, prop: prop, tier: "quick", seed: os.Getenv("VERIF_SEED"), start: time.Now()}
	if p.seed == "" {
		p.seed = "1"
	}
	code := 0
	for _, h := range p.runHarness("(?:Bounded|Replay)", 5, 300*time.Second) {
		fmt.Printf("%s/%s ok=%v evaluations=%d distinct=%d %s\n", h.Pkg, h.Test, h.ok, h.Evals, h.Dist, h.Bound)
		for _, f := range h.fails {
			fmt.Println("   FAIL", f)
		}
		if !h.ok {
			code = 1
			if len(h.fails) == 0 {
				fmt.Println(h.out)
			}
		}
	}
	return code
}
