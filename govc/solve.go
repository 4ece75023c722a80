package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"
)

var solveSem = make(chan struct{}, 8)
var queryN, errN int64
var solverMS = map[string]*int64{"z3-5": new(int64), "z3-5b": new(int64), "z3-5r": new(int64), "z3-4.8": new(int64), "z3-4.8n": new(int64), "cvc5": new(int64)}
var solverHits = map[string]*int64{"z3-5": new(int64), "z3-5b": new(int64), "z3-5r": new(int64), "z3-4.8": new(int64), "z3-4.8n": new(int64), "cvc5": new(int64), "trivial": new(int64)}

func (v *Verifier) query(x *Exec, o *Obl, model bool) string {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n")
	b.WriteString("(set-logic ALL)\n")
	for _, s := range x.ctx.sortDef {
		b.WriteString(s + "\n")
	}
	for _, s := range x.ctx.glob {
		b.WriteString(s + "\n")
	}
	for _, it := range x.ctx.items[:o.pos] {
		b.WriteString(it.text + "\n")
	}
	b.WriteString("(assert " + o.guard.s + ")\n")
	b.WriteString("(assert " + not(o.goal).s + ")\n")
	b.WriteString("(check-sat)\n")
	return b.String()
}

func runSolver(name string, q string, limit time.Duration) (string, string) {
	return runSolverCtx(context.Background(), name, q, limit)
}

func runSolverCtx(ctx context.Context, name string, q string, limit time.Duration) (string, string) {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(ctx, limit+2*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	ms := fmt.Sprint(limit.Milliseconds())
	switch name {
	case "z3-5":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "smt.arith.solver=2", "-t:"+ms)
	case "z3-5r":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "smt.arith.solver=2", "smt.relevancy=0", "-t:"+ms)
	case "z3-5b":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-t:"+ms)
	case "z3-4.8n":
		// without the redundant facts about appended slices
		q = hintRe.ReplaceAllString(q, "")
		fallthrough
	case "z3-4.8":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-t:"+ms)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--tlimit="+ms, "-q")
	}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	atomic.AddInt64(solverMS[name], time.Since(t0).Milliseconds())
	s := strings.TrimSpace(out.String())
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(l), s
		}
	}
	if strings.Contains(s, "error") {
		return "error", s
	}
	return "unknown", s
}

var hintRe = regexp.MustCompile(`(?m)^\(assert \(forall \(\(ai! Int\)\).*\n`)

var boundRe = regexp.MustCompile(`\bq[0-9]+_[A-Za-z0-9_$]+`)

// canon renames specification-bound variables in order of appearance.
func canon(s string) string {
	m := map[string]string{}
	return boundRe.ReplaceAllStringFunc(s, func(y string) string {
		n, ok := m[y]
		if !ok {
			n = fmt.Sprintf("q!%d", len(m))
			m[y] = n
		}
		return n
	})
}

// assumed reports whether the goal is, up to bound variable names, one of the
// facts already assumed at this point.
func (x *Exec) assumed(o *Obl) bool {
	x.factMu.Lock()
	defer x.factMu.Unlock()
	if x.facts == nil {
		x.facts = map[string]int{}
		for i, it := range x.ctx.items {
			if it.kind == 'a' && strings.HasPrefix(it.text, "(assert ") {
				f := it.text[8 : len(it.text)-1]
				for _, p := range append(splitGoal(f, 0), f) {
					k := canon(p)
					if _, ok := x.facts[k]; !ok {
						x.facts[k] = i
					}
				}
			}
		}
	}
	for _, g := range []string{o.goal.s, implies(o.guard, o.goal).s} {
		if i, ok := x.facts[canon(g)]; ok && i < o.pos {
			return true
		}
	}
	return false
}

func (v *Verifier) solve(x *Exec, o *Obl, limit time.Duration, quick bool) {
	if implies(o.guard, o.goal).s == "true" {
		o.status, o.solver = "unsat", "trivial"
		atomic.AddInt64(solverHits["trivial"], 1)
		return
	}
	if x.assumed(o) {
		o.status, o.solver = "unsat", "trivial"
		atomic.AddInt64(solverHits["trivial"], 1)
		return
	}
	q := v.query(x, o, false)
	n := atomic.AddInt64(&queryN, 1)
	if v.dumpDir != "" {
		os.MkdirAll(v.dumpDir, 0o755)
		nm := strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
				return r
			}
			return '_'
		}, o.name)
		if len(nm) > 100 {
			nm = nm[:100]
		}
		os.WriteFile(filepath.Join(v.dumpDir, fmt.Sprintf("%04d_%s.smt2", n, nm)), []byte("; "+o.name+"\n"+q), 0o644)
	}
	hit := func(st, name, out string) bool {
		if st == "error" {
			o.status, o.solver, o.model = st, name, out
			if atomic.AddInt64(&errN, 1) < 4 {
				fmt.Fprintf(os.Stderr, "solver error (%s) on %s: %s\n", name, o.name, firstLines(out, 3))
			}
			return false
		}
		if st == "unsat" || st == "sat" {
			o.status, o.solver = st, name
			if st == "unsat" {
				atomic.AddInt64(solverHits[name], 1)
			}
			return true
		}
		if o.status == "" {
			o.status, o.solver = st, name
		}
		return false
	}
	o.status = ""
	first := 700 * time.Millisecond
	if quick && o.user == false {
		first = limit
	}
	if first > limit {
		first = limit
	}
	st, out := runSolver("z3-5", q, first)
	if hit(st, "z3-5", out) || quick && !o.user {
		return
	}
	names := []string{"z3-4.8", "z3-5r"}
	if strings.Contains(q, "((ai! Int))") {
		names = append(names, "z3-4.8n")
	}
	if !quick {
		names = append(names, "cvc5", "z3-5b")
		if limit > first {
			names = append(names, "z3-5")
		}
	}
	if race(q, limit, names, hit) {
		return
	}
	if o.status == "unknown" && v.paths(x, o, q, limit, quick) {
		o.status, o.solver = "unsat", "z3-5"
		atomic.AddInt64(solverHits["z3-5"], 1)
	}
}

// race runs the solvers in parallel until one answer is taken.
func race(q string, limit time.Duration, names []string, hit func(st, name, out string) bool) bool {
	type ans struct{ name, st, out string }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(names))
	for _, n := range names {
		go func(n string) {
			st, out := runSolverCtx(ctx, n, q, limit)
			ch <- ans{n, st, out}
		}(n)
	}
	for range names {
		a := <-ch
		if hit(a.st, a.name, a.out) {
			return true
		}
	}
	return false
}

// paths proves an obligation separately for each of the control flow edges through which it is
// reached; these cover all the ways to get there, because a block is reached iff one of its
// incoming edges is.
func (v *Verifier) paths(x *Exec, o *Obl, q string, limit time.Duration, quick bool) bool {
	cases := x.splitGuard(o.guard.s, 12)
	if len(cases) < 2 {
		return false
	}
	q = strings.TrimSuffix(q, "(check-sat)\n")
	for _, c := range cases {
		qc := q + "(assert " + c + ")\n(check-sat)\n"
		st, _ := runSolver("z3-5", qc, 700*time.Millisecond)
		if st == "unsat" {
			continue
		}
		if st == "sat" {
			return false
		}
		lim := limit / 2
		names := []string{"z3-4.8", "z3-5r"}
		if quick {
			lim = limit
		} else {
			names = append(names, "z3-5", "cvc5")
		}
		if !race(qc, lim, names, func(st, name, out string) bool { return st == "unsat" }) {
			return false
		}
	}
	return true
}

// splitGuard lists the cases of a reachability condition, at most n.
func (x *Exec) splitGuard(g string, n int) []string {
	x.factMu.Lock()
	if x.defs == nil {
		x.defs = map[string]string{}
		for _, it := range x.ctx.items {
			if it.kind == 'd' && strings.HasPrefix(it.text, "(define-fun ") {
				f := strings.SplitN(it.text[len("(define-fun "):], " () Bool ", 2)
				if len(f) == 2 {
					x.defs[f[0]] = f[1][:len(f[1])-1]
				}
			}
		}
	}
	x.factMu.Unlock()
	// each case: the condition asserted, and the symbol from which to continue backwards
	type cs struct{ cond, sym string }
	cur := []cs{{"true", g}}
	for round := 0; round < 8; round++ {
		var next []cs
		grown := false
		for _, c := range cur {
			sym := c.sym
			// walk back through conjunctions to a disjunction
			for i := 0; i < 200; i++ {
				d := sym
				if e, ok := x.defs[sym]; ok {
					d = e
				}
				if strings.HasPrefix(d, "(and ") {
					sym = sargs(d)[0]
					continue
				}
				if d != sym {
					sym = d
					continue
				}
				break
			}
			if !strings.HasPrefix(sym, "(or ") {
				next = append(next, cs{c.cond, sym})
				continue
			}
			as := sargs(sym)
			if len(cur)+len(next)+len(as) > n+len(cur) {
				next = append(next, cs{c.cond, sym})
				continue
			}
			grown = true
			for _, a := range as {
				nc := a
				if c.cond != "true" {
					nc = "(and " + c.cond + " " + a + ")"
				}
				next = append(next, cs{nc, a})
			}
		}
		if !grown || len(next) > n {
			break
		}
		cur = next
	}
	var r []string
	for _, c := range cur {
		r = append(r, c.cond)
	}
	return r
}

// sargs are the arguments of an s-expression.
func sargs(s string) (r []string) {
	s = s[1 : len(s)-1]
	depth, st := 0, -1
	first := true
	put := func(e int) {
		if st >= 0 {
			if !first {
				r = append(r, s[st:e])
			}
			first = false
		}
		st = -1
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			if st < 0 {
				st = i
			}
			for i++; s[i] != '|'; i++ {
			}
		case '(':
			if st < 0 {
				st = i
			}
			depth++
		case ')':
			depth--
		case ' ', '\n':
			if depth == 0 {
				put(i)
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	put(len(s))
	return r
}

func (v *Verifier) model(x *Exec, o *Obl, limit time.Duration) string {
	q := v.query(x, o, true) + "(get-model)\n"
	_, out := runSolver("z3-5", q, limit)
	return out
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}
