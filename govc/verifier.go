package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	module string
	pkgs   []*packages.Package
	prog   *ssa.Program
	all    map[string]*types.Package
	fns    map[string]*ssa.Function
	fset   *token.FileSet
	roots  map[string]bool
	gw     map[*ssa.Global]bool
}

type Verifier struct {
	constFns map[*ssa.Global]*ssa.Function
	repo        string
	verif       string
	specs       *Specs
	prog        []*Prog
	cur         *Prog
	tnames      map[string]string
	tnamesRev   map[string]string
	opaqueCache map[types.Type]*Opaque
	typeCache   map[string]types.Type
	tlimit      time.Duration
	verbose     bool
	dumpDir     string
	genMu       sync.Mutex
}

func newVerifier(repo, verif string) *Verifier {
	return &Verifier{repo: repo, verif: verif, specs: newSpecs(), tnames: map[string]string{}, tnamesRev: map[string]string{}, opaqueCache: map[types.Type]*Opaque{}, typeCache: map[string]types.Type{}, tlimit: 10 * time.Second}
}

func goEnv() []string {
	env := []string{"HOME=/root", "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", "GOROOT=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1", "GOPATH=/root/go", "GOCACHE=/root/.cache/go-build", "GOFLAGS=-mod=mod -buildvcs=false"}
	if t := os.Getenv("TMPDIR"); t != "" {
		env = append(env, "TMPDIR="+t)
	}
	return env
}

func (v *Verifier) load(module string, patterns ...string) error {
	for _, p := range v.prog {
		if p.module == module {
			v.cur = p
			return nil
		}
	}
	overlay := map[string][]byte{}
	clients, _ := filepath.Glob(filepath.Join(v.verif, "specs", "clients", module, "*"))
	_ = clients
	filepath.Walk(filepath.Join(v.verif, "specs", "clients", module), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(v.verif, "specs", "clients", module), p)
			b, _ := os.ReadFile(p)
			overlay[filepath.Join(v.repo, module, rel)] = b
		}
		return nil
	})
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:     filepath.Join(v.repo, module),
		Env:     goEnv(),
		Fset:    fset,
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{module: module, pkgs: pk, prog: prog, all: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, fset: fset, roots: map[string]bool{}}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if P.all[p.Path()] != nil {
			return
		}
		P.all[p.Path()] = p
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	for _, p := range pk {
		P.roots[p.PkgPath] = true
		walk(p.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		P.fns[fn.String()] = fn
	}
	// methods and functions that nothing references
	for _, p := range pk {
		sp := prog.Package(p.Types)
		if sp == nil {
			return fmt.Errorf("package %s has no SSA (ill typed: %v, errors %v, %v)", p.PkgPath, p.IllTyped, p.Errors, depErrors(p, map[*packages.Package]bool{}))
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.fns[m.String()] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							P.fns[f.String()] = f
						}
					}
				}
			}
		}
	}
	v.prog = append(v.prog, P)
	v.cur = P
	return nil
}

func (v *Verifier) fset(fn *ssa.Function) *token.FileSet { return fn.Prog.Fset }

func (v *Verifier) inlineable(fn *ssa.Function) bool {
	return len(fn.Blocks) > 0
}

func (v *Verifier) specPkg(sp *FnSpec) *types.Package {
	if sp == nil {
		return nil
	}
	n := strings.TrimLeft(sp.name, "(*")
	best := ""
	for p := range v.cur.all {
		if strings.HasPrefix(n, p+".") && len(p) > len(best) {
			best = p
		}
	}
	if best == "" {
		return nil
	}
	return v.cur.all[best]
}

func (v *Verifier) pkgByName(name string, sp *FnSpec) *types.Package {
	if p, ok := v.specs.aliases[name]; ok {
		if q := v.cur.all[p]; q != nil {
			return q
		}
	}
	if p := v.specPkg(sp); p != nil {
		for _, q := range p.Imports() {
			if q.Name() == name {
				return q
			}
		}
	}
	var ks []string
	for k := range v.cur.all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v.cur.all[k].Name() == name && v.cur.roots[k] {
			return v.cur.all[k]
		}
	}
	for _, k := range ks {
		if v.cur.all[k].Name() == name {
			return v.cur.all[k]
		}
	}
	return nil
}

func (v *Verifier) lookupType(key string) types.Type {
	i := strings.LastIndex(key, ".")
	p := v.cur.all[key[:i]]
	if p == nil {
		return nil
	}
	tn, ok := p.Scope().Lookup(key[i+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	return types.Unalias(tn.Type())
}

func (v *Verifier) typeOfSort(s string) types.Type {
	switch s {
	case "Str":
		return types.Typ[types.String]
	}
	return nil
}

// globalWritten: is the package variable assigned outside initialisation?
func (v *Verifier) globalWritten(g *ssa.Global) bool {
	P := v.cur
	if P.gw == nil {
		P.gw = map[*ssa.Global]bool{}
		for _, f := range P.fns {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							P.gw[gg] = true
						}
					}
				}
			}
		}
	}
	return P.gw[g]
}

// FnResult is the outcome of verifying one function against its contract.
type FnResult struct {
	spec     *FnSpec
	obls     []*Obl // real obligations
	invs     []*Obl // surviving invariant obligations
	err      string
	notes    []string
	specErrs []string
	trusted  map[string]bool
	inlined  map[string]bool
	used     map[string]bool
	rounds   int
	ms       int64
	x        *Exec
	covers   []*Obl
}

func (r *FnResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.obls {
		if o.status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func moduleOf(name string) string {
	if strings.Contains(name, "github.com/shutter-network/shutter/shlib/") {
		return "shlib"
	}
	return "shuttermint"
}

func (v *Verifier) moduleOfSpec(sp *FnSpec) string {
	if sp.kind == "lemma" {
		if len(sp.pkg) > 0 {
			return sp.pkg
		}
		if strings.Contains(filepath.Base(sp.file), "shlib") {
			return "shlib"
		}
		return "shuttermint"
	}
	return moduleOf(sp.name)
}

func (v *Verifier) gen(sp *FnSpec, dropped, disabled map[string]bool) (x *Exec, err error) {
	x = newExec(v)
	x.dropped = dropped
	x.disabled = disabled
	x.top = sp
	x.nopanic = sp.nopanic
	x.specErrs = map[string]bool{}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupp)
			if !ok {
				err = fmt.Errorf("generator failure: %v", r)
				if v.verbose {
					panic(r)
				}
				return
			}
			err = u
		}
	}()
	st := State{map[string]T{}}
	x.ctx.assume(lt(intT(0), x.alloc(st)))
	env := map[string]SV{}
	x.env = env
	x.entry = st.clone()
	if sp.kind == "lemma" {
		c := &sctx{x: x, env: env, st: st, old: st, spec: sp}
		for i, p := range sp.params {
			if sp.ptypes[i] == "int" || sp.ptypes[i] == "Int" {
				env[p] = SV{t: x.ctx.fresh(p, "Int")}
			} else if strings.HasPrefix(sp.ptypes[i], "#") {
				so := sp.ptypes[i][1:]
				x.needSort(so)
				env[p] = SV{t: x.ctx.fresh(p, so)}
				env[p] = SV{t: env[p].t, typ: v.typeOfSort(so)}
			} else {
				ty := c.resolveType(sp.ptypes[i])
				t := x.ctx.fresh(p, x.sortOf(ty))
				x.ctx.assume(x.typeInv(t, ty, x.alloc(st), 2))
				env[p] = SV{t: t, typ: ty}
			}
		}
		for _, r := range sp.requires {
			x.ctx.assume(c.boolean(r.e))
		}
		x.oblige("cover", "requires satisfiable", tTrue, tFalse, "", "")
		for i, h := range sp.hints {
			g := c.boolean(h.e)
			x.oblige("assert", fmt.Sprintf("%s step %d", sp.name, i+1), tTrue, g, "", "")
			x.ctx.assume(g)
		}
		for i, e := range sp.ensures {
			x.oblige("lemma", clauseLabel(sp, e, i), tTrue, c.boolean(e.e), "", "")
		}
		return x, nil
	}
	fn := v.cur.fns[sp.name]
	if fn == nil {
		return x, unsupported("contract target missing in the current source: " + sp.name)
	}
	x.topFn = fn
	if len(sp.params) > len(fn.Params) {
		return x, unsupported("contract names more parameters than the function has: " + sp.name)
	}
	var args []Val
	for i, p := range fn.Params {
		nm := p.Name()
		t := x.ctx.fresh(nm, x.sortOf(p.Type()))
		x.ctx.assume(x.typeInv(t, p.Type(), x.alloc(st), 3))
		args = append(args, t)
		if i < len(sp.params) {
			env[sp.params[i]] = SV{t: t, typ: p.Type()}
		}
	}
	if len(fn.FreeVars) > 0 {
		return x, unsupported("contract on a closure with captured variables")
	}
	c := &sctx{x: x, env: env, st: st, old: st, spec: sp}
	for _, r := range sp.requires {
		x.ctx.assume(c.boolean(r.e))
	}
	x.oblige("cover", "requires satisfiable", tTrue, tFalse, "", "")
	for _, p := range sp.panics {
		t := c.boolean(p.e)
		if x.mayPanic.s != "" {
			t = or(x.mayPanic, t)
		}
		x.mayPanic = t
	}
	if sp.hasMod || sp.use {
		var locs []hloc
		done, good := false, false
		x.modLocs = func() (l []hloc, ok bool) {
			if !done {
				done = true
				func() {
					defer func() { recover() }()
					for _, m := range sp.modifies {
						locs = append(locs, c.locOf(m.e)...)
					}
					good = true
				}()
			}
			return locs, good
		}
	}
	res, out, rg := x.execFn(fn, args, nil, st.clone(), tTrue, fn.Name(), nil)
	x.oblige("cover", "return reachable", rg, tFalse, "", "")
	env2 := map[string]SV{}
	for k, s := range env {
		env2[k] = s
	}
	x.bindResults(env2, sp, fn.Signature, res)
	c2 := &sctx{x: x, env: env2, st: out, old: x.entry, spec: sp}
	for _, h := range sp.hints {
		g := c2.boolean(h.e)
		x.oblige("assert", fmt.Sprintf("%s hint: %s", shortFn(sp.name), trunc(h.text)), rg, g, "", "")
		x.ctx.assume(implies(rg, g))
	}
	for i, p := range sp.panics {
		if p.may {
			continue
		}
		x.oblige("ensures", clauseLabel(sp, p, i)+" refused", rg, not(c.boolean(p.e)), "", fmt.Sprintf("%s:%d", filepath.Base(p.file), p.line))
		x.ctx.assume(implies(rg, not(c.boolean(p.e))))
	}
	for i, e := range sp.ensures {
		x.oblige("ensures", clauseLabel(sp, e, i), rg, c2.boolean(e.e), "", fmt.Sprintf("%s:%d", filepath.Base(e.file), e.line))
	}
	if sp.hasMod || sp.use {
		var locs []hloc
		oc := c2.with(c2.old)
		oc.env = env
		for _, m := range sp.modifies {
			locs = append(locs, oc.locOf(m.e)...)
		}
		x.oblige("frame", shortFn(sp.name)+" modifies", rg, x.frameFormula(x.entry, out, locs), "", "")
	}
	return x, nil
}

func clauseLabel(sp *FnSpec, c Clause, i int) string {
	l := c.label
	if l == "" {
		l = fmt.Sprintf("#%d", i+1)
	}
	return shortFn(sp.name) + " [" + l + "]"
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// verify runs generation, invariant selection and discharge for one contract.
func (v *Verifier) verify(sp *FnSpec, disabled map[string]bool) *FnResult {
	t0 := time.Now()
	res := &FnResult{spec: sp}
	dropped := map[string]bool{}
	for round := 0; ; round++ {
		v.genMu.Lock()
		x, err := v.gen(sp, dropped, disabled)
		v.genMu.Unlock()
		res.x = x
		res.rounds = round + 1
		res.trusted, res.inlined, res.used = x.trusted, x.inlined, x.usedCon
		res.notes = sortedKeys(x.notes)
		res.specErrs = sortedKeys(x.specErrs)
		if err != nil {
			res.err = err.Error()
			break
		}
		var cands, real []*Obl
		for _, o := range x.obls {
			if o.cand != "" {
				cands = append(cands, o)
			} else if o.kind == "cover" {
				continue
			} else {
				real = append(real, o)
			}
		}
		ct := 1200 * time.Millisecond
		n := v.discharge(x, cands, ct, true)
		if n > 0 {
			for _, o := range cands {
				if o.status != "unsat" {
					dropped[o.cand] = true
					if v.verbose {
						fmt.Printf("  drop %s (%s: %s %dms) %s\n", o.cand, o.kind, o.status, o.ms, o.where)
					}
				}
			}
			continue
		}
		res.invs = cands
		res.obls = real
		v.discharge(x, real, v.tlimit, false)
		for _, o := range x.obls {
			if o.kind == "cover" {
				res.covers = append(res.covers, o)
			}
		}
		v.discharge(x, res.covers, 400*time.Millisecond, true)
		break
	}
	res.ms = time.Since(t0).Milliseconds()
	return res
}

// discharge runs the solvers on the obligations; returns the number not proved.
func (v *Verifier) discharge(x *Exec, os []*Obl, limit time.Duration, quick bool) int {
	var wg sync.WaitGroup
	bad := 0
	var mu sync.Mutex
	for _, o := range os {
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			solveSem <- struct{}{}
			defer func() { <-solveSem }()
			t0 := time.Now()
			v.solve(x, o, limit, quick)
			o.ms = time.Since(t0).Milliseconds()
			if o.status != "unsat" {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
	return bad
}

func depErrors(p *packages.Package, seen map[*packages.Package]bool) (r []string) {
	if seen[p] {
		return nil
	}
	seen[p] = true
	for _, e := range p.Errors {
		r = append(r, p.PkgPath+": "+e.Error())
	}
	for _, e := range p.TypeErrors {
		r = append(r, p.PkgPath+": "+e.Error())
	}
	if p.IllTyped && len(r) == 0 && p.Types == nil {
		r = append(r, p.PkgPath+": no types")
	}
	for _, q := range p.Imports {
		r = append(r, depErrors(q, seen)...)
	}
	return r
}
