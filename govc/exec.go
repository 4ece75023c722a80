package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	name   string // stable name
	kind   string // ensures, requires, inv-init, inv-keep, frame, safety, cover
	pos    int    // number of context items in scope
	guard  T
	goal   T
	cand   string // candidate invariant id ("" if a real obligation)
	where  string
	status string
	solver string
	ms     int64
	model  string
	user   bool // instance of a loopinv clause
}

type Exec struct {
	facts     map[string]int
	factMu    sync.Mutex
	defs      map[string]string // boolean definitions
	V         *Verifier
	ctx       *Ctx
	heapSort  map[string]string
	heapGo    map[string]types.Type
	recs      []*recorder
	freshRefs map[string]bool
	closTab   []*Clos
	obls      []*Obl
	quiet     int
	notes     map[string]bool
	trusted   map[string]bool // externals / assumed contracts used
	inlined   map[string]bool // repo functions executed in line
	usedCon   map[string]bool // repo functions used by contract
	top       *FnSpec
	topFn     *ssa.Function
	entry     State
	env       map[string]SV // entry parameter names of the top function
	dropped   map[string]bool
	allCands  map[string]bool
	disabled  map[string]bool // contracts not to be used at call sites
	depth     int
	epN       int
	boxIDs    map[string]int
	callStack []string
	oblNames  map[string]int
	nopanic   bool
	mayPanic  T // entry condition under which the contract says the function panics
	lemma     bool
	qn        int
	specErrs  map[string]bool
	globals   map[*ssa.Global]int
	modLocs   func() ([]hloc, bool) // locations the top contract may modify (entry state)
	specDecl  map[string]bool
}

func newExec(v *Verifier) *Exec {
	return &Exec{V: v, ctx: newCtx(), heapSort: map[string]string{}, heapGo: map[string]types.Type{}, freshRefs: map[string]bool{}, notes: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{}, dropped: map[string]bool{}, allCands: map[string]bool{}, disabled: map[string]bool{}, boxIDs: map[string]int{}, oblNames: map[string]int{}, globals: map[*ssa.Global]int{}, specDecl: map[string]bool{}}
}

type edge struct {
	pred *ssa.BasicBlock
	idx  int // index in to.Preds
	cond T
	st   State
}

type deferRec struct {
	guard T
	call  *ssa.CallCommon
	args  []Val
	fnv   Val
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	path   string
	in     map[*ssa.BasicBlock][]edge
	done   map[*ssa.BasicBlock]bool
	reach  map[*ssa.BasicBlock]T
	rets   []retRec
	defers []deferRec
	loops  map[*ssa.BasicBlock]*loop
	rpo    []*ssa.BasicBlock
	cur    []*loop // enclosing loops being processed
	parent *Frame
	site   ssa.Instruction
	// slices of arrays inside larger objects (copies, written back by copy())
	embedded map[*ssa.Slice]embeddedArr
}

type retRec struct {
	cond T
	val  Val
	st   State
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	entry  State
	phiEnt map[*ssa.Phi]Val
}

func findLoops(fn *ssa.Function) ([]*ssa.BasicBlock, map[*ssa.BasicBlock]*loop) {
	var rpo []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		rpo = append(rpo, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	loops := map[*ssa.BasicBlock]*loop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if l.blocks[c] || !seen[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return rpo, loops
}

func (x *Exec) oblige(kind, label string, guard, goal T, cand, where string) {
	if x.quiet > 0 {
		return
	}
	if kind == "safety" && x.mayPanic.s != "" {
		goal = or(x.mayPanic, goal)
	}
	g := implies(guard, goal)
	if g.s == "true" && cand == "" && kind != "ensures" && kind != "lemma" {
		return
	}
	if cand == "" && kind != "cover" {
		if parts := splitGoal(goal.s, 0); len(parts) > 1 && len(parts) <= 120 {
			for i, p := range parts {
				x.oblige1(kind, fmt.Sprintf("%s /%d", label, i+1), guard, T{p, goal.sort}, cand, where)
			}
			return
		}
	}
	x.oblige1(kind, label, guard, goal, cand, where)
}

func (x *Exec) oblige1(kind, label string, guard, goal T, cand, where string) {
	nm := kind + ":" + label
	x.oblNames[nm]++
	if n := x.oblNames[nm]; n > 1 {
		nm = fmt.Sprintf("%s#%d", nm, n)
	}
	x.obls = append(x.obls, &Obl{name: nm, kind: kind, pos: len(x.ctx.items), guard: guard, goal: goal, cand: cand, where: where, user: strings.Contains(cand, " inv")})
}

func (x *Exec) note(s string) { x.notes[s] = true }

func (x *Exec) assumeT(guard T, v T, t types.Type, st State) {
	x.ctx.assume(x.typeInv(v, t, x.alloc(st), 2))
	_ = guard
}

func (x *Exec) freshOf(hint string, t types.Type, st State) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.freshOf(hint, tu.At(i).Type(), st))
		}
		return r
	}
	v := x.ctx.fresh(hint, x.sortOf(t))
	x.ctx.assume(x.typeInv(v, t, x.alloc(st), 2))
	return v
}

func (x *Exec) havocAll(st State, why string) State {
	x.note("havoc of the whole heap: " + why)
	x.epN++
	n := State{map[string]T{}}
	for k := range st.h {
		if strings.HasPrefix(k, "visited ") {
			n.h[k] = st.h[k]
		}
	}
	for k, so := range x.heapSort {
		if isPseudo(k) {
			continue
		}
		n.h[k] = x.ctx.fresh("hv", so)
		x.record(k, T{}, true)
	}
	a := x.ctx.fresh("alloc", "Int")
	x.ctx.assume(le(x.alloc(st), a))
	n.h["alloc"] = a
	x.record("alloc", T{}, true)
	return n
}

const maxDepth = 40

// execFn executes the body of fn symbolically from state st.
func (x *Exec) execFn(fn *ssa.Function, args []Val, bind []Val, st State, guard T, path string, parent *Frame) (Val, State, T) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if x.depth > maxDepth {
		panic(unsupported("inlining too deep"))
	}
	for _, c := range x.callStack {
		if c == fn.String() {
			panic(unsupported("recursive call of " + fn.String()))
		}
	}
	x.callStack = append(x.callStack, fn.String())
	x.depth++
	defer func() { x.depth--; x.callStack = x.callStack[:len(x.callStack)-1] }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, path: path, in: map[*ssa.BasicBlock][]edge{}, done: map[*ssa.BasicBlock]bool{}, reach: map[*ssa.BasicBlock]T{}, parent: parent}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = bind[i]
	}
	fr.rpo, fr.loops = findLoops(fn)
	fr.in[fn.Blocks[0]] = []edge{{nil, -1, guard, st}}
	x.runBlocks(fr, fr.rpo)
	if len(fr.rets) == 0 {
		return x.freshResult(fn, st), st, tFalse
	}
	var conds []T
	var vals []Val
	var sts []State
	for _, r := range fr.rets {
		conds = append(conds, r.cond)
		vals = append(vals, r.val)
		sts = append(sts, r.st)
	}
	rg := x.ctx.def("ret", or(conds...))
	var rv Val
	if fn.Signature.Results().Len() > 0 {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			x.sortOf(fn.Signature.Results().At(i).Type())
		}
		rv = x.mergeVals(conds, vals, "rv")
	}
	return rv, x.mergeStates(conds, sts), rg
}

func (x *Exec) freshResult(fn *ssa.Function, st State) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.freshOf("dead", res.At(0).Type(), st)
	}
	return x.freshOf("dead", res, st)
}

func (x *Exec) runBlocks(fr *Frame, blocks []*ssa.BasicBlock) {
	for _, b := range blocks {
		if fr.done[b] {
			continue
		}
		if l := fr.loops[b]; l != nil {
			inCur := false
			for _, c := range fr.cur {
				if c == l {
					inCur = true
				}
			}
			if !inCur {
				x.runLoop(fr, l)
				continue
			}
		}
		x.runBlock(fr, b)
		fr.done[b] = true
	}
}

// enter merges the incoming edges of b; returns false when unreachable
func (x *Exec) enter(fr *Frame, b *ssa.BasicBlock) (T, State, []edge, bool) {
	es := fr.in[b]
	var live []edge
	for _, e := range es {
		if e.cond.s != "false" {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return tFalse, State{}, nil, false
	}
	var conds []T
	var sts []State
	for _, e := range live {
		conds = append(conds, e.cond)
		sts = append(sts, e.st)
	}
	return x.ctx.def("r", or(conds...)), x.mergeStates(conds, sts), live, true
}

func (x *Exec) phiVal(fr *Frame, phi *ssa.Phi, es []edge) Val {
	var conds []T
	var vals []Val
	for _, e := range es {
		conds = append(conds, e.cond)
		vals = append(vals, x.val(fr, phi.Edges[e.idx], e.st))
	}
	return x.mergeVals(conds, vals, "phi_"+phi.Comment)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock) {
	reach, st, es, ok := x.enter(fr, b)
	if !ok {
		return
	}
	phis := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis[phi] = x.phiVal(fr, phi, es)
	}
	for p, v := range phis {
		fr.vals[p] = v
	}
	x.runInstrs(fr, b, reach, st)
}

func (x *Exec) addEdge(fr *Frame, from *ssa.BasicBlock, si int, cond T, st State) {
	to := from.Succs[si]
	// index of this edge among to.Preds (duplicates possible)
	k := 0
	for i := 0; i < si; i++ {
		if from.Succs[i] == to {
			k++
		}
	}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				idx = i
				break
			}
			k--
		}
	}
	fr.in[to] = append(fr.in[to], edge{from, idx, cond, st})
}

func (x *Exec) runInstrs(fr *Frame, b *ssa.BasicBlock, reach T, st State) {
	fr.reach[b] = reach
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.Jump:
			x.addEdge(fr, b, 0, reach, st)
			return
		case *ssa.If:
			c := x.asTerm(x.val(fr, in.Cond, st))
			x.addEdge(fr, b, 0, x.ctx.def("e", and(reach, c)), st)
			x.addEdge(fr, b, 1, x.ctx.def("e", and(reach, not(c))), st.clone())
			return
		case *ssa.Return:
			var v Val
			if len(in.Results) == 1 {
				v = x.val(fr, in.Results[0], st)
			} else if len(in.Results) > 1 {
				var t Tuple
				for _, r := range in.Results {
					t = append(t, x.val(fr, r, st))
				}
				v = t
			}
			fr.rets = append(fr.rets, retRec{reach, v, st})
			return
		case *ssa.Panic:
			if x.nopanic {
				x.oblige("safety", x.lab(fr, "panic unreachable"), reach, tFalse, "", x.pos(in))
			}
			return
		default:
			var alive bool
			st, reach, alive = x.step(fr, in, reach, st)
			if !alive {
				return
			}
			fr.reach[b] = reach
		}
	}
}

func (x *Exec) lab(fr *Frame, s string) string {
	return shortFn(fr.fn.String()) + " " + s
}

func shortFn(s string) string {
	// strip import path directories
	for {
		i := strings.LastIndex(s, "/")
		if i < 0 {
			return s
		}
		j := i
		for j > 0 && (isIdent(s[j-1]) || s[j-1] == '/' || s[j-1] == '.' || s[j-1] == '-') {
			j--
		}
		s = s[:j] + s[i+1:]
	}
}

func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func (x *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		p = in.Parent().Pos()
	}
	ps := x.V.fset(in.Parent()).Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

type snap struct {
	items, obls int
	in          map[*ssa.BasicBlock][]edge
	done        map[*ssa.BasicBlock]bool
	rets        int
	defers      int
	names       map[string]int
}

func (x *Exec) snapshot(fr *Frame) snap {
	s := snap{items: len(x.ctx.items), obls: len(x.obls), in: map[*ssa.BasicBlock][]edge{}, done: map[*ssa.BasicBlock]bool{}, rets: len(fr.rets), defers: len(fr.defers)}
	for k, v := range fr.in {
		s.in[k] = append([]edge(nil), v...)
	}
	for k, v := range fr.done {
		s.done[k] = v
	}
	return s
}

func (x *Exec) restore(fr *Frame, s snap) {
	x.ctx.items = x.ctx.items[:s.items]
	x.obls = x.obls[:s.obls]
	fr.in = s.in
	fr.done = s.done
	fr.rets = fr.rets[:s.rets]
	fr.defers = fr.defers[:s.defers]
}

func (x *Exec) runLoop(fr *Frame, l *loop) {
	h := l.head
	reach0, st0, es, ok := x.enter(fr, h)
	var body []*ssa.BasicBlock
	for _, b := range fr.rpo {
		if l.blocks[b] {
			body = append(body, b)
		}
	}
	if !ok {
		for _, b := range body {
			fr.done[b] = true
		}
		return
	}
	if _, ok := st0.h["alloc"]; !ok {
		st0.h["alloc"] = x.alloc(st0)
	}
	seq0 := x.ctx.n
	entry := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		entry[phi] = x.phiVal(fr, phi, es)
	}
	l.entry = st0
	l.phiEnt = entry
	alloc0 := x.alloc(st0)
	backEdges := func() []edge {
		var out []edge
		for _, e := range fr.in[h] {
			if e.pred != nil && l.blocks[e.pred] && e.cond.s != "false" {
				out = append(out, e)
			}
		}
		return out
	}
	setPhis := func(st State) {
		for _, phi := range phis {
			ev := entry[phi]
			if x.isInterior(ev) {
				panic(unsupported("interior pointer as loop variable"))
			}
			if c, ok := ev.(*Clos); ok {
				fr.vals[phi] = c
				continue
			}
			if it, ok := ev.(*Iter); ok {
				fr.vals[phi] = it
				continue
			}
			v := x.ctx.fresh("phi_"+phi.Comment, x.sortOf(phi.Type()))
			x.ctx.assume(x.typeInv(v, phi.Type(), x.alloc(st), 2))
			fr.vals[phi] = v
		}
	}
	pass := func(st State, final bool) {
		setPhis(st)
		fr.cur = append(fr.cur, l)
		if final {
			x.assumeInvs(fr, l, phis, reach0, st)
		}
		x.runInstrs(fr, h, reach0, st.clone())
		fr.done[h] = true
		x.runBlocks(fr, body)
		fr.cur = fr.cur[:len(fr.cur)-1]
	}
	// discover the modified heaps
	mods := map[string][]writeRec{}
	for iter := 0; ; iter++ {
		s := x.snapshot(fr)
		rec := &recorder{ws: map[string][]writeRec{}}
		x.recs = append(x.recs, rec)
		x.quiet++
		st := st0.clone()
		for k := range mods {
			st.h[k] = x.ctx.fresh("hv", x.heapSort[k])
		}
		fr.in[h] = nil
		pass(st, false)
		x.quiet--
		x.recs = x.recs[:len(x.recs)-1]
		x.restore(fr, s)
		grew := false
		for k := range rec.ws {
			if _, ok := mods[k]; !ok {
				grew = true
			}
		}
		mods = rec.ws
		if !grew || iter > 6 {
			break
		}
		for k, w := range rec.ws {
			mods[k] = w
		}
	}
	for _, ws := range mods {
		for i := range ws {
			ws[i].ref = x.ctx.unfold(ws[i].ref, seq0)
		}
	}
	for k, ws := range mods {
		for _, w := range ws {
			x.record(k, w.ref, w.all)
		}
	}
	// havoc
	st := st0.clone()
	var frames []frameCand
	for _, k := range sortedKeys(mods) {
		ws := mods[k]
		so := x.heapSort[k]
		old := x.hget(st0, k, so)
		if isPseudo(k) {
			st.h[k] = x.ctx.fresh(k, so)
			if k == "alloc" {
				x.ctx.assume(le(alloc0, st.h[k]))
			}
			continue
		}
		var inv []T
		hasFresh, hasOther := false, false
		for _, w := range ws {
			if w.all {
				hasOther = true
				continue
			}
			if x.ctx.maxSeq(w.ref) <= seq0 {
				inv = append(inv, w.ref)
			} else if x.freshRefs[w.ref.s] {
				hasFresh = true
			} else {
				hasOther = true
			}
		}
		if !hasFresh && !hasOther {
			_, vs := splitArr(so)
			nh := old
			for _, r := range inv {
				nh = sto(nh, r, x.ctx.fresh("hc", vs))
			}
			st.h[k] = x.ctx.def("hv", nh)
			continue
		}
		nh := x.ctx.fresh("hv", so)
		x.ctx.assume(x.heapTyping(k, nh, T{}))
		st.h[k] = nh
		fc := frameCand{heap: k, old: old, inv: inv, alloc0: alloc0, base: x.alloc(x.entry), nopat: x.ctx.defBody}
		if !hasOther {
			x.ctx.assume(fc.formula(nh))
		} else {
			frames = append(frames, fc)
		}
	}
	fr.in[h] = nil
	l2 := *l
	_ = l2
	// initial obligations for candidate and user invariants
	invs := x.loopInvs(fr, l, phis, frames)
	for _, iv := range invs {
		g, err := iv.eval(func(p *ssa.Phi) Val { return entry[p] }, st0)
		if err != nil {
			x.dropped[iv.id] = true
			continue
		}
		x.oblige("inv-init", iv.id, reach0, g, iv.id, x.posB(h))
	}
	setPhis(st)
	x.loopBoundFacts(fr, l, phis, entry, reach0)
	for _, iv := range invs {
		if x.dropped[iv.id] {
			continue
		}
		g, err := iv.eval(func(p *ssa.Phi) Val { return fr.vals[p] }, st)
		if err != nil {
			x.dropped[iv.id] = true
			continue
		}
		x.ctx.assume(implies(reach0, g))
	}
	fr.cur = append(fr.cur, l)
	x.runInstrs(fr, h, reach0, st.clone())
	fr.done[h] = true
	x.runBlocks(fr, body)
	fr.cur = fr.cur[:len(fr.cur)-1]
	for _, e := range backEdges() {
		for _, phi := range phis {
			if x.isInterior(x.val(fr, phi.Edges[e.idx], e.st)) {
				panic(unsupported("interior pointer as loop variable"))
			}
		}
		for _, iv := range invs {
			if x.dropped[iv.id] {
				continue
			}
			e := e
			g, err := iv.eval(func(p *ssa.Phi) Val { return x.val(fr, p.Edges[e.idx], e.st) }, e.st)
			if err != nil {
				x.dropped[iv.id] = true
				continue
			}
			x.oblige("inv-keep", iv.id, e.cond, g, iv.id, x.posB(h))
		}
	}
	fr.in[h] = nil
}

func (x *Exec) assumeInvs(fr *Frame, l *loop, phis []*ssa.Phi, reach T, st State) {}

// loopBoundFacts: nothing assumed without proof.
func (x *Exec) loopBoundFacts(fr *Frame, l *loop, phis []*ssa.Phi, entry map[*ssa.Phi]Val, reach T) {}

func (x *Exec) posB(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			return x.pos(in)
		}
	}
	return x.pos(b.Instrs[0])
}

type frameCand struct {
	heap   string
	old    T
	inv    []T
	alloc0 T
	base   T // allocation bound at function entry
	nopat  map[string]string
}

func (f frameCand) formula(nh T) T {
	r := T{"r", "Int"}
	cs := []T{lt(r, f.alloc0)}
	for _, i := range f.inv {
		cs = append(cs, not(eq(r, i)))
	}
	body := implies(and(cs...), eq(sel(nh, r), sel(f.old, r)))
	if f.nopat != nil && f.nopat[nh.s] != "" {
		return T{fmt.Sprintf("(forall ((r Int)) %s)", body.s), "Bool"}
	}
	return T{fmt.Sprintf("(forall ((r Int)) (! %s :pattern (%s)))", body.s, sel(nh, r).s), "Bool"}
}

type invCand struct {
	id   string
	eval func(phi func(*ssa.Phi) Val, st State) (T, error)
}

// loopInvs produces the candidate invariants of a loop: automatic bounds,
// frames, and the instantiations of the top function's templates.
func (x *Exec) loopInvs(fr *Frame, l *loop, phis []*ssa.Phi, frames []frameCand) []invCand {
	var out []invCand
	key := fmt.Sprintf("%s@%d", fr.path, l.head.Index)
	addc := func(id string, f func(phi func(*ssa.Phi) Val, st State) (T, error)) {
		id = key + " " + id
		x.allCands[id] = true
		if x.dropped[id] {
			return
		}
		out = append(out, invCand{id, f})
	}
	for _, f := range frames {
		f := f
		addc("frame "+f.heap, func(phi func(*ssa.Phi) Val, st State) (T, error) {
			return f.formula(x.hget(st, f.heap, x.heapSort[f.heap])), nil
		})
		if x.dropped[key+" frame "+f.heap] && f.base.s != f.alloc0.s {
			g := f
			g.alloc0 = f.base
			addc("frame0 "+f.heap, func(phi func(*ssa.Phi) Val, st State) (T, error) {
				return g.formula(x.hget(st, g.heap, x.heapSort[g.heap])), nil
			})
		}
		// last resort: the frame of the contract itself
		if x.dropped[key+" frame "+f.heap] && (f.base.s == f.alloc0.s || x.dropped[key+" frame0 "+f.heap]) && x.modLocs != nil {
			if locs, ok := x.modLocs(); ok {
				g := frameCand{heap: f.heap, old: x.hget(x.entry, f.heap, x.heapSort[f.heap]), alloc0: f.base, nopat: f.nopat}
				skip := false
				for _, l := range locs {
					if l.heap == f.heap || l.heap == "*" {
						skip = skip || l.ref.s == "*" || l.heap == "*"
						g.inv = append(g.inv, l.ref)
					}
				}
				if !skip {
					addc("frameM "+f.heap, func(phi func(*ssa.Phi) Val, st State) (T, error) {
						return g.formula(x.hget(st, g.heap, x.heapSort[g.heap])), nil
					})
				}
			}
		}
	}
	// bounds
	for _, p := range phis {
		p := p
		if lo, _, ok := intRange(p.Type()); !ok || lo == nil {
			continue
		}
		name := p.Name()
		ent := l.phiEnt[p]
		et, ok := ent.(T)
		if !ok {
			continue
		}
		up, down := phiDir(l, p)
		if !down {
			addc(name+">=init", func(phi func(*ssa.Phi) Val, st State) (T, error) { return le(et, x.asTerm(phi(p))), nil })
		}
		if !up {
			addc(name+"<=init", func(phi func(*ssa.Phi) Val, st State) (T, error) { return le(x.asTerm(phi(p)), et), nil })
		}
		for _, c := range x.loopLimits(fr, l, p) {
			lim := c.lim
			d := c.delta
			if !down {
				addc(fmt.Sprintf("%s+%d<=%s", name, d, c.name), func(phi func(*ssa.Phi) Val, st State) (T, error) {
					return le(add(x.asTerm(phi(p)), intT(d)), lim), nil
				})
				addc(fmt.Sprintf("init-or %s+%d<=%s", name, d, c.name), func(phi func(*ssa.Phi) Val, st State) (T, error) {
					return or(eq(x.asTerm(phi(p)), et), le(add(x.asTerm(phi(p)), intT(d)), lim)), nil
				})
			}
			if !up && d == 0 {
				addc(fmt.Sprintf("%s>=%s", name, c.name), func(phi func(*ssa.Phi) Val, st State) (T, error) {
					return le(lim, x.asTerm(phi(p))), nil
				})
			}
		}
	}
	// phi pairs of ints moving in lock step
	for i, p := range phis {
		for _, q := range phis[i+1:] {
			p, q := p, q
			if _, _, ok := intRange(p.Type()); !ok {
				continue
			}
			if _, _, ok := intRange(q.Type()); !ok {
				continue
			}
			ep, ok1 := l.phiEnt[p].(T)
			eqq, ok2 := l.phiEnt[q].(T)
			if !ok1 || !ok2 {
				continue
			}
			addc(p.Name()+"-"+q.Name()+" const", func(phi func(*ssa.Phi) Val, st State) (T, error) {
				return eq(sub(x.asTerm(phi(p)), x.asTerm(phi(q))), sub(ep, eqq)), nil
			})
		}
	}
	out = append(out, x.userInvs(fr, l, phis, key)...)
	return out
}

type limit struct {
	name  string
	lim   T
	delta int64
}

// loopLimits finds loop-invariant values a phi (or phi+const) is compared with.
func (x *Exec) loopLimits(fr *Frame, l *loop, p *ssa.Phi) []limit {
	var out []limit
	seen := map[string]bool{}
	isPhiOff := func(v ssa.Value) (int64, bool) {
		if v == p {
			return 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok {
			if c, ok := b.Y.(*ssa.Const); ok && b.X == p && c.Value != nil {
				if b.Op == token.ADD {
					return c.Int64(), true
				}
				if b.Op == token.SUB {
					return -c.Int64(), true
				}
			}
		}
		return 0, false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
				if _, ok := isPhiOff(pr[0]); !ok {
					continue
				}
				var lim T
				if in2, ok := pr[1].(ssa.Instruction); ok && in2.Block() != nil && l.blocks[in2.Block()] {
					// len(s) computed in the loop of a value from outside
					c, ok := pr[1].(*ssa.Call)
					if !ok {
						continue
					}
					bi, ok := c.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "len" {
						continue
					}
					a := c.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && l.blocks[ai.Block()] {
						continue
					}
					av, ok := fr.vals[a].(T)
					if !ok || av.sort != "Slice" {
						continue
					}
					lim = sLen(av)
				} else {
					v := x.val(fr, pr[1], l.entry)
					t, ok := v.(T)
					if !ok || t.sort != "Int" {
						continue
					}
					lim = t
				}
				// j < lim keeps j+1 <= lim after an increment; with a range index only that form is needed
				for _, d := range []int64{0, 1} {
					k := fmt.Sprintf("%s+%d", lim.s, d)
					if !seen[k] {
						seen[k] = true
						out = append(out, limit{pr[1].Name(), lim, d})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].name != out[j].name {
			return out[i].name < out[j].name
		}
		return out[i].delta < out[j].delta
	})
	return out
}

// phiDir tells whether a loop variable only moves up or only moves down.
func phiDir(l *loop, p *ssa.Phi) (up, down bool) {
	up, down = true, true
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] || e == p {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != p {
			return false, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false, false
		}
		pos := (b.Op == token.ADD) == (c.Int64() >= 0)
		if b.Op != token.ADD && b.Op != token.SUB {
			return false, false
		}
		if pos {
			down = false
		} else {
			up = false
		}
	}
	return
}

// sexpParts splits "(op a b ...)" into its top-level parts.
func sexpParts(s string) []string {
	if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
		return nil
	}
	var out []string
	depth, start := 0, -1
	in := s[1 : len(s)-1]
	for i := 0; i < len(in); i++ {
		switch c := in[i]; {
		case c == '|':
			j := strings.IndexByte(in[i+1:], '|')
			if j < 0 {
				return nil
			}
			if start < 0 {
				start = i
			}
			i += j + 1
		case c == '(':
			if start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
		case (c == ' ' || c == '\n') && depth == 0:
			if start >= 0 {
				out = append(out, in[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, in[start:])
	}
	return out
}

// splitGoal breaks a goal into the conjuncts that together imply it.
func splitGoal(s string, depth int) []string { return splitGoalF(s, depth, true) }

func splitGoalF(s string, depth int, distr bool) []string {
	if depth > 40 || len(s) > 200000 {
		return []string{s}
	}
	switch {
	case strings.HasPrefix(s, "(and "):
		var r []string
		for _, p := range sexpParts(s)[1:] {
			r = append(r, splitGoalF(p, depth+1, distr)...)
		}
		return r
	case strings.HasPrefix(s, "(=> "):
		ps := sexpParts(s)
		if len(ps) != 3 {
			return []string{s}
		}
		qs := splitGoalF(ps[2], depth+1, distr)
		if len(qs) < 2 {
			return []string{s}
		}
		var r []string
		for _, q := range qs {
			r = append(r, "(=> "+ps[1]+" "+q+")")
		}
		return r
	case strings.HasPrefix(s, "(forall "):
		ps := sexpParts(s)
		if !distr || len(ps) != 3 || strings.HasPrefix(ps[2], "(! ") {
			return []string{s}
		}
		qs := splitGoalF(ps[2], depth+1, distr)
		if len(qs) < 2 {
			return []string{s}
		}
		var r []string
		for _, q := range qs {
			r = append(r, "(forall "+ps[1]+" "+q+")")
		}
		return r
	}
	return []string{s}
}
