package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (x *Exec) call(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, reach T, st State) (State, T, bool) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a, st))
	}
	fnv := x.val(fr, c.Value, st)
	type emb struct {
		b   embeddedArr
		val T
	}
	var embs []emb
	_, isBuiltin := c.Value.(*ssa.Builtin)
	for i, a := range c.Args {
		if isBuiltin && i > 0 { // copy and append only read their second argument
			continue
		}
		if sl, ok := a.(*ssa.Slice); ok {
			if b, ok := fr.embedded[sl]; ok {
				embs = append(embs, emb{b, x.loadLoc(st, &Loc{kind: lObj, ref: b.ref, typ: b.typ})})
			}
		}
	}
	r, st2, g := x.callWith(fr, in, c, fnv, args, reach, st)
	for _, e := range embs { // what the callee did to the copy of an embedded array
		if nv := x.loadLoc(st2, &Loc{kind: lObj, ref: e.b.ref, typ: e.b.typ}); nv.s != e.val.s {
			x.storePtr(e.b.ptr, st2, nv)
		}
	}
	if t, ok := r.(T); ok {
		r = x.ctx.def(v.Name(), t)
	}
	fr.vals[v] = r
	if g.s == "false" {
		return st2, g, false
	}
	return st2, g, true
}

func (x *Exec) callWith(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fnv Val, args []Val, reach T, st State) (Val, State, T) {
	if c.IsInvoke() {
		return x.invoke(fr, in, c, fnv, args, reach, st)
	}
	if b, ok := fnv.(*ssa.Builtin); ok {
		return x.builtin(fr, in, b.Name(), c, args, reach, st)
	}
	if cl, ok := fnv.(*Clos); ok {
		return x.callFn(fr, in, cl.fn, args, cl.bind, reach, st)
	}
	if t, ok := fnv.(T); ok {
		if n, ok := t.num(); ok && n.IsInt64() && n.Int64() >= 1000 && int(n.Int64())-1000 < len(x.closTab) {
			cl := x.closTab[n.Int64()-1000]
			return x.callFn(fr, in, cl.fn, args, cl.bind, reach, st)
		}
	}
	if fn := x.constFuncVar(c.Value); fn != nil {
		return x.callFn(fr, in, fn, args, nil, reach, st)
	}
	panic(unsupported("call of an unknown function value"))
}

func (x *Exec) resultVal(sig *types.Signature, hint string, st State) Val {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.freshOf(hint, res.At(0).Type(), st)
	}
	return x.freshOf(hint, res, st)
}

func (x *Exec) invoke(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, reach T, st State) (Val, State, T) {
	name := "(" + types.TypeString(types.Unalias(c.Value.Type()), nil) + ")." + c.Method.Name()
	sig := c.Method.Type().(*types.Signature)
	if mi, ok := c.Value.(*ssa.MakeInterface); ok {
		m := fr.fn.Prog.LookupMethod(mi.X.Type(), c.Method.Pkg(), c.Method.Name())
		if m != nil {
			rv := x.val(fr, mi.X, st)
			return x.callFn(fr, in, m, append([]Val{rv}, args...), nil, reach, st)
		}
	}
	if sp := x.V.extern(name); sp != nil {
		x.trusted[name] = true
		x.safety(fr, "nil interface call", reach, not(eq(x.asTerm(recv), T{"nil_iface", "Iface"})), in)
		var ts []types.Type
		ts = append(ts, c.Value.Type())
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		return x.applyContract(fr, in, sp, sig, ts, append([]Val{recv}, args...), reach, st, name)
	}
	if x.V.specs.isPure(name) {
		x.trusted[name+" (no effect, arbitrary result)"] = true
		return x.resultVal(sig, "pure_"+c.Method.Name(), st), st, reach
	}
	st2 := x.havocAll(st, "dynamic call "+name)
	return x.resultVal(sig, "inv_"+c.Method.Name(), st2), st2, reach
}

func (x *Exec) callFn(fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, bind []Val, reach T, st State) (Val, State, T) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := specials[name]; ok {
		x.trusted[name+" (built-in model)"] = true
		return h(x, fr, in, fn, args, reach, st)
	}
	sig := fn.Signature
	ptypes := func() []types.Type {
		var ts []types.Type
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		if len(fn.Params) == 0 {
			if sig.Recv() != nil {
				ts = append(ts, sig.Recv().Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
		}
		return ts
	}
	if sp := x.V.extern(name); sp != nil {
		x.trusted[name] = true
		return x.applyContract(fr, in, sp, sig, ptypes(), args, reach, st, name)
	}
	if sp := x.V.specs.fnAt(name, x.V.cur.module); sp != nil && sp.use && !x.disabled[name] {
		interior := false
		for _, a := range args {
			if x.isInterior(a) {
				interior = true
			}
		}
		// a contract that writes nothing also applies to interior pointers
		if !interior || len(sp.modifies) == 0 {
			x.usedCon[name] = true
			return x.applyContract(fr, in, sp, sig, ptypes(), args, reach, st, name)
		}
	}
	if x.V.specs.isPure(name) {
		x.trusted[name+" (no effect, arbitrary result)"] = true
		return x.resultVal(sig, "pure_"+fn.Name(), st), st, reach
	}
	if len(fn.Blocks) > 0 && x.V.inlineable(fn) {
		x.inlined[name] = true
		path := fr.path + "/" + fn.Name()
		if in != nil {
			path = fmt.Sprintf("%s/%d:%s", fr.path, instrOrd(in), fn.Name())
		}
		v, st2, g := x.execFn(fn, args, bind, st, reach, path, fr)
		if _, ok := v.(T); ok && v != nil {
			return v, st2, g
		}
		return v, st2, g
	}
	// unknown external function
	st2 := x.havocAll(st, "call of "+name)
	return x.resultVal(sig, "ext_"+fn.Name(), st2), st2, reach
}

func instrOrd(in ssa.Instruction) int {
	b := in.Block()
	for i, j := range b.Instrs {
		if j == in {
			return b.Index*1000 + i
		}
	}
	return -1
}

func (x *Exec) splice(es string, a, at, b, from, n T) T {
	ar := arrSort("Int", es)
	nm := quote("splice " + strings.ReplaceAll(es, "|", "'"))
	x.ix(intT(1), T{"i", "Int"})
	x.ctx.global(nm, fmt.Sprintf(`(declare-fun %[1]s (%[2]s Int %[2]s Int Int) %[2]s)
(assert (forall ((a %[2]s) (t Int) (b %[2]s) (f Int) (n Int) (i Int)) (! (= (select (%[1]s a t b f n) i) (ite (and (<= t i) (< i (+ t n))) (select b (ix f (- i t))) (select a i))) :pattern ((select (%[1]s a t b f n) i)))))
(assert (forall ((a %[2]s) (t Int) (b %[2]s) (f Int) (n Int) (i Int)) (! (=> (< i t) (= (select (%[1]s a t b f n) i) (select a i))) :pattern ((%[1]s a t b f n) (select a i)))))
(assert (forall ((a %[2]s) (t Int) (b %[2]s) (f Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (select (%[1]s a t b f n) (ix t k)) (select b (ix f k)))) :pattern ((%[1]s a t b f n) (select b (ix f k))))))`, nm, ar))
	return app(ar, nm, a, at, b, from, n)
}

func (x *Exec) appendSlices(st State, et types.Type, s, t T, strArr *T) T {
	hn, so := x.elemHeap(et)
	h := x.hget(st, hn, so)
	_, inner := splitArr(so)
	_, es := splitArr(inner)
	n := sLen(t)
	if strArr == nil && n.s == "0" {
		return s
	}
	start := x.ctx.def("apos", x.ix(sOff(s), sLen(s)))
	newlen := x.ctx.def("alen", add(sLen(s), n))
	fits := x.ctx.def("fits", le(newlen, sCap(s)))
	base := sel(h, sRef(s))
	var src T
	if strArr != nil {
		src = *strArr
	} else {
		src = sel(h, sRef(t))
	}
	var na T
	if k, ok := n.num(); ok && k.IsInt64() && k.Int64() <= 8 {
		na = base
		for i := int64(0); i < k.Int64(); i++ {
			na = sto(na, add(start, intT(i)), x.ctx.def("ae", sel(src, x.ix(sOff(t), intT(i)))))
		}
	} else {
		na = x.splice(es, base, start, src, sOff(t), n)
	}
	oldRef := sRef(s)
	r := x.newRef(st, "append")
	ref := x.ctx.def("aref", ite(fits, sRef(s), r))
	x.record(hn, oldRef, false)
	x.record(hn, r, false)
	x.hset(st, hn, sto(h, ref, x.ctx.def("aa", na)))
	if k, ok := n.num(); ok && k.IsInt64() && k.Int64() <= 8 {
		// consequences of the above, stated so that they are found by instantiation:
		// the old elements stay, and the new ones follow them
		now := sel(x.hget(st, hn, h.sort), ref)
		i := T{"ai!", "Int"}
		x.ctx.assume(T{fmt.Sprintf("(forall ((ai! Int)) (! (=> (and (<= 0 ai!) (< ai! %s)) %s) :pattern (%s)))", sLen(s).s, eq(sel(now, x.ix(sOff(s), i)), sel(base, x.ix(sOff(s), i))).s, sel(base, x.ix(sOff(s), i)).s), "Bool"})
		for j := int64(0); j < k.Int64(); j++ {
			x.ctx.assume(eq(sel(now, x.ix(sOff(s), add(sLen(s), intT(j)))), sel(src, x.ix(sOff(t), intT(j)))))
		}
	}
	nc := x.ctx.fresh("ncap", "Int")
	x.ctx.assume(and(le(newlen, nc), le(nc, intBig(pow2(56)))))
	return mkSlice(ref, sOff(s), newlen, x.ctx.def("acap", ite(fits, sCap(s), nc)))
}

func (x *Exec) builtin(fr *Frame, in ssa.Instruction, name string, c *ssa.CallCommon, args []Val, reach T, st State) (Val, State, T) {
	switch name {
	case "len", "cap":
		t := types.Unalias(c.Args[0].Type()).Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch u := t.(type) {
		case *types.Slice:
			if name == "cap" {
				return sCap(x.asTerm(args[0])), st, reach
			}
			return sLen(x.asTerm(args[0])), st, reach
		case *types.Map:
			return x.mapLen(st, u, x.asTerm(args[0])), st, reach
		case *types.Array:
			return intT(u.Len()), st, reach
		case *types.Basic:
			return app("Int", "strlen", x.asTerm(args[0])), st, reach
		}
		panic(unsupported("len of " + t.String()))
	case "append":
		et := types.Unalias(c.Args[0].Type()).Underlying().(*types.Slice).Elem()
		s, t := x.asTerm(args[0]), x.asTerm(args[1])
		if t.sort == "Str" {
			x.declStrArr()
			a := app("(Array Int Int)", "strarr", t)
			n := app("Int", "strlen", t)
			return x.appendSlices(st, et, s, mkSlice(intT(0), intT(0), n, n), &a), st, reach
		}
		return x.appendSlices(st, et, s, t, nil), st, reach
	case "copy":
		et := types.Unalias(c.Args[0].Type()).Underlying().(*types.Slice).Elem()
		hn, so := x.elemHeap(et)
		h := x.hget(st, hn, so)
		_, inner := splitArr(so)
		_, es := splitArr(inner)
		d, s := x.asTerm(args[0]), x.asTerm(args[1])
		var src, off, n T
		if s.sort == "Str" {
			x.declStrArr()
			src, off, n = app("(Array Int Int)", "strarr", s), intT(0), app("Int", "strlen", s)
		} else {
			src, off, n = sel(h, sRef(s)), sOff(s), sLen(s)
		}
		n = x.ctx.def("cpn", ite(le(sLen(d), n), sLen(d), n))
		na := x.splice(es, sel(h, sRef(d)), sOff(d), src, off, n)
		x.record(hn, sRef(d), false)
		x.hset(st, hn, sto(h, sRef(d), x.ctx.def("cp", na)))
		return n, st, reach
	case "delete":
		u := types.Unalias(c.Args[0].Type()).Underlying().(*types.Map)
		x.mapDelete(st, u, x.asTerm(args[0]), x.boxIfNeeded(args[1], c.Args[1].Type(), u.Key()))
		return nil, st, reach
	case "print", "println":
		return nil, st, reach
	case "min", "max":
		r := x.asTerm(args[0])
		for _, a := range args[1:] {
			b := x.asTerm(a)
			if name == "min" {
				r = ite(le(r, b), r, b)
			} else {
				r = ite(le(b, r), r, b)
			}
			r = x.ctx.def("mm", r)
		}
		return r, st, reach
	case "close":
		return nil, st, reach
	case "ssa:wrapnilchk":
		return args[0], st, reach
	}
	panic(unsupported("builtin " + name))
}

// card is the number of elements of a finite set of keys (constrained only along map iterations).
func (x *Exec) card(set T) T {
	f := quote("card " + set.sort)
	x.ctx.global(f, fmt.Sprintf("(declare-fun %s (%s) Int)", f, set.sort))
	return T{fmt.Sprintf("(%s %s)", f, set.s), "Int"}
}

func (x *Exec) mapLen(st State, u *types.Map, m T) T {
	_, _, ln, _, _ := x.mapHeaps(u)
	v := x.ctx.def("maplen", sel(x.hget(st, ln, "(Array Int Int)"), m))
	x.ctx.assume(le(intT(0), v))
	x.ctx.assume(le(v, T{"72057594037927936", "Int"})) // no map has 2^56 entries (address space)
	return ite(eq(m, intT(0)), intT(0), v)
}

type special func(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T)

var specials map[string]special

func init() {
	specials = map[string]special{
		"sort.Slice":                spSortSlice,
		"sort.SliceStable":          spSortSlice,
		"sort.Search":               spSortSearch,
		"(*math/rand.Rand).Shuffle": spRandShuffle,
		"sort.Sort":                 spUnsupp,
		"reflect.DeepEqual": func(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T) {
			c := in.(*ssa.Call)
			a, ok1 := c.Call.Args[0].(*ssa.MakeInterface)
			b, ok2 := c.Call.Args[1].(*ssa.MakeInterface)
			if !ok1 || !ok2 || !types.Identical(a.X.Type(), b.X.Type()) {
				panic(unsupported("DeepEqual on dynamic types"))
			}
			av, bv := x.asTerm(x.val(fr, a.X, st)), x.asTerm(x.val(fr, b.X, st))
			r := x.ctx.def("deq", x.deepEq(av, bv, a.X.Type(), st, st, 6))
			return r, st, reach
		},
	}
}

func spUnsupp(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T) {
	panic(unsupported(fn.String()))
}

// deepEq is structural equality of a (in state sa) and b (in state sb).
func (x *Exec) deepEq(a, b T, t types.Type, sa, sb State, depth int) T {
	if depth < 0 {
		panic(unsupported("deep equality too deep"))
	}
	t = types.Unalias(t)
	if x.opaque(t) != nil {
		return eq(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Interface, *types.Chan, *types.Signature:
		return eq(a, b)
	case *types.Array:
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return eq(a, b)
		}
	case *types.Struct:
		cs := []T{}
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.deepEq(x.structGet(t, a, i), x.structGet(t, b, i), u.Field(i).Type(), sa, sb, depth-1))
		}
		return and(cs...)
	case *types.Slice:
		hn, so := x.elemHeap(u.Elem())
		ha, hb := x.hget(sa, hn, so), x.hget(sb, hn, so)
		x.qn++
		i := T{fmt.Sprintf("dq%d", x.qn), "Int"}
		ea := sel(sel(ha, sRef(a)), x.ix(sOff(a), i))
		eb := sel(sel(hb, sRef(b)), x.ix(sOff(b), i))
		body := x.deepEq(ea, eb, u.Elem(), sa, sb, depth-1)
		q := T{fmt.Sprintf("(forall ((%s Int)) (=> (and (<= 0 %s) (< %s %s)) %s))", i.s, i.s, i.s, sLen(a).s, body.s), "Bool"}
		return and(eq(eq(sRef(a), intT(0)), eq(sRef(b), intT(0))), eq(sLen(a), sLen(b)), q)
	case *types.Pointer:
		n := or(eq(a, intT(0)), eq(b, intT(0)))
		la := &Loc{kind: lObj, ref: a, typ: u.Elem()}
		lb := &Loc{kind: lObj, ref: b, typ: u.Elem()}
		return or(eq(a, b), and(not(n), x.deepEq(x.loadLoc(sa, la), x.loadLoc(sb, lb), u.Elem(), sa, sb, depth-1)))
	}
	panic(unsupported("deep equality of " + t.String()))
}

// sort.Slice(s, less): the result is a permutation of s on which less never
// reports an inversion of adjacent elements (trusted contract of the library).
func spSortSlice(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T) {
	c := in.(*ssa.Call)
	mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
	if !ok {
		panic(unsupported("sort.Slice argument"))
	}
	s := x.asTerm(x.val(fr, mi.X, st))
	et := mi.X.Type().Underlying().(*types.Slice).Elem()
	hn, so := x.elemHeap(et)
	h := x.hget(st, hn, so)
	_, inner := splitArr(so)
	old := x.ctx.def("pre_sort", sel(h, sRef(s)))
	na := x.ctx.fresh("sorted", inner)
	off, ln := sOff(s).s, sLen(s).s
	perm, inv := "", ""
	if d, ok := x.V.specs.decls["sortPerm"]; ok {
		// name the permutation by the specification's choice function
		sc := &sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}
		if g := sc.goSorts(d); g.args[0] == inner {
			sc.declare("sortPerm", d)
			sc.declare("sortPermInv", x.V.specs.decls["sortPermInv"])
			perm = fmt.Sprintf("sortPerm %s %s %s %s", old.s, na.s, off, ln)
			inv = fmt.Sprintf("sortPermInv %s %s %s %s", old.s, na.s, off, ln)
		}
	}
	if perm == "" {
		perm = x.ctx.freshName("perm")
		inv = x.ctx.freshName("permi")
		x.ctx.items = append(x.ctx.items, item{'d', "(declare-fun " + perm + " (Int) Int)"}, item{'d', "(declare-fun " + inv + " (Int) Int)"})
	}
	// perm and permi are inverse bijections of the (relative) indices
	x.ctx.assume(T{fmt.Sprintf(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i %[2]s)) (and (<= 0 (%[3]s i)) (< (%[3]s i) %[2]s) (= (%[4]s (%[3]s i)) i) (= (select %[5]s (ix %[1]s i)) (select %[6]s (ix %[1]s (%[3]s i)))))) :pattern ((select %[5]s (ix %[1]s i))) :pattern ((%[3]s i))))`, off, ln, perm, inv, na.s, old.s), "Bool"})
	x.ctx.assume(T{fmt.Sprintf(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i %[2]s)) (and (<= 0 (%[4]s i)) (< (%[4]s i) %[2]s) (= (%[3]s (%[4]s i)) i) (= (select %[5]s (ix %[1]s (%[4]s i))) (select %[6]s (ix %[1]s i))))) :pattern ((select %[6]s (ix %[1]s i))) :pattern ((%[4]s i))))`, off, ln, perm, inv, na.s, old.s), "Bool"})
	x.ctx.assume(T{fmt.Sprintf(`(forall ((i Int)) (! (=> (or (< i %[1]s) (<= (+ %[1]s %[2]s) i)) (= (select %[3]s i) (select %[4]s i))) :pattern ((select %[3]s i))))`, off, ln, na.s, old.s), "Bool"})
	x.record(hn, sRef(s), false)
	x.hset(st, hn, sto(h, sRef(s), na))
	// orderedness: for all i<j in range, not less(j, i), evaluated symbolically
	cl, ok := args[1].(*Clos)
	if !ok {
		panic(unsupported("sort.Slice comparison"))
	}
	x.qn++
	i, j := fmt.Sprintf("si%d", x.qn), fmt.Sprintf("sj%d", x.qn)
	if b, ok := x.pureClosure(fr, cl, []T{{j, "Int"}, {i, "Int"}}, st, in); ok {
		x.ctx.assume(T{fmt.Sprintf("(forall ((%[1]s Int) (%[2]s Int)) (! (=> (and (<= 0 %[1]s) (< %[1]s %[2]s) (< %[2]s %[3]s)) (not %[4]s)) :pattern ((select %[5]s (ix %[6]s %[1]s)) (select %[5]s (ix %[6]s %[2]s)))))", i, j, sLen(s).s, b.s, na.s, off), "Bool"})
	} else {
		x.note("sort.Slice comparison function not a pure expression")
	}
	return nil, st, reach
}

// sort.Search(n, f) for a pure f: an index in [0, n] at which f holds (unless n)
// and before which it does not (unless 0): the trusted contract of the library.
func spSortSearch(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T) {
	n := x.asTerm(args[0])
	cl, ok := args[1].(*Clos)
	if !ok {
		panic(unsupported("sort.Search predicate"))
	}
	r := x.ctx.fresh("search", "Int")
	x.ctx.assume(and(le(intT(0), r), or(le(r, n), eq(r, intT(0)))))
	if _, ok := x.pureClosure(fr, cl, []T{r}, st, in); !ok {
		panic(unsupported("sort.Search predicate not a pure expression"))
	}
	at := func(i, g T) T {
		v, _, _ := x.execFn(cl.fn, []Val{i}, cl.bind, st.clone(), g, fr.path+"/search", fr)
		return x.asTerm(v)
	}
	k := x.ctx.fresh("probe", "Int")
	in0 := and(le(intT(0), k), lt(k, n))
	at(k, and(reach, in0))
	g := and(reach, lt(r, n))
	x.ctx.assume(implies(g, at(r, g)))
	g = and(reach, lt(intT(0), r))
	x.ctx.assume(implies(g, not(at(sub(r, intT(1)), g))))
	return r, st, reach
}

// pureClosure evaluates a loop-free closure as an expression over its
// arguments, substituting definitions so that bound variables may occur.
func (x *Exec) pureClosure(fr *Frame, cl *Clos, args []T, st State, in ssa.Instruction) (res T, ok bool) {
	n := len(x.ctx.items)
	x.quiet++
	defer func() {
		x.quiet--
		if r := recover(); r != nil {
			if _, is := r.(unsupp); !is {
				panic(r)
			}
			ok = false
		}
		x.ctx.items = x.ctx.items[:n]
	}()
	var vs []Val
	for _, a := range args {
		vs = append(vs, a)
	}
	v, _, _ := x.execFn(cl.fn, vs, cl.bind, st.clone(), tTrue, fr.path+"/less", fr)
	t := x.asTerm(v)
	defs := map[string]string{}
	for _, it := range x.ctx.items[n:] {
		if it.kind == 'd' && strings.HasPrefix(it.text, "(define-fun ") {
			rest := it.text[12:]
			k := strings.Index(rest, " () ")
			nm := rest[:k]
			rest = rest[k+4:]
			parts := splitArgs(rest[:len(rest)-1])
			defs[nm] = strings.Join(parts[1:], " ")
		} else if it.kind == 'd' {
			if f := strings.Fields(it.text); len(f) > 1 && f[0] == "(declare-const" && x.ctx.defBody[f[1]] != "" {
				defs[f[1]] = x.ctx.defBody[f[1]]
				continue
			}
			return tFalse, false
		}
	}
	s := t.s
	for k := 0; k < 60; k++ {
		ch := false
		s = substSyms(s, func(y string) (string, bool) {
			d, ok := defs[y]
			if ok {
				ch = true
			}
			return d, ok
		})
		if !ch {
			break
		}
		if len(s) > 20000 {
			return tFalse, false
		}
	}
	return T{s, "Bool"}, true
}

func substSyms(s string, f func(string) (string, bool)) string {
	var b strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')' || c == ' ' || c == '\n':
			b.WriteByte(c)
			i++
		default:
			j := i
			if c == '|' {
				j++
				for s[j] != '|' {
					j++
				}
				j++
			} else {
				for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
					j++
				}
			}
			tok := s[i:j]
			if r, ok := f(tok); ok {
				b.WriteString(r)
			} else {
				b.WriteString(tok)
			}
			i = j
		}
	}
	return b.String()
}

// constFuncVar is the function a package variable of function type holds when its only
// assignment in the program is the one of its declaration.
func (x *Exec) constFuncVar(v ssa.Value) *ssa.Function {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil
	}
	if f, ok := x.V.constFns[g]; ok {
		return f
	}
	var found *ssa.Function
	bad := false
	for fn := range ssautil.AllFunctions(g.Pkg.Prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch t := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						f, isFn := t.Val.(*ssa.Function)
						if t.Addr == g && t.Val != ssa.Value(g) && isFn && found == nil && fn.Synthetic == "package initializer" {
							found = f
						} else {
							bad = true
						}
					case *ssa.DebugRef:
					default:
						bad = true
					}
				}
			}
		}
	}
	if bad {
		found = nil
	}
	if x.V.constFns == nil {
		x.V.constFns = map[*ssa.Global]*ssa.Function{}
	}
	x.V.constFns[g] = found
	return found
}

// rand.Shuffle(n, swap): calls swap with pairs of indices below n. Obligation: each call exchanges
// exactly those two elements of one slice. Then the slice ends up permuted by shufPerm(state, n, ·),
// a permutation given by the generator's state (trusted contract of the library).
func spRandShuffle(x *Exec, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, reach T, st State) (Val, State, T) {
	rng, n := x.asTerm(args[0]), x.asTerm(args[1])
	cl, ok := args[2].(*Clos)
	d, d2 := x.V.specs.decls["shufPerm"], x.V.specs.decls["shufPermInv"]
	if !ok || d == nil || d2 == nil || x.V.specs.ghosts["rngState"] != "Int" {
		panic(unsupported("rand.Shuffle"))
	}
	x.safety(fr, "count to shuffle not negative", reach, le(intT(0), n), in)
	var s, old, h T
	var hn, inner string
	found := 0
	for i, v := range cl.fn.FreeVars {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		slt, ok := pt.Elem().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		t := x.loadPtr(x.asPtr(cl.bind[i], v.Type()), st, pt.Elem())
		if found > 0 && sLen(t).s != n.s {
			continue
		}
		found++
		var so string
		s = t
		hn, so = x.elemHeap(slt.Elem())
		h = x.hget(st, hn, so)
		_, inner = splitArr(so)
	}
	if found == 0 {
		panic(unsupported("rand.Shuffle of no slice"))
	}
	old = x.ctx.def("pre_shuffle", sel(h, sRef(s)))
	// one call
	arr := x.ctx.fresh("shuffling", inner)
	i, j := x.ctx.fresh("swap_i", "Int"), x.ctx.fresh("swap_j", "Int")
	g := and(reach, and(and(le(intT(0), i), lt(i, n)), and(le(intT(0), j), lt(j, n))))
	st2 := st.clone()
	x.hset(st2, hn, sto(h, sRef(s), arr))
	before := st2.clone()
	nrec := len(x.recs)
	x.recs = append(x.recs, &recorder{ws: map[string][]writeRec{}})
	_, st3, _ := x.execFn(cl.fn, []Val{i, j}, cl.bind, st2, g, fr.path+"/swap", fr)
	x.recs = x.recs[:nrec]
	pi, pj := x.ix(sOff(s), i), x.ix(sOff(s), j)
	want := sto(sto(arr, pi, sel(arr, pj)), pj, sel(arr, pi))
	var keys []string
	for k := range st3.h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b, ok := before.h[k]
		if !ok || b.s == st3.h[k].s || k == "alloc" {
			continue
		}
		if k == hn {
			x.oblige("assert", x.lab(fr, "the swap function exchanges the two elements"), g, eq(sel(st3.h[k], sRef(s)), want), "", x.pos(in))
			x.oblige("assert", x.lab(fr, "the swap function touches no other list"), g, eq(st3.h[k], sto(b, sRef(s), sel(st3.h[k], sRef(s)))), "", x.pos(in))
		} else {
			x.oblige("assert", x.lab(fr, "the swap function changes nothing else"), g, eq(st3.h[k], b), "", x.pos(in))
		}
	}
	// all calls
	sc := &sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}
	sc.declare("shufPerm", d)
	sc.declare("shufPermInv", d2)
	rs := x.hget(st, "G rngState", "(Array Int Int)")
	x.safety(fr, "as many elements as are shuffled", reach, le(n, sLen(s)), in)
	na := x.ctx.fresh("shuffled", inner)
	ra := sel(rs, rng).s
	off := sOff(s).s
	x.ctx.assume(T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %[1]s)) (= (select %[2]s (ix %[3]s k)) (select %[4]s (ix %[3]s (shufPerm %[5]s %[1]s k))))) :pattern ((select %[2]s (ix %[3]s k)))))", n.s, na.s, off, old.s, ra), "Bool"})
	x.ctx.assume(T{fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k %[1]s) (<= (+ %[1]s %[2]s) k)) (= (select %[3]s k) (select %[4]s k))) :pattern ((select %[3]s k))))", off, n.s, na.s, old.s), "Bool"})
	x.record(hn, sRef(s), false)
	x.hset(st, hn, sto(h, sRef(s), na))
	x.record("G rngState", rng, false)
	x.hset(st, "G rngState", sto(rs, rng, x.ctx.fresh("rng", "Int")))
	return nil, st, reach
}
