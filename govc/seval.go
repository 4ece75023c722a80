package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value.
type SV struct {
	t   T
	typ types.Type // nil for mathematical values
	v   Val        // non-nil for tuples / interior pointers
	pkg *types.Package
}

type sctx struct {
	x     *Exec
	env   map[string]SV
	st    State
	old   State
	pre   *State
	spec  *FnSpec
	bound map[string]bool
	visit T // visited set of the innermost map loop
	depth int
}

func (c *sctx) with(st State) *sctx { n := *c; n.st = st; return &n }

func (c *sctx) bind(k string, v SV) *sctx {
	n := *c
	n.env = make(map[string]SV, len(c.env)+1)
	for a, b := range c.env {
		n.env[a] = b
	}
	n.env[k] = v
	return &n
}

func fail(f string, a ...interface{}) { panic(unsupported("spec: " + fmt.Sprintf(f, a...))) }

func (c *sctx) boolean(e *Ex) T {
	v := c.eval(e)
	if v.t.sort != "Bool" {
		fail("boolean expected, got %s in %s", v.t.sort, exStr(e))
	}
	return v.t
}

func exStr(e *Ex) string {
	switch e.op {
	case "id", "num", "type":
		return e.s
	case "field":
		return exStr(e.args[0]) + "." + e.s
	case "bin":
		return "(" + exStr(e.args[0]) + " " + e.s + " " + exStr(e.args[1]) + ")"
	case "un":
		return e.s + exStr(e.args[0])
	case "index":
		return exStr(e.args[0]) + "[" + exStr(e.args[1]) + "]"
	case "call":
		var a []string
		for _, b := range e.args[1:] {
			a = append(a, exStr(b))
		}
		return exStr(e.args[0]) + "(" + strings.Join(a, ", ") + ")"
	}
	return e.op
}

func (c *sctx) resolveType(s string) types.Type {
	t := c.x.V.resolveType(s, c.spec)
	return t
}

func (c *sctx) eval(e *Ex) SV {
	x := c.x
	switch e.op {
	case "num":
		n, ok := new(big.Int).SetString(e.s, 0)
		if !ok {
			fail("number %s", e.s)
		}
		return SV{t: intBig(n)}
	case "str":
		return SV{t: x.strConst(e.s), typ: types.Typ[types.String]}
	case "id":
		if v, ok := c.env[e.s]; ok {
			return v
		}
		switch e.s {
		case "true":
			return SV{t: tTrue}
		case "false":
			return SV{t: tFalse}
		case "nil":
			return SV{t: T{"nil", "nil"}}
		case "visited":
			if c.visit.s == "" {
				fail("no map iteration in scope")
			}
			return SV{t: c.visit}
		case "nvisited":
			if c.visit.s == "" {
				fail("no map iteration in scope")
			}
			return SV{t: x.card(c.visit), typ: types.Typ[types.Int]}
		case "emptystr":
			x.declStr()
			return SV{t: T{"emptystr", "Str"}, typ: types.Typ[types.String]}
		case "allocated":
			return SV{t: x.alloc(c.st)}
		}
		if d, ok := x.V.specs.defs[e.s]; ok && len(d.params) == 0 {
			return c.eval(d.e)
		}
		if d, ok := x.V.specs.decls[e.s]; ok && len(d.args) == 0 {
			c.declare(e.s, d)
			return SV{t: T{quote(e.s), c.goSorts(d).res}, typ: c.declType(d)}
		}
		if so, ok := x.V.specs.ghosts[e.s]; ok {
			so = c.expandSorts(so)
			x.needSort(so)
			return SV{t: x.hget(c.st, "G "+e.s, arrSort("Int", so))}
		}
		if p := x.V.pkgByName(e.s, c.spec); p != nil {
			return SV{pkg: p}
		}
		fail("unknown identifier %s", e.s)
	case "field":
		return c.field(c.eval(e.args[0]), e.s)
	case "index":
		b := c.eval(e.args[0])
		i := c.eval(e.args[1])
		return c.index(b, i)
	case "slice":
		b := c.eval(e.args[0])
		lo := c.eval(e.args[1]).t
		if b.t.sort == "Slice" {
			hi := sLen(b.t)
			if e.args[2] != nil {
				hi = c.eval(e.args[2]).t
			}
			return SV{t: mkSlice(sRef(b.t), x.ix(sOff(b.t), lo), sub(hi, lo), sub(sCap(b.t), lo)), typ: b.typ}
		}
		fail("slice of %s", b.t.sort)
	case "un":
		a := c.eval(e.args[0])
		switch e.s {
		case "!":
			return SV{t: not(a.t)}
		case "-":
			return SV{t: sub(intT(0), a.t)}
		case "*":
			if a.typ == nil {
				fail("dereference of a mathematical value")
			}
			pt, ok := types.Unalias(a.typ).Underlying().(*types.Pointer)
			if !ok {
				fail("dereference of %s", a.typ)
			}
			p := x.asPtr(c.valOf(a), a.typ)
			return SV{t: c.loadP(p), typ: pt.Elem()}
		}
	case "bin":
		return c.binary(e)
	case "forall", "exists":
		n := c
		var decl []string
		var guards []T
		for _, v := range e.vars {
			x.qn++
			nm := fmt.Sprintf("q%d_%s", x.qn, strings.Trim(v.name, "$"))
			var typ types.Type
			var so string
			if v.typ == "int" || v.typ == "Int" {
				so = "Int"
			} else if strings.HasPrefix(v.typ, "#") {
				so = v.typ[1:]
			} else if v.typ == "nat" {
				so = "Int"
				guards = append(guards, le(intT(0), T{nm, "Int"}))
			} else {
				typ = c.resolveType(v.typ)
				so = x.sortOf(typ)
				if g := x.typeInv(T{nm, so}, typ, x.alloc(c.st), 1); g.s != "true" {
					guards = append(guards, g)
				}
			}
			decl = append(decl, "("+nm+" "+so+")")
			n = n.bind(v.name, SV{t: T{nm, so}, typ: typ})
		}
		body := n.boolean(e.args[0])
		if e.op == "forall" {
			body = implies(and(guards...), body)
		} else {
			body = and(append(guards, body)...)
		}
		if len(e.trig) > 0 {
			var ps []string
			for _, tr := range e.trig {
				var ts []string
				for _, t := range tr {
					if t.op == "bin" && t.s == "in" {
						// membership: the guard against nil maps is not allowed in a pattern
						if m := n.eval(t).t.s; strings.HasPrefix(m, "(and (not (= ") {
							ts = append(ts, lastArg(m))
							continue
						}
					}
					ts = append(ts, n.eval(t).t.s)
				}
				ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
			}
			body = T{"(! " + body.s + " " + strings.Join(ps, " ") + ")", "Bool"}
		}
		return SV{t: T{"(" + e.op + " (" + strings.Join(decl, " ") + ") " + body.s + ")", "Bool"}}
	case "call":
		return c.call(e)
	}
	fail("cannot evaluate %s", e.op)
	return SV{}
}

func (c *sctx) valOf(a SV) Val {
	if a.v != nil {
		return a.v
	}
	return a.t
}

func (c *sctx) loadP(p *Ptr) T {
	var r T
	for i := len(p.alts) - 1; i >= 0; i-- {
		v := c.x.loadLoc(c.st, p.alts[i].loc)
		if i == len(p.alts)-1 {
			r = v
		} else {
			r = ite(p.alts[i].cond, v, r)
		}
	}
	return r
}

func (c *sctx) field(b SV, name string) SV {
	x := c.x
	if b.pkg != nil {
		o := b.pkg.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Const:
			if o.Val().Kind() == constant.Int {
				n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
				return SV{t: intBig(n), typ: o.Type()}
			}
			if o.Val().Kind() == constant.String {
				return SV{t: x.strConst(constant.StringVal(o.Val())), typ: o.Type()}
			}
		case *types.Var:
			for _, p := range x.V.prog {
				if sp := p.prog.Package(b.pkg); sp != nil {
					if g, ok := sp.Members[name].(*ssa.Global); ok {
						loc := &Loc{kind: lObj, ref: x.globalRef(g), typ: o.Type()}
						if t, ok := x.globalConst(g, c.st); ok {
							return SV{t: t.(T), typ: o.Type()}
						}
						return SV{t: x.loadLoc(c.st, loc), typ: o.Type()}
					}
				}
			}
		}
		fail("unknown package member %s.%s", b.pkg.Name(), name)
	}
	if b.v != nil {
		if tu, ok := b.v.(Tuple); ok {
			n, _ := new(big.Int).SetString(name, 10)
			return SV{t: x.asTerm(tu[n.Int64()])}
		}
	}
	if b.typ == nil {
		fail("field %s of a mathematical value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(b.typ, true, pkgOf(b.typ), name)
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		fail("no field %s in %s", name, b.typ)
	}
	cur := b
	for _, i := range path {
		t := types.Unalias(cur.typ)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			st := pt.Elem().Underlying().(*types.Struct)
			p := x.asPtr(c.valOf(cur), t)
			fp := x.mapPtr(p, st.Field(i).Type(), func(l *Loc) *Loc {
				bb := *l
				bb.typ = pt.Elem()
				return &Loc{kind: lField, base: &bb, fld: i, typ: st.Field(i).Type()}
			})
			cur = SV{t: c.loadP(fp), typ: st.Field(i).Type()}
		} else {
			st := t.Underlying().(*types.Struct)
			cur = SV{t: x.structGet(t, cur.t, i), typ: st.Field(i).Type()}
		}
	}
	return cur
}

func pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (c *sctx) index(b, i SV) SV {
	x := c.x
	if b.typ == nil {
		if strings.HasPrefix(b.t.sort, "(Array") {
			r := sel(b.t, c.term(i))
			return SV{t: r, typ: x.V.typeOfSort(r.sort)}
		}
		fail("index of a mathematical value")
	}
	switch u := types.Unalias(b.typ).Underlying().(type) {
	case *types.Slice:
		hn, so := x.elemHeap(u.Elem())
		return SV{t: sel(sel(x.hget(c.st, hn, so), sRef(b.t)), x.ix(sOff(b.t), i.t)), typ: u.Elem()}
	case *types.Map:
		k := c.coerce(i, u.Key())
		dn, vn, _, ks, vs := x.mapHeaps(u)
		dom := sel(sel(x.hget(c.st, dn, arrSort("Int", arrSort(ks, "Bool"))), b.t), k)
		v := sel(sel(x.hget(c.st, vn, arrSort("Int", arrSort(ks, vs))), b.t), k)
		_, _ = dom, v
		return SV{t: x.mget(b.t, sel(x.hget(c.st, dn, arrSort("Int", arrSort(ks, "Bool"))), b.t), sel(x.hget(c.st, vn, arrSort("Int", arrSort(ks, vs))), b.t), k, x.zero(u.Elem())), typ: u.Elem()}
	case *types.Array:
		return SV{t: x.arrayAt(b.typ, b.t, i.t), typ: u.Elem()}
	case *types.Basic:
		return SV{t: app("Int", "strat", b.t, i.t)}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			p := x.asPtr(c.valOf(b), b.typ)
			return SV{t: x.arrayAt(u.Elem(), c.loadP(p), i.t), typ: at.Elem()}
		}
	}
	fail("index of %s", b.typ)
	return SV{}
}

func (c *sctx) coerce(v SV, t types.Type) T {
	if v.t.sort == "nil" {
		return c.x.zero(t)
	}
	so := c.x.sortOf(t)
	if v.t.sort != so && so == "Iface" && v.typ != nil {
		return c.x.box(c.term(v), v.typ)
	}
	return c.term(v)
}

func (c *sctx) term(v SV) T {
	if v.v != nil {
		return c.x.asTerm(v.v)
	}
	return v.t
}

func (c *sctx) nilTest(v SV) T {
	x := c.x
	if v.v != nil {
		if p, ok := v.v.(*Ptr); ok {
			r := tFalse
			for _, a := range p.alts {
				if a.loc.kind == lObj {
					r = or(r, and(a.cond, eq(a.loc.ref, intT(0))))
				}
			}
			return r
		}
	}
	switch v.t.sort {
	case "Slice":
		return eq(sRef(v.t), intT(0))
	case "Iface":
		return eq(v.t, T{"nil_iface", "Iface"})
	case "Int":
		return eq(v.t, intT(0))
	}
	_ = x
	fail("nil comparison with %s", v.t.sort)
	return T{}
}

func (c *sctx) binary(e *Ex) SV {
	x := c.x
	switch e.s {
	case "&&":
		a := c.boolean(e.args[0])
		if a.s == "false" {
			return SV{t: tFalse}
		}
		return SV{t: and(a, c.boolean(e.args[1]))}
	case "||":
		a := c.boolean(e.args[0])
		if a.s == "true" {
			return SV{t: tTrue}
		}
		return SV{t: or(a, c.boolean(e.args[1]))}
	case "==>":
		a := c.boolean(e.args[0])
		if a.s == "false" {
			return SV{t: tTrue}
		}
		return SV{t: implies(a, c.boolean(e.args[1]))}
	case "<==>":
		return SV{t: eq(c.boolean(e.args[0]), c.boolean(e.args[1]))}
	}
	a, b := c.eval(e.args[0]), c.eval(e.args[1])
	switch e.s {
	case "in":
		if b.typ == nil {
			return SV{t: sel(b.t, c.term(a))}
		}
		u, ok := types.Unalias(b.typ).Underlying().(*types.Map)
		if !ok {
			fail("in of %s", b.typ)
		}
		dn, _, _, ks, _ := x.mapHeaps(u)
		return SV{t: and(not(eq(b.t, intT(0))), sel(sel(x.hget(c.st, dn, arrSort("Int", arrSort(ks, "Bool"))), b.t), c.coerce(a, u.Key())))}
	case "==", "!=":
		var r T
		switch {
		case a.t.sort == "nil":
			r = c.nilTest(b)
		case b.t.sort == "nil":
			r = c.nilTest(a)
		default:
			at, bt := c.term(a), c.term(b)
			if at.sort != bt.sort {
				if at.sort == "Iface" && b.typ != nil {
					bt = x.box(bt, b.typ)
				} else if bt.sort == "Iface" && a.typ != nil {
					at = x.box(at, a.typ)
				}
			}
			r = eq(at, bt)
		}
		if e.s == "!=" {
			r = not(r)
		}
		return SV{t: r}
	case "<", "<=", ">", ">=":
		if a.t.sort != "Int" || b.t.sort != "Int" {
			fail("comparison of %s and %s", a.t.sort, b.t.sort)
		}
		return SV{t: cmp(e.s, a.t, b.t)}
	case "+":
		return SV{t: add(a.t, b.t)}
	case "-":
		return SV{t: sub(a.t, b.t)}
	case "*":
		return SV{t: mul(a.t, b.t)}
	case "/":
		return SV{t: app("Int", "div", a.t, b.t)}
	case "%":
		return SV{t: app("Int", "mod", a.t, b.t)}
	}
	fail("operator %s", e.s)
	return SV{}
}

// goSorts replaces @type argument and result sorts by the sorts of Go types.
func (c *sctx) goSorts(d *Decl) *Decl {
	n := *d
	n.args = append([]string{}, d.args...)
	for i, a := range n.args {
		n.args[i] = c.expandSorts(a)
	}
	n.res = c.expandSorts(n.res)
	return &n
}

var goSortRe = regexp.MustCompile(`@[\w./\[\]*]+`)

// expandSorts replaces every @type in a piece of SMT text by the sort of that Go type.
func (c *sctx) expandSorts(s string) string {
	return goSortRe.ReplaceAllStringFunc(s, func(m string) string {
		t := c.resolveType(m[1:])
		so := c.x.sortOf(t)
		if _, ok := types.Unalias(t).Underlying().(*types.Array); ok {
			c.x.toArr(t, T{"x", so}) // declares the conversion
		}
		return so
	})
}

func (c *sctx) declType(d *Decl) types.Type {
	if strings.HasPrefix(d.res, "@") && !strings.ContainsAny(d.res, " (") {
		return c.resolveType(d.res[1:])
	}
	return c.x.V.typeOfSort(d.res)
}

func (c *sctx) declare(name string, d *Decl) {
	x := c.x
	d = c.goSorts(d)
	for _, a := range append(append([]string{}, d.args...), d.res) {
		x.needSort(a)
	}
	x.ctx.global("decl:"+name, "(declare-fun "+quote(name)+" ("+strings.Join(d.args, " ")+") "+d.res+")")
	if d.pre != "" {
		for _, k := range strings.Split(d.pre, ",") {
			k = strings.TrimSpace(k)
			for _, p := range x.V.specs.prelude {
				if p.key == k {
					x.emitPrelude(k, p.text)
				}
			}
		}
	}
}

// prelude texts may refer to declared functions: declare those first.
func (x *Exec) emitPrelude(key, text string) {
	if x.ctx.seen["pre:"+key] {
		return
	}
	x.ctx.seen["pre:"+key] = true
	x.trusted["axioms "+key] = true
	text = (&sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}).expandSorts(text)
	symbols(text, func(y string) {
		if d, ok := x.V.specs.decls[y]; ok {
			c := &sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}
			c.declare(y, d)
		}
	})
	if strings.Contains(text, "(bxor ") {
		x.declBitop()
	}
	if strings.Contains(text, "(ix ") {
		x.ix(T{"o", "Int"}, T{"i", "Int"})
	}
	for _, s := range []string{"Str", "Slice", "Iface"} {
		if strings.Contains(text, s) {
			x.needSort(s)
		}
	}
	x.ctx.global("pretext:"+key, text)
}

func (x *Exec) needSort(s string) {
	if strings.Contains(s, "Str") {
		x.declStr()
	}
	if strings.Contains(s, "Slice") {
		x.declSlice()
	}
	if strings.Contains(s, "Iface") {
		x.declIface()
	}
	symbols(s, func(y string) {
		if strings.HasPrefix(y, "U_") {
			x.ctx.sortDecl(y, "(declare-sort "+y+" 0)")
		}
	})
}

func (c *sctx) call(e *Ex) SV {
	x := c.x
	f := e.args[0]
	args := e.args[1:]
	if f.op == "field" {
		// conversion pkg.T(x) treated as identity
		if len(args) == 1 {
			return c.eval(args[0])
		}
		fail("method calls are not allowed in specifications: %s", exStr(e))
	}
	switch f.s {
	case "old":
		return c.with(c.old).eval(args[0])
	case "pre":
		if c.pre == nil {
			fail("pre() outside a loop invariant")
		}
		return c.with(*c.pre).eval(args[0])
	case "len":
		a := c.eval(args[0])
		if a.typ == nil {
			fail("len of mathematical value")
		}
		switch u := types.Unalias(a.typ).Underlying().(type) {
		case *types.Slice:
			if !qvarRe.MatchString(a.t.s) {
				x.ctx.assume(and(le(intT(0), sLen(a.t)), le(sLen(a.t), intBig(pow2(56)))))
			}
			return SV{t: sLen(a.t)}
		case *types.Map:
			_, _, ln, _, _ := x.mapHeaps(u)
			return SV{t: ite(eq(a.t, intT(0)), intT(0), sel(x.hget(c.st, ln, "(Array Int Int)"), a.t))}
		case *types.Array:
			return SV{t: intT(u.Len())}
		case *types.Basic:
			return SV{t: app("Int", "strlen", a.t)}
		}
		fail("len of %s", a.typ)
	case "cap":
		return SV{t: sCap(c.eval(args[0]).t)}
	case "ref":
		a := c.eval(args[0])
		if a.t.sort == "Slice" {
			return SV{t: sRef(a.t)}
		}
		return SV{t: c.term(a)}
	case "off":
		return SV{t: sOff(c.eval(args[0]).t)}
	case "elems":
		a := c.eval(args[0])
		u := types.Unalias(a.typ).Underlying().(*types.Slice)
		hn, so := x.elemHeap(u.Elem())
		return SV{t: sel(x.hget(c.st, hn, so), sRef(a.t))}
	case "fheap":
		// the memory of one field of a struct type: fheap(pkg.Type.Field)
		k := strings.LastIndex(args[0].s, ".")
		t := c.resolveType(args[0].s[:k])
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if fieldName(u, i) == args[0].s[k+1:] {
				n, so := x.fieldHeap(t, i)
				return SV{t: x.hget(c.st, n, so)}
			}
		}
		fail("no field %s", args[0].s)
	case "cells":
		// the memory of all variables of a type that are used through pointers
		n, so := x.cellHeap(c.resolveType(args[0].s))
		return SV{t: x.hget(c.st, n, so)}
	case "dom", "vals":
		a := c.eval(args[0])
		u := types.Unalias(a.typ).Underlying().(*types.Map)
		dn, vn, _, ks, vs := x.mapHeaps(u)
		if f.s == "dom" {
			x.assumeSmall(sel(x.hget(c.st, dn, arrSort("Int", arrSort(ks, "Bool"))), a.t))
			return SV{t: sel(x.hget(c.st, dn, arrSort("Int", arrSort(ks, "Bool"))), a.t)}
		}
		return SV{t: sel(x.hget(c.st, vn, arrSort("Int", arrSort(ks, vs))), a.t)}
	case "content":
		a := c.eval(args[0])
		x.declStr()
		if a.t.sort == "Slice" {
			u := types.Unalias(a.typ).Underlying().(*types.Slice)
			hn, so := x.elemHeap(u.Elem())
			return SV{t: app("Str", "str_of", sel(x.hget(c.st, hn, so), sRef(a.t)), sOff(a.t), sLen(a.t)), typ: types.Typ[types.String]}
		}
		if u, ok := types.Unalias(a.typ).Underlying().(*types.Array); ok {
			ta := x.toArr(a.typ, T{"x", a.t.sort})
			nm := quote("arr_of " + strings.ReplaceAll(a.t.sort, "|", "'"))
			x.ctx.global(nm, fmt.Sprintf("(declare-fun %[1]s (Str) %[2]s)\n(assert (forall ((x %[2]s)) (! (= (%[1]s (str_of %[3]s 0 %[4]d)) x) :pattern ((str_of %[3]s 0 %[4]d)))))", nm, a.t.sort, ta.s, u.Len()))
			return SV{t: app("Str", "str_of", x.toArr(a.typ, a.t), intT(0), intT(u.Len())), typ: types.Typ[types.String]}
		}
		if a.t.sort == "Str" {
			return a
		}
		fail("content of %s", a.t.sort)
	case "strlen":
		x.declStr()
		return SV{t: app("Int", "strlen", c.term(c.eval(args[0])))}
	case "xor":
		x.declBitop()
		return SV{t: app("Int", "bxor", c.term(c.eval(args[0])), c.term(c.eval(args[1]))), typ: types.Typ[types.Int]}
	case "strat":
		x.declStr()
		return SV{t: app("Int", "strat", c.term(c.eval(args[0])), c.term(c.eval(args[1]))), typ: types.Typ[types.Int]}
	case "strcat":
		x.declStr()
		return SV{t: app("Str", "strcat", c.term(c.eval(args[0])), c.term(c.eval(args[1]))), typ: types.Typ[types.String]}
	case "strsub":
		x.declStr()
		return SV{t: app("Str", "strsub", c.term(c.eval(args[0])), c.term(c.eval(args[1])), c.term(c.eval(args[2]))), typ: types.Typ[types.String]}
	case "fresh":
		a := c.eval(args[0])
		r := a.t
		if a.t.sort == "Slice" {
			r = sRef(a.t)
		} else {
			r = c.term(a)
		}
		return SV{t: le(x.alloc(c.old), r)}
	case "allocatedp":
		a := c.eval(args[0])
		return SV{t: x.typeInv(c.term(a), a.typ, x.alloc(c.st), 2)}
	case "ite":
		cnd := c.boolean(args[0])
		a, b := c.eval(args[1]), c.eval(args[2])
		ty := a.typ
		if a.t.sort == "nil" && b.typ != nil {
			a.t = x.zero(b.typ)
			ty = b.typ
		}
		if b.t.sort == "nil" && a.typ != nil {
			b.t = x.zero(a.typ)
		}
		return SV{t: ite(cnd, c.term(a), c.term(b)), typ: ty}
	case "istype":
		a := c.eval(args[0])
		ok, _ := x.unbox(a.t, c.resolveType(args[1].s))
		return SV{t: ok}
	case "as":
		a := c.eval(args[0])
		t := c.resolveType(args[1].s)
		_, v := x.unbox(a.t, t)
		return SV{t: v, typ: t}
	case "zero":
		t := c.resolveType(args[0].s)
		return SV{t: x.zero(t), typ: t}
	case "mk":
		t := c.resolveType(args[0].s)
		st, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(args)-1 {
			fail("mk(%s) needs one value per field", args[0].s)
		}
		var fs []T
		for i := range args[1:] {
			fs = append(fs, c.coerce(c.eval(args[i+1]), st.Field(i).Type()))
		}
		return SV{t: x.structMk(t, fs), typ: t}
	case "typeok":
		a := c.eval(args[0])
		return SV{t: x.typeInv(c.term(a), a.typ, x.alloc(c.st), 3)}
	case "deepeq":
		a, b := c.eval(args[0]), c.eval(args[1])
		return SV{t: x.deepEq(c.term(a), c.term(b), a.typ, c.st, c.st, 6)}
	case "deepeqold":
		// first argument in the current state, second in the old state
		a, b := c.eval(args[0]), c.with(c.old).eval(args[1])
		return SV{t: x.deepEq(c.term(a), c.term(b), a.typ, c.st, c.old, 6)}
	case "store":
		a, b, v := c.eval(args[0]), c.eval(args[1]), c.eval(args[2])
		return SV{t: sto(a.t, c.term(b), c.term(v))}
	case "emptyset":
		t := c.resolveType(args[0].s)
		so := arrSort(x.sortOf(t), "Bool")
		return SV{t: T{"((as const " + so + ") false)", so}}
	case "unchanged":
		return SV{t: c.unchanged(args)}
	case "result":
		fail("result()")
	case "int", "uint64", "uint32", "uint8", "int64", "int32", "byte", "uint":
		return c.eval(args[0])
	}
	if d, ok := x.V.specs.defs[f.s]; ok {
		if len(d.params) != len(args) {
			fail("%s expects %d arguments", f.s, len(d.params))
		}
		if c.depth > 40 {
			fail("recursive define %s", f.s)
		}
		n := *c
		n.depth++
		n.env = map[string]SV{}
		for i, p := range d.params {
			v := c.eval(args[i])
			if i < len(d.ptyp) && d.ptyp[i] != "" && v.typ == nil && d.ptyp[i] != "int" {
				v.typ = c.resolveType(d.ptyp[i])
			}
			n.env[p] = v
		}
		return n.eval(d.e)
	}
	if d, ok := x.V.specs.decls[f.s]; ok {
		c.declare(f.s, d)
		rtyp := c.declType(d)
		d = c.goSorts(d)
		var ts []T
		if len(args) != len(d.args) {
			fail("%s expects %d arguments", f.s, len(d.args))
		}
		for i, a := range args {
			v := c.term(c.eval(a))
			if v.sort != d.args[i] {
				fail("argument %d of %s: sort %s, expected %s", i, f.s, v.sort, d.args[i])
			}
			ts = append(ts, v)
		}
		return SV{t: app(d.res, quote(f.s), ts...), typ: rtyp}
	}
	fail("unknown function %s", f.s)
	return SV{}
}

// assumeSmall: the domain of a map is a set of fewer than 2^62 keys.
func (x *Exec) assumeSmall(d T) {
	dc := x.V.specs.decls["small"]
	if dc == nil || strings.Contains(d.s, "q") && qvarRe.MatchString(d.s) {
		return
	}
	c := &sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}
	if n := c.goSorts(dc); len(n.args) != 1 || n.args[0] != d.sort {
		return
	}
	c.declare("small", dc)
	x.trusted["a map has fewer than 2^62 keys"] = true
	x.ctx.assume(app("Bool", "small", d))
}

var qvarRe = regexp.MustCompile(`\bq[0-9]+_`)

// locOf evaluates a frame expression into (heap, ref) pairs.
type hloc struct {
	heap string
	ref  T
}

func (c *sctx) locOf(e *Ex) []hloc {
	x := c.x
	structAll := func(t types.Type, ref T) []hloc {
		if isStruct(x, t) {
			var out []hloc
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				n, so := x.fieldHeap(t, i)
				x.heapInit(n, so)
				out = append(out, hloc{n, ref})
			}
			return out
		}
		if isArray(x, t) {
			n, so := x.elemHeap(t.Underlying().(*types.Array).Elem())
			x.heapInit(n, so)
			return []hloc{{n, ref}}
		}
		n, so := x.cellHeap(t)
		x.heapInit(n, so)
		return []hloc{{n, ref}}
	}
	switch {
	case e.op == "un" && e.s == "*":
		a := c.eval(e.args[0])
		pt := types.Unalias(a.typ).Underlying().(*types.Pointer)
		return structAll(pt.Elem(), c.term(a))
	case e.op == "field":
		b := c.eval(e.args[0])
		pt, ok := types.Unalias(b.typ).Underlying().(*types.Pointer)
		if !ok {
			// field of a struct value stored in a location: whole location
			return c.locOf(e.args[0])
		}
		obj, path, _ := types.LookupFieldOrMethod(pt.Elem(), true, pkgOf(b.typ), e.s)
		if obj == nil {
			fail("no field %s", e.s)
		}
		cur := b
		for k, i := range path {
			t := types.Unalias(cur.typ)
			p, isp := t.Underlying().(*types.Pointer)
			if !isp {
				fail("frame through embedded struct value")
			}
			if k == len(path)-1 {
				n, so := x.fieldHeap(p.Elem(), i)
				x.heapInit(n, so)
				return []hloc{{n, c.term(cur)}}
			}
			st := p.Elem().Underlying().(*types.Struct)
			if _, isPtr := st.Field(i).Type().Underlying().(*types.Pointer); !isPtr {
				n, so := x.fieldHeap(p.Elem(), i)
				x.heapInit(n, so)
				return []hloc{{n, c.term(cur)}}
			}
			cur = c.field(cur, st.Field(i).Name())
		}
	case e.op == "id" && x.V.specs.ghosts[e.s] != "":
		so := c.expandSorts(x.V.specs.ghosts[e.s])
		x.needSort(so)
		x.heapInit("G "+e.s, arrSort("Int", so))
		return []hloc{{"G " + e.s, T{"*", "*"}}}
	case e.op == "index" && e.args[0].op == "id" && x.V.specs.ghosts[e.args[0].s] != "":
		so := c.expandSorts(x.V.specs.ghosts[e.args[0].s])
		x.needSort(so)
		x.heapInit("G "+e.args[0].s, arrSort("Int", so))
		return []hloc{{"G " + e.args[0].s, c.term(c.eval(e.args[1]))}}
	case e.op == "call" && e.args[0].s == "elems":
		a := c.eval(e.args[1])
		n, so := x.elemHeap(types.Unalias(a.typ).Underlying().(*types.Slice).Elem())
		x.heapInit(n, so)
		return []hloc{{n, sRef(a.t)}}
	case e.op == "call" && e.args[0].s == "mapof":
		a := c.eval(e.args[1])
		u := types.Unalias(a.typ).Underlying().(*types.Map)
		d, v, l, ks, vs := x.mapHeaps(u)
		x.heapInit(d, arrSort("Int", arrSort(ks, "Bool")))
		x.heapInit(v, arrSort("Int", arrSort(ks, vs)))
		x.heapInit(l, "(Array Int Int)")
		return []hloc{{d, a.t}, {v, a.t}, {l, a.t}}
	case e.op == "call" && e.args[0].s == "allmaps":
		u := c.resolveType(e.args[1].s).Underlying().(*types.Map)
		d, v, l, ks, vs := x.mapHeaps(u)
		x.heapInit(d, arrSort("Int", arrSort(ks, "Bool")))
		x.heapInit(v, arrSort("Int", arrSort(ks, vs)))
		x.heapInit(l, "(Array Int Int)")
		all := T{"*", "*"}
		return []hloc{{d, all}, {v, all}, {l, all}}
	case e.op == "call" && e.args[0].s == "allelems":
		n, so := x.elemHeap(c.resolveType(e.args[1].s))
		x.heapInit(n, so)
		return []hloc{{n, T{"*", "*"}}}
	case e.op == "call" && e.args[0].s == "cell":
		a := c.eval(e.args[1])
		return []hloc{{"C " + e.args[2].s, c.term(a)}}
	case e.op == "call" && e.args[0].s == "heap":
		// every object of a heap: heap("name"); resolved by prefix
		return []hloc{{e.args[1].s, T{"*", "*"}}}
	case e.op == "call" && e.args[0].s == "allof":
		// all objects of a struct type
		t := c.resolveType(e.args[1].s)
		var out []hloc
		for _, h := range structAll(t, T{"*", "*"}) {
			out = append(out, h)
		}
		return out
	case e.op == "call" && x.V.specs.defs[e.args[0].s] != nil:
		d := x.V.specs.defs[e.args[0].s]
		n := *c
		n.env = map[string]SV{}
		for i, p := range d.params {
			n.env[p] = c.eval(e.args[i+1])
		}
		return n.locOf(d.e)
	case e.op == "id" && e.s == "everything":
		return []hloc{{"*", T{"*", "*"}}}
	}
	fail("not a frame location: %s", exStr(e))
	return nil
}

// unchanged says that every object allocated before keeps its contents,
// except the given locations (evaluated in the old state).
func (c *sctx) unchanged(except []*Ex) T {
	x := c.x
	var locs []hloc
	oc := c.with(c.old)
	for _, e := range except {
		locs = append(locs, oc.locOf(e)...)
	}
	return x.frameFormula(c.old, c.st, locs)
}

func (x *Exec) frameFormula(old, st State, locs []hloc) T {
	al := x.alloc(old)
	var cs []T
	for _, l := range locs {
		if l.heap == "*" {
			return tTrue
		}
	}
	for _, k := range sortedKeys(st.h) {
		if isPseudo(k) {
			continue
		}
		a, b := st.h[k], x.hget(old, k, x.heapSort[k])
		if a.s == b.s {
			continue
		}
		x.qn++
		r := T{fmt.Sprintf("fr%d", x.qn), "Int"}
		g := []T{lt(r, al), not(eq(r, intT(0)))}
		skip := false
		for _, l := range locs {
			if l.heap == k {
				if l.ref.s == "*" {
					skip = true
				} else {
					g = append(g, not(eq(r, l.ref)))
				}
			}
		}
		if skip {
			continue
		}
		body := implies(and(g...), eq(sel(a, r), sel(b, r)))
		if x.ctx.defBody[a.s] != "" {
			cs = append(cs, T{fmt.Sprintf("(forall ((%s Int)) %s)", r.s, body.s), "Bool"})
			continue
		}
		cs = append(cs, T{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern (%s)))", r.s, body.s, sel(a, r).s), "Bool"})
	}
	return and(cs...)
}

// applyContract: caller side of a contract.
func (x *Exec) applyContract(fr *Frame, in ssa.Instruction, sp *FnSpec, sig *types.Signature, ptypes []types.Type, args []Val, reach T, st State, name string) (Val, State, T) {
	env := map[string]SV{}
	if len(sp.params) > len(args) {
		panic(unsupported(fmt.Sprintf("contract of %s names %d parameters, call has %d", name, len(sp.params), len(args))))
	}
	for i, p := range sp.params {
		sv := SV{typ: ptypes[i]}
		switch a := args[i].(type) {
		case T:
			sv.t = a
		case *Ptr:
			if x.isInterior(a) {
				sv.v = a
			} else {
				sv.t = x.asTerm(a)
			}
		default:
			sv.t = x.asTerm(a)
		}
		env[p] = sv
	}
	c := &sctx{x: x, env: env, st: st, old: st, spec: sp}
	for i, r := range sp.requires {
		g := c.boolean(r.e)
		lbl := r.label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		x.oblige("requires", x.lab(fr, fmt.Sprintf("call %s requires %s", shortFn(name), lbl)), reach, g, "", x.pos(in))
		x.ctx.assume(implies(reach, g))
	}
	if sp.kind == "fn" && !sp.nopanic && x.nopanic {
		x.oblige("safety", x.lab(fr, "call "+shortFn(name)+" may panic"), reach, tFalse, "", x.pos(in))
	}
	for _, p := range sp.panics {
		g := not(c.boolean(p.e))
		if x.nopanic {
			x.oblige("safety", x.lab(fr, "call "+shortFn(name)+" does not panic"), reach, g, "", x.pos(in))
		}
		if !p.may {
			x.ctx.assume(implies(reach, g))
		}
	}
	if len(sp.equals) > 0 {
		return c.term(c.eval(sp.equals[0].e)), st, reach
	}
	// frame
	nst := st.clone()
	var locs []hloc
	for _, m := range sp.modifies {
		locs = append(locs, c.locOf(m.e)...)
	}
	var fresh []string
	for _, l := range locs {
		if l.heap == "*" {
			nst = x.havocAll(nst, "contract of "+name)
			break
		}
		so := x.heapSort[l.heap]
		if so == "" {
			continue
		}
		h := x.hget(nst, l.heap, so)
		if l.ref.s == "*" {
			x.record(l.heap, T{}, true)
			nst.h[l.heap] = x.ctx.fresh("hv", so)
			fresh = append(fresh, l.heap)
			continue
		}
		_, vs := splitArr(so)
		x.record(l.heap, l.ref, false)
		nst.h[l.heap] = x.ctx.def("hc", sto(h, l.ref, x.ctx.fresh("m", vs)))
		fresh = append(fresh, l.heap)
	}
	a := x.ctx.fresh("alloc", "Int")
	x.ctx.assume(le(x.alloc(st), a))
	for _, k := range fresh {
		if t, ok := nst.h[k]; ok && (k[0] == 'F' || k[0] == 'E' || k[0] == 'C') {
			x.ctx.assume(x.heapTyping(k, t, a))
		}
	}
	x.record("alloc", T{}, true)
	nst.h["alloc"] = a
	res := x.resultVal(sig, "res_"+strings.ReplaceAll(lastName(name), "|", ""), nst)
	x.bindResults(env, sp, sig, res)
	c2 := &sctx{x: x, env: env, st: nst, old: st, spec: sp}
	for _, e := range sp.ensures {
		g := c2.boolean(e.e)
		x.ctx.assume(implies(reach, g))
	}
	return res, nst, reach
}

func lastName(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (x *Exec) bindResults(env map[string]SV, sp *FnSpec, sig *types.Signature, res Val) {
	rs := sig.Results()
	if len(sp.results) > rs.Len() {
		panic(unsupported("contract names too many results: " + sp.name))
	}
	for i, n := range sp.results {
		var v Val = res
		if rs.Len() > 1 {
			v = res.(Tuple)[i]
		}
		sv := SV{typ: rs.At(i).Type()}
		if x.isInterior(v) {
			sv.v = v
		} else {
			sv.t = x.asTerm(v)
		}
		env[n] = sv
	}
}

// userInvs instantiates the loop invariant templates.
func (x *Exec) userInvs(fr *Frame, l *loop, phis []*ssa.Phi, key string) []invCand {
	var out []invCand
	type src struct {
		sp  *FnSpec
		env map[string]SV
	}
	var srcs []src
	for f := fr; f != nil; f = f.parent {
		if f.parent == nil && x.top != nil {
			srcs = append(srcs, src{x.top, x.env})
			break
		}
		if sp := x.V.specs.fnAt(f.fn.String(), x.V.cur.module); sp != nil && sp != x.top && len(sp.loopinvs) > 0 {
			env := map[string]SV{}
			for i, n := range sp.params {
				if i < len(f.fn.Params) {
					v := f.vals[f.fn.Params[i]]
					if x.isInterior(v) {
						env[n] = SV{v: v, typ: f.fn.Params[i].Type()}
					} else if t, ok := v.(T); ok {
						env[n] = SV{t: t, typ: f.fn.Params[i].Type()}
					} else if p, ok := v.(*Ptr); ok {
						env[n] = SV{t: x.asTerm(p), typ: f.fn.Params[i].Type()}
					}
				}
			}
			srcs = append(srcs, src{sp, env})
		}
	}
	// visited set of the map iterated by this loop
	var visKey string
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := fr.vals[nx.Iter].(*Iter); ok && !it.str && l.head == nx.Block() {
					visKey = it.visited
				}
			}
		}
	}
	type cand struct {
		name string
		get  func(phi func(*ssa.Phi) Val, st State) SV
	}
	candsFor := func(tn string, sp *FnSpec) []cand {
		want := x.V.resolveType(tn, sp)
		var cs []cand
		isPhi := map[ssa.Value]bool{}
		add1 := func(p *ssa.Phi, get func(phi func(*ssa.Phi) Val) Val) {
			if !types.Identical(p.Type(), want) {
				return
			}
			cs = append(cs, cand{p.Name(), func(phi func(*ssa.Phi) Val, st State) SV {
				v := get(phi)
				return SV{t: x.asTerm(v), typ: p.Type()}
			}})
			if _, _, ok := intRange(p.Type()); ok {
				cs = append(cs, cand{p.Name() + "+1", func(phi func(*ssa.Phi) Val, st State) SV {
					v := get(phi)
					return SV{t: add(x.asTerm(v), intT(1)), typ: nil}
				}})
			}
		}
		for _, p := range phis {
			p := p
			isPhi[p] = true
			add1(p, func(phi func(*ssa.Phi) Val) Val { return phi(p) })
		}
		_, _, isInt := intRange(want)
		for _, b := range fr.fn.DomPreorder() {
			if b == l.head || !b.Dominates(l.head) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if p, ok := v.(*ssa.Phi); ok {
					val, ok := fr.vals[p]
					if ok {
						add1(p, func(phi func(*ssa.Phi) Val) Val { return val })
					}
					continue
				}
				if al, ok := v.(*ssa.Alloc); ok {
					et := al.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(et, want) {
						pv, ok := fr.vals[al].(*Ptr)
						if ok {
							cs = append(cs, cand{"*" + al.Name(), func(phi func(*ssa.Phi) Val, st State) SV {
								return SV{t: x.loadLoc(st, pv.alts[0].loc), typ: et}
							}})
						}
					}
				}
				if isInt || !types.Identical(v.Type(), want) {
					continue
				}
				val, ok := fr.vals[v]
				if !ok || x.isInterior(val) {
					continue
				}
				cs = append(cs, cand{v.Name(), func(phi func(*ssa.Phi) Val, st State) SV {
					return SV{t: x.asTerm(val), typ: v.Type()}
				}})
			}
		}
		// captured variables and parameters of the function holding the loop
		if !isInt {
			for _, p := range fr.fn.Params {
				p := p
				if types.Identical(p.Type(), want) {
					val := fr.vals[p]
					if !x.isInterior(val) {
						cs = append(cs, cand{p.Name(), func(phi func(*ssa.Phi) Val, st State) SV { return SV{t: x.asTerm(val), typ: p.Type()} }})
					}
				}
			}
		}
		return cs
	}
	for _, s := range srcs {
		for ti, tm := range s.sp.loopinvs {
			s, tm := s, tm
			combos := [][]cand{{}}
			for _, v := range tm.vars {
				cs := candsFor(v.typ, s.sp)
				var next [][]cand
				for _, c := range combos {
					for _, d := range cs {
						next = append(next, append(append([]cand{}, c...), d))
					}
				}
				combos = next
			}
			if len(combos) > 64 {
				combos = combos[:64]
			}
			for _, cb := range combos {
				cb := cb
				var nm []string
				for _, d := range cb {
					nm = append(nm, d.name)
				}
				id := fmt.Sprintf("%s inv%d[%s] %s", key, ti, strings.Join(nm, ","), shortFn(s.sp.name))
				x.allCands[id] = true
				if x.dropped[id] {
					continue
				}
				pre := l.entry
				out = append(out, invCand{id, func(phi func(*ssa.Phi) Val, st State) (t T, err error) {
					defer func() {
						if r := recover(); r != nil {
							u, ok := r.(unsupp)
							if !ok {
								panic(r)
							}
							err = u
							x.specErrs[fmt.Sprintf("loopinv %d of %s: %s", ti, s.sp.name, u.msg)] = true
						}
					}()
					env := map[string]SV{}
					for k, v := range s.env {
						env[k] = v
					}
					for i, v := range tm.vars {
						env[v.name] = cb[i].get(phi, st)
					}
					c := &sctx{x: x, env: env, st: st, old: x.entry, pre: &pre, spec: s.sp}
					if visKey != "" {
						c.visit = x.hget(st, visKey, x.heapSort[visKey])
					}
					return c.boolean(tm.e), nil
				}})
			}
		}
	}
	return out
}

// ---- type resolution ----

func (v *Verifier) resolveType(s string, sp *FnSpec) types.Type {
	key := s
	if sp != nil {
		key = sp.name + "|" + s
	}
	if t, ok := v.typeCache[key]; ok {
		return t
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		fail("type %s: %v", s, err)
	}
	t := v.typeExpr(e, sp)
	v.typeCache[key] = t
	return t
}

func (v *Verifier) typeExpr(e ast.Expr, sp *FnSpec) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if p := v.specPkg(sp); p != nil {
			if tn, ok := p.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		fail("unknown type %s", e.Name)
	case *ast.SelectorExpr:
		id := e.X.(*ast.Ident)
		p := v.pkgByName(id.Name, sp)
		if p == nil {
			fail("unknown package %s", id.Name)
		}
		if tn, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
			return tn.Type()
		}
		if tn := localType(p.Scope(), e.Sel.Name); tn != nil {
			return tn.Type()
		}
		fail("unknown type %s.%s", id.Name, e.Sel.Name)
	case *ast.StructType:
		if e.Fields == nil || len(e.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.StarExpr:
		return types.NewPointer(v.typeExpr(e.X, sp))
	case *ast.ParenExpr:
		return v.typeExpr(e.X, sp)
	case *ast.MapType:
		return types.NewMap(v.typeExpr(e.Key, sp), v.typeExpr(e.Value, sp))
	case *ast.ArrayType:
		el := v.typeExpr(e.Elt, sp)
		if e.Len == nil {
			return types.NewSlice(el)
		}
		n, _ := new(big.Int).SetString(e.Len.(*ast.BasicLit).Value, 0)
		return types.NewArray(el, n.Int64())
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	fail("type expression %T", e)
	return nil
}

// localType finds a type declared inside a function.
func localType(sc *types.Scope, name string) *types.TypeName {
	for i := 0; i < sc.NumChildren(); i++ {
		ch := sc.Child(i)
		if tn, ok := ch.Lookup(name).(*types.TypeName); ok {
			return tn
		}
		if tn := localType(ch, name); tn != nil {
			return tn
		}
	}
	return nil
}

// lastArg is the last argument of an s-expression.
func lastArg(s string) string {
	s = s[:len(s)-1]
	depth := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case '|':
			for i--; s[i] != '|'; i-- {
			}
		case ')':
			depth++
		case '(':
			depth--
			if depth == 0 {
				return s[i:]
			}
		}
	}
	return s
}
