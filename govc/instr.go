package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) strConst(s string) T {
	x.declStr()
	if s == "" {
		return T{"emptystr", "Str"}
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	lbl := s
	if len(lbl) > 40 {
		lbl = lbl[:40]
	}
	var lb strings.Builder
	for _, c := range lbl {
		if c < 32 || c > 126 || c == '|' || c == '\\' {
			c = '_'
		}
		lb.WriteRune(c)
	}
	nm := quote(fmt.Sprintf("str %s %x", lb.String(), h.Sum64()))
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (strlen %s) %d))", nm, nm, len(s))
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "\n(assert (= (strat %s %d) %d))", nm, i, s[i])
		}
	}
	x.ctx.global(nm, b.String())
	return T{nm, "Str"}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		if tu, ok := t.(*types.Tuple); ok {
			var r Tuple
			for i := 0; i < tu.Len(); i++ {
				r = append(r, x.zero(tu.At(i).Type()))
			}
			return r
		}
		return x.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return intT(i)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return intBig(n)
	case b.Info()&types.IsString != 0:
		return x.strConst(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		r, _ := new(big.Rat).SetString(c.Value.ExactString())
		if r == nil {
			panic(unsupported("float const"))
		}
		s := r.Num().String()
		if r.Sign() < 0 {
			s = "(- " + new(big.Int).Neg(r.Num()).String() + ".0)"
		} else {
			s += ".0"
		}
		return T{"(/ " + s + " " + r.Denom().String() + ".0)", "Real"}
	}
	panic(unsupported("const " + c.String()))
}

func (x *Exec) globalRef(g *ssa.Global) T {
	id, ok := x.globals[g]
	if !ok {
		h := fnv.New32a()
		h.Write([]byte(g.String()))
		id = int(h.Sum32()) + 1
		x.globals[g] = id
	}
	return intT(-int64(id))
}

func (x *Exec) val(fr *Frame, v ssa.Value, st State) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return objPtr(x.globalRef(v), v.Type().(*types.Pointer).Elem())
	case *ssa.Function:
		for _, c := range x.closTab {
			if c.fn == v && c.bind == nil {
				return c
			}
		}
		c := &Clos{fn: v}
		x.closTab = append(x.closTab, c)
		return c
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.vals[v]
	if !ok {
		panic(unsupported("undefined value " + v.Name() + " in " + fr.fn.String()))
	}
	return r
}

// step executes one instruction with recovery to a sound over-approximation.
func (x *Exec) step(fr *Frame, in ssa.Instruction, reach T, st State) (nst State, nreach T, alive bool) {
	nItems := len(x.ctx.items)
	depth, cs, nrec := x.depth, len(x.callStack), len(x.recs)
	quiet := x.quiet
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupp)
			if !ok {
				panic(r)
			}
			_ = nItems
			x.depth = depth
			x.callStack = x.callStack[:cs]
			x.recs = x.recs[:nrec]
			x.quiet = quiet
			x.note(fmt.Sprintf("over-approximated at %s: %s", x.pos(in), u.msg))
			nst, nreach, alive = st, reach, true
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select:
				nst = x.havocAll(st, u.msg+" at "+x.pos(in))
			}
			if v, ok := in.(ssa.Value); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupp); !ok {
								panic(r)
							}
						}
					}()
					fr.vals[v] = x.freshOf("unk", v.Type(), nst)
				}()
			}
			if x.nopanic {
				x.oblige("safety", x.lab(fr, "construct within reach of the verifier: "+u.msg), reach, tFalse, "", x.pos(in))
			}
		}
	}()
	return x.step1(fr, in, reach, st)
}

func (x *Exec) safety(fr *Frame, what string, reach, cond T, in ssa.Instruction) {
	if cond.s == "true" {
		return
	}
	if x.nopanic {
		x.oblige("safety", x.lab(fr, what), reach, cond, "", x.pos(in))
	}
	x.ctx.assume(implies(reach, cond))
}

func (x *Exec) nilCheck(fr *Frame, p *Ptr, reach T, in ssa.Instruction) {
	for _, a := range p.alts {
		l := a.loc
		for l.base != nil {
			l = l.base
		}
		if l.kind == lObj && !strings.HasPrefix(l.ref.s, "(- ") && !x.freshRefs[l.ref.s] {
			x.safety(fr, "nil dereference", and(reach, a.cond), not(eq(l.ref, intT(0))), in)
		}
	}
}

func (x *Exec) loadPtr(p *Ptr, st State, t types.Type) T {
	var r T
	for i := len(p.alts) - 1; i >= 0; i-- {
		v := x.loadLoc(st, p.alts[i].loc)
		if i == len(p.alts)-1 {
			r = v
		} else {
			r = ite(p.alts[i].cond, v, r)
		}
	}
	v := x.ctx.def("ld", r)
	x.ctx.assume(x.typeInv(v, t, x.alloc(st), 2))
	return v
}

func (x *Exec) storePtr(p *Ptr, st State, v T) {
	if len(p.alts) == 1 {
		x.storeLoc(st, p.alts[0].loc, v)
		return
	}
	for _, a := range p.alts {
		old := x.loadLoc(st, a.loc)
		x.storeLoc(st, a.loc, ite(a.cond, v, old))
	}
}

func (x *Exec) mapPtr(p *Ptr, elem types.Type, f func(*Loc) *Loc) *Ptr {
	out := &Ptr{elem: elem}
	for _, a := range p.alts {
		out.alts = append(out.alts, PAlt{a.cond, f(a.loc)})
	}
	return out
}

func (x *Exec) wrap(t types.Type, v T) T {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if n, ok := v.num(); ok {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(n, lo)
		r.Mod(r, m)
		r.Add(r, lo)
		return intBig(r)
	}
	m := intBig(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	if lo.Sign() == 0 {
		return app("Int", "mod", v, m)
	}
	return app("Int", "+", app("Int", "mod", app("Int", "-", v, intBig(lo)), m), intBig(lo))
}

// wrapLin wraps a value known to exceed the range by less than one period
func (x *Exec) wrapLin(t types.Type, v T) T {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.isNum() {
		return x.wrap(t, v)
	}
	m := intBig(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	v = x.ctx.def("w", v)
	return ite(lt(intBig(hi), v), app("Int", "-", v, m), ite(lt(v, intBig(lo)), app("Int", "+", v, m), v))
}

func (x *Exec) declBitop() {
	x.ctx.global("bitop", `(declare-fun bxor (Int Int) Int)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (= (bxor (bxor a b) b) a) :pattern ((bxor (bxor a b) b)))))
(assert (forall ((a Int) (b Int)) (! (= (bxor a b) (bxor b a)) :pattern ((bxor a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (<= 0 (bxor a b))) :pattern ((bxor a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= a 255) (<= 0 b) (<= b 255)) (<= (bxor a b) 255)) :pattern ((bxor a b)))))
(assert (forall ((a Int)) (! (= (bxor a 0) a) :pattern ((bxor a 0)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (band a b)) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= a (bor a b)) (<= b (bor a b)) (<= (bor a b) (+ a b)))) :pattern ((bor a b)))))`)
}

func (x *Exec) bitop(op string, t types.Type, a, b T) T {
	lo, hi, _ := intRange(t)
	x.declBitop()
	r := x.ctx.def("bit", app("Int", op, a, b))
	x.ctx.assume(and(le(intBig(lo), r), le(r, intBig(hi))))
	return r
}

func (x *Exec) binop(op token.Token, t types.Type, yt types.Type, a, b T, reach T, fr *Frame, in ssa.Instruction) T {
	switch op {
	case token.EQL:
		return eq(a, b)
	case token.NEQ:
		return not(eq(a, b))
	}
	if a.sort == "Str" {
		switch op {
		case token.ADD:
			x.ctx.global("strcat", "(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))")
			return app("Str", "strcat", a, b)
		default:
			x.ctx.global("strlt", "(declare-fun strlt (Str Str) Bool)")
			switch op {
			case token.LSS:
				return app("Bool", "strlt", a, b)
			case token.GTR:
				return app("Bool", "strlt", b, a)
			case token.LEQ:
				return not(app("Bool", "strlt", b, a))
			case token.GEQ:
				return not(app("Bool", "strlt", a, b))
			}
		}
		panic(unsupported("string op"))
	}
	if a.sort == "Real" {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return app("Bool", op.String(), a, b)
		case token.ADD, token.SUB, token.MUL:
			return app("Real", op.String(), a, b)
		}
		panic(unsupported("float op"))
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return cmp(op.String(), a, b)
	case token.ADD:
		return x.wrapLin(t, add(a, b))
	case token.SUB:
		return x.wrapLin(t, sub(a, b))
	case token.MUL:
		return x.wrap(t, mul(a, b))
	case token.QUO, token.REM:
		x.safety(fr, "division by zero", reach, not(eq(b, intT(0))), in)
		lo, _, _ := intRange(t)
		an, aok := a.num()
		bn, bok := b.num()
		if aok && bok && bn.Sign() != 0 {
			if op == token.QUO {
				return x.wrap(t, intBig(new(big.Int).Quo(an, bn)))
			}
			return intBig(new(big.Int).Rem(an, bn))
		}
		if lo != nil && lo.Sign() == 0 {
			if op == token.QUO {
				return app("Int", "div", a, b)
			}
			return app("Int", "mod", a, b)
		}
		// truncated division
		q := x.ctx.def("q", app("Int", "div", app("Int", "abs", a), app("Int", "abs", b)))
		same := eq(lt(a, intT(0)), lt(b, intT(0)))
		tq := x.ctx.def("tq", ite(same, q, app("Int", "-", q)))
		if op == token.QUO {
			return x.wrapLin(t, tq)
		}
		return x.ctx.def("rem", sub(a, mul(b, tq)))
	case token.SHL, token.SHR:
		if n, ok := b.num(); ok {
			if n.Sign() < 0 || n.Cmp(big.NewInt(512)) > 0 {
				panic(unsupported("shift"))
			}
			p := intBig(pow2(uint(n.Int64())))
			if op == token.SHL {
				return x.wrap(t, mul(a, p))
			}
			if p.s == "1" {
				return a
			}
			return app("Int", "div", a, p)
		}
		x.ctx.global("pow2", `(declare-fun pow2 (Int) Int)
(assert (= (pow2 0) 1))
(assert (forall ((n Int)) (! (=> (> n 0) (= (pow2 n) (* 2 (pow2 (- n 1))))) :pattern ((pow2 n)))))`)
		panic(unsupported("variable shift"))
	case token.XOR:
		return x.bitop("bxor", t, a, b)
	case token.AND:
		for _, pr := range [][2]T{{a, b}, {b, a}} {
			if n, ok := pr[1].num(); ok {
				m := new(big.Int).Add(n, big.NewInt(1))
				if n.Sign() >= 0 && new(big.Int).And(n, m).Sign() == 0 {
					return app("Int", "mod", pr[0], intBig(m))
				}
			}
		}
		return x.bitop("band", t, a, b)
	case token.OR:
		return x.bitop("bor", t, a, b)
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) box(v T, t types.Type) T {
	x.declIface()
	t = types.Unalias(t)
	n := x.typeName(t)
	id, ok := x.boxIDs[n]
	if !ok {
		h := fnv.New32a()
		h.Write([]byte(types.TypeString(t, nil)))
		id = int(h.Sum32()) + 1
		x.boxIDs[n] = id
	}
	bx, ub := quote("box "+n), quote("unbox "+n)
	x.ctx.global(bx, fmt.Sprintf(`(declare-fun %[1]s (%[3]s) Iface)
(declare-fun %[2]s (Iface) %[3]s)
(assert (forall ((v %[3]s)) (! (and (= (%[2]s (%[1]s v)) v) (= (typetag (%[1]s v)) %[4]d)) :pattern ((%[1]s v)))))
(assert (forall ((i Iface)) (! (=> (= (typetag i) %[4]d) (= (%[1]s (%[2]s i)) i)) :pattern ((%[2]s i)))))`, bx, ub, v.sort, id))
	return app("Iface", bx, v)
}

func (x *Exec) unbox(i T, t types.Type) (T, T) {
	x.box(x.zero(t), t)
	n := x.typeName(types.Unalias(t))
	return eq(app("Int", "typetag", i), intT(int64(x.boxIDs[n]))), app(x.sortOf(t), quote("unbox "+n), i)
}

func (x *Exec) boundsOK(i, n T) T { return and(le(intT(0), i), lt(i, n)) }

func (x *Exec) step1(fr *Frame, in ssa.Instruction, reach T, st State) (State, T, bool) {
	set := func(v ssa.Value, val Val) {
		if t, ok := val.(T); ok {
			val = x.ctx.def(v.Name(), t)
		}
		fr.vals[v] = val
	}
	setT := func(v ssa.Value, t T) {
		t = x.ctx.def(v.Name(), t)
		x.ctx.assume(x.typeInv(t, v.Type(), x.alloc(st), 2))
		fr.vals[v] = t
	}
	V := func(v ssa.Value) Val { return x.val(fr, v, st) }
	TT := func(v ssa.Value) T { return x.asTerm(x.val(fr, v, st)) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		r := x.newRef(st, in.Comment)
		p := objPtr(r, et)
		x.storeLoc(st, p.alts[0].loc, x.zero(et))
		fr.vals[in] = p
	case *ssa.BinOp:
		a, b := V(in.X), V(in.Y)
		// pointer comparison with interior pointers
		if x.isInterior(a) || x.isInterior(b) {
			if (in.Op == token.EQL || in.Op == token.NEQ) && (isNilConst(in.X) || isNilConst(in.Y)) {
				p := a
				if isNilConst(in.X) {
					p = b
				}
				c := tTrue
				for _, al := range p.(*Ptr).alts {
					if al.loc.kind == lObj {
						c = and(c, implies(al.cond, not(eq(al.loc.ref, intT(0)))))
					}
				}
				if in.Op == token.EQL {
					c = not(c)
				}
				set(in, c)
				break
			}
			panic(unsupported("interior pointer comparison"))
		}
		at, bt := x.asTerm(a), x.asTerm(b)
		// slice compared with nil
		if at.sort == "Slice" {
			s := at
			if isNilConst(in.X) {
				s = bt
			}
			c := eq(sRef(s), intT(0))
			if in.Op == token.NEQ {
				c = not(c)
			}
			set(in, c)
			break
		}
		if at.sort != bt.sort && (at.sort == "Iface" || bt.sort == "Iface") {
			if at.sort == "Iface" {
				bt = x.box(bt, in.Y.Type())
			} else {
				at = x.box(at, in.X.Type())
			}
		}
		set(in, x.binop(in.Op, in.X.Type(), in.Y.Type(), at, bt, reach, fr, in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.asPtr(V(in.X), in.X.Type())
			x.nilCheck(fr, p, reach, in)
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := x.globalConst(g, st); ok {
					fr.vals[in] = v
					break
				}
			}
			fr.vals[in] = x.loadPtr(p, st, in.Type())
			if t, ok := fr.vals[in].(T); ok && t.sort == "Int" {
				if _, isf := in.Type().Underlying().(*types.Signature); isf {
					if n, ok := t.num(); ok && n.Int64() >= 1000 && int(n.Int64())-1000 < len(x.closTab) {
						fr.vals[in] = x.closTab[n.Int64()-1000]
					}
				}
			}
		case token.NOT:
			set(in, not(TT(in.X)))
		case token.SUB:
			if TT(in.X).sort == "Real" {
				set(in, app("Real", "-", TT(in.X)))
			} else {
				set(in, x.wrapLin(in.Type(), sub(intT(0), TT(in.X))))
			}
		case token.XOR:
			lo, hi, _ := intRange(in.Type())
			if lo.Sign() == 0 {
				set(in, sub(intBig(hi), TT(in.X)))
			} else {
				set(in, sub(intT(-1), TT(in.X)))
			}
		default:
			panic(unsupported("unop " + in.Op.String()))
		}
	case *ssa.Call:
		return x.call(fr, in, &in.Call, in, reach, st)
	case *ssa.ChangeInterface:
		set(in, V(in.X))
	case *ssa.ChangeType:
		v := V(in.X)
		if p, ok := v.(*Ptr); ok {
			et := types.Unalias(in.Type()).Underlying()
			if pt, ok := et.(*types.Pointer); ok {
				v = x.mapPtr(p, pt.Elem(), func(l *Loc) *Loc { m := *l; m.typ = pt.Elem(); return &m })
			}
		}
		if t, ok := v.(T); ok && t.sort != x.sortOf(in.Type()) {
			v = x.convStruct(t, in.X.Type(), in.Type())
		}
		set(in, v)
	case *ssa.Convert:
		set(in, x.convert(fr, TT, in, reach, st))
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.Extract:
		t, ok := V(in.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract"))
		}
		fr.vals[in] = t[in.Index]
	case *ssa.Field:
		setT(in, x.structGet(in.X.Type(), TT(in.X), in.Field))
	case *ssa.FieldAddr:
		p := x.asPtr(V(in.X), in.X.Type())
		x.nilCheck(fr, p, reach, in)
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		ft := st0.Underlying().(*types.Struct).Field(in.Field).Type()
		fr.vals[in] = x.mapPtr(p, ft, func(l *Loc) *Loc {
			b := *l
			b.typ = st0
			return &Loc{kind: lField, base: &b, fld: in.Field, typ: ft}
		})
	case *ssa.Index:
		i := TT(in.Index)
		if xt, ok := types.Unalias(in.X.Type()).Underlying().(*types.Array); ok {
			x.safety(fr, "index in range", reach, x.boundsOK(i, intT(xt.Len())), in)
			setT(in, x.arrayAt(in.X.Type(), TT(in.X), i))
			break
		}
		s := TT(in.X)
		x.safety(fr, "index in range", reach, x.boundsOK(i, app("Int", "strlen", s)), in)
		setT(in, app("Int", "strat", s, i))
	case *ssa.IndexAddr:
		i := TT(in.Index)
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Slice:
			s := TT(in.X)
			x.safety(fr, "index in range", reach, x.boundsOK(i, sLen(s)), in)
			et := u.Elem()
			fr.vals[in] = &Ptr{alts: []PAlt{{tTrue, &Loc{kind: lElem, ref: x.ctx.def("ar", sRef(s)), idx: x.ctx.def("ix", x.ix(sOff(s), i)), typ: et}}}, elem: et}
		case *types.Pointer:
			at := u.Elem()
			arr := at.Underlying().(*types.Array)
			x.safety(fr, "index in range", reach, x.boundsOK(i, intT(arr.Len())), in)
			p := x.asPtr(V(in.X), in.X.Type())
			x.nilCheck(fr, p, reach, in)
			fr.vals[in] = x.mapPtr(p, arr.Elem(), func(l *Loc) *Loc {
				if l.kind == lObj {
					return &Loc{kind: lElem, ref: l.ref, idx: i, typ: arr.Elem()}
				}
				b := *l
				b.typ = at
				return &Loc{kind: lArr, base: &b, idx: i, typ: arr.Elem()}
			})
		default:
			panic(unsupported("indexaddr"))
		}
	case *ssa.Lookup:
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Map:
			m := TT(in.X)
			k := x.boxIfNeeded(V(in.Index), in.Index.Type(), u.Key())
			dn, vn, _, ks, vs := x.mapHeaps(u)
			dom := sel(sel(x.hget(st, dn, arrSort("Int", arrSort(ks, "Bool"))), m), k)
			dom = x.ctx.def("ok", and(not(eq(m, intT(0))), dom))
			v := x.ctx.def("mv", x.mget(m, sel(x.hget(st, dn, arrSort("Int", arrSort(ks, "Bool"))), m), sel(x.hget(st, vn, arrSort("Int", arrSort(ks, vs))), m), k, x.zero(u.Elem())))
			x.ctx.assume(x.typeInv(v, u.Elem(), x.alloc(st), 2))
			if in.CommaOk {
				fr.vals[in] = Tuple{v, dom}
			} else {
				fr.vals[in] = v
			}
		default:
			s := TT(in.X)
			i := TT(in.Index)
			x.safety(fr, "index in range", reach, x.boundsOK(i, app("Int", "strlen", s)), in)
			setT(in, app("Int", "strat", s, i))
		}
	case *ssa.MakeChan:
		fr.vals[in] = x.newRef(st, "chan")
	case *ssa.MakeClosure:
		c := &Clos{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, V(b))
		}
		x.closTab = append(x.closTab, c)
		fr.vals[in] = c
	case *ssa.MakeInterface:
		v := V(in.X)
		if x.isInterior(v) {
			r := x.ctx.fresh("ifc", x.sortOf(in.Type()))
			x.ctx.assume(not(eq(r, T{"nil_iface", "Iface"})))
			fr.vals[in] = r
			break
		}
		set(in, x.box(x.asTerm(v), in.X.Type()))
	case *ssa.MakeMap:
		u := types.Unalias(in.Type()).Underlying().(*types.Map)
		r := x.newRef(st, "map")
		x.initMap(st, u, r)
		fr.vals[in] = r
	case *ssa.MakeSlice:
		et := types.Unalias(in.Type()).Underlying().(*types.Slice).Elem()
		n, c := TT(in.Len), TT(in.Cap)
		x.safety(fr, "make: length in range", reach, and(le(intT(0), n), le(n, c)), in)
		r := x.newRef(st, "slice")
		hn, so := x.elemHeap(et)
		_, inner := splitArr(so)
		x.record(hn, r, false)
		x.hset(st, hn, sto(x.hget(st, hn, so), r, x.constArr(inner, x.zero(et))))
		x.ctx.assume(implies(reach, le(c, intBig(pow2(56)))))
		set(in, mkSlice(r, intT(0), n, c))
	case *ssa.MapUpdate:
		u := types.Unalias(in.Map.Type()).Underlying().(*types.Map)
		m := TT(in.Map)
		x.safety(fr, "assignment to nil map", reach, not(eq(m, intT(0))), in)
		k := x.boxIfNeeded(V(in.Key), in.Key.Type(), u.Key())
		v := x.asTerm(V(in.Value))
		x.mapStore(st, u, m, k, v)
	case *ssa.Next:
		it, ok := V(in.Iter).(*Iter)
		if !ok || it.str {
			panic(unsupported("range over string"))
		}
		dn, vn, _, ks, vs := x.mapHeaps(it.mtyp)
		dom := sel(x.hget(st, dn, arrSort("Int", arrSort(ks, "Bool"))), it.mp)
		vsn := arrSort(ks, "Bool")
		vis := x.hget(st, it.visited, vsn)
		okc := x.ctx.fresh("next_ok", "Bool")
		k := x.ctx.fresh("next_k", ks)
		x.ctx.assume(x.typeInv(k, it.mtyp.Key(), x.alloc(st), 2))
		nz := not(eq(it.mp, intT(0)))
		x.ctx.assume(implies(okc, and(nz, sel(dom, k), not(sel(vis, k)))))
		x.ctx.assume(implies(not(okc), or(not(nz), T{fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dom.s, vis.s, dom.s, vis.s), "Bool"})))
		x.ctx.assume(implies(and(not(okc), nz), or(eq(vis, dom), T{fmt.Sprintf("(exists ((k %s)) (and (select %s k) (not (select %s k))))", ks, vis.s, dom.s), "Bool"})))
		x.ctx.assume(implies(okc, eq(x.card(sto(vis, k, tTrue)), add(x.card(vis), intT(1)))))
		x.ctx.assume(implies(and(not(okc), nz, eq(vis, dom)), eq(x.card(vis), x.mapLen(st, it.mtyp, it.mp))))
		x.ctx.assume(implies(and(not(okc), not(nz)), eq(x.card(vis), intT(0))))
		v := x.ctx.def("next_v", sel(sel(x.hget(st, vn, arrSort("Int", arrSort(ks, vs))), it.mp), k))
		x.ctx.assume(x.typeInv(v, it.mtyp.Elem(), x.alloc(st), 2))
		x.record(it.visited, T{}, true)
		x.hset(st, it.visited, ite(okc, sto(vis, k, tTrue), vis))
		fr.vals[in] = Tuple{okc, k, v}
	case *ssa.Range:
		u, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map)
		if !ok {
			fr.vals[in] = &Iter{str: true}
			break
		}
		ks := x.sortOf(u.Key())
		name := "visited " + fr.path + "." + in.Name()
		x.record(name, T{}, true)
		empty := T{"((as const " + arrSort(ks, "Bool") + ") false)", arrSort(ks, "Bool")}
		x.hset(st, name, empty)
		x.ctx.assume(eq(x.card(empty), intT(0)))
		fr.vals[in] = &Iter{mp: TT(in.X), mtyp: u, visited: name}
	case *ssa.Slice:
		set(in, x.sliceOp(fr, in, reach, st))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Store:
		p := x.asPtr(V(in.Addr), in.Addr.Type())
		x.nilCheck(fr, p, reach, in)
		v := V(in.Val)
		x.storePtr(p, st, x.asTerm(v))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, in, reach, st)
	case *ssa.Defer:
		d := deferRec{guard: reach, call: &in.Call, instr: in}
		if !in.Call.IsInvoke() {
			d.fnv = V(in.Call.Value)
		} else {
			d.fnv = V(in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, V(a))
		}
		for _, l := range fr.cur {
			_ = l
			panic(unsupported("defer in loop"))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			_, st2, _ := x.callWith(fr, d.instr, d.call, d.fnv, d.args, d.guard, st.clone())
			g := d.guard
			st = x.mergeStates([]T{g, not(g)}, []State{st2, st})
		}
	case *ssa.Go:
		panic(unsupported("go statement"))
	case *ssa.Select, *ssa.Send:
		panic(unsupported("channel operation"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return st, reach, true
}

func (x *Exec) boxIfNeeded(v Val, vt, want types.Type) T {
	t := x.asTerm(v)
	if t.sort != x.sortOf(want) && x.sortOf(want) == "Iface" {
		return x.box(t, vt)
	}
	return t
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) convStruct(t T, from, to types.Type) T {
	if fu, ok := from.Underlying().(*types.Struct); ok && isStruct(x, from) && isStruct(x, to) {
		var fs []T
		for i := 0; i < fu.NumFields(); i++ {
			fs = append(fs, x.structGet(from, t, i))
		}
		return x.structMk(to, fs)
	}
	panic(unsupported("changetype " + from.String() + " -> " + to.String()))
}

func (x *Exec) initMap(st State, u *types.Map, r T) {
	dn, vn, ln, ks, vs := x.mapHeaps(u)
	ds := arrSort(ks, "Bool")
	x.record(dn, r, false)
	x.hset(st, dn, sto(x.hget(st, dn, arrSort("Int", ds)), r, T{"((as const " + ds + ") false)", ds}))
	vv := arrSort(ks, vs)
	x.record(vn, r, false)
	x.hset(st, vn, sto(x.hget(st, vn, arrSort("Int", vv)), r, x.constArr(vv, x.zero(u.Elem()))))
	x.record(ln, r, false)
	x.hset(st, ln, sto(x.hget(st, ln, "(Array Int Int)"), r, intT(0)))
}

func (x *Exec) mapStore(st State, u *types.Map, m, k, v T) {
	dn, vn, ln, ks, vs := x.mapHeaps(u)
	dh := x.hget(st, dn, arrSort("Int", arrSort(ks, "Bool")))
	vh := x.hget(st, vn, arrSort("Int", arrSort(ks, vs)))
	lh := x.hget(st, ln, "(Array Int Int)")
	x.record(dn, m, false)
	x.record(vn, m, false)
	x.record(ln, m, false)
	was := sel(sel(dh, m), k)
	x.hset(st, ln, sto(lh, m, ite(was, sel(lh, m), add(sel(lh, m), intT(1)))))
	x.hset(st, dn, sto(dh, m, sto(sel(dh, m), k, tTrue)))
	x.hset(st, vn, sto(vh, m, sto(sel(vh, m), k, v)))
}

func (x *Exec) mapDelete(st State, u *types.Map, m, k T) {
	dn, _, ln, ks, _ := x.mapHeaps(u)
	dh := x.hget(st, dn, arrSort("Int", arrSort(ks, "Bool")))
	lh := x.hget(st, ln, "(Array Int Int)")
	x.record(dn, m, false)
	x.record(ln, m, false)
	was := and(not(eq(m, intT(0))), sel(sel(dh, m), k))
	x.hset(st, ln, sto(lh, m, ite(was, sub(sel(lh, m), intT(1)), sel(lh, m))))
	x.hset(st, dn, sto(dh, m, sto(sel(dh, m), k, tFalse)))
}

func (x *Exec) convert(fr *Frame, TT func(ssa.Value) T, in *ssa.Convert, reach T, st State) T {
	from, to := types.Unalias(in.X.Type()), types.Unalias(in.Type())
	v := TT(in.X)
	fl, fh, fok := intRange(from)
	tl, th, tok := intRange(to)
	if fok && tok {
		if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
			return v
		}
		// same width, different signedness
		w1 := new(big.Int).Sub(fh, fl)
		w2 := new(big.Int).Sub(th, tl)
		if w1.Cmp(w2) == 0 {
			return x.wrapLin(to, v)
		}
		return x.wrap(to, v)
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteLike(sl.Elem()) {
			r := x.newRef(st, "bytes")
			hn, so := x.elemHeap(sl.Elem())
			x.declStrArr()
			x.record(hn, r, false)
			x.hset(st, hn, sto(x.hget(st, hn, so), r, app("(Array Int Int)", "strarr", v)))
			n := app("Int", "strlen", v)
			return mkSlice(r, intT(0), n, n)
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			return v
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok && isByteLike(sl.Elem()) {
			hn, so := x.elemHeap(sl.Elem())
			x.declStrArr()
			return app("Str", "str_of", sel(x.hget(st, hn, so), sRef(v)), sOff(v), sLen(v))
		}
	}
	if v.sort == x.sortOf(to) && v.sort != "Real" {
		return v
	}
	panic(unsupported("convert " + from.String() + " -> " + to.String()))
}

func (x *Exec) declStrArr() {
	x.declStr()
	x.ctx.global("strarr", `(declare-fun strarr (Str) (Array Int Int))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (strlen s))) (= (select (strarr s) i) (strat s i))) :pattern ((select (strarr s) i)))))
(assert (forall ((s Str)) (! (= (str_of (strarr s) 0 (strlen s)) s) :pattern ((strarr s)))))`)
}

func (x *Exec) sliceOp(fr *Frame, in *ssa.Slice, reach T, st State) T {
	g := func(v ssa.Value, d T) T {
		if v == nil {
			return d
		}
		return x.asTerm(x.val(fr, v, st))
	}
	switch u := types.Unalias(in.X.Type()).Underlying().(type) {
	case *types.Slice:
		s := x.asTerm(x.val(fr, in.X, st))
		lo := g(in.Low, intT(0))
		hi := g(in.High, sLen(s))
		mx := g(in.Max, sCap(s))
		x.safety(fr, "slice bounds in range", reach, and(le(intT(0), lo), le(lo, hi), le(hi, mx), le(mx, sCap(s))), in)
		return mkSlice(sRef(s), x.ctx.def("off", x.ix(sOff(s), lo)), x.ctx.def("len", sub(hi, lo)), x.ctx.def("cap", sub(mx, lo)))
	case *types.Pointer:
		at := u.Elem()
		arr := at.Underlying().(*types.Array)
		p := x.asPtr(x.val(fr, in.X, st), in.X.Type())
		n := intT(arr.Len())
		lo := g(in.Low, intT(0))
		hi := g(in.High, n)
		mx := g(in.Max, n)
		x.safety(fr, "slice bounds in range", reach, and(le(intT(0), lo), le(lo, hi), le(hi, mx), le(mx, n)), in)
		var ref T
		if !x.isInterior(p) {
			ref = x.asTerm(p)
		} else {
			// a copy of an embedded array, written back after calls that take the slice
			x.note("slice of an embedded array: a copy that calls write back, at " + x.pos(in))
			v := x.loadPtr(p, st, at)
			ref = x.newRef(st, "arrcopy")
			x.storeLoc(st, &Loc{kind: lObj, ref: ref, typ: at}, v)
			if fr.embedded == nil {
				fr.embedded = map[*ssa.Slice]embeddedArr{}
			}
			fr.embedded[in] = embeddedArr{p, ref, at}
			for _, u := range *in.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range *ia.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
							panic(unsupported("write through a slice of an embedded array"))
						}
					}
				}
			}
		}
		return mkSlice(ref, lo, x.ctx.def("len", sub(hi, lo)), x.ctx.def("cap", sub(mx, lo)))
	default:
		s := x.asTerm(x.val(fr, in.X, st))
		if s.sort == "Str" {
			x.ctx.global("substr", `(declare-fun substr (Str Int Int) Str)
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s))) (= (strlen (substr s a b)) (- b a))) :pattern ((substr s a b)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s)) (<= 0 i) (< i (- b a))) (= (strat (substr s a b) i) (strat s (+ a i)))) :pattern ((strat (substr s a b) i)))))`)
			lo := g(in.Low, intT(0))
			hi := g(in.High, app("Int", "strlen", s))
			x.safety(fr, "slice bounds in range", reach, and(le(intT(0), lo), le(lo, hi), le(hi, app("Int", "strlen", s))), in)
			return app("Str", "substr", s, lo, hi)
		}
	}
	panic(unsupported("slice op"))
}

func (x *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, reach T, st State) (State, T, bool) {
	v := x.asTerm(x.val(fr, in.X, st))
	if _, isI := types.Unalias(in.AssertedType).Underlying().(*types.Interface); isI {
		ok := x.ctx.fresh("ta_ok", "Bool")
		x.ctx.assume(implies(ok, not(eq(v, T{"nil_iface", "Iface"}))))
		if in.CommaOk {
			fr.vals[in] = Tuple{ite(ok, v, T{"nil_iface", "Iface"}), ok}
		} else {
			x.safety(fr, "type assertion", reach, ok, in)
			fr.vals[in] = v
		}
		return st, reach, true
	}
	ok, u := x.unbox(v, in.AssertedType)
	ok = x.ctx.def("ta_ok", ok)
	u = x.ctx.def("ta", u)
	x.ctx.assume(x.typeInv(u, in.AssertedType, x.alloc(st), 2))
	if in.CommaOk {
		fr.vals[in] = Tuple{x.ctx.def("tv", ite(ok, u, x.zero(in.AssertedType))), ok}
	} else {
		x.safety(fr, "type assertion", reach, ok, in)
		fr.vals[in] = u
	}
	return st, reach, true
}

// globalConst: package variables that are never written after initialisation
// are given a fixed, arbitrary initial value (their heap cell); nothing to do
// here beyond non-nil errors, declared in the specs.
func (x *Exec) globalConst(g *ssa.Global, st State) (Val, bool) {
	pt := g.Type().(*types.Pointer).Elem()
	if types.TypeString(pt, nil) == "error" && !x.V.globalWritten(g) {
		nm := quote("G " + g.String())
		x.declIface()
		x.ctx.global(nm, "(declare-const "+nm+" Iface)\n(assert (not (= "+nm+" nil_iface)))")
		return T{nm, "Iface"}, true
	}
	return nil, false
}

// embeddedArr is an array inside a larger object of which a slice was taken
type embeddedArr struct {
	ptr *Ptr
	ref T
	typ types.Type
}
