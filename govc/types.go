package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

type Opaque struct {
	sort, zero string
	facts      string // raw SMT emitted when used
	key        string
}

// typeName gives a short unique name for a type.
func (x *Exec) typeName(t types.Type) string {
	t = types.Unalias(t)
	full := types.TypeString(t, nil)
	if n, ok := x.V.tnames[full]; ok {
		return n
	}
	short := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	base := short
	for i := 2; x.V.tnamesRev[short] != ""; i++ {
		short = fmt.Sprintf("%s#%d", base, i)
	}
	x.V.tnames[full] = short
	x.V.tnamesRev[short] = full
	return short
}

func (x *Exec) opaque(t types.Type) *Opaque {
	t = types.Unalias(t)
	if o, ok := x.V.opaqueCache[t]; ok {
		return o
	}
	var res *Opaque
	if n, ok := t.(*types.Named); ok {
		if o := x.V.specs.opaqueAt(pkgPath(n.Obj().Pkg())+"."+n.Obj().Name(), x.V.cur.module); o != nil {
			res = o
		} else if st, ok := n.Underlying().(*types.Struct); ok {
			// an alias of it, or identical underlying struct (type X big.Int)
			for _, o := range x.V.specs.opaqueList(x.V.cur.module) {
				if ot := x.V.lookupType(o.key); ot != nil && (types.Identical(types.Unalias(ot), t) || types.Identical(ot.Underlying(), st)) {
					res = o
				}
			}
		}
	}
	x.V.opaqueCache[t] = res
	return res
}

func isByteLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (x *Exec) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if o := x.opaque(t); o != nil {
		return o.sort
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			x.declStr()
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return "Int"
		}
		panic(unsupported("basic type " + u.String()))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		x.declSlice()
		return "Slice"
	case *types.Interface:
		x.declIface()
		return "Iface"
	case *types.Struct:
		return x.structSort(t, u)
	case *types.Array:
		return x.arraySort(u)
	}
	panic(unsupported("type " + t.String()))
}

func (x *Exec) declSlice() {
	x.ctx.sortDecl("Slice", "(declare-datatypes ((Slice 0)) (((mk-slice (s-ref Int) (s-off Int) (s-len Int) (s-cap Int)))))")
}

func (x *Exec) declStr() {
	if x.ctx.sortDecl("Str", "(declare-sort Str 0)") {
		ext1, ext2 := strExt1, strExt2
		if x.top != nil && x.top.nobytes { // no byte-wise extensionality: fewer axioms, quadratic otherwise
			ext1, ext2 = "", ""
		}
		x.ctx.global("Str", `(declare-fun strlen (Str) Int)
(declare-fun strat (Str Int) Int)
(declare-fun str_of ((Array Int Int) Int Int) Str)
(declare-fun strcat (Str Str) Str)
(declare-fun strdiff (Str Str) Int)
(declare-const emptystr Str)
(assert (= (strlen emptystr) 0))
(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))
(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s emptystr)) :pattern ((strlen s)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (strlen (str_of a o n)) n)) :pattern ((str_of a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (strat (str_of a o n) i) (select a (+ o i)))) :pattern ((strat (str_of a o n) i)))))
`+ext1+`
(declare-fun strsub (Str Int Int) Str)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (m Int)) (! (=> (and (<= 0 i) (<= 0 m) (<= (+ i m) n)) (= (strsub (str_of a o n) i m) (str_of a (+ o i) m))) :pattern ((strsub (str_of a o n) i m)))))
(assert (forall ((s Str) (i Int) (m Int)) (! (=> (and (<= 0 i) (<= 0 m) (<= (+ i m) (strlen s))) (= (strlen (strsub s i m)) m)) :pattern ((strsub s i m)))))
(assert (forall ((s Str) (i Int) (m Int) (j Int)) (! (=> (and (<= 0 i) (<= 0 m) (<= (+ i m) (strlen s)) (<= 0 j) (< j m)) (= (strat (strsub s i m) j) (strat s (+ i j)))) :pattern ((strat (strsub s i m) j)))))
(assert (forall ((s Str) (t Str)) (! (= (strlen (strcat s t)) (+ (strlen s) (strlen t))) :pattern ((strcat s t)))))
(assert (forall ((s Str) (t Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (strlen s) (strlen t)))) (= (strat (strcat s t) i) (ite (< i (strlen s)) (strat s i) (strat t (- i (strlen s)))))) :pattern ((strat (strcat s t) i)))))
(assert (forall ((s Str)) (! (= (strcat emptystr s) s) :pattern ((strcat emptystr s)))))
(assert (forall ((s Str)) (! (= (strcat s emptystr) s) :pattern ((strcat s emptystr)))))
`+ext2+`
(assert (forall ((s Str) (t Str) (u Str) (v Str)) (! (=> (and (= (strcat s t) (strcat u v)) (= (strlen s) (strlen u))) (and (= s u) (= t v))) :pattern ((strcat s t) (strcat u v)))))`)
	}
}

const strExt1 = `(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int)) (! (or (= (str_of a o n) (str_of b p n)) (and (<= 0 (strdiff (str_of a o n) (str_of b p n))) (< (strdiff (str_of a o n) (str_of b p n)) n) (not (= (select a (+ o (strdiff (str_of a o n) (str_of b p n)))) (select b (+ p (strdiff (str_of a o n) (str_of b p n)))))))) :pattern ((str_of a o n) (str_of b p n)))))`

const strExt2 = `(assert (forall ((s Str) (t Str) (a (Array Int Int)) (o Int) (n Int)) (! (or (= (str_of a o n) (strcat s t)) (not (= n (strlen (strcat s t)))) (and (<= 0 (strdiff (str_of a o n) (strcat s t))) (< (strdiff (str_of a o n) (strcat s t)) n) (not (= (strat (str_of a o n) (strdiff (str_of a o n) (strcat s t))) (strat (strcat s t) (strdiff (str_of a o n) (strcat s t))))))) :pattern ((str_of a o n) (strcat s t)))))`

func (x *Exec) declIface() {
	if x.ctx.sortDecl("Iface", "(declare-sort Iface 0)") {
		x.ctx.global("Iface", "(declare-const nil_iface Iface)\n(declare-fun typetag (Iface) Int)\n(assert (= (typetag nil_iface) 0))\n(assert (forall ((x Iface)) (! (=> (= (typetag x) 0) (= x nil_iface)) :pattern ((typetag x)))))")
	}
}

func (x *Exec) sym(s string) string { return quote(s) }

func (x *Exec) structSort(t types.Type, u *types.Struct) string {
	name := x.typeName(t)
	so := quote("S " + name)
	if x.ctx.seen["sort:"+so] {
		return so
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", so, quote("mk "+name))
	for i := 0; i < u.NumFields(); i++ {
		fmt.Fprintf(&b, " (%s %s)", quote(fmt.Sprintf("%s.%s", name, fieldName(u, i))), x.sortOf(u.Field(i).Type()))
	}
	b.WriteString("))))")
	x.ctx.sortDecl(so, b.String())
	return so
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

func (x *Exec) structGet(t types.Type, v T, i int) T {
	u := t.Underlying().(*types.Struct)
	x.sortOf(t)
	name := x.typeName(t)
	// simplify selection over constructor
	pre := "(" + quote("mk "+name) + " "
	if strings.HasPrefix(v.s, pre) {
		args := splitArgs(v.s[len(pre) : len(v.s)-1])
		if len(args) == u.NumFields() {
			return T{args[i], x.sortOf(u.Field(i).Type())}
		}
	}
	return app(x.sortOf(u.Field(i).Type()), quote(fmt.Sprintf("%s.%s", name, fieldName(u, i))), v)
}

func splitArgs(in string) []string {
	var out []string
	d, st := 0, 0
	q := false
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '|':
			q = !q
		case '(':
			if !q {
				d++
			}
		case ')':
			if !q {
				d--
			}
		case ' ':
			if d == 0 && !q {
				if i > st {
					out = append(out, in[st:i])
				}
				st = i + 1
			}
		}
	}
	if st < len(in) {
		out = append(out, in[st:])
	}
	return out
}

func (x *Exec) structMk(t types.Type, fs []T) T {
	so := x.sortOf(t)
	return app(so, quote("mk "+x.typeName(t)), fs...)
}

// fixed-size array values: an uninterpreted sort with total access functions
func (x *Exec) arraySort(u *types.Array) string {
	es := x.sortOf(u.Elem())
	k := fmt.Sprintf("A%d %s", u.Len(), strings.ReplaceAll(es, "|", "'"))
	so := quote(k)
	if x.ctx.sortDecl(so, "(declare-sort "+so+" 0)") {
		at, mk, df := quote("at "+k), quote("mk "+k), quote("diff "+k)
		ar := arrSort("Int", es)
		r := strings.NewReplacer("$S", so, "$AT", at, "$MK", mk, "$DF", df, "$AR", ar, "$N", fmt.Sprint(u.Len()), "$E", es)
		x.ctx.global(so, r.Replace(`(declare-fun $AT ($S Int) $E)
(declare-fun $MK ($AR) $S)
(declare-fun $DF ($S $S) Int)
(assert (forall ((a $AR) (i Int)) (! (=> (and (<= 0 i) (< i $N)) (= ($AT ($MK a) i) (select a i))) :pattern (($AT ($MK a) i)))))
(assert (forall ((a $AR) (x $S)) (! (or (= ($MK a) x) (and (<= 0 ($DF ($MK a) x)) (< ($DF ($MK a) x) $N) (not (= (select a ($DF ($MK a) x)) ($AT x ($DF ($MK a) x)))))) :pattern (($MK a) ($DF ($MK a) x)))))`))
	}
	return so
}

func (x *Exec) arrayAt(t types.Type, v, i T) T {
	u := t.Underlying().(*types.Array)
	x.arraySort(u)
	es := x.sortOf(u.Elem())
	k := fmt.Sprintf("A%d %s", u.Len(), strings.ReplaceAll(es, "|", "'"))
	return app(es, quote("at "+k), v, i)
}

func (x *Exec) arrayMk(t types.Type, a T) T {
	u := t.Underlying().(*types.Array)
	so := x.arraySort(u)
	es := x.sortOf(u.Elem())
	k := fmt.Sprintf("A%d %s", u.Len(), strings.ReplaceAll(es, "|", "'"))
	return app(so, quote("mk "+k), a)
}

// toArr gives a full SMT array holding the elements of array value v
func (x *Exec) toArr(t types.Type, v T) T {
	u := t.Underlying().(*types.Array)
	so := x.arraySort(u)
	es := x.sortOf(u.Elem())
	k := fmt.Sprintf("A%d %s", u.Len(), strings.ReplaceAll(es, "|", "'"))
	ta := quote("toarr " + k)
	ar := arrSort("Int", es)
	x.ctx.global(ta, fmt.Sprintf(`(declare-fun %s (%s) %s)
(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))
(assert (forall ((x %s) (i Int)) (! (=> (and (<= 0 i) (< i %d)) (= (select (%s x) i) (%s x i))) :pattern ((select (%s x) i)))))`,
		ta, so, ar, so, quote("mk "+k), ta, ta, so, u.Len(), ta, quote("at "+k), ta))
	return app(ar, ta, v)
}

func (x *Exec) zero(t types.Type) T {
	t = types.Unalias(t)
	if o := x.opaque(t); o != nil {
		if d, ok := x.V.specs.decls[o.zero]; ok {
			c := &sctx{x: x, env: map[string]SV{}, st: x.entry, old: x.entry}
			c.declare(o.zero, d)
		}
		return T{o.zero, o.sort}
	}
	so := x.sortOf(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch so {
		case "Bool":
			return tFalse
		case "Int":
			return intT(0)
		case "Real":
			return T{"0.0", "Real"}
		case "Str":
			return T{"emptystr", "Str"}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return intT(0)
	case *types.Slice:
		return T{"(mk-slice 0 0 0 0)", "Slice"}
	case *types.Interface:
		return T{"nil_iface", "Iface"}
	case *types.Struct:
		var fs []T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return x.structMk(t, fs)
	case *types.Array:
		es := x.sortOf(u.Elem())
		ar := arrSort("Int", es)
		z := x.zero(u.Elem())
		return x.arrayMk(t, x.constArr(ar, z))
	}
	panic(unsupported("zero of " + t.String()))
}

var two = big.NewInt(2)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// intRange returns the inclusive range of an integer type (64-bit target).
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := types.Unalias(t).Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	unsigned := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	}
	if unsigned {
		return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
}

// typeInv is the representation invariant every value of the type satisfies
// in Go's memory model (integer ranges, slice headers, allocated pointers).
func (x *Exec) typeInv(v T, t types.Type, alloc T, depth int) T {
	t = types.Unalias(t)
	if o := x.opaque(t); o != nil {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			return and(le(intBig(lo), v), le(v, intBig(hi)))
		}
	case *types.Pointer:
		return lt(v, alloc)
	case *types.Map, *types.Chan:
		return and(le(intT(0), v), lt(v, alloc))
	case *types.Slice:
		ref, off, ln, cp := sRef(v), sOff(v), sLen(v), sCap(v)
		return and(le(intT(0), ref), lt(ref, alloc), le(intT(0), off), le(intT(0), ln), le(ln, cp), le(cp, intBig(pow2(56))), le(off, intBig(pow2(56))),
			implies(eq(ref, intT(0)), eq(cp, intT(0))))
	case *types.Struct:
		if depth <= 0 {
			return tTrue
		}
		var cs []T
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.typeInv(x.structGet(t, v, i), u.Field(i).Type(), alloc, depth-1))
		}
		return and(cs...)
	}
	return tTrue
}

func sRef(v T) T { return slGet(v, 0, "s-ref") }
func sOff(v T) T { return slGet(v, 1, "s-off") }
func sLen(v T) T { return slGet(v, 2, "s-len") }
func sCap(v T) T { return slGet(v, 3, "s-cap") }

func slGet(v T, i int, f string) T {
	if strings.HasPrefix(v.s, "(mk-slice ") {
		a := splitArgs(v.s[10 : len(v.s)-1])
		return T{a[i], "Int"}
	}
	return app("Int", f, v)
}

func mkSlice(ref, off, ln, cp T) T { return app("Slice", "mk-slice", ref, off, ln, cp) }

func pkgPath(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Path()
}

// ix is the position of element i of a slice with offset off: off+i, kept as
// a function symbol so that quantifiers over elements have a usable trigger.
func (x *Exec) ix(off, i T) T {
	if _, ok := off.num(); ok && off.s == "0" {
		if _, ok := i.num(); ok {
			return i
		}
	}
	x.ctx.global("ix", `(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(assert (forall ((o Int) (a Int) (i Int)) (! (= (ix (ix o a) i) (ix o (+ a i))) :pattern ((ix (ix o a) i)))))`)
	return app("Int", "ix", off, i)
}

var valueTerm = regexp.MustCompile(`nil_iface|emptystr|\|mk A|zarr|str_`)

// constArr is the array holding z everywhere.
func (x *Exec) constArr(ar string, z T) T {
	if !valueTerm.MatchString(z.s) {
		return T{"((as const " + ar + ") " + z.s + ")", ar}
	}
	nm := quote("zarr " + strings.ReplaceAll(ar+" "+z.s, "|", "'"))
	ks, _ := splitArr(ar)
	x.ctx.global(nm, fmt.Sprintf("(declare-const %[1]s %[2]s)\n(assert (forall ((i %[3]s)) (! (= (select %[1]s i) %[4]s) :pattern ((select %[1]s i)))))", nm, ar, ks, z.s))
	return T{nm, ar}
}

// mget is the value a map lookup yields: the stored value, or zero for a nil
// map or an absent key. It is a declared function so that it can occur in
// quantifier patterns.
func (x *Exec) mget(m, d, v, k, zero T) T {
	if zero.sort == "Bool" {
		return ite(and(not(eq(m, intT(0))), sel(d, k)), sel(v, k), zero)
	}
	nm := quote("mget " + strings.ReplaceAll(k.sort+" "+zero.sort+" "+zero.s, "|", "'"))
	x.ctx.global(nm, fmt.Sprintf("(declare-fun %[1]s (Int %[2]s %[3]s %[4]s) %[5]s)\n(assert (forall ((m Int) (d %[2]s) (v %[3]s) (k %[4]s)) (! (= (%[1]s m d v k) (ite (and (not (= m 0)) (select d k)) (select v k) %[6]s)) :pattern ((%[1]s m d v k)))))", nm, d.sort, v.sort, k.sort, zero.sort, zero.s))
	return T{"(" + nm + " " + m.s + " " + d.s + " " + v.s + " " + k.s + ")", zero.sort}
}

// valueInv is typeInv for a value stored in memory; without a bound on
// references when alloc is empty.
func (x *Exec) valueInv(v T, t types.Type, alloc T) T {
	t = types.Unalias(t)
	if x.opaque(t) != nil {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return x.typeInv(v, t, alloc, 0)
	case *types.Pointer:
		if alloc.s != "" {
			return lt(v, alloc)
		}
	case *types.Map, *types.Chan:
		if alloc.s != "" {
			return and(le(intT(0), v), lt(v, alloc))
		}
		return le(intT(0), v)
	case *types.Slice:
		r := and(le(intT(0), sRef(v)), le(intT(0), sOff(v)), le(intT(0), sLen(v)), le(sLen(v), sCap(v)), le(sCap(v), intBig(pow2(56))), le(sOff(v), intBig(pow2(56))),
			implies(eq(sRef(v), intT(0)), eq(sCap(v), intT(0))))
		if alloc.s != "" {
			r = and(r, lt(sRef(v), alloc))
		}
		return r
	case *types.Struct:
		_ = u
	}
	return tTrue
}

// heapTyping says that everything stored in a heap is a well-formed value.
func (x *Exec) heapTyping(name string, h T, alloc T) T {
	t := x.heapGo[name]
	if t == nil {
		return tTrue
	}
	// references below alloc only at objects below alloc: later objects may
	// already carry what the function allocating them will store there
	g := func(v T, t types.Type) T {
		if alloc.s == "" {
			return x.valueInv(v, t, alloc)
		}
		all, bare := x.valueInv(v, t, alloc), x.valueInv(v, t, T{})
		if all.s == bare.s {
			return all
		}
		return and(bare, implies(lt(T{"hr", "Int"}, alloc), all))
	}
	if u, ok := types.Unalias(t).Underlying().(*types.Struct); ok && x.opaque(t) == nil && (name[0] == 'F' || name[0] == 'C' || name[0] == 'E') {
		// struct values: well-formed slices, maps and pointers in their fields
		a, q := T{"(select " + h.s + " hr)", x.sortOf(t)}, "((hr Int))"
		if name[0] == 'E' {
			a, q = T{"(select (select " + h.s + " hr) hi)", x.sortOf(t)}, "((hr Int) (hi Int))"
		}
		r := tTrue
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch types.Unalias(ft).Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer, *types.Basic:
			default:
				continue
			}
			fv := x.structGet(t, a, i)
			if inv := g(fv, ft); inv.s != "true" {
				r = and(r, T{"(forall " + q + " (! " + inv.s + " :pattern (" + fv.s + ")))", "Bool"})
			}
		}
		return r
	}
	switch name[0] {
	case 'F', 'C':
		a := T{"(select " + h.s + " hr)", x.sortOf(t)}
		inv := g(a, t)
		if inv.s == "true" {
			return inv
		}
		return T{"(forall ((hr Int)) (! " + inv.s + " :pattern (" + a.s + ")))", "Bool"}
	case 'E':
		a := T{"(select (select " + h.s + " hr) hi)", x.sortOf(t)}
		inv := g(a, t)
		if inv.s == "true" {
			return inv
		}
		return T{"(forall ((hr Int) (hi Int)) (! " + inv.s + " :pattern (" + a.s + ")))", "Bool"}
	}
	return tTrue
}
