package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type locKind int

const (
	lObj   locKind = iota // heap object (struct cell, plain cell, or array backing)
	lField                // field of base
	lElem                 // element idx of backing array ref
	lArr                  // element of an array stored at base (non-root)
)

type Loc struct {
	kind locKind
	ref  T // lObj, lElem
	idx  T // lElem, lArr
	base *Loc
	fld  int
	typ  types.Type // type of the location's content
}

type PAlt struct {
	cond T
	loc  *Loc
}

// Ptr is a pointer value: a guarded union of locations.
type Ptr struct {
	alts []PAlt
	elem types.Type
}

type Clos struct {
	fn   *ssa.Function
	bind []Val
}

type Iter struct {
	mp      T
	mtyp    *types.Map
	visited string // pseudo-heap key holding the visited set
	str     bool
}

type Tuple []Val

type State struct {
	h map[string]T
}

func (s State) clone() State {
	n := make(map[string]T, len(s.h))
	for k, v := range s.h {
		n[k] = v
	}
	return State{n}
}

type writeRec struct {
	heap  string
	ref   T
	all   bool // whole heap possibly changed
	fresh bool // ref allocated during execution being recorded
}

func (x *Exec) heapInit(name, sort string) T {
	nm := quote("H0 " + name)
	if x.heapSort[name] == "" {
		x.heapSort[name] = sort
	}
	if x.heapSort[name] != sort {
		panic(unsupported("heap sort clash " + name + ": " + x.heapSort[name] + " vs " + sort))
	}
	if !x.ctx.seen[nm] {
		x.ctx.global(nm, "(declare-const "+nm+" "+sort+")")
		if name != "alloc" && (name[0] == 'F' || name[0] == 'E' || name[0] == 'C') {
			if inv := x.heapTyping(name, T{nm, sort}, x.heapInit("alloc", "Int")); inv.s != "true" {
				x.ctx.global("typing "+nm, "(assert "+inv.s+")")
			}
		}
	}
	return T{nm, sort}
}

func (x *Exec) hget(st State, name, sort string) T {
	if t, ok := st.h[name]; ok {
		return t
	}
	return x.heapInit(name, sort)
}

func (x *Exec) hset(st State, name string, v T) {
	x.heapInit(name, v.sort)
	st.h[name] = x.ctx.def("h", v)
}

func (x *Exec) record(name string, ref T, all bool) {
	for _, r := range x.recs {
		r.add(name, ref, all)
	}
}

type recorder struct {
	ws map[string][]writeRec
}

func (r *recorder) add(name string, ref T, all bool) {
	for _, w := range r.ws[name] {
		if w.ref.s == ref.s && w.all == all {
			return
		}
	}
	r.ws[name] = append(r.ws[name], writeRec{heap: name, ref: ref, all: all})
}

func (x *Exec) alloc(st State) T { return x.hget(st, "alloc", "Int") }

func (x *Exec) newRef(st State, hint string) T {
	a := x.alloc(st)
	// a fresh symbol, so that allocation sites are syntactically recognisable
	r := x.ctx.fresh("new_"+hint, "Int")
	x.ctx.assume(eq(r, a))
	x.freshRefs[r.s] = true
	x.record("alloc", T{}, true)
	x.hset(st, "alloc", add(r, intT(1)))
	return r
}

// heap names

func (x *Exec) fieldHeap(t types.Type, i int) (string, string) {
	u := t.Underlying().(*types.Struct)
	x.heapGo["F "+x.typeName(t)+"."+fieldName(u, i)] = u.Field(i).Type()
	return "F " + x.typeName(t) + "." + fieldName(u, i), arrSort("Int", x.sortOf(u.Field(i).Type()))
}

func (x *Exec) cellHeap(t types.Type) (string, string) {
	if o := x.opaque(t); o != nil {
		return "C " + o.key, arrSort("Int", o.sort)
	}
	x.heapGo["C "+x.typeName(t)] = t
	return "C " + x.typeName(t), arrSort("Int", x.sortOf(t))
}

func (x *Exec) elemHeap(t types.Type) (string, string) {
	if o := x.opaque(t); o != nil {
		return "E " + o.key, arrSort("Int", arrSort("Int", o.sort))
	}
	x.heapGo["E "+x.typeName(t)] = t
	return "E " + x.typeName(t), arrSort("Int", arrSort("Int", x.sortOf(t)))
}

func (x *Exec) mapHeaps(m *types.Map) (d, v, n string, ks, vs string) {
	k := x.typeName(m)
	return "MD " + k, "MV " + k, "ML " + k, x.sortOf(m.Key()), x.sortOf(m.Elem())
}

func isStruct(x *Exec, t types.Type) bool {
	if x.opaque(t) != nil {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func isArray(x *Exec, t types.Type) bool {
	if x.opaque(t) != nil {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Array)
	return ok
}

func (x *Exec) loadLoc(st State, l *Loc) T {
	switch l.kind {
	case lObj:
		if isStruct(x, l.typ) {
			u := l.typ.Underlying().(*types.Struct)
			var fs []T
			for i := 0; i < u.NumFields(); i++ {
				n, so := x.fieldHeap(l.typ, i)
				fs = append(fs, sel(x.hget(st, n, so), l.ref))
			}
			return x.structMk(l.typ, fs)
		}
		if isArray(x, l.typ) {
			n, so := x.elemHeap(l.typ.Underlying().(*types.Array).Elem())
			return x.arrayMk(l.typ, sel(x.hget(st, n, so), l.ref))
		}
		n, so := x.cellHeap(l.typ)
		return sel(x.hget(st, n, so), l.ref)
	case lField:
		if l.base.kind == lObj {
			n, so := x.fieldHeap(l.base.typ, l.fld)
			return sel(x.hget(st, n, so), l.base.ref)
		}
		return x.structGet(l.base.typ, x.loadLoc(st, l.base), l.fld)
	case lElem:
		n, so := x.elemHeap(l.typ)
		return sel(sel(x.hget(st, n, so), l.ref), l.idx)
	case lArr:
		return x.arrayAt(l.base.typ, x.loadLoc(st, l.base), l.idx)
	}
	panic("loc")
}

func (x *Exec) storeLoc(st State, l *Loc, v T) {
	switch l.kind {
	case lObj:
		if isStruct(x, l.typ) {
			u := l.typ.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				n, so := x.fieldHeap(l.typ, i)
				x.record(n, l.ref, false)
				x.hset(st, n, sto(x.hget(st, n, so), l.ref, x.structGet(l.typ, v, i)))
			}
			return
		}
		if isArray(x, l.typ) {
			n, so := x.elemHeap(l.typ.Underlying().(*types.Array).Elem())
			x.record(n, l.ref, false)
			x.hset(st, n, sto(x.hget(st, n, so), l.ref, x.toArr(l.typ, v)))
			return
		}
		n, so := x.cellHeap(l.typ)
		x.record(n, l.ref, false)
		x.hset(st, n, sto(x.hget(st, n, so), l.ref, v))
	case lField:
		if l.base.kind == lObj {
			n, so := x.fieldHeap(l.base.typ, l.fld)
			x.record(n, l.base.ref, false)
			x.hset(st, n, sto(x.hget(st, n, so), l.base.ref, v))
			return
		}
		old := x.ctx.def("sv", x.loadLoc(st, l.base))
		u := l.base.typ.Underlying().(*types.Struct)
		var fs []T
		for i := 0; i < u.NumFields(); i++ {
			if i == l.fld {
				fs = append(fs, v)
			} else {
				fs = append(fs, x.structGet(l.base.typ, old, i))
			}
		}
		x.storeLoc(st, l.base, x.structMk(l.base.typ, fs))
	case lElem:
		n, so := x.elemHeap(l.typ)
		h := x.hget(st, n, so)
		x.record(n, l.ref, false)
		x.hset(st, n, sto(h, l.ref, sto(sel(h, l.ref), l.idx, v)))
	case lArr:
		old := x.ctx.def("av", x.toArr(l.base.typ, x.loadLoc(st, l.base)))
		x.storeLoc(st, l.base, x.arrayMk(l.base.typ, sto(old, l.idx, v)))
	}
}

func objPtr(ref T, elem types.Type) *Ptr {
	return &Ptr{alts: []PAlt{{tTrue, &Loc{kind: lObj, ref: ref, typ: elem}}}, elem: elem}
}

// asPtr converts a value of pointer type to a Ptr
func (x *Exec) asPtr(v Val, t types.Type) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case T:
		return objPtr(p, types.Unalias(t).Underlying().(*types.Pointer).Elem())
	}
	panic(unsupported(fmt.Sprintf("not a pointer: %T", v)))
}

// asTerm converts a value to an SMT term where possible.
func (x *Exec) asTerm(v Val) T {
	switch p := v.(type) {
	case T:
		return p
	case *Ptr:
		var r T
		for i := len(p.alts) - 1; i >= 0; i-- {
			a := p.alts[i]
			if a.loc.kind != lObj {
				panic(unsupported("interior pointer used as a value"))
			}
			if i == len(p.alts)-1 {
				r = a.loc.ref
			} else {
				r = ite(a.cond, a.loc.ref, r)
			}
		}
		return r
	case *Clos:
		return x.closID(p)
	case nil:
		panic(unsupported("missing value"))
	}
	panic(unsupported(fmt.Sprintf("value of kind %T used as a term", v)))
}

func (x *Exec) closID(c *Clos) T {
	for i, d := range x.closTab {
		if d == c {
			return intT(int64(1000 + i))
		}
	}
	x.closTab = append(x.closTab, c)
	return intT(int64(1000 + len(x.closTab) - 1))
}

func (x *Exec) isInterior(v Val) bool {
	p, ok := v.(*Ptr)
	if !ok {
		return false
	}
	for _, a := range p.alts {
		if a.loc.kind != lObj {
			return true
		}
	}
	return false
}

func (x *Exec) mergeVals(conds []T, vals []Val, hint string) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	if t0, ok := vals[0].(Tuple); ok {
		res := make(Tuple, len(t0))
		for i := range t0 {
			var vs []Val
			for _, v := range vals {
				vs = append(vs, v.(Tuple)[i])
			}
			res[i] = x.mergeVals(conds, vs, hint)
		}
		return res
	}
	allT := true
	interior := false
	for _, v := range vals {
		if _, ok := v.(T); !ok {
			allT = false
		}
		if x.isInterior(v) {
			interior = true
		}
	}
	if !allT && !interior {
		same := true
		for _, v := range vals {
			if v != vals[0] {
				same = false
			}
		}
		if same {
			return vals[0]
		}
	}
	if interior {
		out := &Ptr{}
		for i, v := range vals {
			var p *Ptr
			switch q := v.(type) {
			case *Ptr:
				p = q
			case T:
				// need element type from another alternative
				for _, w := range vals {
					if wp, ok := w.(*Ptr); ok {
						p = objPtr(q, wp.elem)
						break
					}
				}
			}
			out.elem = p.elem
			for _, a := range p.alts {
				c := x.ctx.def("pc", and(conds[i], a.cond))
				if c.s != "false" {
					out.alts = append(out.alts, PAlt{c, a.loc})
				}
			}
		}
		return out
	}
	var r T
	for i := len(vals) - 1; i >= 0; i-- {
		t := x.asTerm(vals[i])
		if i == len(vals)-1 {
			r = t
		} else {
			r = ite(conds[i], t, r)
		}
	}
	return x.ctx.def(hint, r)
}

func (x *Exec) mergeStates(conds []T, sts []State) State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.h {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := State{map[string]T{}}
	for _, k := range ks {
		var r T
		for i := len(sts) - 1; i >= 0; i-- {
			t := x.hget(sts[i], k, x.heapSort[k])
			if i == len(sts)-1 {
				r = t
			} else {
				r = ite(conds[i], t, r)
			}
		}
		out.h[k] = x.ctx.def("hm", r)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func isPseudo(h string) bool { return h == "alloc" || strings.HasPrefix(h, "visited ") }
