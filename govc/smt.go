package main

import (
	"fmt"
	"math/big"
	"strings"
)

// T is an SMT-LIB term together with its sort.
type T struct{ s, sort string }

var tTrue = T{"true", "Bool"}
var tFalse = T{"false", "Bool"}

func (t T) isNum() bool {
	if t.sort != "Int" || t.s == "" {
		return false
	}
	_, ok := t.num()
	return ok
}

func (t T) num() (*big.Int, bool) {
	if t.sort != "Int" || t.s == "" {
		return nil, false
	}
	s := t.s
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
		neg = true
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(s, 10)
	if ok && neg {
		v.Neg(v)
	}
	return v, ok
}

func intBig(v *big.Int) T {
	if v.Sign() < 0 {
		return T{"(- " + new(big.Int).Neg(v).String() + ")", "Int"}
	}
	return T{v.String(), "Int"}
}

func intT(v int64) T { return intBig(big.NewInt(v)) }

func app(sort, op string, args ...T) T {
	if len(args) == 0 {
		return T{op, sort}
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.s)
	}
	b.WriteByte(')')
	return T{b.String(), sort}
}

func and(ts ...T) T {
	var out []T
	for _, t := range ts {
		if t.s == "true" {
			continue
		}
		if t.s == "false" {
			return tFalse
		}
		dup := false
		for _, o := range out {
			if o.s == t.s {
				dup = true
			}
		}
		if !dup {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("Bool", "and", out...)
}

func or(ts ...T) T {
	var out []T
	for _, t := range ts {
		if t.s == "false" {
			continue
		}
		if t.s == "true" {
			return tTrue
		}
		dup := false
		for _, o := range out {
			if o.s == t.s {
				dup = true
			}
		}
		if !dup {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("Bool", "or", out...)
}

func not(t T) T {
	if t.s == "true" {
		return tFalse
	}
	if t.s == "false" {
		return tTrue
	}
	if strings.HasPrefix(t.s, "(not ") {
		return T{t.s[5 : len(t.s)-1], "Bool"}
	}
	return app("Bool", "not", t)
}

func implies(a, b T) T {
	if a.s == "true" {
		return b
	}
	if a.s == "false" || b.s == "true" {
		return tTrue
	}
	if b.s == "false" {
		return not(a)
	}
	return app("Bool", "=>", a, b)
}

func eq(a, b T) T {
	if a.s == b.s {
		return tTrue
	}
	if a.sort == "Bool" {
		if a.s == "true" {
			return b
		}
		if b.s == "true" {
			return a
		}
		if a.s == "false" {
			return not(b)
		}
		if b.s == "false" {
			return not(a)
		}
	}
	if a.isNum() && b.isNum() {
		return tFalse
	}
	if a.sort != b.sort {
		panic(unsupported(fmt.Sprintf("sort mismatch in equality: %s:%s vs %s:%s", a.s, a.sort, b.s, b.sort)))
	}
	return app("Bool", "=", a, b)
}

func ite(c, a, b T) T {
	if c.s == "true" {
		return a
	}
	if c.s == "false" {
		return b
	}
	if a.s == b.s {
		return a
	}
	if a.sort != b.sort {
		panic(unsupported("sort mismatch in ite: " + a.sort + " vs " + b.sort + " (" + a.s + " / " + b.s + ")"))
	}
	if a.s == "true" && b.s == "false" {
		return c
	}
	if a.s == "false" && b.s == "true" {
		return not(c)
	}
	return app(a.sort, "ite", c, a, b)
}

func cmp(op string, a, b T) T {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 {
		c := x.Cmp(y)
		r := false
		switch op {
		case "<":
			r = c < 0
		case "<=":
			r = c <= 0
		case ">":
			r = c > 0
		case ">=":
			r = c >= 0
		}
		if r {
			return tTrue
		}
		return tFalse
	}
	if a.s == b.s {
		if op == "<=" || op == ">=" {
			return tTrue
		}
		return tFalse
	}
	return app("Bool", op, a, b)
}

func lt(a, b T) T { return cmp("<", a, b) }
func le(a, b T) T { return cmp("<=", a, b) }

func add(a, b T) T {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 {
		return intBig(new(big.Int).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	return app("Int", "+", a, b)
}

func sub(a, b T) T {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 {
		return intBig(new(big.Int).Sub(x, y))
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	if a.s == b.s {
		return intT(0)
	}
	return app("Int", "-", a, b)
}

func mul(a, b T) T {
	x, ok1 := a.num()
	y, ok2 := b.num()
	if ok1 && ok2 {
		return intBig(new(big.Int).Mul(x, y))
	}
	if ok1 && x.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if ok2 && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return app("Int", "*", a, b)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// elemSort splits "(Array K V)" into K and V.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic(unsupported("not an array sort: " + s))
	}
	in := s[7 : len(s)-1]
	d := 0
	q := false
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '|':
			q = !q
		case '(':
			if !q {
				d++
			}
		case ')':
			if !q {
				d--
			}
		case ' ':
			if d == 0 && !q {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func sel(a, i T) T {
	_, v := splitArr(a.sort)
	return app(v, "select", a, i)
}

func sto(a, i, v T) T {
	_, vs := splitArr(a.sort)
	if vs != v.sort {
		panic(unsupported("store sort mismatch: " + a.sort + " <- " + v.sort))
	}
	return app(a.sort, "store", a, i, v)
}

type unsupp struct{ msg string }

func (u unsupp) Error() string    { return u.msg }
func unsupported(m string) unsupp { return unsupp{m} }

// item of a verification context
type item struct {
	kind byte // 'd' declaration/definition, 'a' assumption
	text string
}

type Ctx struct {
	items   []item
	n       int // fresh counter
	symSeq  map[string]int
	defBody map[string]string
	sortDef []string // datatype / sort declarations (never truncated)
	glob    []string // global declarations and axioms (never truncated)
	seen    map[string]bool
}

func newCtx() *Ctx {
	return &Ctx{symSeq: map[string]int{}, defBody: map[string]string{}, seen: map[string]bool{}}
}

func quote(s string) string {
	ok := true
	for _, c := range s {
		if !(c == '_' || c == '$' || c == '.' || c == '!' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

func (c *Ctx) freshName(hint string) string {
	c.n++
	nm := fmt.Sprintf("%s!%d", hint, c.n)
	c.symSeq[quote(nm)] = c.n
	return quote(nm)
}

func (c *Ctx) fresh(hint, sort string) T {
	nm := c.freshName(hint)
	c.items = append(c.items, item{'d', "(declare-const " + nm + " " + sort + ")"})
	return T{nm, sort}
}

func isAtomic(t T) bool {
	return !strings.HasPrefix(t.s, "(") || strings.HasPrefix(t.s, "(- ") && t.isNum() || strings.HasPrefix(t.s, "(not ") && !strings.HasPrefix(t.s, "(not (")
}

func (c *Ctx) def(hint string, t T) T {
	if isAtomic(t) {
		return t
	}
	if strings.HasPrefix(t.s, "(mk-slice ") {
		a := splitArgs(t.s[10 : len(t.s)-1])
		var p []T
		for _, y := range a {
			p = append(p, c.def(hint, T{y, "Int"}))
		}
		return mkSlice(p[0], p[1], p[2], p[3])
	}
	nm := c.freshName(hint)
	c.defBody[nm] = t.s
	if t.sort != "Bool" && (strings.HasPrefix(t.s, "(ite ") || defStores && strings.HasPrefix(t.sort, "(Array")) {
		// a constant, not a macro: keeps ite out of quantifier patterns
		c.items = append(c.items, item{'d', "(declare-const " + nm + " " + t.sort + ")\n(assert (= " + nm + " " + t.s + "))"})
		return T{nm, t.sort}
	}
	c.items = append(c.items, item{'d', "(define-fun " + nm + " () " + t.sort + " " + t.s + ")"})
	return T{nm, t.sort}
}

var defStores = true

func (c *Ctx) assume(t T) {
	if t.s == "true" {
		return
	}
	ps := splitGoalF(t.s, 0, false)
	if len(ps) > 200 {
		ps = []string{t.s}
	}
	for _, p := range ps {
		c.items = append(c.items, item{'a', "(assert " + p + ")"})
	}
}

func (c *Ctx) global(key, text string) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.glob = append(c.glob, text)
}

func (c *Ctx) sortDecl(key, text string) bool {
	if c.seen["sort:"+key] {
		return false
	}
	c.seen["sort:"+key] = true
	if text != "" {
		c.sortDef = append(c.sortDef, text)
	}
	return true
}

// symbols of a term string
func symbols(s string, f func(string)) {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			f(s[i : j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' && s[j] != '|' {
				j++
			}
			f(s[i:j])
			i = j
		}
	}
}

// maxSeq is the largest sequence number of a local symbol in t (0 if none).
func (c *Ctx) maxSeq(t T) int {
	m := 0
	symbols(t.s, func(y string) {
		if n, ok := c.symSeq[y]; ok && n > m {
			m = n
		}
	})
	return m
}

// unfold expands definitions made after seq.
func (c *Ctx) unfold(t T, seq int) T {
	for k := 0; k < 200 && len(t.s) < 4000; k++ {
		ch := false
		t.s = substSyms(t.s, func(y string) (string, bool) {
			if b, ok := c.defBody[y]; ok && c.symSeq[y] > seq {
				ch = true
				return b, true
			}
			return "", false
		})
		if !ch {
			break
		}
	}
	return t
}
