package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	label string
	e     *Ex
	text  string
	vars  []QVar // loopinv metavariables
	file  string
	line  int
	may   bool // maypanic: the function may panic then, but need not
}

type QVar struct{ name, typ string }

type FnSpec struct {
	name     string // ssa name
	kind     string // fn, extern, lemma
	params   []string
	results  []string
	props    []string
	use      bool
	nopanic  bool
	hasMod   bool
	requires []Clause
	ensures  []Clause
	modifies []Clause
	loopinvs []Clause
	hints    []Clause
	ptypes   []string // lemma parameter types
	file     string
	line     int
	pkg      string
	aux      bool
	nobytes  bool
	own      bool     // verified by the checks of its own properties only
	equals   []Clause // the result, as an expression
	panics   []Clause // the function panics exactly when one of these holds on entry
}

type Define struct {
	params []string
	e      *Ex
	ptyp   []string
}

type Decl struct {
	args []string
	res  string
	pre  string
}

type Specs struct {
	fns     map[string]*FnSpec
	externs map[string]*FnSpec
	lemmas  map[string]*FnSpec
	defs    map[string]*Define
	decls   map[string]*Decl
	opaques map[string]*Opaque
	pures   []string
	nopures []string
	aliases map[string]string
	prelude []prel
	order   []*FnSpec
	ghosts  map[string]string // name -> result sort; state-dependent, keyed by Int
}

type prel struct{ key, text string }

func newSpecs() *Specs {
	return &Specs{fns: map[string]*FnSpec{}, externs: map[string]*FnSpec{}, lemmas: map[string]*FnSpec{}, defs: map[string]*Define{}, decls: map[string]*Decl{}, opaques: map[string]*Opaque{}, aliases: map[string]string{}, ghosts: map[string]string{}}
}

func (s *Specs) isPure(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range s.nopures {
		if strings.HasPrefix(n, p) {
			return false
		}
	}
	for _, p := range s.pures {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var reAlias = regexp.MustCompile(`^(\(?\*?)([A-Za-z_][A-Za-z0-9_]*)\.`)

func (s *Specs) expand(n string) string {
	m := reAlias.FindStringSubmatch(n)
	if m == nil {
		return n
	}
	if p, ok := s.aliases[m[2]]; ok {
		return m[1] + p + n[len(m[1])+len(m[2]):]
	}
	return n
}

// Load parses every *.spec file of dir.
func (s *Specs) Load(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := s.loadFile(f); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	return nil
}

type rawLine struct {
	n int
	s string
}

func (s *Specs) loadFile(f string) (err error) {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var lines []rawLine
	for i, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		lines = append(lines, rawLine{i + 1, strings.TrimRight(l, " \t")})
	}
	// join into top-level blocks
	var cur *FnSpec
	curLine := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("line %d: %v", curLine, r)
		}
	}()
	i := 0
	for i < len(lines) {
		l := lines[i]
		curLine = l.n
		top := l.s[0] != ' ' && l.s[0] != '\t'
		if top {
			// gather the block's raw text for multi-line top-level forms
			word := strings.Fields(l.s)[0]
			j := i + 1
			switch word {
			case "smt", "define", "declare", "pure", "nopure":
				for j < len(lines) && (lines[j].s[0] == ' ' || lines[j].s[0] == '\t') {
					j++
				}
			}
			var b strings.Builder
			for k := i; k < j; k++ {
				b.WriteString(lines[k].s + "\n")
			}
			text := strings.TrimSpace(b.String())
			rest := strings.TrimSpace(strings.TrimPrefix(text, word))
			i = j
			cur = nil
			switch word {
			case "package":
				fl := strings.Fields(rest)
				s.aliases[fl[0]] = strings.Trim(fl[1], "\"")
			case "opaque":
				fl := strings.SplitN(rest, " ", 3)
				zero := fl[2]
				s.opaques[fileModule(f)+"|"+s.expand(fl[0])] = &Opaque{sort: fl[1], zero: zero, key: s.expand(fl[0])}
			case "ghost":
				// ghost name: Sort
				pp := strings.SplitN(rest, ":", 2)
				s.ghosts[strings.TrimSpace(pp[0])] = strings.TrimSpace(pp[1])
			case "smt":
				key := strings.Fields(rest)[0]
				s.prelude = append(s.prelude, prel{key, strings.TrimSpace(rest[len(key):])})
			case "pure":
				for _, p := range strings.Fields(rest) {
					s.pures = append(s.pures, p)
				}
			case "nopure":
				for _, p := range strings.Fields(rest) {
					s.nopures = append(s.nopures, p)
				}
			case "declare":
				// declare name(Sort, Sort): Sort [needs key]
				m := regexp.MustCompile(`^([A-Za-z_0-9]+)\((.*)\)\s*:\s*(.*)$`).FindStringSubmatch(strings.ReplaceAll(rest, "\n", " "))
				if m == nil {
					panic("bad declare: " + rest)
				}
				d := &Decl{}
				res := m[3]
				if k := strings.Index(res, " needs "); k >= 0 {
					d.pre = strings.TrimSpace(res[k+7:])
					res = res[:k]
				}
				d.res = strings.TrimSpace(res)
				for _, a := range splitTop(m[2], ',') {
					if strings.TrimSpace(a) != "" {
						d.args = append(d.args, strings.TrimSpace(a))
					}
				}
				if s.taken(m[1]) {
					return fmt.Errorf("%s:%d: %s declared twice", f, l.n, m[1])
				}
				s.decls[m[1]] = d
			case "define":
				k := strings.Index(rest, "(")
				name := strings.TrimSpace(rest[:k])
				e := matchParen(rest, k)
				d := &Define{}
				for _, p := range splitTop(rest[k+1:e], ',') {
					p = strings.TrimSpace(p)
					if p != "" {
						pp := strings.SplitN(p, ":", 2)
						d.params = append(d.params, strings.TrimSpace(pp[0]))
						if len(pp) > 1 {
							d.ptyp = append(d.ptyp, strings.TrimSpace(pp[1]))
						} else {
							d.ptyp = append(d.ptyp, "")
						}
					}
				}
				body := strings.TrimSpace(rest[e+1:])
				body = strings.TrimSpace(strings.TrimPrefix(body, "="))
				d.e = parseEx(body)
				if s.taken(name) {
					return fmt.Errorf("%s:%d: %s defined twice", f, l.n, name)
				}
				s.defs[name] = d
			case "fn", "extern", "lemma":
				cur = &FnSpec{kind: word, file: f, line: l.n}
				// header: name(params) [returns (..)] [props A,B] [flags]
				hdr := rest
				// find the parameter list: first '(' after the last '.' of the name
				k := 0
				if hdr[0] == '(' {
					k = matchParen(hdr, 0) + 1
				}
				p := strings.Index(hdr[k:], "(") + k
				cur.name = s.expand(strings.TrimSpace(hdr[:p]))
				e := matchParen(hdr, p)
				for _, a := range splitTop(hdr[p+1:e], ',') {
					a = strings.TrimSpace(a)
					if a == "" {
						continue
					}
					pp := strings.SplitN(a, ":", 2)
					cur.params = append(cur.params, strings.TrimSpace(pp[0]))
					if len(pp) > 1 {
						cur.ptypes = append(cur.ptypes, strings.TrimSpace(pp[1]))
					} else {
						cur.ptypes = append(cur.ptypes, "")
					}
				}
				tail := strings.TrimSpace(hdr[e+1:])
				if strings.HasPrefix(tail, "returns") {
					tail = strings.TrimSpace(tail[7:])
					e := matchParen(tail, 0)
					for _, a := range strings.Split(tail[1:e], ",") {
						if strings.TrimSpace(a) != "" {
							cur.results = append(cur.results, strings.TrimSpace(a))
						}
					}
					tail = strings.TrimSpace(tail[e+1:])
				}
				fl := strings.Fields(tail)
				for q := 0; q < len(fl); q++ {
					switch fl[q] {
					case "props":
						q++
						cur.props = strings.Split(fl[q], ",")
					case "use":
						cur.use = true
					case "aux":
						cur.aux = true
					case "own":
						cur.own = true
					case "nobytes":
						cur.nobytes = true
					case "nopanic":
						cur.nopanic = true
					default:
						panic("unknown flag " + fl[q])
					}
				}
				var mp map[string]*FnSpec
				switch word {
				case "fn":
					mp = s.fns
				case "extern":
					mp = s.externs
					cur.pkg = fileModule(f)
					if cur.pkg != "" {
						if mp[cur.pkg+":"+cur.name] != nil {
							panic("duplicate spec for " + cur.name)
						}
						mp[cur.pkg+":"+cur.name] = cur
						s.order = append(s.order, cur)
						continue
					}
				default:
					mp = s.lemmas
				}
				if mp[cur.name] != nil {
					panic("duplicate spec for " + cur.name)
				}
				mp[cur.name] = cur
				s.order = append(s.order, cur)
			default:
				panic("unknown top-level keyword " + word)
			}
			continue
		}
		if cur == nil {
			panic("clause outside a block")
		}
		// clause: gather continuation lines (not starting with a clause keyword)
		j := i + 1
		text := strings.TrimSpace(l.s)
		for j < len(lines) && (lines[j].s[0] == ' ' || lines[j].s[0] == '\t') && !isClauseStart(strings.TrimSpace(lines[j].s)) {
			text += " " + strings.TrimSpace(lines[j].s)
			j++
		}
		i = j
		word := strings.Fields(text)[0]
		rest := strings.TrimSpace(strings.TrimPrefix(text, word))
		c := Clause{text: rest, file: f, line: l.n}
		switch word {
		case "requires", "ensures", "assert", "panics", "maypanic":
			if m := regexp.MustCompile(`^\[([^\]]*)\]\s*`).FindStringSubmatch(rest); m != nil {
				c.label = m[1]
				rest = rest[len(m[0]):]
			}
			c.e = parseEx(rest)
			switch word {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "panics", "maypanic":
				cur.nopanic = true
				c.may = word == "maypanic"
				cur.panics = append(cur.panics, c)
			default:
				cur.hints = append(cur.hints, c)
			}
		case "equals":
			c.e = parseEx(rest)
			cur.equals = append(cur.equals, c)
		case "modifies":
			cur.hasMod = true
			for _, p := range splitTop(rest, ',') {
				p = strings.TrimSpace(p)
				if p == "nothing" || p == "" {
					continue
				}
				cur.modifies = append(cur.modifies, Clause{text: p, e: parseEx(p), file: f, line: l.n})
			}
		case "loopinv":
			if strings.HasPrefix(rest, "(") && strings.HasPrefix(strings.TrimSpace(rest[1:]), "$") {
				e := matchParen(rest, 0)
				for _, v := range splitTop(rest[1:e], ',') {
					pp := strings.SplitN(v, ":", 2)
					c.vars = append(c.vars, QVar{strings.TrimSpace(pp[0]), strings.TrimSpace(pp[1])})
				}
				rest = strings.TrimSpace(rest[e+1:])
			}
			c.e = parseEx(rest)
			cur.loopinvs = append(cur.loopinvs, c)
		default:
			panic("unknown clause " + word)
		}
	}
	return nil
}

func isClauseStart(l string) bool {
	w := strings.Fields(l)[0]
	switch w {
	case "requires", "ensures", "modifies", "loopinv", "assert", "equals", "panics", "maypanic":
		return true
	}
	return false
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses: " + s)
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if s[i] == sep && d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// ---- expressions ----

type Ex struct {
	op   string // id, num, str, call, field, index, un, bin, forall, exists, slice
	s    string
	args []*Ex
	vars []QVar
	trig [][]*Ex
}

type lexer struct {
	toks []string
	i    int
	src  string
}

var reTok = regexp.MustCompile(`^(?:\s+|("[^"]*")|(0x[0-9a-fA-F]+|[0-9]+)|([$A-Za-z_][A-Za-z0-9_$]*)|(<==>|==>|==|!=|<=|>=|&&|\|\||::|[-+*/%!<>()\[\].,:{}?&#]))`)

func lex(s string) *lexer {
	l := &lexer{src: s}
	for len(s) > 0 {
		m := reTok.FindStringSubmatch(s)
		if m == nil {
			panic("lex error near: " + s)
		}
		s = s[len(m[0]):]
		for _, g := range m[1:] {
			if g != "" {
				l.toks = append(l.toks, g)
			}
		}
	}
	return l
}

func (l *lexer) peek() string {
	if l.i < len(l.toks) {
		return l.toks[l.i]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.i++; return t }
func (l *lexer) expect(t string) {
	if l.next() != t {
		panic(fmt.Sprintf("expected %q near token %d (%q) of: %s", t, l.i-1, l.toks[min(l.i-1, len(l.toks)-1)], l.src))
	}
}

func parseEx(s string) *Ex {
	l := lex(s)
	e := l.expr(0)
	if l.peek() != "" {
		panic("trailing tokens at " + l.peek() + " in: " + s)
	}
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(minp int) *Ex {
	e := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < minp || p == 0 {
			return e
		}
		l.next()
		np := p + 1
		if op == "==>" {
			np = p
		}
		r := l.expr(np)
		e = &Ex{op: "bin", s: op, args: []*Ex{e, r}}
	}
}

func (l *lexer) unary() *Ex {
	switch l.peek() {
	case "!", "-", "*", "&":
		op := l.next()
		return &Ex{op: "un", s: op, args: []*Ex{l.unary()}}
	case "forall", "exists":
		op := l.next()
		e := &Ex{op: op}
		for {
			n := l.next()
			l.expect(":")
			t := ""
			d := 0
			for !(d == 0 && (l.peek() == "," || l.peek() == "::" || l.peek() == "{")) {
				tk := l.next()
				if tk == "" {
					panic("unterminated quantifier in " + l.src)
				}
				if tk == "[" || tk == "(" {
					d++
				}
				if tk == "]" || tk == ")" {
					d--
				}
				if strings.HasPrefix(t, "#") && tk != ")" && !strings.HasSuffix(t, "(") && t != "#" {
					t += " "
				}
				t += tk
			}
			e.vars = append(e.vars, QVar{n, t})
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		for l.peek() == "{" {
			l.next()
			var tr []*Ex
			for {
				tr = append(tr, l.expr(0))
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			e.trig = append(e.trig, tr)
		}
		l.expect("::")
		e.args = []*Ex{l.expr(0)}
		return e
	}
	return l.postfix()
}

func (l *lexer) postfix() *Ex {
	var e *Ex
	t := l.next()
	switch {
	case t == "(":
		e = l.expr(0)
		l.expect(")")
	case t == "":
		panic("unexpected end of: " + l.src)
	case t[0] >= '0' && t[0] <= '9':
		e = &Ex{op: "num", s: t}
	case t[0] == '"':
		e = &Ex{op: "str", s: t[1 : len(t)-1]}
	default:
		e = &Ex{op: "id", s: t}
	}
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Ex{op: "field", s: l.next(), args: []*Ex{e}}
		case "[":
			l.next()
			if l.peek() == ":" {
				l.next()
				hi := l.expr(0)
				l.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, {op: "num", s: "0"}, hi}}
				continue
			}
			i := l.expr(0)
			if l.peek() == ":" {
				l.next()
				var hi *Ex
				if l.peek() != "]" {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, i, hi}}
				continue
			}
			l.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, i}}
		case "(":
			l.next()
			c := &Ex{op: "call", args: []*Ex{e}}
			for l.peek() != ")" {
				c.args = append(c.args, l.argOrType(c))
				if l.peek() == "," {
					l.next()
				}
			}
			l.expect(")")
			e = c
		default:
			return e
		}
	}
}

// second argument of istype/as is a type, kept as text
func (l *lexer) argOrType(c *Ex) *Ex {
	isT := false
	if c.args[0].op == "id" {
		switch c.args[0].s {
		case "istype", "as":
			isT = len(c.args) == 2
		case "zero", "emptyset", "allmaps", "allelems", "allof", "fheap", "cells":
			isT = true
		case "mk":
			isT = len(c.args) == 1
		}
	}
	if isT {
		t := ""
		d := 0
		for !(d == 0 && (l.peek() == ")" || l.peek() == ",")) {
			tk := l.next()
			if tk == "(" || tk == "[" {
				d++
			}
			if tk == ")" || tk == "]" {
				d--
			}
			t += tk
		}
		return &Ex{op: "type", s: t}
	}
	return l.expr(0)
}

// fileModule: specs in 0*.spec apply to both modules, *shlib*.spec to shlib,
// all others to shuttermint.
func fileModule(f string) string {
	b := filepath.Base(f)
	if strings.Contains(b, "shlib") {
		return "shlib"
	}
	if strings.HasPrefix(b, "0") {
		return ""
	}
	return "shuttermint"
}

func (v *Verifier) extern(name string) *FnSpec {
	if sp := v.specs.externs[v.cur.module+":"+name]; sp != nil {
		return sp
	}
	return v.specs.externs[name]
}

// opaqueAt: the opaque type of this name declared for the module or for both.
func (s *Specs) opaqueAt(name, module string) *Opaque {
	if o := s.opaques[module+"|"+name]; o != nil {
		return o
	}
	return s.opaques["|"+name]
}

func (s *Specs) opaqueList(module string) []*Opaque {
	var r []*Opaque
	for _, k := range sortedKeys(s.opaques) {
		if strings.HasPrefix(k, module+"|") || strings.HasPrefix(k, "|") {
			r = append(r, s.opaques[k])
		}
	}
	return r
}

// fnAt: the contract of a repository function, when it belongs to this module.
func (s *Specs) fnAt(name, module string) *FnSpec {
	if sp := s.fns[name]; sp != nil && moduleOf(sp.name) == module {
		return sp
	}
	return nil
}

// taken tells whether a name is declared or defined already: all spec files
// share one table, so a second meaning would silently change the first.
func (s *Specs) taken(name string) bool {
	_, a := s.decls[name]
	_, b := s.defs[name]
	return a || b
}
