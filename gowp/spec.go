package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- syntax

type node struct {
	op   string // ident, int, str, err, call, field, index, store, with, bin, not, quant, ite, old, post
	name string
	kids []*node
	vars []qvar
	trig [][]*node
	ups  []upd2
	sort *Sort
}
type qvar struct {
	name string
	sort *Sort
}
type upd2 struct {
	path []string
	val  *node
}

type Clause struct {
	Kind  string // requires ensures returns updates modifies writes let assume
	Tags  []string
	Label string
	Name  string // returns/updates/let target
	E     *node
	Line  string
}

type Contract struct {
	Name     string
	Kind     string // func, iface, extern
	Params   []string
	Results  []string
	Clauses  []*Clause
	Modular  bool
	Trusted  bool
	Symbolic bool   // do not use the booted manager
	Variant  string // "plugins": use the manager with plugins attached
	Tags     []string
	File     string
	Src      string
	Fn       *ssa.Function
	Pures    []string
}

type Spec struct {
	w        *World
	ghosts   map[string]*Sort
	aux      map[string]bool
	fns      map[string]*Sort // uf -> result sort
	fnArgs   map[string][]*Sort
	defs     map[string]*defn
	funcs    map[string]*Contract // by spec name
	ifaces   map[string]*Contract // "pkg.Iface.Method"
	externs  map[string]*Contract // by ssa name
	funcvals map[string]*Contract // function values, by named type or field
	order    []*Contract
	byFn     map[*ssa.Function]*Contract
	missing  []*Contract
	elems    map[string][]*node
	lemmas   []*lemma
	likes    map[string]string
	extra    map[string][]*Clause
	guards   []*guard
}

type guard struct {
	Pkg, Struct string
	Fields      map[string]string // field -> mutex field
	Writes      map[string]string // field -> mutex field that writers hold as well
	Frozen      map[string]bool   // field -> the maps it holds are never changed in place
}

type lemma struct {
	Name string
	Tags []string
	E    *node
	ax   *Axiom // its statement, for use in other proofs
}

type defn struct {
	params []string
	body   *node
}

type specErr struct{ msg string }

func sfail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- lexer

type tok struct{ k, s string }

func lex(s string) []tok {
	var r []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				sfail("bad string %s", s[i:j+1])
			}
			r = append(r, tok{"str", u})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			r = append(r, tok{"int", s[i:j]})
			i = j
		case c == '@':
			j := i + 1
			for j < len(s) && (isIdent(s[j]) || s[j] == '.' || s[j] == '/') {
				j++
			}
			r = append(r, tok{"err", s[i+1 : j]})
			i = j
		case isIdent(c):
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			r = append(r, tok{"id", s[i:j]})
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"} {
				if strings.HasPrefix(s[i:], op) {
					r = append(r, tok{"op", op})
					i += len(op)
					goto next
				}
			}
			r = append(r, tok{"op", string(c)})
			i++
		next:
		}
	}
	return r
}

func isIdent(c byte) bool {
	return c == '_' || c == '\'' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

type parser struct {
	t   []tok
	i   int
	src string
}

func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{"eof", ""}
}
func (p *parser) is(s string) bool { t := p.peek(); return (t.k == "op" || t.k == "id") && t.s == s }
func (p *parser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.eat(s) {
		sfail("expected %q at %q in: %s", s, p.peek().s, p.src)
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.k != "id" {
		sfail("identifier expected at %q in: %s", t.s, p.src)
	}
	p.i++
	return t.s
}

func parseExpr(s string) *node {
	p := &parser{t: lex(s), src: s}
	n := p.expr()
	if p.i != len(p.t) {
		sfail("trailing %q in: %s", p.peek().s, s)
	}
	return n
}

// sortLookup finds the sort of a repository struct, pkg__Type.
var sortLookup func(pkg, name string) *Sort

func (p *parser) sort() *Sort {
	n := p.ident()
	switch n {
	case "Seq", "Opt":
		p.want("[")
		e := p.sort()
		p.want("]")
		if n == "Seq" {
			return Seq(e)
		}
		return Opt(e)
	case "Map":
		p.want("[")
		k := p.sort()
		p.want(",")
		v := p.sort()
		p.want("]")
		return MapS(k, v)
	case "Str":
		return SStr
	case "Int":
		return SInt
	case "Bool":
		return SBool
	case "Err":
		return SErr
	case "Any":
		return SAny
	case "Bytes":
		return SBytes
	}
	if s, ok := sortTab[n]; ok {
		return s
	}
	if s, ok := sortTab[strings.ReplaceAll(n, "__", ".")]; ok {
		return s
	}
	if i := strings.Index(n, "__"); i > 0 && sortLookup != nil {
		if s := sortLookup(n[:i], n[i+2:]); s != nil {
			return s
		}
	}
	return USort("U_" + n)
}

func (p *parser) expr() *node {
	if p.is("forall") || p.is("exists") {
		q := p.ident()
		n := &node{op: q}
		for {
			v := p.ident()
			p.want(":")
			n.vars = append(n.vars, qvar{v, p.sort()})
			if !p.eat(",") {
				break
			}
		}
		p.want("::")
		for p.eat("{") { // explicit triggers
			var tr []*node
			for {
				tr = append(tr, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.want("}")
			n.trig = append(n.trig, tr)
		}
		n.kids = []*node{p.expr()}
		return n
	}
	if p.is("if") {
		p.ident()
		c := p.expr()
		p.want("then")
		a := p.expr()
		p.want("else")
		b := p.expr()
		return &node{op: "ite", kids: []*node{c, a, b}}
	}
	l := p.imp()
	for p.eat("<==>") {
		l = &node{op: "bin", name: "<==>", kids: []*node{l, p.imp()}}
	}
	return l
}
func (p *parser) imp() *node {
	l := p.or()
	if p.eat("==>") {
		var r *node
		if p.is("forall") || p.is("exists") || p.is("if") {
			r = p.expr()
		} else {
			r = p.imp()
		}
		return &node{op: "bin", name: "==>", kids: []*node{l, r}}
	}
	return l
}
func (p *parser) or() *node {
	l := p.and()
	for p.eat("||") {
		l = &node{op: "bin", name: "||", kids: []*node{l, p.and()}}
	}
	return l
}
func (p *parser) and() *node {
	l := p.cmp()
	for p.eat("&&") {
		var r *node
		if p.is("forall") || p.is("exists") {
			r = p.expr()
		} else {
			r = p.cmp()
		}
		l = &node{op: "bin", name: "&&", kids: []*node{l, r}}
	}
	return l
}
func (p *parser) cmp() *node {
	l := p.addx()
	for _, op := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
		if p.is(op) {
			p.i++
			return &node{op: "bin", name: op, kids: []*node{l, p.addx()}}
		}
	}
	return l
}
func (p *parser) addx() *node {
	l := p.unary()
	for p.is("+") || p.is("-") {
		op := p.t[p.i].s
		p.i++
		l = &node{op: "bin", name: op, kids: []*node{l, p.unary()}}
	}
	return l
}
func (p *parser) unary() *node {
	if p.eat("!") {
		return &node{op: "not", kids: []*node{p.unary()}}
	}
	if p.eat("-") {
		return &node{op: "bin", name: "-", kids: []*node{{op: "int", name: "0"}, p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *node {
	n := p.primary()
	for {
		switch {
		case p.eat("."):
			n = &node{op: "field", name: p.ident(), kids: []*node{n}}
		case p.eat("["):
			i := p.expr()
			if p.eat(":=") {
				v := p.expr()
				p.want("]")
				n = &node{op: "store", kids: []*node{n, i, v}}
				continue
			}
			p.want("]")
			n = &node{op: "index", kids: []*node{n, i}}
		case p.is("with"):
			p.i++
			p.want("{")
			w := &node{op: "with", kids: []*node{n}}
			for {
				path := []string{p.ident()}
				for p.eat(".") {
					path = append(path, p.ident())
				}
				p.want("=")
				w.ups = append(w.ups, upd2{path, p.expr()})
				if !p.eat(",") {
					break
				}
			}
			p.want("}")
			n = w
		default:
			return n
		}
	}
}
func (p *parser) primary() *node {
	t := p.peek()
	p.i++
	switch t.k {
	case "int", "str", "err":
		return &node{op: t.k, name: t.s}
	case "op":
		if t.s == "(" {
			n := p.expr()
			p.want(")")
			return n
		}
	case "id":
		if p.eat("(") {
			n := &node{op: "call", name: t.s}
			if t.s == "empty" {
				n.sort = p.sort()
				p.want(")")
				return n
			}
			if t.s == "unbox" {
				n.sort = p.sort()
				p.want(",")
			}
			if !p.eat(")") {
				for {
					n.kids = append(n.kids, p.expr())
					if !p.eat(",") {
						break
					}
				}
				p.want(")")
			}
			return n
		}
		return &node{op: "ident", name: t.s}
	}
	sfail("unexpected %q in: %s", t.s, p.src)
	return nil
}

// ---------------------------------------------------------------- files

var topKw = map[string]bool{"ghost": true, "aux": true, "fn": true, "def": true, "axiom": true, "func": true, "iface": true, "extern": true, "funcval": true, "elem": true, "lemma": true, "like": true, "guard": true, "pre": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "returns": true, "updates": true, "let": true, "assume": true, "modular": true, "symbolic": true, "writes": true, "invariant": true, "trusted": true, "option": true, "define": true, "assert": true, "decreases": true}

func newSpec(w *World) *Spec {
	return &Spec{w: w, ghosts: map[string]*Sort{}, aux: map[string]bool{}, fns: map[string]*Sort{}, fnArgs: map[string][]*Sort{}, defs: map[string]*defn{}, funcs: map[string]*Contract{},
		ifaces: map[string]*Contract{}, externs: map[string]*Contract{}, funcvals: map[string]*Contract{}, byFn: map[*ssa.Function]*Contract{}, elems: map[string][]*node{}, likes: map[string]string{}, extra: map[string][]*Clause{}}
}

func (sp *Spec) loadDir(dir string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gspec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return e
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
	return nil
}

func (sp *Spec) parseFile(file, text string) {
	// join continuation lines
	var items []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		tl := strings.TrimSpace(l)
		if tl == "" {
			continue
		}
		w := firstWord(tl)
		if topKw[w] || clauseKw[w] {
			items = append(items, tl)
		} else {
			if len(items) == 0 {
				sfail("%s: text before first keyword: %s", file, tl)
			}
			items[len(items)-1] += " " + tl
		}
	}
	var cur *Contract
	for _, it := range items {
		w := firstWord(it)
		rest := strings.TrimSpace(it[len(w):])
		switch w {
		case "ghost", "aux":
			// aux: a ghost that records what a function did; functions
			// need not declare that they change it, and callers do not
			// know it after a call
			p := &parser{t: lex(rest), src: it}
			n := p.ident()
			p.want(":")
			sp.ghosts[n] = p.sort()
			sp.aux[n] = w == "aux"
		case "fn":
			p := &parser{t: lex(rest), src: it}
			n := p.ident()
			p.want("(")
			var as []*Sort
			if !p.eat(")") {
				for {
					as = append(as, p.sort())
					if !p.eat(",") {
						break
					}
				}
				p.want(")")
			}
			p.want(":")
			sp.fns[n] = p.sort()
			sp.fnArgs[n] = as
		case "def":
			p := &parser{t: lex(rest), src: it}
			n := p.ident()
			d := &defn{}
			p.want("(")
			if !p.eat(")") {
				for {
					d.params = append(d.params, p.ident())
					if !p.eat(",") {
						break
					}
				}
				p.want(")")
			}
			p.want("=")
			d.body = p.expr()
			if p.i != len(p.t) {
				sfail("trailing %q in: %s", p.peek().s, it)
			}
			if sp.defs[n] != nil {
				sfail("definition %s is given twice", n)
			}
			sp.defs[n] = d
		case "axiom":
			ks, rest2 := cutTags(rest)
			n := parseExpr(rest2)
			env := &senv{sp: sp, vars: map[string]*T{}}
			f := env.eval(n)
			axioms = append(axioms, &Axiom{Name: rest2, Keys: ks, F: f})
		case "lemma":
			tags, r := cutTags(rest)
			lab := ""
			if i := strings.Index(r, ":"); i > 0 {
				lab, r = strings.TrimSpace(r[:i]), r[i+1:]
			}
			l := &lemma{lab, tags, parseExpr(r), nil}
			// "label @a @b": once proved, used where the functions a and b occur
			if fs := strings.Fields(lab); len(fs) > 1 {
				l.Name = fs[0]
				env := &senv{sp: sp, vars: map[string]*T{}}
				l.ax = &Axiom{Name: r, F: env.eval(l.E)}
				for _, f := range fs[1:] {
					l.ax.Keys = append(l.ax.Keys, strings.TrimPrefix(f, "@"))
				}
				axioms = append(axioms, l.ax)
			}
			sp.lemmas = append(sp.lemmas, l)
		case "pre":
			// pre [tags] <interface method> label: expr, an extra obligation
			// at calls through the interface
			tags, r := cutTags(rest)
			i := strings.Index(r, " ")
			n := r[:i]
			r = strings.TrimSpace(r[i:])
			k := strings.Index(r, ":")
			sp.extra[n] = append(sp.extra[n], &Clause{Kind: "requires", Tags: tags, Label: strings.TrimSpace(r[:k]), E: parseExpr(r[k+1:]), Line: r})
		case "like":
			f := strings.Fields(rest)
			sp.likes[f[0]] = f[1]
		case "guard":
			// guard internal/mresolver.MResolver: field by mutex, ...
			i := strings.Index(rest, ":")
			n := strings.TrimSpace(rest[:i])
			k := strings.LastIndex(n, ".")
			g := &guard{Pkg: n[:k], Struct: n[k+1:], Fields: map[string]string{}, Writes: map[string]string{}, Frozen: map[string]bool{}}
			for _, part := range strings.Split(rest[i+1:], ",") {
				f := strings.Fields(part)
				g.Fields[f[0]] = f[2]
				if len(f) > 4 && f[3] == "writes" {
					g.Writes[f[0]] = f[4]
				}
				if f[len(f)-1] == "frozen" {
					g.Frozen[f[0]] = true
				}
			}
			sp.guards = append(sp.guards, g)
		case "elem":
			// elem <fn spec name> <param>: expr over param
			i := strings.Index(rest, " ")
			sp.elems[rest[:i]] = append(sp.elems[rest[:i]], parseExpr(rest[i+1:]))
		case "func", "iface", "extern", "funcval":
			cur = &Contract{Kind: w, File: file, Src: it}
			tags, r := cutTags(rest)
			cur.Tags = tags
			i := strings.Index(r, "(")
			for w == "extern" && strings.HasPrefix(r, "(") && i == 0 {
				// method name like (*pkg.T).M(args)
				k := strings.Index(r, ").")
				i = k + 2 + strings.Index(r[k+2:], "(")
			}
			cur.Name = strings.TrimSpace(r[:i])
			r = r[i:]
			k := strings.Index(r, ")")
			cur.Params = splitNames(r[1:k])
			r = strings.TrimSpace(r[k+1:])
			r = strings.Trim(r, "()")
			cur.Results = splitNames(r)
			switch w {
			case "func":
				if _, dup := sp.funcs[cur.Name]; dup {
					sfail("duplicate contract %s", cur.Name)
				}
				sp.funcs[cur.Name] = cur
				sp.order = append(sp.order, cur)
				// "F@plugins": F on a manager that plugins are attached to
				base, variant, _ := strings.Cut(cur.Name, "@")
				cur.Variant = variant
				cur.Fn = sp.w.findFn(base)
				if cur.Fn == nil {
					sp.missing = append(sp.missing, cur)
				} else if variant == "" {
					sp.byFn[cur.Fn] = cur
				}
			case "iface":
				sp.ifaces[cur.Name] = cur
			case "extern":
				sp.externs[cur.Name] = cur
			case "funcval":
				sp.funcvals[cur.Name] = cur
			}
		case "modular":
			cur.Modular = true
		case "symbolic":
			cur.Symbolic = true
		case "trusted":
			cur.Trusted = true
		case "option":
			cur.Pures = append(cur.Pures, strings.Fields(rest)...)
		default:
			tags, r := cutTags(rest)
			c := &Clause{Kind: w, Tags: tags, Line: r}
			switch w {
			case "ensures", "requires", "assume", "invariant", "define", "decreases", "assert":
				p := &parser{t: lex(r), src: r}
				// optional label
				if len(p.t) > 2 && p.t[0].k == "id" && p.t[1].s == ":" {
					c.Label = p.t[0].s
					p.i = 2
				}
				c.E = p.expr()
				if p.i != len(p.t) {
					sfail("trailing %q in: %s", p.peek().s, r)
				}
				if c.Label == "" {
					c.Label = fmt.Sprintf("%s%d", w, len(cur.Clauses))
				}
			case "returns", "updates", "let", "writes":
				i := strings.Index(r, "=")
				c.Name = strings.TrimSpace(r[:i])
				c.E = parseExpr(r[i+1:])
			case "modifies":
				for _, g := range splitNames(r) {
					cur.Clauses = append(cur.Clauses, &Clause{Kind: "modifies", Name: g})
				}
				continue
			}
			cur.Clauses = append(cur.Clauses, c)
		}
	}
}

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'a' && s[i] <= 'z') {
			if s[i] == ' ' || s[i] == '[' || s[i] == '\t' {
				return s[:i]
			}
			return "?"
		}
	}
	return s
}

func cutTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "[") {
		return nil, s
	}
	i := strings.Index(s, "]")
	return strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ',' || r == ' ' }), strings.TrimSpace(s[i+1:])
}

func splitNames(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
}

// ---------------------------------------------------------------- evaluation

type senv struct {
	sp            *Spec
	vars          map[string]*T
	ghost         map[string]*T
	oldG          map[string]*T
	post          map[string]*T // post-state values of parameters
	preSt, postSt *State
	lets          map[string]*node
	depth         int
	facts         *[]*T
	vals          map[string]*vref
	postVals      map[string]*vref
	ex            *Exec
}

func rootIdent(n *node) string {
	for n.op == "field" {
		n = n.kids[0]
	}
	if n.op == "ident" {
		return n.name
	}
	return "?"
}

var nilMark = mk("nilmark", "", SUnit)

func (e *senv) with(vars map[string]*T) *senv {
	n := *e
	n.vars = map[string]*T{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *senv) inOld() *senv {
	n := *e
	n.ghost = e.oldG
	n.post = nil
	return &n
}

func coerce(a, b *T) (*T, *T) {
	fix := func(n, o *T) *T {
		switch o.sort.Kind {
		case KOpt:
			return None(o.sort.Elem)
		case KSeq:
			return EmptySeq(o.sort.Elem)
		case KMap:
			return EmptyMap(o.sort.Key, o.sort.Val)
		}
		if o.sort == SErr {
			return NoErr
		}
		if o.sort == SAny {
			return NilAny
		}
		if o.sort == SBytes {
			return Const("nilbytes", SBytes)
		}
		sfail("nil compared with %s", o.sort.Name)
		return nil
	}
	if a == nilMark && b != nilMark {
		return fix(a, b), b
	}
	if b == nilMark && a != nilMark {
		return a, fix(b, a)
	}
	// auto-some: comparing an optional with a plain value
	if a.sort.Kind == KOpt && a.sort.Elem == b.sort {
		return a, Some(b)
	}
	if b.sort.Kind == KOpt && b.sort.Elem == a.sort {
		return Some(a), b
	}
	return a, b
}

func getZ(t *T) *T { // nil-safe value
	if t.sort.Kind != KOpt {
		return t
	}
	if t.op == "some" {
		return t.args[0]
	}
	return Ite(IsNone(t), zeroTerm(t.sort.Elem), Val(t))
}

func fieldOf(t *T, f string) *T {
	t = getZ(t)
	if t.sort.Kind != KStruct {
		sfail("field %s of sort %s", f, t.sort.Name)
	}
	i := t.sort.fieldIdx(f)
	if i < 0 {
		sfail("no field %s in %s", f, t.sort.Name)
	}
	if t.op == "ite" {
		// push selection inside: zero structs simplify
		return Ite(t.args[0], Sel(i, t.args[1]), Sel(i, t.args[2]))
	}
	return Sel(i, t)
}

func updPath(t *T, path []string, v *T) *T {
	if len(path) == 0 {
		if v == nilMark {
			return zeroTerm(t.sort)
		}
		if t.sort != v.sort {
			if t.sort.Kind == KOpt && t.sort.Elem == v.sort {
				return Some(v)
			}
			sfail("with: sort %s vs %s", t.sort.Name, v.sort.Name)
		}
		return v
	}
	if t.sort.Kind == KOpt {
		return Some(updPath(getZ(t), path, v))
	}
	i := t.sort.fieldIdx(path[0])
	if i < 0 {
		sfail("no field %s in %s", path[0], t.sort.Name)
	}
	var fs []*T
	for k := range t.sort.Fields {
		f := Sel(k, t)
		if k == i {
			f = updPath(f, path[1:], v)
		}
		fs = append(fs, f)
	}
	return MkStruct(t.sort, fs...)
}

func (e *senv) eval(n *node) *T {
	e.depth++
	switch n.op {
	case "int":
		return IntLit(n.name)
	case "str":
		return StrLit(n.name)
	case "err":
		return e.sp.sentinel(n.name)
	case "ident":
		if v, ok := e.vars[n.name]; ok {
			return v
		}
		switch n.name {
		case "true":
			return True
		case "false":
			return False
		case "nil":
			return nilMark
		}
		if l, ok := e.lets[n.name]; ok {
			return e.eval(l)
		}
		if r, ok := e.vals[n.name]; ok {
			return r.term()
		}
		if g, ok := e.ghost[n.name]; ok {
			return g
		}
		if s, ok := e.sp.ghosts[n.name]; ok {
			// not part of this state: arbitrary but fixed
			return Const("ghost."+n.name, s)
		}
		sfail("unknown name %s", n.name)
	case "not":
		return Not(e.eval(n.kids[0]))
	case "ite":
		a, b := coerce(e.eval(n.kids[1]), e.eval(n.kids[2]))
		return Ite(e.eval(n.kids[0]), a, b)
	case "forall", "exists":
		m := map[string]*T{}
		var bv []*T
		for _, v := range n.vars {
			b := BVar(v.name, v.sort)
			m[v.name] = b
			bv = append(bv, b)
		}
		body := e.with(m).eval(n.kids[0])
		if len(n.trig) > 0 {
			var trs [][]*T
			for _, tr := range n.trig {
				var ts []*T
				for _, t := range tr {
					ts = append(ts, e.with(m).eval(t))
				}
				trs = append(trs, ts)
			}
			return Quant(n.op, bv, body, trs...)
		}
		return Quant(n.op, bv, body, triggers(bv, body)...)
	case "field":
		if _, shadow := e.vars[rootIdent(n)]; !shadow {
			if r := e.resolve(n); r != nil {
				return r.term()
			}
		}
		return fieldOf(e.eval(n.kids[0]), n.name)
	case "index":
		a, i := e.eval(n.kids[0]), e.eval(n.kids[1])
		switch a.sort.Kind {
		case KMap:
			return Select(a, i)
		case KSeq:
			return At(a, i)
		}
		sfail("index into %s", a.sort.Name)
	case "store":
		a, i, v := e.eval(n.kids[0]), e.eval(n.kids[1]), e.eval(n.kids[2])
		if a.sort.Kind == KMap {
			if v == nilMark {
				v = None(a.sort.Val)
			} else if v.sort != Opt(a.sort.Val) {
				v = Some(v)
			}
			return Store(a, i, v)
		}
		return SetAt(a, i, v)
	case "with":
		t := e.eval(n.kids[0])
		for _, u := range n.ups {
			t = updPath(t, u.path, e.eval(u.val))
		}
		return t
	case "bin":
		return e.bin(n)
	case "call":
		return e.call(n)
	}
	sfail("cannot evaluate %s", n.op)
	return nil
}

func (e *senv) bin(n *node) *T {
	a := e.eval(n.kids[0])
	if n.name == "==>" && a == False {
		return True
	}
	if n.name == "&&" && a == False {
		return False
	}
	if n.name == "||" && a == True {
		return True
	}
	b := e.eval(n.kids[1])
	switch n.name {
	case "==>":
		return Imp(a, b)
	case "<==>":
		return Eq(a, b)
	case "&&":
		return And(a, b)
	case "||":
		return Or(a, b)
	case "==", "!=":
		a, b = coerce(a, b)
		if a.sort != b.sort {
			sfail("comparing %s with %s", a.sort.Name, b.sort.Name)
		}
		r := deepEq(a, b)
		if n.name == "!=" {
			return Not(r)
		}
		return r
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	case "+":
		if a.sort == SStr {
			return StrCat(a, b)
		}
		if a.sort.Kind == KSeq {
			if b == nilMark {
				return a
			}
			return Cat(a, b)
		}
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "in":
		if b.sort.Kind == KSeq {
			if b.sort.Elem != a.sort && b.sort.Elem.Kind == KOpt {
				a = Some(a)
			}
			return In(a, b)
		}
		if b.sort.Kind == KMap {
			return IsSome(Select(b, a))
		}
		sfail("in %s", b.sort.Name)
	}
	sfail("operator %s", n.name)
	return nil
}

// deepEq decomposes equalities over structures so that sequence
// extensionality applies field by field.
func deepEq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort.Kind == KStruct && (a.op == "mk" || b.op == "mk") {
		var cs []*T
		for i := range a.sort.Fields {
			cs = append(cs, deepEq(Sel(i, a), Sel(i, b)))
		}
		return And(cs...)
	}
	if a.sort.Kind == KOpt && (a.op == "some" || b.op == "some") {
		if b.op != "some" {
			a, b = b, a
		}
		if a.op == "some" {
			return deepEq(a.args[0], b.args[0])
		}
		if a.op == "none" {
			return False
		}
		return And(IsSome(a), deepEq(Val(a), b.args[0]))
	}
	if a.sort.Kind == KOpt && (a.op == "ite" || b.op == "ite") {
		if b.op == "ite" {
			a, b = b, a
		}
		if size(a) < 2000 {
			return And(Imp(a.args[0], deepEq(a.args[1], b)), Imp(Not(a.args[0]), deepEq(a.args[2], b)))
		}
	}
	return Eq(a, b)
}

func triggers(bv []*T, body *T) [][]*T {
	// candidate: smallest uf/select/inp/at terms covering all variables
	var c [][]*T
	seen := map[*T]bool{}
	var inner, all []*T
	collect(body, func(t *T) {
		inner = append(inner, t.bv...)
	})
	local := func(t *T) bool {
		for _, v := range inner {
			if mentionsT(t, v) {
				return true
			}
		}
		return false
	}
	collect(body, func(t *T) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "select", "at", "inp", "uf":
			ok := true
			for _, a := range t.args {
				collect(a, func(s *T) {
					switch s.op {
					case "ite", "and", "or", "not", "=", "forall", "exists", "<", "=>", "+", "-":
						if s.hasB {
							ok = false
						}
					}
				})
			}
			if ok && !local(t) {
				all = append(all, t)
			}
		}
	})
	covers := func(ts []*T) bool {
		for _, v := range bv {
			ok := false
			for _, t := range ts {
				if mentionsT(t, v) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, t := range all {
		if covers([]*T{t}) {
			// skip terms containing a smaller covering term? keep all
			c = append(c, []*T{t})
		}
	}
	if len(c) == 0 && len(bv) == 2 {
		for i := range all {
			for k := i + 1; k < len(all); k++ {
				if covers([]*T{all[i], all[k]}) {
					c = append(c, []*T{all[i], all[k]})
				}
			}
		}
	}
	if len(c) > 6 {
		c = c[:6]
	}
	return c
}

func (e *senv) call(n *node) *T {
	arg := func(i int) *T { return e.eval(n.kids[i]) }
	switch n.name {
	case "old":
		return e.inOld().eval(n.kids[0])
	case "post":
		if r := e.resolve(n); r != nil {
			return r.term()
		}
		if r := e.postVals[n.kids[0].name]; r != nil {
			return r.term()
		}
		sfail("no post value of %s", n.kids[0].name)
	case "global":
		return e.resolve(n).term()
	case "get":
		return getZ(arg(0))
	case "val":
		return Val(arg(0))
	case "some":
		return Some(arg(0))
	case "isnone":
		return IsNone(arg(0))
	case "issome":
		return IsSome(arg(0))
	case "len":
		a := arg(0)
		if a.sort.Kind == KSeq {
			return Len(a)
		}
		if a.sort.Kind == KMap {
			return mapLen(a)
		}
		return ufSimp("strlen", SInt, []*T{a})
	case "cat":
		return Cat(arg(0), arg(1))
	case "app":
		return App(arg(0), arg(1))
	case "inp":
		return InP(arg(0), arg(1), arg(2))
	case "strcat":
		r := arg(0)
		for i := 1; i < len(n.kids); i++ {
			r = StrCat(r, arg(i))
		}
		return r
	case "distinct":
		s := arg(0)
		i, j := BVar("i", SInt), BVar("j", SInt)
		return Forall([]*T{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, Len(s))), Not(Eq(At(s, i), At(s, j)))), []*T{At(s, i), At(s, j)})
	case "empty":
		return zeroTerm(n.sort)
	case "seq":
		var s *T
		for i := range n.kids {
			v := arg(i)
			if s == nil {
				s = EmptySeq(v.sort)
			}
			s = App(s, v)
		}
		return s
	case "metadata":
		// the single value of a request metadata key, "" when there is none
		r := e.resolve(n.kids[0])
		if r == nil || e.ex == nil {
			sfail("metadata of an unknown context")
		}
		c := e.ex.ctxOf(r.v)
		md := UF("ctx.md", MapS(SStr, Seq(SStr)), c.base)
		v := getZ(Select(md, ufSimp("lower", SStr, []*T{arg(1)})))
		return Ite(And(UF("ctx.hasmd", SBool, c.base), Eq(Len(v), Int(1))), At(v, Int(0)), StrLit(""))
	case "viper":
		// a setting as the named getter of the configuration returns it
		rs := map[string]*Sort{"GetBool": SBool, "GetInt": SInt, "GetString": SStr, "GetDuration": SInt}[arg(0).name]
		if rs == nil {
			sfail("viper getter %s", arg(0).name)
		}
		return UF("viper."+arg(0).name, rs, arg(1))
	case "errstr":
		return UF("errstr", SStr, arg(0))
	case "upper":
		return ufSimp("upper", SStr, []*T{arg(0)})
	case "proto_merge":
		return mergeTerm(arg(0), arg(1))
	case "unbox":
		// the value of the named type that an interface holds
		so := n.sort
		return UF("unbox."+so.Name, so, arg(0))
	case "box":
		if len(n.kids) == 1 { // a pointer to a struct
			a := arg(0)
			if a.sort.Kind != KOpt {
				a = Some(a)
			}
			return UF("box.ptr."+a.sort.Elem.Name, SAny, a)
		}
		return UF("box."+sanitize(strings.ReplaceAll(n.kids[0].name, "__", ".")), SAny, arg(1))
	}
	if d, ok := e.sp.defs[n.name]; ok {
		m := map[string]*T{}
		for i, p := range d.params {
			m[p] = arg(i)
		}
		if e.depth > 4000 {
			sfail("definition recursion")
		}
		return e.with(m).eval(d.body)
	}
	if s, ok := e.sp.fns[n.name]; ok {
		var as []*T
		for i := range n.kids {
			a := arg(i)
			if w := e.sp.fnArgs[n.name][i]; a == nilMark {
				a, _ = coerce(a, Const("x", w))
			} else if a.sort != w {
				if w.Kind == KOpt && w.Elem == a.sort {
					a = Some(a)
				} else {
					sfail("argument %d of %s has sort %s, want %s", i, n.name, a.sort.Name, w.Name)
				}
			}
			as = append(as, a)
		}
		return ufSimp(n.name, s, as)
	}
	sfail("unknown function %s", n.name)
	return nil
}

// global resolves path/pkg.Var.
func (sp *Spec) global(name string) *ssa.Global {
	i := strings.LastIndex(name, ".")
	pk, id := name[:i], name[i+1:]
	var best *ssa.Global
	for p, pkg := range sp.w.pkgs {
		if p == pk || strings.HasSuffix(p, "/"+pk) {
			if g := pkg.Var(id); g != nil {
				if best == nil || len(p) < len(best.Pkg.Pkg.Path()) {
					best = g
				}
			}
		}
	}
	return best
}

// sentinel resolves pkgname.ErrX or path/pkg.ErrX.
func (sp *Spec) sentinel(name string) *T {
	i := strings.LastIndex(name, ".")
	pk, id := name[:i], name[i+1:]
	var best *ssa.Global
	for p, pkg := range sp.w.pkgs {
		if p == pk || strings.HasSuffix(p, "/"+pk) {
			if g := pkg.Var(id); g != nil {
				if best == nil || len(p) < len(best.Pkg.Pkg.Path()) {
					best = g
				}
			}
		}
	}
	if best == nil {
		sfail("no global %s", name)
	}
	if isError(best.Type().(*types.Pointer).Elem()) {
		return sp.w.errGlobal(best)
	}
	sfail("%s is not an error", name)
	return nil
}

// contractFor finds the contract of a repo function.
func (w *World) contractFor(fn *ssa.Function) *Contract {
	if w.spec == nil {
		return nil
	}
	return w.spec.byFn[fn]
}
