package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KU
	KOpt
	KStruct
	KSeq
	KMap
)

type Sort struct {
	Kind     SortKind
	Name     string // SMT name
	Elem     *Sort  // opt, seq
	Key, Val *Sort  // map
	Fields   []string
	FSorts   []*Sort
	// FType tells, for struct sorts, the unset ("default") value per field.
}

var sortTab = map[string]*Sort{}

func mkSort(s *Sort) *Sort {
	if o, ok := sortTab[s.Name]; ok {
		return o
	}
	sortTab[s.Name] = s
	return s
}

var (
	SBool  = mkSort(&Sort{Kind: KBool, Name: "Bool"})
	SInt   = mkSort(&Sort{Kind: KInt, Name: "Int"})
	SStr   = mkSort(&Sort{Kind: KU, Name: "Str"})
	SErr   = mkSort(&Sort{Kind: KU, Name: "Err"})
	SBytes = mkSort(&Sort{Kind: KU, Name: "Bytes"})
	SAny   = mkSort(&Sort{Kind: KU, Name: "Any"})
	SUnit  = mkSort(&Sort{Kind: KU, Name: "Unit"})
)

func USort(name string) *Sort { return mkSort(&Sort{Kind: KU, Name: name}) }

func Opt(e *Sort) *Sort {
	return mkSort(&Sort{Kind: KOpt, Name: "Opt_" + e.Name, Elem: e})
}
func Seq(e *Sort) *Sort {
	return mkSort(&Sort{Kind: KSeq, Name: "Seq_" + e.Name, Elem: e})
}
func MapS(k, v *Sort) *Sort {
	return mkSort(&Sort{Kind: KMap, Name: "Map_" + k.Name + "_" + v.Name, Key: k, Val: v})
}

func (s *Sort) fieldIdx(n string) int {
	for i, f := range s.Fields {
		if f == n {
			return i
		}
	}
	return -1
}

// SMT text of the sort when used in declarations.
func (s *Sort) smt() string {
	switch s.Kind {
	case KMap:
		return "(Array " + s.Key.smt() + " " + Opt(s.Val).smt() + ")"
	}
	return s.Name
}

// ---------------------------------------------------------------- terms

type T struct {
	op   string // operator
	name string // payload: constant name, uf name, literal, field index as string
	args []*T
	bv   []*T // bound variables of quantifiers
	trig [][]*T
	sort *Sort
	id   int
	hasB bool // mentions bound variables
}

var termTab = map[string]*T{}
var termN int

func mk(op, name string, s *Sort, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(s.Name)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &T{op: op, name: name, args: args, sort: s, id: termN}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
	}
	if op == "bvar" {
		t.hasB = true
	}
	termTab[k] = t
	return t
}

var freshN int

func Fresh(prefix string, s *Sort) *T {
	freshN++
	prefix = sanitize(prefix)
	return mk("const", fmt.Sprintf("%s!%d", prefix, freshN), s)
}
func Const(name string, s *Sort) *T { return mk("const", sanitize(name), s) }

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

var bvN int

func BVar(prefix string, s *Sort) *T {
	bvN++
	return mk("bvar", fmt.Sprintf("%s?%d", sanitize(prefix), bvN), s)
}

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
)

func Bool(b bool) *T {
	if b {
		return True
	}
	return False
}
func Int(n int64) *T       { return mk("int", strconv.FormatInt(n, 10), SInt) }
func IntLit(s string) *T   { return mk("int", s, SInt) }
func StrLit(s string) *T   { return mk("str", s, SStr) }
func ErrConst(n string) *T { return mk("errc", n, SErr) }

var NoErr = mk("errc", "nil", SErr)

func None(e *Sort) *T { return mk("none", "", Opt(e)) }
func Some(x *T) *T {
	if x.op == "val" {
		// some(val(x)) is only x when x is some: not simplified
	}
	return mk("some", "", Opt(x.sort), x)
}
func IsNone(x *T) *T {
	switch x.op {
	case "none":
		return True
	case "some":
		return False
	case "ite":
		a, b := IsNone(x.args[1]), IsNone(x.args[2])
		if a.op == "true" || a.op == "false" || b.op == "true" || b.op == "false" {
			return Ite(x.args[0], a, b)
		}
	}
	return mk("isnone", "", SBool, x)
}
func IsSome(x *T) *T { return Not(IsNone(x)) }
func Val(x *T) *T {
	if x.op == "some" {
		return x.args[0]
	}
	if x.op == "ite" {
		a, b := x.args[1], x.args[2]
		if a.op == "none" && b.op == "some" {
			return b.args[0]
		}
		if b.op == "none" && a.op == "some" {
			return a.args[0]
		}
		if a.op == "some" && b.op == "some" {
			return Ite(x.args[0], a.args[0], b.args[0])
		}
	}
	return mk("val", "", x.sort.Elem, x)
}

func MkStruct(s *Sort, fs ...*T) *T {
	// eta: mk(sel0(t), sel1(t), ...) == t
	if len(fs) > 0 && fs[0].op == "sel" {
		base := fs[0].args[0]
		ok := base.sort == s
		for i, f := range fs {
			if f.op != "sel" || f.name != strconv.Itoa(i) || f.args[0] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return mk("mk", "", s, fs...)
}
func Sel(i int, x *T) *T {
	if x.op == "mk" {
		return x.args[i]
	}
	if x.op == "ite" && (x.args[1].op == "mk" || x.args[2].op == "mk") {
		return Ite(x.args[0], Sel(i, x.args[1]), Sel(i, x.args[2]))
	}
	return mk("sel", strconv.Itoa(i), x.sort.FSorts[i], x)
}
func SelN(f string, x *T) *T {
	i := x.sort.fieldIdx(f)
	if i < 0 {
		panic(fmt.Sprintf("sort %s has no field %s", x.sort.Name, f))
	}
	return Sel(i, x)
}

func (t *T) lit() bool {
	switch t.op {
	case "int", "str", "true", "false", "errc", "none":
		return true
	}
	return false
}

func Not(a *T) *T {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func And(as ...*T) *T {
	seen := map[*T]bool{}
	var out []*T
	var add func(a *T) bool
	add = func(a *T) bool {
		if a.op == "true" || seen[a] {
			return true
		}
		if a.op == "false" {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(as ...*T) *T {
	seen := map[*T]bool{}
	var out []*T
	var add func(a *T) bool
	add = func(a *T) bool {
		if a.op == "false" || seen[a] {
			return true
		}
		if a.op == "true" {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Imp(a, b *T) *T {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return True
	}
	if b.op == "false" {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}

// NilAny is the nil interface value.
var NilAny = Const("nil.Any", SAny)

func boxed(t *T) bool { return t.op == "uf" && strings.HasPrefix(t.name, "box.") }

func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of different sorts: %s : %s  vs %s : %s", a, a.sort.Name, b, b.sort.Name))
	}
	if a.lit() && b.lit() {
		return False
	}
	if a.sort == SAny && (a == NilAny && boxed(b) || b == NilAny && boxed(a)) {
		return False // an interface that holds a value is not nil
	}
	if a.sort == SBool {
		switch {
		case a.op == "true":
			return b
		case a.op == "false":
			return Not(b)
		case b.op == "true":
			return a
		case b.op == "false":
			return Not(a)
		}
	}
	if a.sort.Kind == KOpt {
		if a.op == "none" {
			return IsNone(b)
		}
		if b.op == "none" {
			return IsNone(a)
		}
		if a.op == "some" && b.op == "some" {
			return Eq(a.args[0], b.args[0])
		}
	}
	if a.op == "mk" && b.op == "mk" {
		var cs []*T
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// ite with literal branches against a literal
	if b.op == "ite" && a.lit() {
		a, b = b, a
	}
	if a.op == "ite" && b.lit() {
		l, r := a.args[1], a.args[2]
		if l.lit() || r.lit() {
			return Ite(a.args[0], Eq(l, b), Eq(r, b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func Ite(c, a, b *T) *T {
	if c.op == "true" || a == b {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite of different sorts %s %s", a.sort.Name, b.sort.Name))
	}
	if a.sort == SBool {
		if a.op == "true" {
			return Or(c, b)
		}
		if a.op == "false" {
			return And(Not(c), b)
		}
		if b.op == "true" {
			return Or(Not(c), a)
		}
		if b.op == "false" {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if c.op == "isnone" && a.op == "none" && b == c.args[0] {
		return b
	}
	// ite(isnone x, none, some(val x)) == x
	if c.op == "isnone" && a.op == "none" && b.op == "some" && b.args[0].op == "val" && b.args[0].args[0] == c.args[0] {
		return c.args[0]
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", "", a.sort, c, a, b)
}

func intVal(t *T) (int64, bool) {
	if t.op == "int" {
		n, err := strconv.ParseInt(t.name, 10, 64)
		return n, err == nil
	}
	return 0, false
}

// linear split t = base + k
func linSplit(t *T) (*T, int64) {
	if n, ok := intVal(t); ok {
		return nil, n
	}
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := intVal(t.args[1]); ok {
			b, k := linSplit(t.args[0])
			return b, k + n
		}
	}
	return t, 0
}

func Add(a, b *T) *T {
	ba, ka := linSplit(a)
	bb, kb := linSplit(b)
	k := ka + kb
	var base *T
	switch {
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		x, y := ba, bb
		if x.id > y.id {
			x, y = y, x
		}
		base = mk("+", "", SInt, x, y)
	}
	if base == nil {
		return Int(k)
	}
	if k == 0 {
		return base
	}
	return mk("+", "", SInt, base, Int(k))
}
func Sub(a, b *T) *T {
	ba, ka := linSplit(a)
	bb, kb := linSplit(b)
	if ba == bb {
		return Int(ka - kb)
	}
	if bb == nil {
		return Add(a, Int(-kb))
	}
	return mk("-", "", SInt, a, b)
}
func Lt(a, b *T) *T {
	ba, ka := linSplit(a)
	bb, kb := linSplit(b)
	if ba == bb {
		return Bool(ka < kb)
	}
	// len(s) < 0 and similar
	if b.op == "int" && a.op == "len" && kb <= 0 {
		return False
	}
	return mk("<", "", SBool, a, b)
}
func Le(a, b *T) *T { return Not(Lt(b, a)) }

// ---- sequences
func EmptySeq(e *Sort) *T { return mk("empty", "", Seq(e)) }
func Len(s *T) *T {
	switch s.op {
	case "empty":
		return Int(0)
	case "app":
		return Add(Len(s.args[0]), Int(1))
	case "set":
		return Len(s.args[0])
	case "cat":
		return Add(Len(s.args[0]), Len(s.args[1]))
	case "ite":
		a, b := Len(s.args[1]), Len(s.args[2])
		if a == b {
			return a
		}
	}
	return mk("len", "", SInt, s)
}
func At(s, i *T) *T {
	if s.op == "app" {
		if Eq(i, Len(s.args[0])) == True {
			return s.args[1]
		}
		if n, ok := intVal(i); ok {
			if m, ok2 := intVal(Len(s.args[0])); ok2 && n < m {
				return At(s.args[0], i)
			}
		}
	}
	if s.op == "set" {
		if s.args[1] == i {
			return s.args[2]
		}
		if Eq(s.args[1], i) == False {
			return At(s.args[0], i)
		}
	}
	return mk("at", "", s.sort.Elem, s, i)
}
func App(s, x *T) *T { return mk("app", "", s.sort, s, x) }
func Cat(s, t *T) *T {
	if t.op == "empty" {
		return s
	}
	if s.op == "empty" {
		return t
	}
	if t.op == "app" {
		return App(Cat(s, t.args[0]), t.args[1])
	}
	return mk("cat", "", s.sort, s, t)
}
func SetAt(s, i, x *T) *T {
	if s.op == "app" && Eq(i, Len(s.args[0])) == True {
		return App(s.args[0], x)
	}
	return mk("set", "", s.sort, s, i, x)
}
func SubSeq(s, lo, hi *T) *T {
	if lo == Int(0) && hi == Len(s) {
		return s
	}
	if lo == Int(0) && hi == Int(0) {
		return EmptySeq(s.sort.Elem)
	}
	return mk("sub", "", s.sort, s, lo, hi)
}

// InP: x occurs among the first n elements of s
func InP(x, s, n *T) *T {
	if n == Int(0) || s.op == "empty" {
		return False
	}
	if s.op == "app" && n == Len(s) {
		return Or(InP(x, s.args[0], Len(s.args[0])), Eq(x, s.args[1]))
	}
	return mk("inp", "", SBool, x, s, n)
}
func In(x, s *T) *T { return InP(x, s, Len(s)) }

// ---- maps
func EmptyMap(k, v *Sort) *T { return mk("emptymap", "", MapS(k, v)) }
func Select(m, k *T) *T {
	switch m.op {
	case "emptymap":
		return None(m.sort.Val)
	case "store":
		e := Eq(m.args[1], k)
		if e == True {
			return m.args[2]
		}
		if e == False {
			return Select(m.args[0], k)
		}
	}
	return mk("select", "", Opt(m.sort.Val), m, k)
}
func Store(m, k, v *T) *T {
	if v.sort != Opt(m.sort.Val) {
		panic("store sort mismatch " + v.sort.Name + " into " + m.sort.Name)
	}
	if m.op == "store" && m.args[1] == k {
		m = m.args[0]
	}
	return mk("store", "", m.sort, m, k, v)
}

// fnNames: the abstract values of known functions
var fnNames = map[*T]string{}

func UF(name string, s *Sort, args ...*T) *T {
	if name == "fnname" && len(args) == 1 && fnNames[args[0]] != "" {
		return StrLit(fnNames[args[0]])
	}
	return mk("uf", name, s, args...)
}

func Quant(q string, bv []*T, body *T, trig ...[]*T) *T {
	if body.op == "true" || body.op == "false" {
		return body
	}
	key := q
	for _, b := range bv {
		key += "," + b.name
	}
	for _, g := range trig {
		key += ";"
		for _, t := range g {
			key += strconv.Itoa(t.id) + ","
		}
	}
	t := mk(q, key, SBool, body)
	t.bv = bv
	t.trig = trig
	// still "hasB" if it mentions outer bound variables
	in := map[*T]bool{}
	for _, b := range bv {
		in[b] = true
	}
	t.hasB = false
	var walk func(x *T) bool
	seen := map[*T]bool{}
	walk = func(x *T) bool {
		if !x.hasB || seen[x] {
			return false
		}
		seen[x] = true
		if x.op == "bvar" {
			return !in[x]
		}
		for _, b := range x.bv {
			in[b] = true // bound variables are never shared between binders
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	t.hasB = walk(body)
	return t
}
func Forall(bv []*T, body *T, trig ...[]*T) *T { return Quant("forall", bv, body, trig...) }
func Exists(bv []*T, body *T, trig ...[]*T) *T { return Quant("exists", bv, body, trig...) }

// ---------------------------------------------------------------- substitution

func Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var go_ func(t *T) *T
	go_ = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		nargs := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			nargs[i] = go_(a)
			if nargs[i] != a {
				ch = true
			}
		}
		var r *T
		var ntrig [][]*T
		if t.op == "forall" || t.op == "exists" {
			for _, g := range t.trig {
				var ng []*T
				for _, x := range g {
					y := go_(x)
					if y != x {
						ch = true
					}
					ng = append(ng, y)
				}
				ntrig = append(ntrig, ng)
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, nargs, ntrig)
		}
		memo[t] = r
		return r
	}
	return go_(t)
}

func rebuild(t *T, a []*T, trig [][]*T) *T {
	switch t.op {
	case "some":
		return Some(a[0])
	case "isnone":
		return IsNone(a[0])
	case "val":
		return Val(a[0])
	case "mk":
		return MkStruct(t.sort, a...)
	case "sel":
		i, _ := strconv.Atoi(t.name)
		return Sel(i, a[0])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "len":
		return Len(a[0])
	case "at":
		return At(a[0], a[1])
	case "app":
		return App(a[0], a[1])
	case "cat":
		return Cat(a[0], a[1])
	case "set":
		return SetAt(a[0], a[1], a[2])
	case "sub":
		return SubSeq(a[0], a[1], a[2])
	case "inp":
		return InP(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall", "exists":
		return Quant(t.op, t.bv, a[0], trig...)
	case "uf":
		return ufSimp(t.name, t.sort, a)
	}
	return mk(t.op, t.name, t.sort, a...)
}

// consts collects the constants (not literals) of t.
func collect(t *T, f func(*T)) {
	seen := map[*T]bool{}
	var w func(*T)
	w = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		f(x)
		for _, a := range x.args {
			w(a)
		}
	}
	w(t)
}

func mentions(t *T, s map[*T]bool) bool {
	r := false
	collect(t, func(x *T) {
		if s[x] {
			r = true
		}
	})
	return r
}

func size(t *T) int { n := 0; collect(t, func(*T) { n++ }); return n }

// ---------------------------------------------------------------- printing

func (t *T) String() string { return t.smt() }

var strIDs = map[string]int{}

func strName(s string) string {
	id, ok := strIDs[s]
	if !ok {
		id = len(strIDs)
		strIDs[s] = id
	}
	x := sanitize(s)
	if len(x) > 24 {
		x = x[:24]
	}
	return fmt.Sprintf("str.%d.%s", id, x)
}

func (t *T) smt() string {
	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *T) write(b *strings.Builder) {
	switch t.op {
	case "const":
		b.WriteString("|" + t.name + "|")
		return
	case "bvar":
		b.WriteString("|" + t.name + "|")
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "int":
		if strings.HasPrefix(t.name, "-") {
			b.WriteString("(- " + t.name[1:] + ")")
		} else {
			b.WriteString(t.name)
		}
		return
	case "str":
		b.WriteString("|" + strName(t.name) + "|")
		return
	case "errc":
		b.WriteString("|err." + t.name + "|")
		return
	case "none":
		b.WriteString("none_" + t.sort.Name)
		return
	case "empty":
		b.WriteString("empty_" + t.sort.Name)
		return
	case "emptymap":
		b.WriteString("((as const " + t.sort.smt() + ") none_" + Opt(t.sort.Val).Name + ")")
		return
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bv {
			b.WriteString("(|" + v.name + "| " + v.sort.smt() + ")")
		}
		b.WriteString(") ")
		if len(t.trig) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b)
		for _, g := range t.trig {
			b.WriteString(" :pattern (")
			for i, x := range g {
				if i > 0 {
					b.WriteByte(' ')
				}
				x.write(b)
			}
			b.WriteString(")")
		}
		if len(t.trig) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	var h string
	switch t.op {
	case "some":
		h = "some_" + t.sort.Name
	case "isnone":
		h = "(_ is none_" + t.args[0].sort.Name + ")"
	case "val":
		h = "val_" + t.args[0].sort.Name
	case "mk":
		h = "mk_" + t.sort.Name
		if len(t.args) == 0 {
			b.WriteString(h)
			return
		}
	case "sel":
		i, _ := strconv.Atoi(t.name)
		h = "|" + t.args[0].sort.Name + "." + t.args[0].sort.Fields[i] + "|"
	case "len", "at", "inp":
		s := t.args[0].sort
		if t.op == "inp" {
			s = t.args[1].sort
		}
		h = t.op + "_" + s.Name
	case "app", "cat", "set", "sub":
		h = t.op + "_" + t.sort.Name
	case "uf":
		h = "|" + t.name + "|"
		if len(t.args) == 0 {
			b.WriteString(h)
			return
		}
	default:
		h = t.op
	}
	b.WriteString("(" + h)
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b)
	}
	b.WriteString(")")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
