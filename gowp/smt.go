package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// An Axiom over uninterpreted functions, included in a query when all the
// functions it is keyed on occur there.
type Axiom struct {
	Name string
	Keys []string // uf names that must all occur
	F    *T
	off  bool // not to be used, as it is yet to be proved
}

var axioms []*Axiom

// litEval evaluates a uf on string literals (ground facts added to queries).
var litEval = map[string]func(s string) *T{}

type query struct {
	text string
	hash string
}

func buildQuery(as []*T, goal *T, timeoutMS int, model bool) string {
	roots := simplifyQuery(as, goal)
	seen := map[*T]bool{}
	ref := map[*T]int{}
	sorts := map[string]*Sort{}
	consts := map[string]*T{}
	strs := map[string]*T{}
	errs := map[string]*T{}
	ufs := map[string]*T{}
	var order []*T
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if _, ok := sorts[s.Name]; ok {
			return
		}
		sorts[s.Name] = s
		switch s.Kind {
		case KOpt, KSeq:
			addSort(s.Elem)
		case KMap:
			addSort(s.Key)
			addSort(s.Val)
			addSort(Opt(s.Val))
		case KStruct:
			for _, f := range s.FSorts {
				addSort(f)
			}
		}
	}
	var walk func(t *T)
	walk = func(t *T) {
		ref[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		addSort(t.sort)
		switch t.op {
		case "const":
			consts[t.name] = t
		case "str":
			strs[t.name] = t
		case "errc":
			errs[t.name] = t
		case "uf":
			if _, ok := ufs[t.name]; !ok {
				ufs[t.name] = t
			}
		case "forall", "exists":
			for _, v := range t.bv {
				addSort(v.sort)
			}
			for _, g := range t.trig {
				for _, x := range g {
					walk(x)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	// axioms
	inc := map[*Axiom]bool{}
	var axs []*T
	for changed := true; changed; {
		changed = false
		for _, a := range axioms {
			if inc[a] || a.off {
				continue
			}
			ok := true
			for _, k := range a.Keys {
				if _, has := ufs[k]; !has {
					ok = false
					break
				}
			}
			if ok {
				inc[a] = true
				changed = true
				axs = append(axs, a.F)
				walk(a.F)
			}
		}
	}
	// ground evaluation of ufs on literals
	var facts []*T
	var lits []string
	for s := range strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for _, name := range sortedKeys(litEval) {
		if u, ok := ufs[name]; ok {
			for _, s := range lits {
				if v := litEval[name](s); v != nil {
					f := Eq(UF(name, u.sort, StrLit(s)), v)
					// avoid the simplifier evaluating it away
					if f.op == "true" {
						continue
					}
					facts = append(facts, f)
					walk(f)
				}
			}
		}
	}
	// literals split at the separators in use, on their own and as the head of
	// a concatenation
	seps := map[string]bool{}
	heads := map[string]bool{}
	for _, t := range order {
		if t.op == "uf" && len(t.args) == 2 {
			if _, ok := splitUF[t.name]; ok && t.args[1].op == "str" && t.args[1].name != "" {
				seps[t.args[1].name] = true
			}
			if t.name == "strcat" && t.args[0].op == "str" {
				heads[t.args[0].name] = true
			}
		}
	}
	if len(seps) > 0 {
		add := func(f *T) {
			if f.op != "true" {
				facts = append(facts, f)
				walk(f)
			}
		}
		z := BVar("z", SStr)
		for _, sp := range sortedKeys(seps) {
			for _, h := range sortedKeys(heads) {
				if i := strings.Index(h, sp); i >= 0 {
					tail := z
					if rest := h[i+len(sp):]; rest != "" {
						tail = UF("strcat", SStr, StrLit(rest), z)
					}
					t := UF("strcat", SStr, StrLit(h), z)
					var l *T = UF("strcat", SStr, StrLit(sp), tail)
					if h[:i] != "" {
						l = UF("strcat", SStr, StrLit(h[:i]), l)
						if h != h[:i]+sp {
							continue
						}
					} else if tail == z {
						continue
					}
					add(Forall([]*T{z}, Eq(t, l), []*T{t}))
				}
			}
			lits = lits[:0]
			for s := range strs {
				lits = append(lits, s)
			}
			sort.Strings(lits)
			for _, s := range lits {
				for _, n := range sortedKeys(splitUF) {
					if u, ok := ufs[n]; ok && (n != "hasprefix" && n != "hassuffix") {
						v := litEval2[n](s, sp)
						if v.op == "true" {
							add(UF(n, u.sort, StrLit(s), StrLit(sp)))
						} else if v.op == "false" {
							add(Not(UF(n, u.sort, StrLit(s), StrLit(sp))))
						} else {
							add(Eq(UF(n, u.sort, StrLit(s), StrLit(sp)), v))
						}
					}
				}
			}
		}
	}
	// a literal followed by something is not a literal that starts differently
	for _, h := range sortedKeys(heads) {
		z := BVar("z", SStr)
		t := mk("uf", "strcat", SStr, StrLit(h), z)
		var ne []*T
		for _, l := range sortedKeys(strs) {
			if !strings.HasPrefix(l, h) {
				ne = append(ne, Not(mk("=", "", SBool, t, StrLit(l))))
			}
		}
		if len(ne) > 0 {
			f := Forall([]*T{z}, And(ne...), []*T{t})
			facts = append(facts, f)
			walk(f)
		}
	}
	// prefixes of strings known to be a literal followed by something
	if u, ok := ufs["hasprefix"]; ok {
		k, z := BVar("k", SStr), BVar("z", SStr)
		pre := map[string]bool{}
		for _, t := range order {
			if t.op == "uf" && t.name == "hasprefix" && t.args[1].op == "str" {
				pre[t.args[1].name] = true
			}
		}
		for _, h := range sortedKeys(heads) {
			for _, p := range sortedKeys(pre) {
				if len(p) > len(h) && strings.HasPrefix(p, h) {
					continue
				}
				t, hp := UF("strcat", SStr, StrLit(h), z), mk("uf", "hasprefix", u.sort, k, StrLit(p))
				v := hp
				if !strings.HasPrefix(h, p) {
					v = Not(hp)
				}
				f := Forall([]*T{k, z}, Imp(Eq(k, t), v), []*T{hp, t})
				facts = append(facts, f)
				walk(f)
			}
		}
	}
	var b strings.Builder
	// the limit that counts is one on the solver's work, so that outcomes
	// don't depend on how busy the machine is
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(set-option :rlimit %d)\n", wallLimit(timeoutMS), workLimit(timeoutMS))
	b.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.elim_unconstrained false)\n")
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString("(declare-sort Str 0)(declare-sort Err 0)(declare-sort Bytes 0)(declare-sort Any 0)(declare-sort Unit 0)\n")
	// sorts: uninterpreted first, then datatypes in dependency order
	var names []string
	for n := range sorts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := sorts[n]
		if s.Kind == KU && n != "Str" && n != "Err" && n != "Bytes" && n != "Any" && n != "Unit" {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", n)
		}
		if s.Kind == KSeq {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", n)
		}
	}
	done := map[string]bool{}
	var emitDT func(s *Sort)
	emitDT = func(s *Sort) {
		if done[s.Name] {
			return
		}
		done[s.Name] = true
		switch s.Kind {
		case KSeq:
			emitDT(s.Elem)
		case KMap:
			emitDT(s.Key)
			emitDT(Opt(s.Val))
		case KOpt:
			emitDT(s.Elem)
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((none_%s) (some_%s (val_%s %s)))))\n", s.Name, s.Name, s.Name, s.Name, s.Elem.smt())
		case KStruct:
			for _, f := range s.FSorts {
				emitDT(f)
			}
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", s.Name, s.Name)
			for i, f := range s.Fields {
				fmt.Fprintf(&b, " (|%s.%s| %s)", s.Name, f, s.FSorts[i].smt())
			}
			b.WriteString("))))\n")
		}
	}
	for _, n := range names {
		emitDT(sorts[n])
	}
	// constants
	for _, n := range sortedKeys(consts) {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", n, consts[n].sort.smt())
	}
	lits = lits[:0]
	for s := range strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for _, s := range lits {
		fmt.Fprintf(&b, "(declare-const |%s| Str)\n", strName(s))
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range lits {
			b.WriteString(" |" + strName(s) + "|")
		}
		b.WriteString("))\n")
	}
	en := sortedKeys(errs)
	for _, s := range en {
		fmt.Fprintf(&b, "(declare-const |err.%s| Err)\n", s)
	}
	if len(en) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range en {
			b.WriteString(" |err." + s + "|")
		}
		b.WriteString("))\n")
	}
	// uninterpreted functions
	for _, n := range sortedKeys(ufs) {
		u := ufs[n]
		fmt.Fprintf(&b, "(declare-fun |%s| (", n)
		for i, a := range u.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort.smt())
		}
		fmt.Fprintf(&b, ") %s)\n", u.sort.smt())
	}
	// an error made by a library is not one of the repository's own
	if _, ok := ufs["liberr"]; ok {
		for _, s := range en {
			if s == "nil" || strings.HasPrefix(s, "internal/") || strings.HasPrefix(s, "pkg/") || strings.HasPrefix(s, "cmd/") {
				fmt.Fprintf(&b, "(assert (not (|liberr| |err.%s|)))\n", s)
			}
		}
	}
	for _, n := range names {
		if s := sorts[n]; s.Kind == KSeq {
			b.WriteString(seqTheory(s))
		}
	}
	// shared closed subterms
	defs := map[*T]string{}
	nd := 0
	var wr func(t *T, top bool) string
	memo := map[*T]string{}
	wr = func(t *T, top bool) string {
		if !top {
			if d, ok := defs[t]; ok {
				return d
			}
		}
		if len(t.args) == 0 {
			return t.smt()
		}
		if t.hasB || t.op == "forall" || t.op == "exists" {
			return t.smt()
		}
		if m, ok := memo[t]; ok && !top {
			return m
		}
		// write with children through wr
		var s string
		sub := make([]string, len(t.args))
		for i, a := range t.args {
			sub[i] = wr(a, false)
		}
		head := headOf(t)
		s = "(" + head + " " + strings.Join(sub, " ") + ")"
		memo[t] = s
		return s
	}
	for _, t := range order {
		if !t.hasB && len(t.args) > 0 && ref[t] > 1 && t.sort != SUnit && t.op != "forall" && t.op != "exists" {
			txt := wr(t, true)
			if len(txt) > 40 {
				nd++
				d := fmt.Sprintf("d!%d", nd)
				fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", d, t.sort.smt(), txt)
				defs[t] = d
			}
		}
	}
	for _, a := range axs {
		fmt.Fprintf(&b, "(assert %s)\n", a.smt())
	}
	for _, a := range facts {
		fmt.Fprintf(&b, "(assert %s)\n", wr(a, false))
	}
	for _, r := range roots {
		fmt.Fprintf(&b, "(assert %s)\n", wr(r, false))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var splitUF = map[string]bool{"hassep": true, "cut1": true, "cut2": true}

func headOf(t *T) string {
	full := t.smtHead()
	return full
}

func (t *T) smtHead() string {
	switch t.op {
	case "some":
		return "some_" + t.sort.Name
	case "isnone":
		return "(_ is none_" + t.args[0].sort.Name + ")"
	case "val":
		return "val_" + t.args[0].sort.Name
	case "mk":
		return "mk_" + t.sort.Name
	case "sel":
		i := 0
		fmt.Sscanf(t.name, "%d", &i)
		return "|" + t.args[0].sort.Name + "." + t.args[0].sort.Fields[i] + "|"
	case "len", "at":
		return t.op + "_" + t.args[0].sort.Name
	case "inp":
		return t.op + "_" + t.args[1].sort.Name
	case "app", "cat", "set", "sub":
		return t.op + "_" + t.sort.Name
	case "uf":
		return "|" + t.name + "|"
	}
	return t.op
}

func seqTheory(s *Sort) string {
	r := strings.NewReplacer("@S", s.Name, "@E", s.Elem.smt())
	return r.Replace(`(declare-fun len_@S (@S) Int)
(declare-fun at_@S (@S Int) @E)
(declare-fun empty_@S () @S)
(declare-fun app_@S (@S @E) @S)
(declare-fun cat_@S (@S @S) @S)
(declare-fun set_@S (@S Int @E) @S)
(declare-fun sub_@S (@S Int Int) @S)
(declare-fun inp_@S (@E @S Int) Bool)
(declare-fun idx_@S (@E @S Int) Int)
(declare-fun seqeq_@S (@S @S) Bool)
(declare-fun diff_@S (@S @S) Int)
(assert (forall ((s @S)) (! (>= (len_@S s) 0) :pattern ((len_@S s)))))
(assert (= (len_@S empty_@S) 0))
(assert (forall ((s @S)) (! (=> (= (len_@S s) 0) (= s empty_@S)) :pattern ((len_@S s)))))
(assert (forall ((s @S)(x @E)) (! (and (= (len_@S (app_@S s x)) (+ (len_@S s) 1)) (= (at_@S (app_@S s x) (len_@S s)) x)) :pattern ((app_@S s x)))))
(assert (forall ((s @S)(x @E)(i Int)) (! (=> (and (<= 0 i) (< i (len_@S s))) (= (at_@S (app_@S s x) i) (at_@S s i))) :pattern ((at_@S (app_@S s x) i)) :pattern ((app_@S s x) (at_@S s i)))))
(assert (forall ((s @S)(i Int)(x @E)) (! (and (= (len_@S (set_@S s i x)) (len_@S s)) (=> (and (<= 0 i) (< i (len_@S s))) (= (at_@S (set_@S s i x) i) x))) :pattern ((set_@S s i x)))))
(assert (forall ((s @S)(i Int)(x @E)(j Int)) (! (=> (and (not (= i j)) (<= 0 j) (< j (len_@S s))) (= (at_@S (set_@S s i x) j) (at_@S s j))) :pattern ((at_@S (set_@S s i x) j)) :pattern ((set_@S s i x) (at_@S s j)))))
(assert (forall ((s @S)(t @S)) (! (= (len_@S (cat_@S s t)) (+ (len_@S s) (len_@S t))) :pattern ((cat_@S s t)))))
(assert (forall ((s @S)(t @S)(i Int)) (! (and (=> (and (<= 0 i) (< i (len_@S s))) (= (at_@S (cat_@S s t) i) (at_@S s i))) (=> (and (<= (len_@S s) i) (< i (+ (len_@S s) (len_@S t)))) (= (at_@S (cat_@S s t) i) (at_@S t (- i (len_@S s)))))) :pattern ((at_@S (cat_@S s t) i)))))
(assert (forall ((s @S)(lo Int)(hi Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (len_@S s))) (= (len_@S (sub_@S s lo hi)) (- hi lo))) :pattern ((sub_@S s lo hi)))))
(assert (forall ((s @S)(lo Int)(hi Int)(i Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (len_@S s)) (<= 0 i) (< i (- hi lo))) (= (at_@S (sub_@S s lo hi) i) (at_@S s (+ lo i)))) :pattern ((at_@S (sub_@S s lo hi) i)))))
(assert (forall ((s @S)(lo Int)(hi Int)) (! (=> (and (= lo 0) (= hi (len_@S s))) (= (sub_@S s lo hi) s)) :pattern ((sub_@S s lo hi)))))
(assert (forall ((x @E)(s @S)(i Int)(y @E)(n Int)) (! (=> (and (<= 0 i) (< i (len_@S s)) (= n (+ i 1))) (= (inp_@S x (set_@S s i y) n) (or (inp_@S x s i) (= x y)))) :pattern ((inp_@S x (set_@S s i y) n)))))
(assert (forall ((x @E)(s @S)(lo Int)(hi Int)(n Int)) (! (=> (and (= lo 0) (<= 0 hi) (<= hi (len_@S s)) (<= n hi)) (= (inp_@S x (sub_@S s lo hi) n) (inp_@S x s n))) :pattern ((inp_@S x (sub_@S s lo hi) n)))))
(assert (forall ((x @E)(s @S)(n Int)) (! (=> (inp_@S x s n) (and (<= 0 (idx_@S x s n)) (< (idx_@S x s n) n) (< (idx_@S x s n) (len_@S s)) (= (at_@S s (idx_@S x s n)) x))) :pattern ((inp_@S x s n)))))
(assert (forall ((s @S)(i Int)(n Int)(y @E)) (! (=> (and (<= 0 i) (< i n) (< i (len_@S s))) (inp_@S (at_@S s i) s n)) :pattern ((at_@S s i) (inp_@S y s n)))))
(assert (forall ((x @E)(s @S)(y @E)(n Int)) (! (and (=> (= n (+ (len_@S s) 1)) (= (inp_@S x (app_@S s y) n) (or (inp_@S x s (len_@S s)) (= x y)))) (=> (<= n (len_@S s)) (= (inp_@S x (app_@S s y) n) (inp_@S x s n)))) :pattern ((inp_@S x (app_@S s y) n)))))
(assert (forall ((x @E)(s @S)(t @S)(n Int)) (! (=> (= n (+ (len_@S s) (len_@S t))) (= (inp_@S x (cat_@S s t) n) (or (inp_@S x s (len_@S s)) (inp_@S x t (len_@S t))))) :pattern ((inp_@S x (cat_@S s t) n)))))
(assert (forall ((s @S)(t @S)) (! (and (=> (seqeq_@S s t) (= s t)) (=> (= s t) (seqeq_@S s t)) (=> (and (= (len_@S s) (len_@S t)) (=> (and (<= 0 (diff_@S s t)) (< (diff_@S s t) (len_@S s))) (= (at_@S s (diff_@S s t)) (at_@S t (diff_@S s t))))) (= s t))) :pattern ((seqeq_@S s t)))))
`)
}

// ---------------------------------------------------------------- running

type Result struct {
	Status string // unsat, sat, unknown, error
	Solver string
	Dur    time.Duration
	Out    string
}

var (
	solverCalls int64
	solverNanos int64
	qcache      sync.Map
)

// a persistent z3 process
type z3proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uses int
}

func startZ3(bin string) (*z3proc, error) {
	c := exec.Command(bin, "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<20)}, nil
}

func (p *z3proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var z3pool = make(chan *z3proc, 16)

func getZ3() (*z3proc, error) {
	select {
	case p := <-z3pool:
		return p, nil
	default:
		return startZ3("z3-new")
	}
}

func runZ3(q string, hard time.Duration) Result {
	atomic.AddInt64(&solverCalls, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverNanos, int64(time.Since(t0))) }()
	p, err := getZ3()
	if err != nil {
		return Result{Status: "error", Out: err.Error()}
	}
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		_, err := io.WriteString(p.in, "(reset)\n"+q+"(echo \"<<done>>\")\n")
		if err != nil {
			ch <- res{"", err}
			return
		}
		var b strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{b.String(), err}
				return
			}
			if strings.HasPrefix(l, "<<done>>") {
				ch <- res{b.String(), nil}
				return
			}
			b.WriteString(l)
		}
	}()
	select {
	case r := <-ch:
		d := time.Since(t0)
		if r.err != nil {
			p.kill()
			return Result{Status: "error", Out: r.s + r.err.Error(), Dur: d, Solver: "z3-new"}
		}
		p.uses++
		if p.uses > 500 {
			p.kill()
		} else {
			select {
			case z3pool <- p:
			default:
				p.kill()
			}
		}
		return Result{Status: status(r.s), Out: r.s, Dur: d, Solver: "z3-new"}
	case <-time.After(hard):
		p.kill()
		return Result{Status: "unknown", Out: "hard timeout", Dur: time.Since(t0), Solver: "z3-new"}
	}
}

func status(s string) string {
	if strings.Contains(s, "(error") {
		return "error"
	}
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat"
		case "sat":
			return "sat"
		case "unknown", "timeout":
			return "unknown"
		}
	}
	return "error"
}

// runExternal runs a one-shot solver (cross-check and fallback).
func runExternal(bin string, args []string, q string, to time.Duration) Result {
	atomic.AddInt64(&solverCalls, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverNanos, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = strings.NewReader(q)
	o, _ := c.CombinedOutput()
	r := Result{Status: status(string(o)), Out: string(o), Dur: time.Since(t0), Solver: bin}
	if ctx.Err() != nil {
		r.Status = "unknown"
	}
	return r
}

func forCVC5(q string) string {
	var out []string
	out = append(out, "(set-logic ALL)")
	for _, l := range strings.Split(q, "\n") {
		if strings.HasPrefix(l, "(set-option") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// prove checks that as entails goal.
func prove(as []*T, goal *T, timeoutMS int) Result {
	if goal.op == "true" {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	for _, a := range as {
		if a.op == "false" {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
		if a == goal {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	termMu.Lock()
	q := buildQuery(as, goal, timeoutMS, false)
	termMu.Unlock()
	return solveText(q, timeoutMS)
}

var termMu sync.Mutex

func workLimit(ms int) int {
	if n := ms * 1333; n > 250000 {
		return n
	}
	return 250000
}

func wallLimit(ms int) int {
	if n := ms * 6; n > 3000 {
		return n
	}
	return 3000
}

// solverStop ends a second attempt at a function.
var solverStop time.Time

func solveText(q string, timeoutMS int) Result {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(q)))
	if r, ok := qcache.Load(h); ok {
		return r.(Result)
	}
	if !solverStop.IsZero() && time.Now().After(solverStop) {
		return Result{Status: "unknown", Out: "time budget exhausted", Solver: "z3-new"}
	}
	t0 := time.Now()
	if qstat {
		q += "(get-info :rlimit)\n"
	}
	r := runZ3(q, time.Duration(wallLimit(timeoutMS))*time.Millisecond+4*time.Second)
	if qstat {
		rl := ""
		if i := strings.Index(r.Out, "(:rlimit "); i >= 0 {
			rl = strings.TrimRight(strings.TrimSpace(r.Out[i+9:]), ")")
		}
		fmt.Fprintf(os.Stderr, "Q %s %dms to=%d len=%d rlimit=%s\n", r.Status, time.Since(t0).Milliseconds(), timeoutMS, len(q), rl)
	}
	if d := os.Getenv("GOWP_QDIR"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%s-%d-%s.smt2", d, r.Status, time.Since(t0).Milliseconds(), h[:8]), []byte(q), 0644)
	}
	qcache.Store(h, r)
	return r
}

// simplifyQuery returns assertions equivalent to as and not(goal): known
// atoms are propagated, the negated goal is skolemised and closed terms that
// SMT patterns cannot contain are named.
func simplifyQuery(as []*T, goal *T) []*T {
	var roots []*T
	add := func(t *T) { roots = append(roots, t) }
	for _, a := range as {
		flattenInto(a, add)
	}
	if goal != nil {
		n := len(roots)
		flattenInto(Not(goal), add)
		for _, r := range roots[n:] {
			indexForms(r, add)
		}
	}
	known := map[*T]*T{}
	for round := 0; round < 3; round++ {
		n := len(known)
		for _, r := range roots {
			if !isQuantified(r) && r != False {
				if r.op == "not" {
					known[r.args[0]] = False
				} else {
					known[r] = True
				}
			}
		}
		if round > 0 && len(known) == n {
			break
		}
		memo := map[*T]*T{}
		var nroots []*T
		nadd := func(t *T) {
			if t != True {
				nroots = append(nroots, t)
			}
		}
		for _, r := range roots {
			a, neg := r, false
			if a.op == "not" {
				a, neg = a.args[0], true
			}
			if isQuantified(r) || len(a.args) == 0 {
				if len(a.args) == 0 {
					nadd(r)
				} else {
					flattenInto(substMemo(r, known, memo), nadd)
				}
				continue
			}
			nargs := make([]*T, len(a.args))
			ch := false
			for i, x := range a.args {
				nargs[i] = substMemo(x, known, memo)
				if nargs[i] != x {
					ch = true
				}
			}
			t := a
			if ch {
				t = rebuild(a, nargs, nil)
			}
			if neg {
				t = Not(t)
			}
			flattenInto(t, nadd)
		}
		roots = nroots
	}
	// name closed terms inside patterns
	names := map[*T]*T{}
	seen := map[*T]bool{}
	var look func(t *T)
	look = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			for _, g := range t.trig {
				for _, p := range g {
					namePattern(p, names)
				}
			}
		}
		for _, a := range t.args {
			look(a)
		}
	}
	for _, r := range roots {
		look(r)
	}
	if len(names) > 0 {
		memo := map[*T]*T{}
		for i, r := range roots {
			roots[i] = substMemo(r, names, memo)
		}
		var ts []*T
		for t := range names {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, t := range ts {
			roots = append(roots, Eq(names[t], t))
		}
	}
	return roots
}

// indexForms restates a quantified assertion over members x of a sequence
// for the elements at its positions, so that positions instantiate it.
func indexForms(t *T, out func(*T)) {
	var bv []*T
	var body *T
	switch {
	case t.op == "forall":
		bv, body = t.bv, t.args[0]
	case t.op == "not" && t.args[0].op == "exists":
		bv, body = t.args[0].bv, Not(t.args[0].args[0])
	default:
		return
	}
	var seqs []*T // inp terms
	collect(body, func(s *T) {
		if s.op == "inp" {
			for _, v := range bv {
				if s.args[0] == v {
					seqs = append(seqs, s)
				}
			}
		}
	})
	done := map[[2]*T]bool{}
	for _, p := range seqs {
		x, s, n := p.args[0], p.args[1], p.args[2]
		if s.hasB || n.hasB || done[[2]*T{x, s}] {
			continue
		}
		done[[2]*T{x, s}] = true
		i := BVar("ix", SInt)
		e := At(s, i)
		m := map[*T]*T{x: e}
		nb := Subst(body, m)
		rng := And(Le(Int(0), i), Lt(i, n))
		var vs []*T
		for _, v := range bv {
			if v == x {
				vs = append(vs, i)
			} else {
				vs = append(vs, v)
			}
		}
		if len(vs) > 1 {
			// the other variables keep their own triggers only if a
			// membership term is available for them as well
			trig := []*T{e}
			ok := true
			for _, v := range vs {
				if v == i {
					continue
				}
				found := false
				for _, q := range seqs {
					if q.args[0] == v && !q.args[1].hasB {
						k := BVar("ix", SInt)
						ek := At(q.args[1], k)
						nb = Subst(nb, map[*T]*T{v: ek})
						rng = And(rng, Le(Int(0), k), Lt(k, q.args[2]))
						trig = append(trig, ek)
						for w := range vs {
							if vs[w] == v {
								vs[w] = k
							}
						}
						found = true
						break
					}
				}
				ok = ok && found
			}
			if !ok {
				continue
			}
			out(Forall(vs, Imp(rng, And(nb, InP(At(s, i), s, n))), trig))
			return
		}
		out(Forall(vs, Imp(rng, And(nb, InP(e, s, n))), []*T{e}))
	}
}

func isQuantified(t *T) bool {
	if t.op == "not" {
		t = t.args[0]
	}
	return t.op == "forall" || t.op == "exists"
}

var skolemN int

// flattenInto splits conjunctions and skolemises top-level existentials.
func flattenInto(t *T, out func(*T)) {
	switch t.op {
	case "and":
		for _, a := range t.args {
			flattenInto(a, out)
		}
		return
	case "exists":
		flattenInto(skolem(t), out)
		return
	case "not":
		a := t.args[0]
		switch a.op {
		case "or":
			for _, d := range a.args {
				flattenInto(Not(d), out)
			}
			return
		case "=>":
			flattenInto(a.args[0], out)
			flattenInto(Not(a.args[1]), out)
			return
		case "forall":
			flattenInto(Not(skolem(a)), out)
			return
		}
	}
	if t != True {
		out(t)
	}
}

func skolem(q *T) *T {
	m := map[*T]*T{}
	for _, v := range q.bv {
		m[v] = Const(fmt.Sprintf("sk.%d.%s", q.id, strings.ReplaceAll(v.name, "?", ".")), v.sort)
	}
	return Subst(q.args[0], m)
}

func substMemo(t *T, m, memo map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	nargs := make([]*T, len(t.args))
	ch := false
	for i, a := range t.args {
		nargs[i] = substMemo(a, m, memo)
		if nargs[i] != a {
			ch = true
		}
	}
	r := t
	var ntrig [][]*T
	if t.op == "forall" || t.op == "exists" {
		for _, g := range t.trig {
			var ng []*T
			for _, x := range g {
				y := substMemo(x, m, memo)
				if y != x {
					ch = true
				}
				ng = append(ng, y)
			}
			ntrig = append(ntrig, ng)
		}
	}
	if ch {
		r = rebuild(t, nargs, ntrig)
	}
	memo[t] = r
	return r
}

// namePattern records the maximal closed subterms of pattern p that contain
// an operator SMT patterns may not use.
func namePattern(p *T, names map[*T]*T) {
	if len(p.args) == 0 {
		return
	}
	if !p.hasB {
		if badInPattern(p) {
			if names[p] == nil {
				names[p] = Const(fmt.Sprintf("pt.%d", p.id), p.sort)
			}
		}
		return
	}
	for _, a := range p.args {
		namePattern(a, names)
	}
}

func badInPattern(p *T) bool {
	bad := false
	collect(p, func(s *T) {
		switch s.op {
		case "ite", "and", "or", "not", "=>", "=", "<", "isnone", "+", "-", "*":
			bad = true
		}
	})
	return bad
}

var qstat = os.Getenv("GOWP_QSTAT") != ""
