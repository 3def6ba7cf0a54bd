package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// FnReport is what verifying one function produced.
type FnReport struct {
	Name    string
	Obls    []*Oblig
	Err     string // outside the verifier's reach
	Outs    int
	Inlined []string
	Used    []string
	Assumed []string
	NInv    int
	Loops   []string
	Steps   int
	Dur     time.Duration
	Bounded string
}

func hasTag(tags []string, t string) bool {
	for _, x := range tags {
		if x == t || t == "" {
			return true
		}
	}
	return false
}

func (k *Contract) allTags() []string {
	m := map[string]bool{}
	for _, t := range k.Tags {
		m[t] = true
	}
	for _, c := range k.Clauses {
		for _, t := range c.Tags {
			m[t] = true
		}
	}
	var r []string
	for t := range m {
		r = append(r, t)
	}
	sort.Strings(r)
	return r
}

func (c *Clause) tags(k *Contract) []string {
	if len(c.Tags) > 0 {
		return c.Tags
	}
	return k.Tags
}

// verifyFn symbolically executes a function under its contract and returns
// its proof obligations (not yet discharged).
func (w *World) verifyFn(k *Contract) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Name: k.Name}
	x := newExec(w)
	x.fnName = k.Name
	x.noModular[k.Name] = false
	x.curTags = k.allTags()
	for _, o := range k.Pures {
		if strings.HasPrefix(o, "inline:") {
			x.noModular[o[7:]] = true
		}
		if o == "locks" {
			x.lockDiscipline = true
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				rep.Err = "outside the verifier's reach: " + e.msg
			case specErr:
				rep.Err = "specification does not fit the code: " + e.msg
			default:
				if os.Getenv("GOWP_PANIC") != "" {
					panic(r)
				}
				rep.Err = fmt.Sprintf("verifier error: %v", r)
			}
		}
		rep.Inlined = sortedKeys(x.inlined)
		rep.Used = sortedKeys(x.used)
		rep.Assumed = sortedKeys(x.assumed)
		rep.NInv = x.nInv
		rep.Loops = x.loopInfo
		rep.Steps = x.steps
		rep.Dur = time.Since(t0)
		rep.Obls = x.obls
	}()
	fn := k.Fn
	x.nilRecv = hasOpt(k, "nilrecv") // what the receiver holds may be nil
	st := w.entryState(x)
	if k.Variant == "plugins" {
		if w.plugM == nil {
			w.doBootPlugins()
		}
		if w.plugErr != "" {
			rep.Err = "start-up with plugins could not be executed: " + w.plugErr
			return
		}
		old, oldM := w.boot, w.bootM
		w.boot, w.bootM = w.plugBoot, w.plugM
		defer func() { w.boot, w.bootM = old, oldM }()
		st = w.entryState(x)
		x.havocObj(st, w.plugPM.(*PtrV), "plug")
	}
	for _, o := range k.Pures {
		if strings.HasPrefix(o, "havoc:") {
			g := w.spec.global(o[6:])
			if g == nil {
				sfail("no package variable %s", o[6:])
			}
			delete(st.cache, "global:"+g.String())
			x.globalAddr(st, g)
		}
	}
	var args []Value
	var pt []types.Type
	for i, p := range fn.Params {
		pt = append(pt, p.Type())
		isRecv := i == 0 && fn.Signature.Recv() != nil
		args = append(args, x.param(st, k, p.Name(), p.Type(), isRecv))
	}
	for _, g := range sortedKeys(w.spec.ghosts) {
		st.ghost[g] = Const("ghost."+g, w.spec.ghosts[g])
	}
	e := x.callEnv(st, k, args, pt)
	e.oldG = e.ghost
	for _, c := range k.Clauses {
		if c.Kind == "decreases" {
			x.measure = e.eval(c.E)
		}
		if c.Kind == "requires" || c.Kind == "assume" || c.Kind == "define" {
			st.assume(e.eval(c.E))
		}
		if c.Kind == "assume" {
			x.assumed["assumed in "+k.Name+": "+c.Line] = true
		}
	}
	heldAtEntry := map[string]bool{}
	for _, o := range k.Pures {
		if strings.HasPrefix(o, "held:") {
			key := x.fieldLock(st, args[0], o[5:])
			st.cache[key] = "L"
			heldAtEntry[key] = true
		}
	}
	x.preState = st.clone()
	x.hintEnv, x.hintK = e, k
	x.tagGuards(st)
	// vacuity: the precondition must be satisfiable
	if r := prove(st.pc, False, 2000); r.Status == "unsat" {
		rep.Err = "the precondition is contradictory"
		return
	}
	outs := x.runFunc(st, fn, args, nil, nil)
	rep.Outs = len(outs)
	nret := 0
	if os.Getenv("GOWP_VAC") != "" {
		vacuity(k, outs)
	}
	for _, o := range outs {
		switch o.kind {
		case PANIC:
			tags := append([]string{"C33"}, k.Tags...)
			if hasOpt(k, "maypanic") {
				tags = []string{"C33"}
			}
			x.oblig(o.st, "no-panic", "no run-time panic: "+o.msg, tags, False, o.pos)
		case RET:
			nret++
			x.checkEnsures(k, e, o, args, pt)
			for _, v := range o.res {
				if g := guardedObj(o.st, v); g != nil {
					x.oblig(o.st, "guarded:"+g.guardName, g.guardName+" does not escape from under its lock", []string{"C24"}, False, o.pos)
				}
			}
			for key, v := range o.st.cache {
				if strings.HasPrefix(key, "lock:") && (v.(string) != "") != heldAtEntry[key] {
					x.oblig(o.st, "lock-released", "every lock is released on return: "+key, []string{"C24"}, False, o.pos)
				}
			}
		default:
			panic(unsupported("unexpected outcome"))
		}
	}
	if nret == 0 {
		x.oblig(x.preState, "returns", "the function can return", k.allTags(), False, "")
	}
	return
}

func (x *Exec) checkEnsures(k *Contract, e0 *senv, o Outcome, args []Value, pt []types.Type) {
	e := *e0
	e.vars = map[string]*T{}
	for n, v := range e0.vars {
		e.vars[n] = v
	}
	e.ghost = map[string]*T{}
	for g, v := range o.st.ghost {
		e.ghost[g] = v
	}
	e.postVals = map[string]*vref{}
	e.postSt = o.st
	for i, p := range k.Params {
		e.postVals[p] = &vref{x, o.st, args[i], pt[i], nil}
	}
	if len(k.Results) != len(o.res) {
		sfail("contract %s names %d results, the function returns %d", k.Name, len(k.Results), len(o.res))
	}
	for i, r := range k.Results {
		t := k.Fn.Signature.Results().At(i).Type()
		e.vals2(r, &vref{x, o.st, o.res[i], t, nil})
	}
	for _, c := range k.Clauses {
		switch c.Kind {
		case "assert": // an intermediate step of the argument
			g := e.eval(c.E)
			for i, part := range conjuncts(g) {
				x.oblig(o.st, fmt.Sprintf("step:%s.%d", c.Label, i), c.Line, k.allTags(), part, o.pos)
			}
			o.st.assume(g)
		case "ensures":
			g := e.eval(c.E)
			for i, part := range conjuncts(g) {
				n := c.Label
				if i > 0 {
					n += fmt.Sprintf(".%d", i)
				}
				x.oblig(o.st, "post:"+n, c.Line, c.tags(k), part, o.pos)
			}
		case "updates":
			v := e.inOld2().eval(c.E)
			if v == nilMark {
				v = zeroTerm(x.w.spec.ghosts[c.Name])
			}
			x.oblig(o.st, "updates:"+c.Name, c.Name+" = "+c.Line, c.tags(k), deepEq(o.st.ghost[c.Name], v), o.pos)
		case "returns":
			v := e.inOld2().eval(c.E)
			r := e.vals[c.Name].term()
			a, b := coerce(r, v)
			x.oblig(o.st, "returns:"+c.Name, c.Line, c.tags(k), deepEq(a, b), o.pos)
		case "writes":
			v := e.inOld2().eval(c.E)
			r := e.postVals[c.Name].term()
			a, b := coerce(r, v)
			x.oblig(o.st, "writes:"+c.Name, c.Line, c.tags(k), deepEq(a, b), o.pos)
		}
	}
	// what callers rely on: only the named fields of what the arguments point
	// to are changed
	if k.Modular {
		for i, p := range k.Params {
			wr := false
			var paths [][]string
			for _, c := range k.Clauses {
				wr = wr || c.Kind == "writes" && c.Name == p
				if c.Kind == "modifies" && strings.HasPrefix(c.Name, p+".") {
					paths = append(paths, strings.Split(c.Name, ".")[1:])
				}
			}
			if wr || !hasPtr(pt[i]) {
				continue
			}
			pre, ok1 := x.tryAbs(e0.preSt, args[i], pt[i])
			post, ok2 := x.tryAbs(o.st, args[i], pt[i])
			if !ok1 || !ok2 {
				x.assumed["argument "+p+" of "+k.Name+" is not changed beyond its contract (not checked)"] = true
				continue
			}
			for _, pa := range paths {
				pre = updPath(pre, pa, pathField(post, pa))
			}
			if pre != post {
				x.oblig(o.st, "frame:"+p, p+" changes only as declared", append([]string{"C11"}, k.allTags()...), deepEq(pre, post), o.pos)
			}
		}
	}
	// frame: ghosts not mentioned as modified stay
	mod := map[string]bool{}
	for _, c := range k.Clauses {
		if c.Kind == "modifies" || c.Kind == "updates" {
			mod[c.Name] = true
		}
	}
	for _, g := range sortedKeys(x.w.spec.ghosts) {
		if !mod[g] && !(x.w.spec.aux[g] && !k.Modular) && o.st.ghost[g] != e.oldG[g] {
			x.oblig(o.st, "frame:"+g, g+" is not modified", append([]string{"C11"}, k.allTags()...), Eq(o.st.ghost[g], e.oldG[g]), o.pos)
		}
	}
}

func (e *senv) vals2(n string, r *vref) {
	nv := map[string]*vref{}
	for k, v := range e.vals {
		nv[k] = v
	}
	nv[n] = r
	e.vals = nv
}

func (e *senv) inOld2() *senv {
	n := *e
	n.ghost = e.oldG
	return &n
}

func conjuncts(g *T) []*T {
	if g.op == "and" {
		var r []*T
		for _, a := range g.args {
			r = append(r, conjuncts(a)...)
		}
		return r
	}
	if g.op == "=>" {
		if ps := conjuncts(g.args[1]); len(ps) > 1 {
			var r []*T
			for _, a := range ps {
				r = append(r, conjuncts(Imp(g.args[0], a))...)
			}
			return r
		}
	}
	if g.op == "forall" {
		ps := conjuncts(g.args[0])
		if len(ps) > 1 {
			var r []*T
			for _, p := range ps {
				r = append(r, Forall(g.bv, p))
			}
			return r
		}
	}
	// an equivalence with a quantifier inside is proved in both directions
	if g.op == "=" && g.args[0].sort == SBool && (containsQ(g.args[0]) || containsQ(g.args[1])) {
		return []*T{Imp(g.args[0], g.args[1]), Imp(g.args[1], g.args[0])}
	}
	return []*T{g}
}

var qMemo = map[*T]bool{}
var qMu sync.Mutex

func containsQ(t *T) bool {
	qMu.Lock()
	defer qMu.Unlock()
	return hasQ(t)
}

func hasQ(t *T) bool {
	if r, ok := qMemo[t]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		r = r || hasQ(a)
	}
	qMemo[t] = r
	return r
}

// entryState is the state in which a function under contract starts: package
// initialisation and start-up registration have run; mutable package
// variables hold arbitrary values.
func (w *World) entryState(x *Exec) *State {
	st := w.boot.clone()
	for g := range w.mutable {
		delete(st.cache, "global:"+g.String())
	}
	for k := range st.cache {
		if strings.HasPrefix(k, "lock:") {
			delete(st.cache, k)
		}
	}
	st.trace = nil
	return st
}

// param makes an arbitrary value for a parameter.
func (x *Exec) param(st *State, k *Contract, name string, t types.Type, recv bool) Value {
	if recv && !k.Symbolic {
		if pt, ok := t.(*types.Pointer); ok && typeName(pt.Elem()) == "tree.Manager" {
			if x.w.bootM == nil {
				panic(unsupported("start-up could not be executed: " + x.w.bootErr))
			}
			x.havocManager(st)
			return x.w.bootM
		}
	}
	return x.symParam(st, name, t, recv, 0)
}

func (x *Exec) symParam(st *State, name string, t types.Type, recv bool, depth int) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := Const("p."+name, Opt(sortOf(u.Elem())))
		nilc := IsNone(c)
		if recv {
			nilc = False
			st.assume(Not(IsNone(c)))
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && !isOpaqueStruct(u.Elem()) && recv {
			sv := x.symStruct(st, name, u.Elem(), s, depth)
			o := st.alloc(u.Elem(), sv, name)
			o.pre = true
			return &PtrV{nilc: False, obj: o.id, elem: u.Elem()}
		}
		o := st.alloc(u.Elem(), &LazyV{Val(c), u.Elem()}, name)
		o.pre = true
		return &PtrV{nilc: nilc, obj: o.id, elem: u.Elem()}
	case *types.Struct:
		if recv && !isOpaqueStruct(t) {
			return x.symStruct(st, name, t, u, depth)
		}
	case *types.Interface:
		if typeName(t) == "context.Context" {
			return &IfaceV{nilc: False, val: &CtxV{base: Const("p."+name, SAny)}, static: t}
		}
		if isError(t) {
			return Const("p."+name, SErr)
		}
		if (recv || depth > 0) && !x.nilRecv {
			x.assumed["interface values held by the receiver are non-nil (set by its constructor)"] = true
			return &IfaceV{nilc: False, opaque: Const("p."+name, SAny), static: t}
		}
		c := Const("p."+name, SAny)
		return &IfaceV{nilc: Eq(c, NilAny), opaque: c, static: t}
	}
	c := Const("p."+name, sortOf(t))
	x.typeFacts(st, c, t)
	return x.conc(st, c, t)
}

func (x *Exec) symStruct(st *State, name string, t types.Type, u *types.Struct, depth int) Value {
	if depth > 3 {
		return x.conc(st, Const("p."+name, sortOf(t)), t)
	}
	s := &StructV{typ: t, f: make([]Value, u.NumFields())}
	for i := range s.f {
		f := u.Field(i)
		if !keepField(f) {
			continue
		}
		n := name + "." + f.Name()
		switch fu := f.Type().Underlying().(type) {
		case *types.Interface:
			s.f[i] = x.symParam(st, n, f.Type(), true, depth+1)
		case *types.Struct:
			if !isOpaqueStruct(f.Type()) && !strings.HasPrefix(protoOf(f.Type()), protoPath) {
				s.f[i] = x.symStruct(st, n, f.Type(), fu, depth+1)
				continue
			}
			s.f[i] = x.symParam(st, n, f.Type(), false, depth+1)
		case *types.Pointer:
			s.f[i] = x.symParam(st, n, f.Type(), false, depth+1)
		default:
			s.f[i] = x.symParam(st, n, f.Type(), false, depth+1)
		}
	}
	return s
}

func protoOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// havocManager makes the run-time state of the booted manager arbitrary.
func (x *Exec) havocManager(st *State) {
	p := x.w.bootM.(*PtrV)
	s := x.loadPtr(st, p).(*StructV)
	u := p.elem.Underlying().(*types.Struct)
	n := &StructV{typ: s.typ, f: append([]Value{}, s.f...)}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok {
			n.f[i] = Const("p.m."+f.Name(), sortOf(b))
		}
		if mp, ok := s.f[i].(*PtrV); ok && mp.nilc == False {
			x.havocObj(st, mp, "p.m."+f.Name())
		}
	}
	st.setContent(p.obj, n)
	st.heap[p.obj].pre = true
}

// havocObj makes the maps inside an object arbitrary.
func (x *Exec) havocObj(st *State, p *PtrV, name string) {
	s, ok := x.content(st, p.obj).(*StructV)
	if !ok {
		return
	}
	x.havocMaps(st, s, p.elem.Underlying().(*types.Struct), name)
}

func (x *Exec) havocMaps(st *State, s *StructV, u *types.Struct, name string) {
	for i := 0; i < u.NumFields(); i++ {
		if m, ok := s.f[i].(*MapV); ok && m.nilc == False {
			if _, isT := m.typ.Elem().Underlying().(*types.Signature); isT {
				continue
			}
			st.setContent(m.obj, Const(name+"."+u.Field(i).Name(), sortOf(m.typ)))
		}
		if n, ok := s.f[i].(*StructV); ok {
			if w, ok := n.typ.Underlying().(*types.Struct); ok {
				x.havocMaps(st, n, w, name+"."+u.Field(i).Name())
			}
		}
	}
}

// ---------------------------------------------------------------- discharge

var solveTimeout = 10000

func discharge(obls []*Oblig, deadline time.Time) {
	parallel(len(obls), func(i int) {
		o := obls[i]
		if o.Res.Status == "unsat" {
			return
		}
		if time.Now().After(deadline) {
			o.Res = Result{Status: "unknown", Out: "time budget exhausted"}
			return
		}
		o.Res = prove(o.As, o.Goal, solveTimeout)
	})
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// tryAbs is the term of a value, if it has one, without disturbing the state.
func (x *Exec) tryAbs(st *State, v Value, t types.Type) (r *T, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			r, ok = nil, false
		}
	}()
	r = x.abs(st.clone(), v, t)
	return r, r != nil
}

// pathField reads a field through optional values.
func pathField(t *T, path []string) *T {
	for _, f := range path {
		if t.sort.Kind == KOpt {
			t = Val(t)
		}
		i := t.sort.fieldIdx(f)
		if i < 0 {
			sfail("no field %s in %s", f, t.sort.Name)
		}
		t = Sel(i, t)
	}
	return t
}

// vacuity reports how many of the returning paths of a function can be taken
// as far as the solver can tell, and how many of those return no error.
func vacuity(k *Contract, outs []Outcome) {
	n, live, ok := 0, 0, 0
	for _, o := range outs {
		if o.kind != RET {
			continue
		}
		n++
		if prove(o.st.pc, False, 3000).Status == "unsat" {
			continue
		}
		live++
		if len(o.res) == 0 {
			ok++
			continue
		}
		e, is := o.res[len(o.res)-1].(*T)
		if !is || e.sort != SErr {
			ok++
			continue
		}
		if prove(append(append([]*T{}, o.st.pc...), Eq(e, NoErr)), False, 3000).Status != "unsat" {
			ok++
		}
	}
	fmt.Printf("VACUITY %s: %d returning paths, %d live, %d live without error\n", k.Name, n, live, ok)
}
