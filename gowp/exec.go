package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

type Kind int

const (
	RET Kind = iota
	PANIC
	BACK
	EXIT
)

type Outcome struct {
	st     *State
	fr     *Frame
	kind   Kind
	res    []Value
	target *ssa.BasicBlock
	prev   *ssa.BasicBlock
	msg    string
	pos    string
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Value
	free    []Value
	defers  []deferred
	cuts    []*loopCut
	unroll  map[*ssa.BasicBlock]int
	depth   int
	caller  *Frame
	argsVal []Value
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	ins  *ssa.Defer
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.cuts = f.cuts[:len(f.cuts):len(f.cuts)]
	if f.unroll != nil {
		n.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			n.unroll[k] = v
		}
	}
	return &n
}

type Oblig struct {
	Name  string
	Tags  []string
	Desc  string
	As    []*T
	Goal  *T
	Pos   string
	Trace []string
	Res   Result
	Fn    string
}

type Exec struct {
	measure        *T // of the function under verification
	w              *World
	obls           []*Oblig
	mute           int
	safeAt         map[string]bool
	panics         []*Oblig
	depth          int
	steps          int
	maxSteps       int
	fnName         string
	tagsOf         func(tag string) bool
	used           map[string]bool // contracts / models used
	assumed        map[string]bool // assumptions used
	inlined        map[string]bool
	hints          []hint
	noFeas         bool
	lockDiscipline bool
	loopInfo       []string
	noModular      map[string]bool
	nilRecv        bool
	stackFns       []*ssa.Function
	hintEnv        *senv
	hintK          *Contract
	preState       *State
	booting        bool
	nInv           int
	curTags        []string
}

type hint struct {
	fn   string
	text string
}

func (x *Exec) oblig(st *State, name, desc string, tags []string, goal *T, pos string) {
	if x.mute > 0 {
		return
	}
	x.obls = append(x.obls, &Oblig{Name: name, Tags: tags, Desc: desc, As: append([]*T{}, st.pc...), Goal: goal, Pos: pos, Trace: st.trace, Fn: x.fnName})
}

func (x *Exec) pos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := i.Pos()
	fn := i.Parent()
	if !p.IsValid() && i.Block() != nil {
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
				break
			}
		}
	}
	pp := fn.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, repoDir()+"/"), pp.Line)
}

// feasible asks the solver whether the state with cond is possibly satisfiable.
func (x *Exec) feasible(st *State, cond *T) bool {
	if v, ok := st.known(cond); ok {
		return v
	}
	if x.noFeas {
		return true
	}
	r := prove(append(append([]*T{}, st.pc...), cond), False, feasTimeout)
	return r.Status != "unsat"
}

// ---------------------------------------------------------------- functions

func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Value, free []Value, caller *Frame) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, free: free, caller: caller, argsVal: args}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 40 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	x.stackFns = append(x.stackFns, fn)
	defer func() { x.stackFns = x.stackFns[:len(x.stackFns)-1] }()
	outs := x.runBlock(st, fr, fn.Blocks[0], nil)
	return outs
}

func (x *Exec) runBlock(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Outcome {
	for {
		// active loop cuts
		if n := len(fr.cuts); n > 0 {
			c := fr.cuts[n-1]
			if b == c.header && prev != nil && !c.entering {
				return []Outcome{{st: st, fr: fr, kind: BACK, target: b, prev: prev}}
			}
			if !c.blocks[b] {
				return []Outcome{{st: st, fr: fr, kind: EXIT, target: b, prev: prev}}
			}
			c.entering = false
		}
		loops := x.w.loopsOf(fr.fn)
		if lp, ok := loops[b]; ok && !(len(fr.cuts) > 0 && fr.cuts[len(fr.cuts)-1].header == b && fr.cuts[len(fr.cuts)-1].first) {
			if !x.unrollable(st, fr, lp, prev) {
				return x.cutLoop(st, fr, lp, prev)
			}
			if fr.unroll == nil {
				fr.unroll = map[*ssa.BasicBlock]int{}
			}
			fr.unroll[b]++
			if fr.unroll[b] > 300 {
				panic(unsupported("unroll limit in " + fr.fn.String()))
			}
		}
		if len(fr.cuts) > 0 {
			fr.cuts[len(fr.cuts)-1].first = false
		}
		x.doPhis(st, fr, b, prev)
		outs, nst, next, done := x.runInstrs(st, fr, b, firstNonPhi(b))
		if done {
			return outs
		}
		st = nst
		prev, b = b, next
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) doPhis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	var vals []Value
	var phis []*ssa.Phi
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			return // cut header entered with preset phis
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, fr, p.Edges[pi]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

// runInstrs executes b from instruction i. Either control moves to next
// (done=false) or all outcomes are final.
func (x *Exec) runInstrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) ([]Outcome, *State, *ssa.BasicBlock, bool) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			panic(unsupported("step limit exceeded"))
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.Jump:
			return nil, st, b.Succs[0], false
		case *ssa.If:
			c := x.val(st, fr, ins.Cond).(*T)
			if v, ok := st.known(c); ok {
				if v {
					return nil, st, b.Succs[0], false
				}
				return nil, st, b.Succs[1], false
			}
			var outs []Outcome
			ft := x.feasible(st, c)
			ff := x.feasible(st, Not(c))
			if ft && !ff {
				st.assume(c)
				return nil, st, b.Succs[0], false
			}
			if ff && !ft {
				st.assume(Not(c))
				return nil, st, b.Succs[1], false
			}
			if !ft && !ff {
				return nil, nil, nil, true
			}
			s2, f2 := st.clone(), fr.clone()
			st.assume(c)
			s2.assume(Not(c))
			p := x.pos(ins)
			st.trace = append(st.trace, p+": branch taken")
			s2.trace = append(s2.trace, p+": branch not taken")
			outs = append(outs, x.runBlock(st, fr, b.Succs[0], b)...)
			outs = append(outs, x.runBlock(s2, f2, b.Succs[1], b)...)
			return outs, nil, nil, true
		case *ssa.Return:
			var res []Value
			for _, r := range ins.Results {
				res = append(res, x.val(st, fr, r))
			}
			return []Outcome{{st: st, fr: fr, kind: RET, res: res, pos: x.pos(ins)}}, nil, nil, true
		case *ssa.Panic:
			return []Outcome{{st: st, fr: fr, kind: PANIC, msg: "explicit panic", pos: x.pos(ins)}}, nil, nil, true
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			outs := []Outcome{{st: st, fr: fr, kind: RET}}
			for k := len(ds) - 1; k >= 0; k-- {
				var nouts []Outcome
				for _, o := range outs {
					if o.kind != RET {
						nouts = append(nouts, o)
						continue
					}
					for _, c := range x.callValue(o.st, o.fr, ds[k].call, ds[k].fn, ds[k].args, ds[k].ins) {
						nouts = append(nouts, Outcome{st: c.st, fr: o.fr, kind: c.kind, msg: c.msg, pos: c.pos})
					}
				}
				outs = nouts
			}
			if len(outs) == 1 && outs[0].kind == RET && outs[0].st == st {
				continue
			}
			var all []Outcome
			for k, o := range outs {
				if o.kind != RET {
					all = append(all, o)
					continue
				}
				f := o.fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				os, nst, nx, done := x.runInstrs(o.st, f, b, i+1)
				if !done {
					os = x.runBlock(nst, f, nx, b)
				}
				all = append(all, os...)
			}
			return all, nil, nil, true
		case *ssa.Call:
			fv, args := x.callOperands(st, fr, ins.Common())
			outs := x.callValue(st, fr, ins.Common(), fv, args, ins)
			if len(outs) == 1 && outs[0].kind == RET {
				st = outs[0].st
				x.setRes(fr, ins, outs[0].res)
				continue
			}
			var all []Outcome
			for k, o := range outs {
				if o.kind != RET {
					o.fr = fr
					all = append(all, o)
					continue
				}
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				x.setRes(f, ins, o.res)
				os, nst, nx, done := x.runInstrs(o.st, f, b, i+1)
				if !done {
					os = x.runBlock(nst, f, nx, b)
				}
				all = append(all, os...)
			}
			return all, nil, nil, true
		default:
			outs := x.step(st, fr, ins)
			if outs == nil {
				continue
			}
			// several continuations or a panic
			var all []Outcome
			for k, o := range outs {
				if o.kind != RET {
					o.fr = fr
					all = append(all, o)
					continue
				}
				f := o.fr
				if f == nil {
					f = fr
					if k < len(outs)-1 {
						f = fr.clone()
					}
				}
				if v, ok := b.Instrs[i].(ssa.Value); ok && len(o.res) > 0 {
					f.env[v] = o.res[0]
				}
				os, nst, nx, done := x.runInstrs(o.st, f, b, i+1)
				if !done {
					os = x.runBlock(nst, f, nx, b)
				}
				all = append(all, os...)
			}
			return all, nil, nil, true
		}
	}
	panic("block without terminator")
}

func (x *Exec) setRes(fr *Frame, ins *ssa.Call, res []Value) {
	switch ins.Call.Signature().Results().Len() {
	case 0:
		if len(res) == 1 {
			fr.env[ins] = res[0]
		}
	case 1:
		fr.env[ins] = res[0]
	default:
		fr.env[ins] = TupleV(res)
	}
}

// ---------------------------------------------------------------- values

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return x.globalAddr(st, v)
	case *ssa.Function:
		return &FuncV{nilc: False, fn: v}
	case *ssa.Builtin:
		return &FuncV{nilc: False, name: v.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (x *Exec) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return IntLit(constant.ToInt(c.Value).ExactString())
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		}
		return Const("const."+c.Value.ExactString(), SAny)
	}
	panic(unsupported("const " + c.String()))
}

func (x *Exec) globalAddr(st *State, g *ssa.Global) Value {
	key := "global:" + g.String()
	if v, ok := st.cache[key]; ok {
		return v
	}
	et := g.Type().(*types.Pointer).Elem()
	var c Value
	if g.Name() == "init$guard" {
		c = False
	} else if isError(et) {
		c = x.w.errGlobal(g)
	} else if cv := x.w.constGlobal(x, st, g); cv != nil {
		c = cv
	} else if x.booting && g.Pkg != nil && isRepoPkg(g.Pkg.Pkg) {
		c = x.zero(st, et)
	} else {
		c = x.freshGlobal(st, g, et)
	}
	o := st.alloc(et, c, g.String())
	o.pre = true
	p := &PtrV{nilc: False, obj: o.id, elem: et}
	st.cache[key] = p
	return p
}

func (x *Exec) freshGlobal(st *State, g *ssa.Global, et types.Type) Value {
	return x.conc(st, Const("global."+g.String(), sortOf(et)), et)
}

func posStr(p token.Pos) string { return fmt.Sprint(p) }

// ---------------------------------------------------------------- memory

func (x *Exec) content(st *State, id int) Value {
	o := st.heap[id]
	if o == nil {
		panic(unsupported("dangling object"))
	}
	if l, ok := o.c.(*LazyV); ok {
		v := x.conc(st, l.t, l.typ)
		st.setContent(id, v)
		return v
	}
	return o.c
}

func (x *Exec) loadPtr(st *State, p *PtrV) Value {
	v := x.content(st, p.obj)
	for k, s := range p.path {
		switch c := v.(type) {
		case *StructV:
			v = c.f[s.field]
		case *ListV:
			n, ok := intVal(s.idx)
			if !ok {
				panic(unsupported("symbolic index into concrete array"))
			}
			if n < 0 || n >= int64(len(c.elems)) {
				panic(unsupported("index out of concrete array"))
			}
			v = c.elems[n]
		case *T:
			if s.idx != nil && c.sort.Kind == KSeq {
				et := x.elemTypeAt(st, p, k)
				v = x.elemOf(st, c, s.idx, et)
			} else if c.sort.Kind == KStruct {
				panic(unsupported("load through abstract struct"))
			} else if s.idx == nil && (c.sort == SAny || strings.HasPrefix(c.sort.Name, "U_")) {
				// a field of a value of another module: anything
				if f, ok := x.keyField(st, c, p, k); ok {
					v = f
					continue
				}
				v = x.freshVal(st, "field", x.elemTypeAt(st, p, k))
			} else {
				panic(unsupported("path into term"))
			}
		default:
			panic(unsupported(fmt.Sprintf("load path through %T", v)))
		}
	}
	return v
}

// elemOf reads element i of an abstract sequence; pointers obtained this way
// are shared with the abstract sequence and so are read-only.
func (x *Exec) elemOf(st *State, s, i *T, et types.Type) Value {
	e := At(s, i)
	key := fmt.Sprintf("elem:%d:%s", e.id, et.String())
	if v, ok := st.cache[key]; ok {
		return v
	}
	x.typeFacts(st, e, et)
	v := x.conc(st, e, et)
	if p, ok := v.(*PtrV); ok && p.nilc.op != "true" {
		x.content(st, p.obj)
		x.freezeVal(st, p)
	}
	st.cache[key] = v
	return v
}

func (x *Exec) elemTypeAt(st *State, p *PtrV, k int) types.Type {
	if k == len(p.path)-1 {
		return p.elem
	}
	t := st.heap[p.obj].typ
	for i := 0; i <= k; i++ {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.path[i].field).Type()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (x *Exec) storePtr(st *State, p *PtrV, v Value) {
	o := st.heap[p.obj]
	if o.frozen {
		panic(unsupported("write to an object shared with an abstract value"))
	}
	c := x.content(st, p.obj)
	st.setContent(p.obj, x.update(st, c, p.path, v, o))
	if len(p.path) > 0 && p.path[0].idx != nil {
		// in-place slice write: other slices that may share the backing
		for _, other := range st.heap[p.obj].shareOf {
			if oo, ok := st.heap[other]; ok {
				if t, ok := oo.c.(*T); ok {
					n := Fresh("shared", t.sort)
					st.assume(Eq(Len(n), Len(t)))
					st.setContent(other, n)
				} else {
					panic(unsupported("write to shared concrete backing array"))
				}
			}
		}
	}
}

func (x *Exec) update(st *State, c Value, path []step, v Value, o *Obj) Value {
	if len(path) == 0 {
		return v
	}
	switch cc := c.(type) {
	case *StructV:
		n := &StructV{typ: cc.typ, f: append([]Value{}, cc.f...)}
		n.f[path[0].field] = x.update(st, cc.f[path[0].field], path[1:], v, o)
		return n
	case *ListV:
		i, ok := intVal(path[0].idx)
		if !ok {
			// fall back to an abstract sequence
			s := x.listSeq(st, cc)
			if len(path) == 1 {
				x.freezeVal(st, v)
				return SetAt(s, path[0].idx, x.abs(st, v, cc.elem))
			}
			panic(unsupported("symbolic index write"))
		}
		if i < 0 || i >= int64(len(cc.elems)) {
			panic(unsupported("index write out of range"))
		}
		n := &ListV{elems: append([]Value{}, cc.elems...), elem: cc.elem}
		n.elems[i] = x.update(st, cc.elems[i], path[1:], v, o)
		return n
	case *T:
		if cc.sort.Kind == KSeq && len(path) == 1 {
			var et types.Type
			switch u := o.typ.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			default:
				panic(unsupported("seq store type"))
			}
			x.freezeVal(st, v)
			return SetAt(cc, path[0].idx, x.abs(st, v, et))
		}
	}
	panic(unsupported(fmt.Sprintf("store path through %T", c)))
}

// nilCheck: returns nil if p is certainly non-nil after assuming; otherwise
// produces a panic outcome for the nil case.
func (x *Exec) nilCheck(st *State, nilc *T, what string, ins ssa.Instruction) []Outcome {
	if nilc == False {
		return nil
	}
	if v, ok := st.known(nilc); ok {
		if v {
			return []Outcome{{st: st, kind: PANIC, msg: "nil dereference: " + what, pos: x.pos(ins)}}
		}
		x.safe("nil dereference: "+what, ins, "path condition")
		return nil
	}
	if !x.feasible(st, nilc) {
		x.safe("nil dereference: "+what, ins, "z3")
		st.assume(Not(nilc))
		return nil
	}
	ps := st.clone()
	ps.assume(nilc)
	st.assume(Not(nilc))
	return []Outcome{{st: ps, kind: PANIC, msg: "nil dereference: " + what, pos: x.pos(ins)}}
}

func (x *Exec) boundCheck(st *State, ok *T, what string, ins ssa.Instruction) []Outcome {
	return x.nilCheck2(st, Not(ok), what, ins)
}
func (x *Exec) nilCheck2(st *State, bad *T, what string, ins ssa.Instruction) []Outcome {
	if bad == False {
		return nil
	}
	if v, ok := st.known(bad); ok {
		if v {
			return []Outcome{{st: st, kind: PANIC, msg: what, pos: x.pos(ins)}}
		}
		x.safe(what, ins, "path condition")
		return nil
	}
	if !x.feasible(st, bad) {
		x.safe(what, ins, "z3")
		st.assume(Not(bad))
		return nil
	}
	ps := st.clone()
	ps.assume(bad)
	st.assume(Not(bad))
	return []Outcome{{st: ps, kind: PANIC, msg: what, pos: x.pos(ins)}}
}

// safe records a panic that was shown impossible where it could happen.
func (x *Exec) safe(what string, ins ssa.Instruction, by string) {
	if x.mute > 0 {
		return
	}
	pos := x.pos(ins)
	key := pos + what
	if x.safeAt[key] {
		return
	}
	if x.safeAt == nil {
		x.safeAt = map[string]bool{}
	}
	x.safeAt[key] = true
	x.obls = append(x.obls, &Oblig{Name: "no-panic", Tags: []string{"C33"}, Desc: "no run-time panic: " + what, Goal: True, Pos: pos, Fn: x.fnName, Res: Result{Status: "unsat", Solver: by}})
}

// withRes packs optional panic outcomes plus the continuing state.
func cont(st *State, fr *Frame, ins ssa.Value, v Value, panics []Outcome) []Outcome {
	if ins != nil {
		fr.env[ins] = v
	}
	if len(panics) == 0 {
		return nil
	}
	if len(panics) == 1 && panics[0].st == st {
		return panics
	}
	return append(panics, Outcome{st: st, kind: RET})
}

// ---------------------------------------------------------------- instructions

func (x *Exec) step(st *State, fr *Frame, ins ssa.Instruction) []Outcome {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := st.alloc(et, x.zero(st, et), i.Comment)
		fr.env[i] = &PtrV{nilc: False, obj: o.id, elem: et}
		return nil
	case *ssa.Store:
		p := x.val(st, fr, i.Addr).(*PtrV)
		v := x.val(st, fr, i.Val)
		pan := x.nilCheck(st, p.nilc, i.Addr.Name(), ins)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		x.guardStore(st, p, ins)
		if g, ok := i.Addr.(*ssa.Global); ok && x.booting && isError(g.Type().(*types.Pointer).Elem()) && x.w.errGlobal(g).op == "errc" {
			return cont(st, fr, nil, nil, pan) // sentinel errors keep their symbolic name
		}
		x.storePtr(st, p, v)
		if o := st.heap[p.obj]; o.pre && x.guardFor2(o.typ) {
			x.tagGuardsOf(st, p.obj)
		}
		return cont(st, fr, nil, nil, pan)
	case *ssa.UnOp:
		return x.unop(st, fr, i)
	case *ssa.BinOp:
		return x.binop(st, fr, i)
	case *ssa.FieldAddr:
		p := x.val(st, fr, i.X).(*PtrV)
		pan := x.nilCheck(st, p.nilc, describe(i.X), ins)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		et := i.Type().(*types.Pointer).Elem()
		return cont(st, fr, i, &PtrV{nilc: False, obj: p.obj, path: append(append([]step{}, p.path...), step{field: i.Field}), elem: et}, pan)
	case *ssa.Field:
		v := x.val(st, fr, i.X)
		switch s := v.(type) {
		case *StructV:
			fr.env[i] = s.f[i.Field]
		case *T:
			fr.env[i] = x.freshVal(st, "field", i.Type())
		default:
			panic(unsupported("field of " + fmt.Sprintf("%T", v)))
		}
		return nil
	case *ssa.IndexAddr:
		idx := x.val(st, fr, i.Index).(*T)
		switch b := x.val(st, fr, i.X).(type) {
		case *SliceV:
			pan := x.boundCheck(st, And(Le(Int(0), idx), Lt(idx, b.len)), "index out of range: "+describe(i.X), ins)
			if len(pan) == 1 && pan[0].st == st {
				return pan
			}
			return cont(st, fr, i, &PtrV{nilc: False, obj: b.obj, path: []step{{idx: Add(b.off, idx)}}, elem: b.elem}, pan)
		case *PtrV: // pointer to array
			et := i.Type().(*types.Pointer).Elem()
			fr.env[i] = &PtrV{nilc: False, obj: b.obj, path: append(append([]step{}, b.path...), step{idx: idx}), elem: et}
			return nil
		}
		panic(unsupported("indexaddr"))
	case *ssa.Index:
		switch b := x.val(st, fr, i.X).(type) {
		case *T: // string index
			return x.strIndex(st, fr, i, b, x.val(st, fr, i.Index).(*T))
		case *ListV:
			n, ok := intVal(x.val(st, fr, i.Index).(*T))
			if !ok || n >= int64(len(b.elems)) {
				panic(unsupported("array index"))
			}
			fr.env[i] = b.elems[n]
			return nil
		}
		panic(unsupported("index"))
	case *ssa.MakeInterface:
		v := x.val(st, fr, i.X)
		if isError(i.Type()) {
			fr.env[i] = x.boxError(st, v, i.X.Type())
			return nil
		}
		fr.env[i] = &IfaceV{nilc: False, dyn: i.X.Type(), val: v, static: i.Type()}
		return nil
	case *ssa.ChangeInterface:
		v := x.val(st, fr, i.X)
		if iv, ok := v.(*IfaceV); ok {
			if isError(i.Type()) {
				fr.env[i] = Fresh("err", SErr)
				return nil
			}
			n := *iv
			n.static = i.Type()
			fr.env[i] = &n
		} else if t, ok := v.(*T); ok && t.sort == SErr {
			fr.env[i] = &IfaceV{nilc: Eq(t, NoErr), dyn: types.Universe.Lookup("error").Type(), val: t, static: i.Type()}
		} else {
			panic(unsupported("changeinterface"))
		}
		return nil
	case *ssa.ChangeType:
		v := x.val(st, fr, i.X)
		if m, ok := v.(*MapV); ok {
			n := *m
			n.typ = i.Type().Underlying().(*types.Map)
			v = &n
		}
		if s, ok := v.(*StructV); ok {
			v = &StructV{typ: i.Type(), f: s.f}
		}
		fr.env[i] = v
		return nil
	case *ssa.Convert:
		v := x.val(st, fr, i.X)
		t, ok := v.(*T)
		if !ok {
			fr.env[i] = x.freshVal(st, "conv", i.Type())
			return nil
		}
		to := sortOf(i.Type())
		if t.sort == to {
			if to == SInt {
				fr.env[i] = x.intConv(st, t, i.X.Type(), i.Type())
			} else {
				fr.env[i] = t
			}
			return nil
		}
		if t.sort == SStr && to == SBytes {
			fr.env[i] = ufSimp("str2bytes", SBytes, []*T{t})
			return nil
		}
		if t.sort == SBytes && to == SStr {
			fr.env[i] = ufSimp("bytes2str", SStr, []*T{t})
			return nil
		}
		fr.env[i] = x.freshVal(st, "conv", i.Type())
		return nil
	case *ssa.MultiConvert:
		fr.env[i] = x.freshVal(st, "conv", i.Type())
		return nil
	case *ssa.Extract:
		t := x.val(st, fr, i.Tuple).(TupleV)
		fr.env[i] = t[i.Index]
		return nil
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		var c Value = EmptyMap(sortOf(mt.Key()), sortOf(mt.Elem()))
		if x.booting {
			c = &CMap{typ: mt}
		}
		o := st.alloc(i.Type(), c, "map")
		fr.env[i] = &MapV{nilc: False, obj: o.id, typ: mt}
		return nil
	case *ssa.MakeSlice:
		n := x.val(st, fr, i.Len).(*T)
		et := i.Type().Underlying().(*types.Slice).Elem()
		if isByteSlice(i.Type()) {
			fr.env[i] = Fresh("bytes", SBytes)
			return nil
		}
		pan := x.boundCheck(st, Le(Int(0), n), "makeslice: negative length", ins)
		if k, ok := intVal(n); ok && k <= 16 {
			l := &ListV{elem: et}
			for j := int64(0); j < k; j++ {
				l.elems = append(l.elems, x.zero(st, et))
			}
			o := st.alloc(i.Type(), l, "slice")
			return cont(st, fr, i, &SliceV{nilc: False, obj: o.id, off: Int(0), len: n, elem: et}, pan)
		}
		s := Fresh("mkslice", Seq(sortOf(et)))
		st.assume(Eq(Len(s), n))
		iv := BVar("i", SInt)
		st.assume(Forall([]*T{iv}, Imp(And(Le(Int(0), iv), Lt(iv, n)), Eq(At(s, iv), x.abs(st, x.zero(st, et), et))), []*T{At(s, iv)}))
		o := st.alloc(i.Type(), s, "slice")
		return cont(st, fr, i, &SliceV{nilc: False, obj: o.id, off: Int(0), len: n, elem: et}, pan)
	case *ssa.Slice:
		return x.sliceOp(st, fr, i)
	case *ssa.Lookup:
		return x.lookup(st, fr, i)
	case *ssa.MapUpdate:
		m := x.val(st, fr, i.Map).(*MapV)
		pan := x.nilCheck(st, m.nilc, "assignment to nil map", ins)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		x.checkGuard(st, fr, i.Map, true, ins)
		x.mapUpdate(st, m, x.val(st, fr, i.Key), x.val(st, fr, i.Value))
		return cont(st, fr, nil, nil, pan)
	case *ssa.Range:
		v := x.val(st, fr, i.X)
		m, ok := v.(*MapV)
		if !ok {
			panic(unsupported("range over string"))
		}
		x.checkGuard(st, fr, i.X, false, ins)
		pc := st.alloc(types.Typ[types.Int], Int(0), "rangepos")
		it := &IterV{mv: m, typ: m.typ, pos: pc.id}
		if o := st.heap[m.obj]; o.fwd == nil && len(m.path) == 0 {
			if cm, ok := o.c.(*CMap); ok {
				it.conc = cm
				fr.env[i] = it
				return nil
			}
		}
		it.m = x.mapTerm(st, m)
		it.enum = x.enumOf(st, it.m)
		fr.env[i] = it
		return nil
	case *ssa.Next:
		it := x.val(st, fr, i.Iter).(*IterV)
		pos := x.content(st, it.pos).(*T)
		if it.conc != nil {
			n, ok := intVal(pos)
			if !ok {
				panic(unsupported("concrete map range"))
			}
			if int(n) >= len(it.conc.keys) {
				fr.env[i] = TupleV{False, x.zero(st, it.typ.Key()), x.zero(st, it.typ.Elem())}
				return nil
			}
			fr.env[i] = TupleV{True, it.conc.keys[n], it.conc.vals[n]}
			st.setContent(it.pos, Int(n+1))
			return nil
		}
		// the range iterates the entries in enumeration order; entries
		// deleted meanwhile are skipped (their keys no longer present)
		x.guardAccess(st, it.mv, false, ins)
		ok := Lt(pos, Len(it.enum))
		k := At(it.enum, pos)
		ok = Lt(pos, Len(it.enum))
		var val Value
		cur := x.mapTerm(st, it.mv)
		if cur != it.m {
			// modified during iteration: value read from the current map
			val = x.mapValue(st, it.mv, cur, k)
		} else {
			val = x.mapValueP(st, it.mv, it.m, k, true)
		}
		fr.env[i] = TupleV{ok, x.conc(st, k, it.typ.Key()), val}
		st.setContent(it.pos, Add(pos, Int(1)))
		return nil
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.MakeClosure:
		f := &FuncV{nilc: False, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(st, fr, b))
		}
		fr.env[i] = f
		return nil
	case *ssa.Defer:
		fv, args := x.callOperands(st, fr, &i.Call)
		fr.defers = append(fr.defers, deferred{&i.Call, fv, args, i})
		return nil
	case *ssa.Go:
		x.assumed["goroutine started at "+x.pos(ins)+" is not followed"] = true
		return nil
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = x.freshVal(st, "chan", v.Type())
		}
		return nil
	}
	panic(unsupported(fmt.Sprintf("instruction %T: %s", ins, ins)))
}

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return "*" + describe(v.X)
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return describe(v.X) + "." + st.Field(v.Field).Name()
	case *ssa.Parameter:
		return v.Name()
	case *ssa.Call:
		return v.Call.Value.Name() + "()"
	}
	return v.Name()
}

func (x *Exec) enumOf(st *State, m *T) *T {
	e := Fresh("enum", Seq(m.sort.Key))
	k := BVar("k", m.sort.Key)
	st.assume(Forall([]*T{k}, Eq(In(k, e), IsSome(Select(m, k))), []*T{Select(m, k)}, []*T{In(k, e)}))
	i, j := BVar("i", SInt), BVar("j", SInt)
	st.assume(Forall([]*T{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, Len(e))), Not(Eq(At(e, i), At(e, j)))), []*T{At(e, i), At(e, j)}))
	i2 := BVar("i", SInt)
	st.assume(Forall([]*T{i2}, Imp(And(Le(Int(0), i2), Lt(i2, Len(e))), IsSome(Select(m, At(e, i2)))), []*T{At(e, i2)}))
	st.assume(Eq(Len(e), mapLen(m)))
	st.assume(Le(Int(0), Len(e)))
	return e
}

func mapLen(m *T) *T {
	if m.op == "emptymap" {
		return Int(0)
	}
	return UF("maplen_"+m.sort.Name, SInt, m)
}

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) []Outcome {
	v := x.val(st, fr, i.X)
	switch i.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			panic(unsupported("deref of " + fmt.Sprintf("%T", v)))
		}
		pan := x.nilCheck(st, p.nilc, describe(i.X), i)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		return cont(st, fr, i, x.loadPtr(st, p), pan)
	case token.ARROW:
		c, ok := v.(*ChanV)
		if !ok {
			panic(unsupported("receive from a channel made here"))
		}
		pos := x.content(st, c.pos).(*T)
		more := Lt(pos, Len(c.enum))
		e := x.conc(st, At(c.enum, pos), c.elem)
		if !i.CommaOk {
			z := At(c.enum, pos)
			fr.env[i] = x.conc(st, Ite(more, z, zeroTerm(z.sort)), c.elem)
			st.setContent(c.pos, Ite(more, Add(pos, Int(1)), pos))
			return nil
		}
		fr.env[i] = TupleV{e, more}
		st.setContent(c.pos, Add(pos, Int(1)))
		return nil
	case token.NOT:
		fr.env[i] = Not(v.(*T))
		return nil
	case token.SUB:
		if t, ok := v.(*T); ok && t.sort == SInt {
			fr.env[i] = Sub(Int(0), t)
			return nil
		}
	}
	fr.env[i] = x.freshVal(st, "unop", i.Type())
	return nil
}

func (x *Exec) intConv(st *State, t *T, from, to types.Type) Value {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && tb.Kind() == types.Int32 && fb.Kind() != types.Int32 {
		x.oblig(st, "no-overflow", "conversion to int32 does not overflow", []string{"C18"}, And(Le(Int(-2147483648), t), Le(t, Int(2147483647))), "")
	}
	return t
}

func (x *Exec) binop(st *State, fr *Frame, i *ssa.BinOp) []Outcome {
	a, b := x.val(st, fr, i.X), x.val(st, fr, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		c := x.eqVal(st, a, b, i)
		if i.Op == token.NEQ {
			c = Not(c)
		}
		fr.env[i] = c
		return nil
	}
	ta, ok1 := a.(*T)
	tb, ok2 := b.(*T)
	if !ok1 || !ok2 {
		fr.env[i] = x.freshVal(st, "binop", i.Type())
		return nil
	}
	if ta.sort == SInt && tb.sort == SInt {
		var r *T
		switch i.Op {
		case token.ADD:
			r = Add(ta, tb)
		case token.SUB:
			r = Sub(ta, tb)
		case token.LSS:
			fr.env[i] = Lt(ta, tb)
			return nil
		case token.LEQ:
			fr.env[i] = Le(ta, tb)
			return nil
		case token.GTR:
			fr.env[i] = Lt(tb, ta)
			return nil
		case token.GEQ:
			fr.env[i] = Le(tb, ta)
			return nil
		default:
			n1, k1 := intVal(ta)
			n2, k2 := intVal(tb)
			if k1 && k2 {
				c := constant.BinaryOp(constant.MakeInt64(n1), i.Op, constant.MakeInt64(n2))
				r = IntLit(constant.ToInt(c).ExactString())
			} else {
				r = UF("intop."+i.Op.String(), SInt, ta, tb)
			}
		}
		if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
			x.oblig(st, "no-overflow", "int32 arithmetic does not overflow", []string{"C18"}, And(Le(Int(-2147483648), r), Le(r, Int(2147483647))), x.pos(i))
		}
		fr.env[i] = r
		return nil
	}
	if ta.sort == SStr && tb.sort == SStr {
		switch i.Op {
		case token.ADD:
			fr.env[i] = StrCat(ta, tb)
			return nil
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			l := func(p, q *T) *T { return UF("strless", SBool, p, q) }
			switch i.Op {
			case token.LSS:
				fr.env[i] = l(ta, tb)
			case token.GTR:
				fr.env[i] = l(tb, ta)
			case token.LEQ:
				fr.env[i] = Or(Eq(ta, tb), l(ta, tb))
			default:
				fr.env[i] = Or(Eq(ta, tb), l(tb, ta))
			}
			return nil
		}
	}
	fr.env[i] = x.freshVal(st, "binop", i.Type())
	return nil
}

func (x *Exec) eqVal(st *State, a, b Value, i *ssa.BinOp) *T {
	switch p := a.(type) {
	case *T:
		if q, ok := b.(*T); ok {
			return Eq(p, q)
		}
		if q, ok := b.(*SliceV); ok && p.sort == SBytes { // bytes == nil
			_ = q
			return UF("isnil.Bytes", SBool, p)
		}
		if q, ok := b.(*IfaceV); ok && p.sort == SErr {
			if q.nilc == True {
				return Eq(p, NoErr)
			}
		}
	case *PtrV:
		if q, ok := b.(*PtrV); ok {
			if q.nilc == True {
				return p.nilc
			}
			if p.nilc == True {
				return q.nilc
			}
			same := p.obj == q.obj && fmt.Sprint(p.path) == fmt.Sprint(q.path)
			if same {
				return True
			}
			return And(p.nilc, q.nilc)
		}
	case *SliceV:
		if q, ok := b.(*SliceV); ok {
			if q.nilc == True {
				return p.nilc
			}
			if p.nilc == True {
				return q.nilc
			}
		}
	case *MapV:
		if q, ok := b.(*MapV); ok {
			if q.nilc == True {
				return p.nilc
			}
			if p.nilc == True {
				return q.nilc
			}
		}
	case *FuncV:
		if q, ok := b.(*FuncV); ok {
			if q.nilc == True {
				return p.nilc
			}
			return q.nilc
		}
	case *IfaceV:
		if q, ok := b.(*IfaceV); ok {
			if q.nilc == True {
				return p.nilc
			}
			if p.nilc == True {
				return q.nilc
			}
			return Eq(x.abs(st, p, p.static), x.abs(st, q, q.static))
		}
		if q, ok := b.(*T); ok && q.sort == SErr {
			return Fresh("ifaceeq", SBool)
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			return Eq(x.abs(st, p, p.typ), x.abs(st, q, q.typ))
		}
	}
	return Fresh("eq", SBool)
}

func (x *Exec) boxError(st *State, v Value, t types.Type) Value {
	switch v := v.(type) {
	case *PtrV:
		// pointer error types: identity matters only through ==
		e := Fresh("boxerr", SErr)
		st.assume(Not(Eq(e, NoErr)))
		return e
	case *T:
		e := UF("boxerr."+sanitize(typeName(t)), SErr, v)
		st.assume(Not(Eq(e, NoErr)))
		return e
	}
	e := Fresh("boxerr", SErr)
	st.assume(Not(Eq(e, NoErr)))
	return e
}

func (x *Exec) sliceOp(st *State, fr *Frame, i *ssa.Slice) []Outcome {
	b := x.val(st, fr, i.X)
	var lo, hi *T
	lo = Int(0)
	if i.Low != nil {
		lo = x.val(st, fr, i.Low).(*T)
	}
	if i.High != nil {
		hi = x.val(st, fr, i.High).(*T)
	}
	switch b := b.(type) {
	case *PtrV: // array
		l, ok := x.loadPtr(st, b).(*ListV)
		if !ok {
			panic(unsupported("slice of symbolic array"))
		}
		if hi == nil {
			hi = Int(int64(len(l.elems)))
		}
		if len(b.path) == 0 {
			fr.env[i] = &SliceV{nilc: False, obj: b.obj, off: lo, len: Sub(hi, lo), elem: l.elem}
			return nil
		}
		o := st.alloc(types.NewSlice(l.elem), l, "arrslice")
		fr.env[i] = &SliceV{nilc: False, obj: o.id, off: lo, len: Sub(hi, lo), elem: l.elem}
		return nil
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		// capacity is at least the length; slicing beyond len up to cap is
		// treated as a potential panic
		pan := x.boundCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, b.len)), "slice bounds out of range", i)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		return cont(st, fr, i, &SliceV{nilc: b.nilc, obj: b.obj, off: Add(b.off, lo), len: Sub(hi, lo), elem: b.elem}, pan)
	case *T:
		if b.sort == SStr {
			if hi == nil {
				hi = ufSimp("strlen", SInt, []*T{b})
			}
			n := ufSimp("strlen", SInt, []*T{b})
			pan := x.boundCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", i)
			if len(pan) == 1 && pan[0].st == st {
				return pan
			}
			if lv, ok := intVal(lo); ok && lv == 0 && hi == n {
				return cont(st, fr, i, b, pan)
			}
			return cont(st, fr, i, ufSimp("substr", SStr, []*T{b, lo, hi}), pan)
		}
		if lv, ok := intVal(lo); b.sort == SBytes && ok && lv == 0 && i.High == nil {
			fr.env[i] = b // the whole of it
			return nil
		}
		fr.env[i] = x.freshVal(st, "slice", i.Type())
		return nil
	}
	panic(unsupported("slice op"))
}

func (x *Exec) mapValue(st *State, m *MapV, mt *T, k *T) Value {
	return x.mapValueP(st, m, mt, k, false)
}

func (x *Exec) mapValueP(st *State, m *MapV, mt *T, k *T, present bool) Value {
	et := m.typ.Elem()
	c := Select(mt, k)
	switch et.Underlying().(type) {
	case *types.Map:
		// nested maps are addressed in place
		return &MapV{nilc: IsNone(c), obj: m.obj, path: append(append([]*T{}, m.path...), k), typ: et.Underlying().(*types.Map)}
	}
	z := x.abs(st, x.zero(st, et), et)
	e := Ite(IsNone(c), z, Val(c))
	if present {
		e = Val(c)
	}
	key := fmt.Sprintf("mapelem:%d:%s", e.id, et.String())
	if v, ok := st.cache[key]; ok {
		return v
	}
	x.typeFacts(st, e, et)
	v := x.conc(st, e, et)
	if p, ok := v.(*PtrV); ok && p.nilc.op != "true" {
		x.content(st, p.obj)
		x.freezeVal(st, p)
	}
	st.cache[key] = v
	return v
}

func (x *Exec) keyTerm(st *State, m *MapV, k Value) *T {
	return x.abs(st, k, m.typ.Key())
}

func (x *Exec) strIndex(st *State, fr *Frame, i ssa.Instruction, s, k *T) []Outcome {
	n := ufSimp("strlen", SInt, []*T{s})
	pan := x.boundCheck(st, And(Le(Int(0), k), Lt(k, n)), "index out of range", i)
	if len(pan) == 1 && pan[0].st == st {
		return pan
	}
	return cont(st, fr, i.(ssa.Value), UF("strat", SInt, s, k), pan)
}

func (x *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) []Outcome {
	v := x.val(st, fr, i.X)
	if t, ok := v.(*T); ok && t.sort == SStr {
		return x.strIndex(st, fr, i, t, x.val(st, fr, i.Index).(*T))
	}
	m := v.(*MapV)
	x.checkGuard(st, fr, i.X, false, i)
	k := x.keyTerm(st, m, x.val(st, fr, i.Index))
	if m.nilc != True {
		if o := st.heap[m.obj]; o.fwd == nil && len(m.path) == 0 {
			if cm, ok := o.c.(*CMap); ok {
				for j := range cm.keys {
					e := Eq(cm.keys[j], k)
					if e == True {
						x.setLookup(fr, i, cm.vals[j], True)
						return nil
					}
					if e != False {
						panic(unsupported("symbolic key into concrete map"))
					}
				}
				x.setLookup(fr, i, x.zero(st, m.typ.Elem()), False)
				return nil
			}
		}
	}
	mt := x.mapTerm(st, m)
	c := Select(mt, k)
	val := x.mapValue(st, m, mt, k)
	if mv, ok := val.(*MapV); ok {
		root := m
		o := st.heap[root.obj]
		_ = o
		if m.nilc == True {
			mv.nilc = True
		}
	}
	x.setLookup(fr, i, val, IsSome(c))
	return nil
}

func (x *Exec) setLookup(fr *Frame, i *ssa.Lookup, v Value, ok *T) {
	if i.CommaOk {
		fr.env[i] = TupleV{v, ok}
	} else {
		fr.env[i] = v
	}
}

func (x *Exec) mapUpdate(st *State, m *MapV, k, v Value) {
	o := st.heap[m.obj]
	if o.fwd == nil && len(m.path) == 0 {
		kt := x.keyTerm(st, m, k)
		if cm, ok := o.c.(*CMap); ok {
			n := &CMap{typ: cm.typ}
			found := false
			for j := range cm.keys {
				e := Eq(cm.keys[j], kt)
				if e == True {
					n.keys = append(n.keys, kt)
					n.vals = append(n.vals, v)
					found = true
					continue
				}
				if e != False {
					panic(unsupported("symbolic key write into concrete map"))
				}
				n.keys = append(n.keys, cm.keys[j])
				n.vals = append(n.vals, cm.vals[j])
			}
			if !found {
				n.keys = append(n.keys, kt)
				n.vals = append(n.vals, v)
			}
			st.setContent(m.obj, n)
			return
		}
	}
	kt := x.keyTerm(st, m, k)
	mt := x.mapTerm(st, m)
	if inner, ok := v.(*MapV); ok {
		it := x.mapTerm(st, inner)
		x.setMapTerm(st, m, Store(mt, kt, Some(it)))
		// the local map variable now names the embedded map
		if len(inner.path) == 0 && st.heap[inner.obj].fwd == nil {
			io := *st.heap[inner.obj]
			io.fwd = &MapV{nilc: False, obj: m.obj, path: append(append([]*T{}, m.path...), kt), typ: inner.typ}
			st.heap[inner.obj] = &io
		}
		return
	}
	x.freezeVal(st, v)
	x.setMapTerm(st, m, Store(mt, kt, Some(x.abs(st, v, m.typ.Elem()))))
}

func (x *Exec) mapDelete(st *State, m *MapV, k Value) {
	if m.nilc == True {
		return
	}
	kt := x.keyTerm(st, m, k)
	mt := x.mapTerm(st, m)
	nm := Store(mt, kt, None(mt.sort.Val))
	if len(m.path) > 0 && m.nilc != False {
		// deleting from a possibly missing inner map must not create it
		o := st.heap[m.obj]
		if o.fwd == nil {
			root := o.c.(*T)
			st.setContent(m.obj, Ite(m.nilc, root, storePath(root, m.path, nm)))
			return
		}
	}
	x.setMapTerm(st, m, nm)
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) []Outcome {
	v := x.val(st, fr, i.X)
	set := func(f *Frame, v Value, ok *T) {
		if i.CommaOk {
			f.env[i] = TupleV{v, ok}
		} else {
			f.env[i] = v
		}
	}
	if t, ok := v.(*T); ok && t.sort == SErr {
		okc := UF("iserrtype."+sanitize(typeName(i.AssertedType)), SBool, t)
		nv := x.freshVal(st, "assert", i.AssertedType)
		if !i.CommaOk {
			pan := x.nilCheck2(st, Not(okc), "type assertion fails", i)
			return cont(st, fr, i, nv, pan)
		}
		set(fr, nv, okc)
		return nil
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		panic(unsupported("typeassert on " + fmt.Sprintf("%T", v)))
	}
	if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if iv.dyn != nil || iv.nilc == True {
			impl := iv.dyn != nil && types.Implements(iv.dyn, i.AssertedType.Underlying().(*types.Interface))
			if impl {
				n := *iv
				n.static = i.AssertedType
				set(fr, &n, True)
				return nil
			}
			if i.CommaOk {
				set(fr, x.zero(st, i.AssertedType), False)
				return nil
			}
			return []Outcome{{st: st, kind: PANIC, msg: "type assertion fails", pos: x.pos(i)}}
		}
		okc := Fresh("assertok", SBool)
		if types.Implements(i.X.Type(), i.AssertedType.Underlying().(*types.Interface)) {
			okc = Not(iv.nilc) // e.g. the nil check of a method value
		}
		n := *iv
		n.static = i.AssertedType
		if !i.CommaOk {
			pan := x.nilCheck2(st, Not(okc), "type assertion may fail", i)
			return cont(st, fr, i, &n, pan)
		}
		set(fr, &n, okc)
		return nil
	}
	if iv.nilc == True || iv.dyn != nil {
		if iv.dyn != nil && types.Identical(iv.dyn, i.AssertedType) && iv.nilc == False {
			set(fr, iv.val, True)
			return nil
		}
		if iv.nilc == True || iv.dyn != nil && !types.Identical(iv.dyn, i.AssertedType) {
			if i.CommaOk {
				set(fr, x.zero(st, i.AssertedType), False)
				return nil
			}
			return []Outcome{{st: st, kind: PANIC, msg: "type assertion fails", pos: x.pos(i)}}
		}
	}
	// opaque dynamic type: as a function of the opaque value
	tn := sanitize(typeName(i.AssertedType))
	var okc *T
	var nv Value
	if iv.opaque != nil {
		okc = UF("is."+tn, SBool, iv.opaque)
		nv = x.conc(st, UF("unbox."+tn, sortOf(i.AssertedType), iv.opaque), i.AssertedType)
	} else {
		okc = Fresh("assertok", SBool)
		nv = x.freshVal(st, "assert", i.AssertedType)
	}
	if !i.CommaOk {
		pan := x.nilCheck2(st, Not(okc), "type assertion may fail", i)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		return cont(st, fr, i, nv, pan)
	}
	if okc == True {
		set(fr, nv, True)
		return nil
	}
	// comma-ok: the value is the zero value when the assertion fails
	s2, f2 := st.clone(), fr.clone()
	st.assume(okc)
	s2.assume(Not(okc))
	set(fr, nv, True)
	set(f2, x.zero(s2, i.AssertedType), False)
	return []Outcome{{st: st, fr: fr, kind: RET}, {st: s2, fr: f2, kind: RET}}
}

// ---------------------------------------------------------------- calls

func (x *Exec) callOperands(st *State, fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if c.IsInvoke() {
		return x.val(st, fr, c.Value), args
	}
	return x.val(st, fr, c.Value), args
}

func (x *Exec) ret(st *State, vs ...Value) []Outcome {
	return []Outcome{{st: st, kind: RET, res: vs}}
}

func (x *Exec) callValue(st *State, fr *Frame, c *ssa.CallCommon, fv Value, args []Value, ins ssa.Instruction) []Outcome {
	if c.IsInvoke() {
		return x.invoke(st, fr, c, fv, args, ins)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		panic(unsupported("call of " + fmt.Sprintf("%T", fv)))
	}
	if f.name != "" && f.fn == nil {
		return x.builtin(st, fr, f.name, c, args, ins)
	}
	if f.fn == nil {
		if k := x.funcvalContract(c); k != nil {
			pan := []Outcome(nil)
			if f.nilc != False {
				pan = x.nilCheck(st, f.nilc, "call of nil function", ins)
				if len(pan) == 1 && pan[0].st == st {
					return pan
				}
			}
			var pt []types.Type
			as := args
			if len(k.Params) == len(args)+1 {
				as = append([]Value{f}, args...)
				pt = append(pt, c.Value.Type())
			}
			if u, ok := c.Value.(*ssa.UnOp); ok && len(k.Params) == len(args)+2 {
				// the struct the function value was read from comes first
				own := u.X.(*ssa.FieldAddr).X
				as = append([]Value{x.val(st, fr, own), f}, args...)
				pt = append(pt, own.Type(), c.Value.Type())
			}
			if hasOpt(k, "unlocked") {
				g := True
				for key, v := range st.cache {
					if s, ok := v.(string); ok && s != "" && strings.HasPrefix(key, "lock:") {
						g = False
					}
				}
				x.oblig(st, "unlocked:"+k.Name, k.Name+" is called with no lock held", []string{"C24"}, g, x.pos(ins))
			}
			for i := 0; i < c.Signature().Params().Len(); i++ {
				pt = append(pt, c.Signature().Params().At(i).Type())
			}
			return append(pan, x.applyWith(st, fr, k, c.Signature(), as, pt, ins)...)
		}
		if f.nilc != False {
			pan := x.nilCheck(st, f.nilc, "call of nil function", ins)
			if len(pan) == 1 && pan[0].st == st {
				return pan
			}
			outs := x.unknownCall(st, "func value", c.Signature(), args, ins)
			return append(pan, outs...)
		}
		return x.unknownCall(st, "func value", c.Signature(), args, ins)
	}
	if f.recv != nil {
		args = append([]Value{f.recv}, args...)
	}
	return x.callFn(st, fr, f.fn, args, f.binds, ins)
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, fv Value, args []Value, ins ssa.Instruction) []Outcome {
	name := c.Method.Name()
	if t, ok := fv.(*T); ok && t.sort == SErr {
		pan := x.nilCheck(st, Eq(t, NoErr), "method call on nil error", ins)
		if len(pan) == 1 && pan[0].st == st {
			return pan
		}
		if name == "Error" {
			return append(pan, x.ret(st, UF("errstr", SStr, t))...)
		}
		return append(pan, x.unknownCall(st, "error."+name, c.Signature(), args, ins)...)
	}
	iv, ok := fv.(*IfaceV)
	if !ok {
		panic(unsupported("invoke on " + fmt.Sprintf("%T", fv)))
	}
	it := typeName(c.Value.Type())
	if it == "hclog.Logger" {
		switch name {
		case "Named", "With", "ResetNamed":
			return x.ret(st, &IfaceV{nilc: False, opaque: Const("logger", SAny), static: c.Value.Type()})
		}
		x.used["log calls have no effect on the modelled state"] = true
		sig := c.Signature()
		if sig.Results().Len() == 0 {
			return x.ret(st)
		}
		return x.ret(st, x.freshResults(st, sig)...)
	}
	pan := x.nilCheck(st, iv.nilc, "method call on nil interface", ins)
	if len(pan) == 1 && pan[0].st == st {
		return pan
	}
	var outs []Outcome
	if cv, ok := iv.val.(*CtxV); ok {
		outs = x.ctxMethod(st, cv, iv, name, args, c, ins)
	} else if iv.dyn != nil && iv.val != nil {
		m := x.w.prog.LookupMethod(iv.dyn, c.Method.Pkg(), name)
		if m == nil {
			panic(unsupported("method " + name + " of " + iv.dyn.String()))
		}
		outs = x.callFn(st, fr, m, append([]Value{iv.val}, args...), nil, ins)
	} else {
		outs = x.ifaceContract(st, fr, c, iv, name, args, ins)
	}
	return append(pan, outs...)
}

func (x *Exec) ctxMethod(st *State, cv *CtxV, iv *IfaceV, name string, args []Value, c *ssa.CallCommon, ins ssa.Instruction) []Outcome {
	if name == "Value" {
		k := args[0].(*IfaceV)
		for i := len(cv.keys) - 1; i >= 0; i-- {
			kk := cv.keys[i].(*IfaceV)
			if k.dyn != nil && kk.dyn != nil {
				if types.Identical(k.dyn, kk.dyn) {
					e := x.eqIface(st, k, kk)
					if e == True {
						return x.ret(st, cv.vals[i])
					}
					if e != False {
						panic(unsupported("symbolic context key"))
					}
				}
				continue
			}
			panic(unsupported("opaque context key"))
		}
		if k.dyn != nil && isRepoPkgType(k.dyn) {
			x.assumed["an incoming request context carries no value under this package's private context key type"] = true
			return x.ret(st, &IfaceV{nilc: True, static: c.Signature().Results().At(0).Type()})
		}
		return x.ret(st, x.freshResults(st, c.Signature())...)
	}
	return x.unknownCall(st, "context."+name, c.Signature(), args, ins)
}

func isRepoPkgType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

func (x *Exec) eqIface(st *State, a, b *IfaceV) *T {
	ta, tb := x.abs(st, a.val, a.dyn), x.abs(st, b.val, b.dyn)
	if ta.sort != tb.sort {
		return False
	}
	return Eq(ta, tb)
}

func (x *Exec) freshResults(st *State, sig *types.Signature) []Value {
	var r []Value
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, x.freshVal(st, "r", sig.Results().At(i).Type()))
	}
	return r
}

// unknownCall: no contract known: results are arbitrary, objects reachable
// from the arguments may have been changed arbitrarily.
func (x *Exec) unknownCall(st *State, name string, sig *types.Signature, args []Value, ins ssa.Instruction) []Outcome {
	x.assumed["external "+name+": arbitrary results, no effect on modelled state except through its arguments"] = true
	for _, a := range args {
		x.guardAccess(st, a, false, ins)
		x.havocReach(st, a, map[int]bool{})
	}
	return x.ret(st, x.freshResults(st, sig)...)
}

// funcvalContract finds the contract of a function value: by its named type,
// or by the struct field it is read from.
func (x *Exec) funcvalContract(c *ssa.CallCommon) *Contract {
	if x.w.spec == nil || len(x.w.spec.funcvals) == 0 {
		return nil
	}
	if n, ok := c.Value.Type().(*types.Named); ok {
		if k := x.w.spec.funcvals[typeName(n)]; k != nil {
			return k
		}
	}
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			f := t.Underlying().(*types.Struct).Field(fa.Field)
			return x.w.spec.funcvals[typeName(t)+"."+f.Name()]
		}
	}
	return nil
}

func (x *Exec) guardFor2(t types.Type) bool {
	return x.w.spec != nil && x.guardFor(t) != nil
}

func (x *Exec) havocReach(st *State, v Value, seen map[int]bool) {
	switch v := v.(type) {
	case *PtrV:
		if v.nilc == True || seen[v.obj] {
			return
		}
		seen[v.obj] = true
		o := st.heap[v.obj]
		if o == nil || o.frozen {
			return
		}
		if isOpaqueStruct(o.typ) {
			st.setContent(v.obj, Fresh("havoc", sortOf(o.typ)))
			return
		}
		if len(v.path) == 0 {
			st.setContent(v.obj, x.freshVal(st, "havoc", o.typ))
		} else {
			x.storePtr(st, v, x.freshVal(st, "havoc", v.elem))
		}
	case *IfaceV:
		if v.val != nil {
			x.havocReach(st, v.val, seen)
		}
	case *SliceV:
		o := st.heap[v.obj]
		if l, ok := o.c.(*ListV); ok {
			for _, e := range l.elems {
				x.havocReach(st, e, seen)
			}
		}
	}
}

func (x *Exec) inStack(fn *ssa.Function) bool {
	for _, f := range x.stackFns {
		if f == fn {
			return true
		}
	}
	return false
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args, binds []Value, ins ssa.Instruction) []Outcome {
	name := fn.String()
	// contexts are values with a known structure
	if m, ok := models[name]; ok {
		x.used["model:"+name] = true
		return m(x, st, args, fn, ins, fr)
	}
	if fn.Name() == "String" && fn.Signature.Recv() != nil && len(args) == 1 {
		if t, ok := args[0].(*T); ok && t.sort == SInt {
			if r := x.enumString(st, fn.Signature.Recv().Type(), t); r != nil {
				return x.ret(st, r)
			}
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil {
		return x.ret(st)
	}
	if fn.Synthetic != "" && fn.Blocks != nil && (strings.HasPrefix(fn.Synthetic, "instance of") == false || isRepoFn(fn)) {
		return x.runCallee(st, fr, fn, args, binds)
	}
	if k := x.w.contractFor(fn); k != nil && !x.noModular[k.Name] && (k.Modular || x.inStack(fn)) {
		return x.applyContract(st, fr, k, fn.Signature, fn, args, ins)
	}
	if outs, ok := x.externContract(st, fr, fn, args, ins); ok {
		return outs
	}
	if fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) || fn.Parent() != nil && isRepoFn(fn) {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Name() == "init" {
			return x.ret(st)
		}
		if x.inStack(fn) {
			panic(unsupported("recursive function without a contract: " + name))
		}
		if fn.Blocks != nil {
			x.inlined[shortPath(name)] = true
			return x.runCallee(st, fr, fn, args, binds)
		}
	}
	return x.unknownCall(st, name, fn.Signature, args, ins)
}

func isRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return isRepoPkg(f.Pkg.Pkg)
		}
	}
	return false
}

func (x *Exec) runCallee(st *State, fr *Frame, fn *ssa.Function, args, binds []Value) []Outcome {
	base := len(st.pc)
	pre := st.clone()
	outs := x.runFunc(st, fn, args, binds, fr)
	return x.merge(pre, base, outs)
}

// merge joins returning outcomes that differ only in scalar results.
func (x *Exec) merge(pre *State, base int, outs []Outcome) []Outcome {
	var rets, rest []Outcome
	for _, o := range outs {
		if o.kind == RET {
			rets = append(rets, o)
		} else {
			rest = append(rest, o)
		}
	}
	if len(rets) < 2 {
		return outs
	}
	for _, o := range rets {
		if len(o.res) != len(rets[0].res) {
			return outs
		}
		for i, v := range o.res {
			a, ok1 := v.(*T)
			b, ok2 := rets[0].res[i].(*T)
			if ok1 && ok2 && a.sort == b.sort {
				continue
			}
			if v == rets[0].res[i] && knownBefore(pre, v) {
				continue
			}
			return outs
		}
		for g, v := range o.st.ghost {
			if pre.ghost[g] != v {
				return outs
			}
		}
		for id, ob := range pre.heap {
			if n := o.st.heap[id]; n != ob {
				if n != nil && sameContent(n.c, ob.c) {
					continue
				}
				if lz, lazy := ob.c.(*LazyV); lazy && n != nil && !n.frozen && x.abs(o.st.clone(), n.c, n.typ) == lz.t {
					continue
				}
				return outs
			}
		}
	}
	m := pre
	// keep expansions of lazy objects and global cells of the first outcome
	var deltas []*T
	common := map[*T]int{}
	for _, o := range rets {
		seen := map[*T]bool{}
		for _, c := range o.st.pc[base:] {
			if !seen[c] {
				seen[c] = true
				common[c]++
			}
		}
	}
	for _, o := range rets {
		var cs []*T
		for _, c := range o.st.pc[base:] {
			if common[c] != len(rets) {
				cs = append(cs, c)
			}
		}
		deltas = append(deltas, And(cs...))
	}
	for _, c := range rets[0].st.pc[base:] {
		if common[c] == len(rets) {
			m.assume(c)
		}
	}
	m.assume(Or(deltas...))
	var res []Value
	for i := range rets[0].res {
		if _, ok := rets[0].res[i].(*T); !ok {
			res = append(res, rets[0].res[i])
			continue
		}
		r := rets[len(rets)-1].res[i].(*T)
		for k := len(rets) - 2; k >= 0; k-- {
			r = Ite(deltas[k], rets[k].res[i].(*T), r)
		}
		res = append(res, r)
	}
	// lazily expanded objects referenced by non-scalar results do not occur:
	// results are scalars or pre-existing values
	return append(rest, Outcome{st: m, kind: RET, res: res})
}

func sameContent(a, b Value) bool { return a == b }

// knownBefore: v refers only to objects of the state pre.
func knownBefore(pre *State, v Value) bool {
	in := func(nilc *T, id int) bool { return nilc == True || pre.heap[id] != nil }
	switch v := v.(type) {
	case *PtrV:
		return in(v.nilc, v.obj)
	case *SliceV:
		return in(v.nilc, v.obj)
	case *MapV:
		return in(v.nilc, v.obj)
	case *IfaceV:
		return v.val == nil || knownBefore(pre, v.val)
	case *StructV:
		for _, f := range v.f {
			if f != nil && !knownBefore(pre, f) {
				return false
			}
		}
	case *ListV:
		for _, f := range v.elems {
			if !knownBefore(pre, f) {
				return false
			}
		}
	case TupleV:
		for _, f := range v {
			if !knownBefore(pre, f) {
				return false
			}
		}
	case *FuncV:
		for _, f := range v.binds {
			if !knownBefore(pre, f) {
				return false
			}
		}
		return v.recv == nil || knownBefore(pre, v.recv)
	case *ChanV:
		return pre.heap[v.pos] != nil
	case *IterV:
		return pre.heap[v.pos] != nil
	}
	return true
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Value, ins ssa.Instruction) []Outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return x.ret(st, v.len)
		case *MapV:
			if o := st.heap[v.obj]; o != nil {
				if cm, ok := o.c.(*CMap); ok {
					return x.ret(st, Int(int64(len(cm.keys))))
				}
			}
			x.checkGuard(st, fr, c.Args[0], false, ins)
			l := mapLen(x.mapTerm(st, v))
			st.assume(Le(Int(0), l))
			return x.ret(st, l)
		case *T:
			if v.sort == SStr {
				l := ufSimp("strlen", SInt, []*T{v})
				st.assume(Le(Int(0), l))
				return x.ret(st, l)
			}
			l := UF("len."+v.sort.Name, SInt, v)
			st.assume(Le(Int(0), l))
			return x.ret(st, l)
		case *ListV:
			return x.ret(st, Int(int64(len(v.elems))))
		}
	case "cap":
		l := Fresh("cap", SInt)
		if s, ok := args[0].(*SliceV); ok {
			st.assume(Le(s.len, l))
		}
		return x.ret(st, l)
	case "append":
		if t, ok := args[0].(*T); ok { // bytes
			_ = t
			return x.ret(st, Fresh("bytes", SBytes))
		}
		a := args[0].(*SliceV)
		b, ok := args[1].(*SliceV)
		if !ok {
			return x.ret(st, x.freshVal(st, "append", c.Signature().Results().At(0).Type()))
		}
		return x.ret(st, x.appendSlice(st, a, b))
	case "delete":
		m := args[0].(*MapV)
		x.checkGuard(st, fr, c.Args[0], true, ins)
		x.mapDelete(st, m, args[1])
		return x.ret(st)
	case "copy":
		if d, ok := args[0].(*SliceV); ok {
			if s, ok := args[1].(*SliceV); ok {
				return x.ret(st, x.copySlice(st, d, s))
			}
		}
		return x.ret(st, Fresh("copied", SInt))
	case "print", "println":
		return x.ret(st)
	case "recover":
		return x.ret(st, &IfaceV{nilc: True, static: types.NewInterfaceType(nil, nil)})
	case "ssa:wrapnilchk":
		return x.ret(st, args[0])
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0].(*T), args[1].(*T)
			if name == "max" {
				return x.ret(st, Ite(Lt(a, b), b, a))
			}
			return x.ret(st, Ite(Lt(a, b), a, b))
		}
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			x.checkGuard(st, fr, c.Args[0], true, ins)
			x.setMapTerm(st, m, EmptyMap(sortOf(m.typ.Key()), sortOf(m.typ.Elem())))
			return x.ret(st)
		}
	case "close":
		return x.ret(st)
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendSlice(st *State, a, b *SliceV) Value {
	if n, ok := intVal(b.len); ok && n == 0 {
		return a
	}
	ao := st.heap[a.obj]
	al, aok := ao.c.(*ListV)
	bl, bok := st.heap[b.obj].c.(*ListV)
	_, k1 := intVal(a.len)
	_, k2 := intVal(b.len)
	if a.nilc == True {
		al, aok, k1 = &ListV{elem: a.elem}, true, true
	}
	nob := func(c Value, n *T) *SliceV {
		o := st.alloc(types.NewSlice(a.elem), c, "append")
		// the result may share a's backing array
		if a.nilc != True {
			o.shareOf = append(o.shareOf, a.obj)
			na := *st.heap[a.obj]
			// a second append to the same slice may overwrite an earlier result
			na.shareOf = append(append([]int{}, na.shareOf...), o.id)
			st.heap[a.obj] = &na
		}
		return &SliceV{nilc: False, obj: o.id, off: Int(0), len: n, elem: a.elem}
	}
	if a.nilc != True {
		x.appendClobber(st, a, b)
	}
	if aok && bok && k1 && k2 {
		lo, _ := intVal(a.off)
		n, _ := intVal(a.len)
		if a.nilc == True {
			lo, n = 0, 0
		}
		l := &ListV{elem: a.elem}
		l.elems = append(l.elems, al.elems[lo:lo+n]...)
		bo, _ := intVal(b.off)
		bn, _ := intVal(b.len)
		l.elems = append(l.elems, bl.elems[bo:bo+bn]...)
		return nob(l, Int(int64(len(l.elems))))
	}
	x.freezeVal(st, a)
	x.freezeVal(st, b)
	s := Cat(x.seqOf(st, a), x.seqOf(st, b))
	if a.nilc != True && a.nilc != False {
		_ = s
	}
	return nob(s, Len(s))
}

// appendClobber models that append may write into a's backing array behind
// a's end, where longer slices of the same array can see it.
func (x *Exec) appendClobber(st *State, a, b *SliceV) {
	o := st.heap[a.obj]
	end := Add(a.off, a.len)
	switch c := o.c.(type) {
	case *ListV:
		e, ok := intVal(end)
		n, ok2 := intVal(b.len)
		if ok && ok2 && e < int64(len(c.elems)) {
			// visible overwrite possible (capacity is at least the array)
			nl := &ListV{elem: c.elem, elems: append([]Value{}, c.elems...)}
			if bl, ok := st.heap[b.obj].c.(*ListV); ok {
				bo, _ := intVal(b.off)
				if e+n <= int64(len(c.elems)) {
					for k := int64(0); k < n; k++ {
						nl.elems[e+k] = bl.elems[bo+k]
					}
					st.setContent(a.obj, nl)
					return
				}
				// may or may not fit: unknown afterwards
				return
			}
			panic(unsupported("append into shared concrete array"))
		}
	case *T:
		if end == Len(c) || !x.feasible(st, Not(Eq(end, Len(c)))) {
			return
		}
		n := Fresh("clobber", c.sort)
		i := BVar("i", SInt)
		st.assume(Eq(Len(n), Len(c)))
		st.assume(Forall([]*T{i}, Imp(And(Le(Int(0), i), Lt(i, end)), Eq(At(n, i), At(c, i))), []*T{At(n, i)}))
		// exact effect when it fits in the existing array
		nb := b.len
		bs := x.seqOf(st, b)
		j := BVar("j", SInt)
		st.assume(Imp(Le(Add(end, nb), Len(c)), Forall([]*T{j}, Imp(And(Le(Int(0), j), Lt(j, Len(c))),
			Eq(At(n, j), Ite(And(Le(end, j), Lt(j, Add(end, nb))), At(bs, Sub(j, end)), At(c, j)))), []*T{At(n, j)})))
		st.setContent(a.obj, n)
	}
}

func (x *Exec) copySlice(st *State, d, s *SliceV) *T {
	o := st.heap[d.obj]
	src := x.seqOf(st, s)
	var c *T
	switch cc := o.c.(type) {
	case *T:
		c = cc
	case *ListV:
		c = x.listSeq(st, cc)
	}
	n := Fresh("copydst", c.sort)
	st.assume(Eq(Len(n), Len(c)))
	i := BVar("i", SInt)
	cnt := Ite(Lt(s.len, d.len), s.len, d.len)
	st.assume(Forall([]*T{i}, Imp(And(Le(Int(0), i), Lt(i, Len(c))),
		Eq(At(n, i), Ite(And(Le(d.off, i), Lt(i, Add(d.off, cnt))), At(src, Sub(i, d.off)), At(c, i)))), []*T{At(n, i)}))
	if all := And(Eq(d.off, Int(0)), Eq(d.len, s.len), Eq(Len(c), d.len)); !x.feasible(st, Not(all)) {
		n = src // all of it
	}
	st.setContent(d.obj, n)
	return cnt
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// feasTimeout bounds one feasibility query (an undecided branch is explored).
var feasTimeout = 60
