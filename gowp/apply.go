package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vref names a Go value in some state, for specifications.
type vref struct {
	x    *Exec
	st   *State
	v    Value
	typ  types.Type
	nilc *T // the pointers followed on the way may be nil
}

func (r *vref) field(name string) *vref {
	v, t := r.v, r.typ
	nilc := r.nilc
	if p, ok := v.(*PtrV); ok {
		if p.nilc != False {
			if nilc == nil {
				nilc = p.nilc
			} else {
				nilc = Or(nilc, p.nilc)
			}
		}
		if p.nilc == True {
			return nil
		}
		t = p.elem
		func() {
			defer func() {
				if e := recover(); e != nil {
					v = nil
				}
			}()
			v = r.x.loadPtr(r.st, p)
		}()
	}
	s, ok := v.(*StructV)
	if !ok {
		return nil
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return &vref{r.x, r.st, s.f[i], u.Field(i).Type(), nilc}
		}
	}
	// embedded
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() && s.f[i] != nil {
			if f := (&vref{r.x, r.st, s.f[i], u.Field(i).Type(), nilc}).field(name); f != nil {
				return f
			}
		}
	}
	return nil
}

func (r *vref) term() *T {
	t := r.x.abs(r.st, r.v, r.typ)
	if r.nilc != nil {
		return Ite(r.nilc, zeroTerm(t.sort), t)
	}
	return t
}

// resolve evaluates ident(.field)* nodes over Go values.
func (e *senv) resolve(n *node) *vref {
	switch n.op {
	case "ident":
		return e.vals[n.name]
	case "call":
		if n.name == "post" && len(n.kids) == 1 && n.kids[0].op == "ident" {
			return e.postVals[n.kids[0].name]
		}
		if n.name == "post" && len(n.kids) == 1 && n.kids[0].op == "call" && n.kids[0].name == "global" {
			return e.globalRef(e.postSt, n.kids[0].kids[0].name)
		}
		if n.name == "global" {
			return e.globalRef(e.preSt, n.kids[0].name)
		}
	case "field":
		if r := e.resolve(n.kids[0]); r != nil {
			return r.field(n.name)
		}
	}
	return nil
}

// globalRef is the value of a package variable in a state.
func (e *senv) globalRef(st *State, name string) *vref {
	if st == nil || e.ex == nil {
		sfail("global %s outside a contract clause", name)
	}
	g := e.sp.global(name)
	if g == nil {
		sfail("no package variable %s", name)
	}
	et := g.Type().(*types.Pointer).Elem()
	p := e.ex.globalAddr(st, g).(*PtrV)
	return &vref{e.ex, st, e.ex.loadPtr(st, p), et, nil}
}

// callEnv builds the environment of a contract at a call or at function entry.
func (x *Exec) callEnv(st *State, k *Contract, args []Value, ptypes []types.Type) *senv {
	e := &senv{sp: x.w.spec, vars: map[string]*T{}, ghost: map[string]*T{}, vals: map[string]*vref{}, postVals: map[string]*vref{}, lets: map[string]*node{}, ex: x}
	for g, v := range st.ghost {
		e.ghost[g] = v
	}
	snap := st.clone()
	e.preSt = snap
	if k.Variant == "plugins" {
		e.vals["pluginmgr"] = &vref{x, snap, x.w.plugPM, types.NewPointer(x.w.plugPM.(*PtrV).elem), nil}
	}
	for i, p := range k.Params {
		if i >= len(args) {
			sfail("contract %s names %d parameters, the function has %d", k.Name, len(k.Params), len(args))
		}
		e.vals[p] = &vref{x, snap, args[i], ptypes[i], nil}
	}
	if len(k.Params) != len(args) {
		sfail("contract %s names %d parameters, the function has %d", k.Name, len(k.Params), len(args))
	}
	for _, c := range k.Clauses {
		if c.Kind == "let" {
			e.lets[c.Name] = c.E
		}
	}
	return e
}

func (x *Exec) ghostInit(st *State, g string) *T {
	if v, ok := st.ghost[g]; ok {
		return v
	}
	s, ok := x.w.spec.ghosts[g]
	if !ok {
		sfail("unknown ghost %s", g)
	}
	v := Const("ghost."+g, s)
	st.ghost[g] = v
	return v
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, fr *Frame, k *Contract, sig *types.Signature, fn *ssa.Function, args []Value, ins ssa.Instruction) []Outcome {
	x.used["contract:"+k.Name] = true
	var pt []types.Type
	if sig.Recv() != nil && k.Kind == "func" {
		pt = append(pt, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pt = append(pt, sig.Params().At(i).Type())
	}
	if len(pt) == len(args)+1 {
		pt = pt[1:]
	}
	for _, c := range k.Clauses {
		switch c.Kind {
		case "modifies", "updates":
			if strings.Contains(c.Name, ".") {
				continue
			}
			x.ghostInit(st, c.Name)
		}
	}
	for g := range x.w.spec.ghosts {
		x.ghostInit(st, g)
	}
	e := x.callEnv(st, k, args, pt)
	e.oldG = e.ghost
	for _, c := range k.Clauses {
		if c.Kind == "requires" {
			g := e.eval(c.E)
			tags := c.Tags
			if len(tags) == 0 {
				tags = append(append([]string{}, k.Tags...), x.curTags...)
			} else if k.Kind == "func" {
				tags = append(append([]string{}, tags...), x.curTags...)
			}
			for i, part := range conjuncts(g) {
				n := c.Label
				if i > 0 {
					n += fmt.Sprintf(".%d", i)
				}
				x.oblig(st, "pre:"+k.Name+":"+n, "precondition of "+k.Name+": "+c.Line, tags, part, x.pos(ins))
				st.assume(part)
			}
		}
	}
	if k.Kind == "func" {
		x.lockTerms(st, k, args, ins)
	}
	if k.Kind == "func" && x.measure != nil && k.Name == x.fnName {
		for _, c := range k.Clauses {
			if c.Kind == "decreases" {
				m := e.eval(c.E)
				x.oblig(st, "decreases", "the recursion comes to an end: "+c.Line, append(append([]string{}, k.Tags...), c.Tags...), And(Le(Int(0), m), Lt(m, x.measure)), x.pos(ins))
			}
		}
	}
	if hasOpt(k, "noreturn") {
		return []Outcome{}
	}
	// results
	rets := map[string]*node{}
	for _, c := range k.Clauses {
		if c.Kind == "returns" {
			rets[c.Name] = c.E
		}
	}
	newG := map[string]*T{}
	for g, v := range st.ghost {
		newG[g] = v
	}
	for _, c := range k.Clauses {
		if c.Kind == "modifies" && x.w.spec.ghosts[c.Name] != nil {
			newG[c.Name] = Fresh("g."+c.Name, x.w.spec.ghosts[c.Name])
		}
	}
	if k.Kind == "func" && !k.Modular {
		for _, g := range sortedKeys(x.w.spec.ghosts) {
			if x.w.spec.aux[g] {
				newG[g] = Fresh("g."+g, x.w.spec.ghosts[g])
			}
		}
	}
	// errors first, so that other results can depend on them
	n := sig.Results().Len()
	if n != len(k.Results) {
		sfail("contract %s names %d results, the function has %d", k.Name, len(k.Results), n)
	}
	terms := make([]*T, n)
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n; i++ {
			_, has := rets[k.Results[i]]
			if terms[i] != nil || (pass == 0) == has {
				continue
			}
			t := sig.Results().At(i).Type()
			if has {
				v := e.eval(rets[k.Results[i]])
				if s := sortOf(t); v == nilMark {
					v = zeroTerm(s)
				} else if s.Kind == KOpt && v.sort == s.Elem {
					v = Some(v)
				}
				terms[i] = v
			} else {
				terms[i] = Fresh("r."+k.Results[i], sortOf(t))
				x.typeFacts(st, terms[i], t)
			}
			e.vars[k.Results[i]] = terms[i]
		}
	}
	for _, c := range k.Clauses {
		if c.Kind == "updates" {
			v := e.eval(c.E)
			if v == nilMark {
				v = zeroTerm(x.w.spec.ghosts[c.Name])
			}
			newG[c.Name] = v
		}
	}
	wr := map[string]bool{}
	for _, c := range k.Clauses {
		if c.Kind == "writes" {
			wr[c.Name] = true
		}
	}
	if k.Kind == "extern" {
		for i, p := range k.Params {
			x.guardAccess(st, args[i], wr[p], ins)
		}
	}
	// objects changed through arguments
	for _, c := range k.Clauses {
		if c.Kind != "writes" {
			continue
		}
		r := e.vals[c.Name]
		p, ok := r.v.(*PtrV)
		if iv, is := r.v.(*IfaceV); is {
			p, ok = iv.val.(*PtrV)
		}
		if !ok {
			sfail("writes %s: not a pointer", c.Name)
		}
		nv := e.eval(c.E)
		if nv.sort == SAny { // what it holds, as a value of the pointer's type
			nv = UF("unbox."+sortOf(p.elem).Name, sortOf(p.elem), nv)
		}
		if nv.sort.Kind == KOpt {
			nv = Val(nv)
		}
		x.storePtr(st, p, x.conc(st, nv, p.elem))
	}
	// fields changed through arguments
	for _, c := range k.Clauses {
		if c.Kind != "modifies" || !strings.Contains(c.Name, ".") {
			continue
		}
		p := x.fieldPath(st, e, c.Name)
		if p == nil {
			continue
		}
		if mv, ok := x.loadPtr(st, p).(*MapV); ok && mv.nilc == False {
			t := Fresh("m."+c.Name, sortOf(mv.typ))
			x.typeFacts(st, t, mv.typ)
			x.setMapTerm(st, mv, t)
			continue
		}
		t := Fresh("m."+c.Name, sortOf(p.elem))
		x.typeFacts(st, t, p.elem)
		x.storePtr(st, p, x.conc(st, t, p.elem))
	}
	e.postSt = st
	for i, p := range k.Params {
		e.postVals[p] = &vref{x, st, args[i], pt[i], nil}
	}
	e.ghost = newG
	var cs []*T
	for _, c := range k.Clauses {
		if c.Kind == "ensures" || c.Kind == "assume" {
			cs = append(cs, e.eval(c.E))
		}
	}
	for g, v := range newG {
		st.ghost[g] = v
	}
	for _, c := range cs {
		st.assume(c)
		if b := byIndex(c); b != nil {
			st.assume(b)
		}
	}
	var res []Value
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		res = append(res, x.conc(st, terms[i], t))
	}
	outs := []Outcome{{st: st, kind: RET, res: res}}
	return outs
}

// fieldPath is the place that "p.f.g" names, p being a parameter; nil if a
// pointer on the way is nil.
func (x *Exec) fieldPath(st *State, e *senv, name string) *PtrV {
	parts := strings.Split(name, ".")
	r := e.vals[parts[0]]
	if r == nil {
		sfail("modifies %s: no parameter %s", name, parts[0])
	}
	v := r.v
	var p *PtrV
	for _, f := range parts[1:] {
		if p != nil {
			if _, ok := p.elem.Underlying().(*types.Pointer); ok {
				v, p = x.loadPtr(st, p), nil
			}
		}
		if p == nil {
			q, ok := v.(*PtrV)
			if !ok {
				sfail("modifies %s: not a pointer", name)
			}
			if q.nilc == True {
				return nil
			}
			p = q
		}
		u, ok := p.elem.Underlying().(*types.Struct)
		if !ok {
			sfail("modifies %s: %s is not in a struct", name, f)
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				p = &PtrV{nilc: p.nilc, obj: p.obj, path: append(append([]step{}, p.path...), step{field: i}), elem: u.Field(i).Type()}
				found = true
			}
		}
		if !found {
			sfail("modifies %s: no field %s", name, f)
		}
	}
	return p
}

func (x *Exec) ifaceContract(st *State, fr *Frame, c *ssa.CallCommon, iv *IfaceV, name string, args []Value, ins ssa.Instruction) []Outcome {
	tn := typeName(c.Value.Type())
	k := x.w.spec.ifaces[tn+"."+name]
	if k == nil {
		if base, ok := x.w.spec.likes[tn]; ok {
			if f := x.w.spec.funcs[base+"."+name]; f != nil {
				nk := *f
				nk.Params = f.Params[1:]
				nk.Kind = "iface"
				nk.Name = tn + "." + name + " (= " + f.Name + ")"
				k = &nk
			}
		}
	}
	if k == nil {
		return x.unknownCall(st, "interface method "+tn+"."+name, c.Signature(), args, ins)
	}
	if ex := x.w.spec.extra[tn+"."+name]; len(ex) > 0 {
		nk := *k
		nk.Clauses = append(append([]*Clause{}, ex...), k.Clauses...)
		k = &nk
	}
	if len(k.Params) == len(args)+1 { // contract names the receiver
		it := c.Value.Type()
		sig := c.Signature()
		var pt []types.Type
		pt = append(pt, it)
		for i := 0; i < sig.Params().Len(); i++ {
			pt = append(pt, sig.Params().At(i).Type())
		}
		return x.applyWith(st, fr, k, sig, append([]Value{iv}, args...), pt, ins)
	}
	return x.applyContract(st, fr, k, c.Signature(), nil, args, ins)
}

func (x *Exec) applyWith(st *State, fr *Frame, k *Contract, sig *types.Signature, args []Value, pt []types.Type, ins ssa.Instruction) []Outcome {
	var vs []*types.Var
	for _, t := range pt {
		vs = append(vs, types.NewVar(0, nil, "", t))
	}
	ns := types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), sig.Results(), false)
	return x.applyContract(st, fr, k, ns, nil, args, ins)
}

func (x *Exec) externContract(st *State, fr *Frame, fn *ssa.Function, args []Value, ins ssa.Instruction) ([]Outcome, bool) {
	if x.w.spec == nil {
		return nil, false
	}
	k := x.w.spec.externs[fn.String()]
	if k == nil {
		return nil, false
	}
	var pt []types.Type
	if fn.Signature.Recv() != nil {
		pt = append(pt, fn.Signature.Recv().Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		pt = append(pt, fn.Signature.Params().At(i).Type())
	}
	return x.applyWith(st, fr, k, fn.Signature, args, pt, ins), true
}

var _ = strings.TrimSpace

// byIndex restates "forall x :: x in s ==> P(x)" over the positions of s,
// which the solver can instantiate from an element access.
func byIndex(c *T) *T {
	switch c.op {
	case "and":
		var r []*T
		for _, a := range c.args {
			if b := byIndex(a); b != nil {
				r = append(r, b)
			}
		}
		if len(r) == 0 {
			return nil
		}
		return And(r...)
	case "=>":
		if b := byIndex(c.args[1]); b != nil {
			return Imp(c.args[0], b)
		}
	case "forall":
		if len(c.bv) != 1 || c.args[0].op != "=>" {
			return nil
		}
		x := c.bv[0]
		for _, g := range conjuncts(c.args[0].args[0]) {
			if g.op == "inp" && g.args[0] == x && !mentionsT(g.args[1], x) && !g.args[1].hasB && !g.args[2].hasB {
				s, n := g.args[1], g.args[2]
				i := BVar("i", SInt)
				at := At(s, i)
				if at.op != "at" {
					return nil
				}
				b := Subst(c.args[0], map[*T]*T{x: at})
				return Forall([]*T{i}, Imp(And(Le(Int(0), i), Lt(i, n), Lt(i, Len(s))), b), []*T{at})
			}
		}
	}
	return nil
}
