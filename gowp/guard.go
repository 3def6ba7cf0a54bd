package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guarded fields: maps (and opaque objects) held in a struct field may only be
// read while the struct's mutex is held and only be written while it is held
// exclusively (C24).

// structVal navigates a field path ("atom.dm") from a struct object.
func (x *Exec) guardPath(st *State, o *Obj, path string) (Value, []step, types.Type) {
	v := x.content(st, o.id)
	t := types.Type(o.typ)
	var steps []step
	for _, name := range strings.Split(path, ".") {
		s, ok := v.(*StructV)
		if !ok {
			return nil, nil, nil
		}
		u := t.Underlying().(*types.Struct)
		hit := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				v, t = s.f[i], u.Field(i).Type()
				steps = append(steps, step{field: i})
				hit = true
				break
			}
		}
		if !hit {
			return nil, nil, nil
		}
	}
	return v, steps, t
}

func (x *Exec) tagGuards(st *State) {
	if x.w.spec == nil || len(x.w.spec.guards) == 0 {
		return
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.tagGuardsOf(st, id)
	}
}

func (x *Exec) guardFor(t types.Type) *guard {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	for _, g := range x.w.spec.guards {
		if n.Obj().Name() == g.Struct && strings.HasSuffix(n.Obj().Pkg().Path(), g.Pkg) {
			return g
		}
	}
	return nil
}

func (x *Exec) tagGuardsOf(st *State, id int) {
	o := st.heap[id]
	g := x.guardFor(o.typ)
	if g == nil {
		return
	}
	for _, f := range sortedKeys(g.Fields) {
		v, _, _ := x.guardPath(st, o, f)
		_, ms, _ := x.guardPath(st, o, g.Fields[f])
		if ms == nil {
			sfail("guard %s: no field %s", g.Struct, g.Fields[f])
		}
		key := lockName(st, &PtrV{nilc: False, obj: id, path: ms})
		wkey := ""
		if w := g.Writes[f]; w != "" {
			_, ms, _ := x.guardPath(st, o, w)
			if ms == nil {
				sfail("guard %s: no field %s", g.Struct, w)
			}
			wkey = lockName(st, &PtrV{nilc: False, obj: id, path: ms})
		}
		target := -1
		switch v := v.(type) {
		case *MapV:
			target = v.obj
		case *PtrV:
			if v.nilc != True {
				target = v.obj
			}
		case nil:
			sfail("guard %s: no field %s", g.Struct, f)
		}
		if target >= 0 && st.heap[target].guard == "" {
			n := *st.heap[target]
			n.guard, n.guardName, n.wguard, n.gfrozen = key, g.Struct+"."+f, wkey, g.Frozen[f]
			st.heap[target] = &n
		}
	}
}

// guarded finds the guarded object behind a value.
func guardedObj(st *State, v Value) *Obj {
	o, inner := guardedIn(st, v)
	if inner && o.gfrozen {
		return nil
	}
	return o
}

// guardedIn: the guarded object that a value is or lies inside of.
func guardedIn(st *State, v Value) (*Obj, bool) {
	switch v := v.(type) {
	case *MapV:
		o := st.heap[v.obj]
		inner := len(v.path) > 0
		for o != nil && o.fwd != nil {
			o = st.heap[o.fwd.obj]
			inner = true
		}
		if o != nil && o.guard != "" {
			return o, inner
		}
	case *PtrV:
		if o := st.heap[v.obj]; o != nil && o.guard != "" {
			return o, false
		}
	}
	return nil, false
}

func (x *Exec) guardAccess(st *State, v Value, write bool, ins ssa.Instruction) {
	o, inner := guardedIn(st, v)
	if o == nil {
		return
	}
	if inner && o.gfrozen {
		if write {
			x.oblig(st, "guarded:"+o.guardName, "what "+o.guardName+" holds is not changed in place", []string{"C24"}, False, x.pos(ins))
		}
		return
	}
	held := ""
	if h, ok := st.cache[o.guard]; ok {
		held = h.(string)
	}
	how, want := "read", "held"
	ok := held != ""
	if write {
		how, want = "written", "held exclusively"
		ok = held == "L"
		if o.wguard != "" {
			h, has := st.cache[o.wguard]
			g := False
			if has && h.(string) == "L" {
				g = True
			}
			x.oblig(st, "serial:"+o.guardName, o.guardName+" is written only by the one change under way", []string{"C24"}, g, x.pos(ins))
		}
	}
	g := False
	if ok {
		g = True
	}
	x.oblig(st, "guarded:"+o.guardName, o.guardName+" is "+how+" only while its lock is "+want, []string{"C24"}, g, x.pos(ins))
}

func (x *Exec) checkGuard(st *State, fr *Frame, v ssa.Value, write bool, ins ssa.Instruction) {
	if len(x.w.spec.guardsOrNil()) == 0 {
		return
	}
	x.guardAccess(st, x.val(st, fr, v), write, ins)
}

// guardStore checks an assignment to a guarded field itself.
func (x *Exec) guardStore(st *State, p *PtrV, ins ssa.Instruction) {
	if len(x.w.spec.guardsOrNil()) == 0 {
		return
	}
	o := st.heap[p.obj]
	if o == nil || !o.pre {
		return
	}
	g := x.guardFor(o.typ)
	if g == nil {
		return
	}
	for _, f := range sortedKeys(g.Fields) {
		_, steps, _ := x.guardPath(st, o, f)
		if len(p.path) > len(steps) {
			continue
		}
		same := true
		for i := range p.path {
			if p.path[i].idx != nil || p.path[i].field != steps[i].field {
				same = false
			}
		}
		if !same {
			continue
		}
		_, ms, _ := x.guardPath(st, o, g.Fields[f])
		key := lockName(st, &PtrV{nilc: False, obj: o.id, path: ms})
		ok := False
		if h, has := st.cache[key]; has && h.(string) == "L" {
			ok = True
		}
		x.oblig(st, "guarded:"+g.Struct+"."+f, g.Struct+"."+f+" is replaced only while its lock is held exclusively", []string{"C24"}, ok, x.pos(ins))
	}
}

func (sp *Spec) guardsOrNil() []*guard {
	if sp == nil {
		return nil
	}
	return sp.guards
}

// guardUsers lists repository functions that touch guarded fields and are not
// under contract; they are verified under an empty contract.
func (w *World) guardUsers(have map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for _, pkg := range w.pkgs {
		if !isRepoPkg(pkg.Pkg) {
			continue
		}
		for _, g := range w.spec.guards {
			if !strings.HasSuffix(pkg.Pkg.Path(), g.Pkg) {
				continue
			}
			tn := pkg.Type(g.Struct)
			if tn == nil {
				continue
			}
			named := tn.Type().(*types.Named)
			var fns []*ssa.Function
			for _, t := range []types.Type{named, types.NewPointer(named)} {
				ms := w.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := w.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						fns = append(fns, f)
					}
				}
			}
			for _, m := range pkg.Members {
				if f, ok := m.(*ssa.Function); ok {
					fns = append(fns, f)
				}
			}
			for _, f := range fns {
				if have[f] || !touches(f, named, g) {
					continue
				}
				have[f] = true
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// touches: the function (or a closure in it) reaches a field of the struct
// through a pointer it did not allocate itself.
func touches(f *ssa.Function, named *types.Named, g *guard) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			pt, ok := fa.X.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), named) {
				continue
			}
			if _, fresh := fa.X.(*ssa.Alloc); fresh {
				continue
			}
			name := named.Underlying().(*types.Struct).Field(fa.Field).Name()
			for gf := range g.Fields {
				if strings.Split(gf, ".")[0] == name {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if touches(a, named, g) {
			return true
		}
	}
	return false
}

func locksOf(st *State) string {
	var r []string
	for k, v := range st.cache {
		if strings.HasPrefix(k, "lock:") && v.(string) != "" {
			r = append(r, k+v.(string))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// fieldLock is the lock in a field of the struct behind a pointer.
func (x *Exec) fieldLock(st *State, v Value, field string) string {
	p, ok := v.(*PtrV)
	if !ok || len(p.path) > 0 {
		return ""
	}
	_, ms, _ := x.guardPath(st, st.heap[p.obj], field)
	if ms == nil {
		sfail("no lock %s", field)
	}
	return lockName(st, &PtrV{nilc: False, obj: p.obj, path: ms})
}

// lockTerms are the contract's demands on locks at a call: held:<field> and
// unlocked:<field> of the receiver.
func (x *Exec) lockTerms(st *State, k *Contract, args []Value, ins ssa.Instruction) {
	for _, o := range k.Pures {
		i := strings.Index(o, ":")
		if i < 0 || o[:i] != "held" && o[:i] != "unlocked" {
			continue
		}
		h, has := st.cache[x.fieldLock(st, args[0], o[i+1:])]
		held := has && h.(string) != ""
		if o[:i] == "held" {
			held = has && h.(string) == "L"
		}
		g := False
		if held == (o[:i] == "held") {
			g = True
		}
		what := "is not held when"
		if o[:i] == "held" {
			what = "is held when"
		}
		x.oblig(st, o+":"+k.Name, o[i+1:]+" "+what+" "+k.Name+" is called", []string{"C24"}, g, x.pos(ins))
	}
}
