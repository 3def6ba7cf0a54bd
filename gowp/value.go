package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PtrV struct {
	nilc *T
	obj  int
	path []step
	elem types.Type // pointee type
}
type step struct {
	field int // struct field (SSA index) when idx == nil
	idx   *T  // array/slice element
}
type StructV struct {
	typ types.Type
	f   []Value // by SSA field index; dropped fields hold nil
}
type ListV struct { // concrete-length array contents
	elems []Value
	elem  types.Type
}
type SliceV struct {
	nilc *T
	obj  int
	off  *T
	len  *T
	elem types.Type
}
type MapV struct {
	nilc *T
	obj  int
	path []*T // keys of enclosing maps
	typ  *types.Map
}
type CMap struct { // concrete map contents
	keys []*T
	vals []Value
	typ  *types.Map
}
type IfaceV struct {
	nilc   *T
	dyn    types.Type
	val    Value
	opaque *T
	static types.Type
}
type FuncV struct {
	nilc   *T
	fn     *ssa.Function
	binds  []Value
	opaque *T
	name   string
	tm     *T // its abstract value
	recv   Value
}
type CtxV struct {
	base *T // opaque root
	keys []Value
	vals []Value
}

// ChanV is a channel that something outside fills and closes: the sequence of
// its elements and how many have been received.
type ChanV struct {
	enum *T
	pos  int
	elem types.Type
}
type IterV struct {
	enum *T // sequence of keys
	m    *T // map contents at range time
	mv   *MapV
	pos  int // cell id holding the position
	typ  *types.Map
	conc *CMap
}
type TupleV []Value

// AbsV is a lazily expanded content of an object: the term of a struct sort.
type LazyV struct {
	t   *T
	typ types.Type
}

type Obj struct {
	id               int
	typ              types.Type // type of the content
	c                Value
	frozen           bool
	pre              bool   // exists in the pre-state (parameter graph)
	name             string // for reports
	shareOf          []int
	fwd              *MapV  // embedded into another map
	guard, guardName string // lock protecting this object
	wguard           string // the lock that writers hold as well
	gfrozen          bool   // inner maps are never changed
}

type State struct {
	pc    []*T
	pcset map[*T]bool
	heap  map[int]*Obj
	ghost map[string]*T
	cache map[string]Value
	trace []string
}

func (s *State) clone() *State {
	n := &State{
		pc:    s.pc[:len(s.pc):len(s.pc)],
		pcset: make(map[*T]bool, len(s.pcset)+4),
		heap:  make(map[int]*Obj, len(s.heap)+4),
		ghost: make(map[string]*T, len(s.ghost)),
		cache: make(map[string]Value, len(s.cache)),
		trace: s.trace[:len(s.trace):len(s.trace)],
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.cache {
		n.cache[k] = v
	}
	return n
}

func (s *State) assume(c *T) {
	if c.op == "true" {
		return
	}
	if c.op == "and" {
		for _, a := range c.args {
			s.assume(a)
		}
		return
	}
	if s.pcset[c] {
		return
	}
	if s.pcset[Not(c)] {
		c = False
	}
	s.pc = append(s.pc, c)
	s.pcset[c] = true
	// nilness knowledge drives simplification of later values
}

// known decides c from facts literally present.
func (s *State) known(c *T) (bool, bool) {
	switch c.op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "and":
		all := true
		for _, a := range c.args {
			v, ok := s.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range c.args {
			v, ok := s.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case "not":
		v, ok := s.known(c.args[0])
		return !v, ok
	}
	if s.pcset[c] {
		return true, true
	}
	if s.pcset[Not(c)] {
		return false, true
	}
	if c.op == "=" && (c.args[0].lit() || c.args[1].lit()) {
		x, l := c.args[0], c.args[1]
		if x.lit() {
			x, l = l, x
		}
		for _, f := range s.pc {
			if f.op == "=" {
				if f.args[0] == x && f.args[1].lit() && f.args[1] != l || f.args[1] == x && f.args[0].lit() && f.args[0] != l {
					return false, true
				}
			}
		}
	}
	return false, false
}

var objN int

func (s *State) alloc(typ types.Type, c Value, name string) *Obj {
	objN++
	o := &Obj{id: objN, typ: typ, c: c, name: name}
	s.heap[o.id] = o
	return o
}

func (s *State) setContent(id int, c Value) {
	o := *s.heap[id]
	o.c = c
	s.heap[id] = &o
}

func (s *State) freeze(id int) {
	if s.heap[id].frozen {
		return
	}
	o := *s.heap[id]
	o.frozen = true
	s.heap[id] = &o
}

func nilPtr(elem types.Type) *PtrV { return &PtrV{nilc: True, elem: elem} }

// ---------------------------------------------------------------- zero values

func (x *Exec) zero(st *State, t types.Type) Value {
	if isError(t) {
		return NoErr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return StrLit("")
		}
		return Const("zero.Any", SAny)
	case *types.Pointer:
		return nilPtr(u.Elem())
	case *types.Slice:
		if isByteSlice(t) {
			return Const("nilbytes", SBytes)
		}
		return x.nilSlice(st, u.Elem())
	case *types.Map:
		o := st.alloc(t, EmptyMap(sortOf(u.Key()), sortOf(u.Elem())), "nilmap")
		return &MapV{nilc: True, obj: o.id, typ: u}
	case *types.Interface:
		return &IfaceV{nilc: True, static: t}
	case *types.Signature:
		return &FuncV{nilc: True}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return zeroTerm(sortOf(t))
		}
		return x.zeroStruct(st, t, u)
	case *types.Array:
		l := &ListV{elem: u.Elem()}
		for i := int64(0); i < u.Len() && i < 256; i++ {
			l.elems = append(l.elems, x.zero(st, u.Elem()))
		}
		return l
	case *types.Chan:
		return Const("nilchan", SAny)
	}
	if tt, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tt.Len(); i++ {
			r = append(r, x.zero(st, tt.At(i).Type()))
		}
		return r
	}
	panic(unsupported("zero value of " + t.String()))
}

func (x *Exec) nilSlice(st *State, elem types.Type) *SliceV {
	o := st.alloc(types.NewSlice(elem), &ListV{elem: elem}, "nilslice")
	return &SliceV{nilc: True, obj: o.id, off: Int(0), len: Int(0), elem: elem}
}

func (x *Exec) zeroStruct(st *State, t types.Type, u *types.Struct) *StructV {
	s := &StructV{typ: t, f: make([]Value, u.NumFields())}
	for i := range s.f {
		if keepField(u.Field(i)) {
			s.f[i] = x.zero(st, u.Field(i).Type())
		}
	}
	return s
}

// ---------------------------------------------------------------- concretise: term -> value

// conc turns a term of sort sortOf(t) into a value of Go type t.
func (x *Exec) conc(st *State, v *T, t types.Type) Value {
	if isError(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Pointer:
		if v.op == "none" {
			return nilPtr(u.Elem())
		}
		key := fmt.Sprintf("conc:%d:%s", v.id, t.String())
		if c, ok := st.cache[key]; ok {
			p := c.(*PtrV)
			if o, ok := st.heap[p.obj]; ok && o.frozen {
				return p
			}
		}
		o := st.alloc(u.Elem(), &LazyV{Val(v), u.Elem()}, "sym")
		p := &PtrV{nilc: IsNone(v), obj: o.id, elem: u.Elem()}
		return p
	case *types.Slice:
		if isByteSlice(t) {
			return v
		}
		o := st.alloc(t, v, "symslice")
		ln := Len(v)
		if ln.op == "len" {
			st.assume(Le(Int(0), ln))
		}
		return &SliceV{nilc: False, obj: o.id, off: Int(0), len: ln, elem: u.Elem()}
	case *types.Array:
		return &ListV{elem: u.Elem()}
	case *types.Chan:
		if v.sort.Kind == KSeq {
			st.assume(Le(Int(0), Len(v)))
			return &ChanV{enum: v, pos: st.alloc(types.Typ[types.Int], Int(0), "chanpos").id, elem: u.Elem()}
		}
	case *types.Map:
		o := st.alloc(t, v, "symmap")
		return &MapV{nilc: False, obj: o.id, typ: u}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return v
		}
		s := &StructV{typ: t, f: make([]Value, u.NumFields())}
		k := 0
		for i := range s.f {
			if keepField(u.Field(i)) {
				s.f[i] = x.conc(st, Sel(k, v), u.Field(i).Type())
				k++
			}
		}
		return s
	case *types.Interface:
		return &IfaceV{nilc: Eq(v, NilAny), opaque: v, static: t}
	case *types.Signature:
		return &FuncV{nilc: False, opaque: v}
	}
	return v
}

func (x *Exec) freshVal(st *State, name string, t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tt.Len(); i++ {
			r = append(r, x.freshVal(st, name, tt.At(i).Type()))
		}
		return r
	}
	f := Fresh(name, sortOf(t))
	x.typeFacts(st, f, t)
	return x.conc(st, f, t)
}

func (x *Exec) typeFacts(st *State, f *T, t types.Type) {
	if b, ok := t.Underlying().(*types.Basic); ok && f.sort == SInt {
		switch b.Kind() {
		case types.Int32:
			st.assume(And(Le(Int(-2147483648), f), Le(f, Int(2147483647))))
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			st.assume(Le(Int(0), f))
		}
	}
}

// ---------------------------------------------------------------- abstraction: value -> term

func (x *Exec) abs(st *State, v Value, t types.Type) *T {
	s := sortOf(t)
	switch v := v.(type) {
	case *T:
		return v
	case *PtrV:
		if v.nilc.op == "true" {
			return None(s.Elem)
		}
		in := x.abs(st, x.loadPtr(st, v), v.elem)
		if in.sort != s.Elem {
			return Fresh("absptr", s)
		}
		if v.nilc.op == "false" {
			return Some(in)
		}
		if in.op == "val" && v.nilc == IsNone(in.args[0]) {
			return in.args[0]
		}
		return Ite(v.nilc, None(s.Elem), Some(in))
	case *StructV:
		u := t.Underlying().(*types.Struct)
		if s.Kind != KStruct {
			return Fresh("absopaque", s)
		}
		var fs []*T
		for i := range v.f {
			if keepField(u.Field(i)) {
				fs = append(fs, x.abs(st, v.f[i], u.Field(i).Type()))
			}
		}
		return MkStruct(s, fs...)
	case *ChanV:
		return v.enum
	case *LazyV:
		return v.t
	case *SliceV:
		if v.nilc.op == "true" {
			return EmptySeq(s.Elem)
		}
		c := x.seqOf(st, v)
		return c
	case *ListV:
		return x.listSeq(st, v)
	case *MapV:
		return x.mapTerm(st, v)
	case *IfaceV:
		if v.opaque != nil {
			return v.opaque
		}
		if v.nilc.op == "true" {
			return NilAny
		}
		if _, isCtx := v.val.(*CtxV); isCtx {
			return v.val.(*CtxV).term()
		}
		if v.dyn != nil {
			if v.val == nil {
				return Fresh("absiface", s)
			}
			in := x.abs(st, v.val, v.dyn)
			return UF(boxName(v.dyn), s, in)
		}
		return Fresh("absiface", s)
	case *FuncV:
		if v.opaque != nil {
			return v.opaque
		}
		if v.fn != nil {
			if v.tm == nil {
				v.tm = Const("fn."+v.fn.String(), s)
				if len(v.binds) > 0 {
					v.tm = Fresh("fn", s)
				}
			}
			fnNames[v.tm] = v.fn.Name()
			return v.tm
		}
		return Const("nilfn", s)
	case nil:
		return Fresh("absnil", s)
	}
	panic(unsupported(fmt.Sprintf("abs of %T", v)))
}

func (c *CtxV) term() *T {
	t := c.base
	return t
}

// freezeVal marks everything reachable from v as shared with an abstract value.
func (x *Exec) freezeVal(st *State, v Value) {
	switch v := v.(type) {
	case *PtrV:
		if v.nilc.op == "true" {
			return
		}
		o := st.heap[v.obj]
		if o == nil || o.frozen {
			return
		}
		st.freeze(v.obj)
		x.freezeVal(st, o.c)
	case *StructV:
		for _, f := range v.f {
			x.freezeVal(st, f)
		}
	case *SliceV:
		o := st.heap[v.obj]
		if o != nil && !o.frozen {
			// slices share their backing; element objects are frozen
			if l, ok := o.c.(*ListV); ok {
				for _, e := range l.elems {
					x.freezeVal(st, e)
				}
			}
		}
	case *ListV:
		for _, e := range v.elems {
			x.freezeVal(st, e)
		}
	}
}

func (x *Exec) listSeq(st *State, l *ListV) *T {
	s := EmptySeq(sortOf(l.elem))
	for _, e := range l.elems {
		s = App(s, x.abs(st, e, l.elem))
	}
	return s
}

// seqOf is the abstract contents of a slice.
func (x *Exec) seqOf(st *State, v *SliceV) *T {
	o := st.heap[v.obj]
	switch c := o.c.(type) {
	case *ListV:
		lo, ok1 := intVal(v.off)
		n, ok2 := intVal(v.len)
		if ok1 && ok2 {
			s := EmptySeq(sortOf(v.elem))
			for i := lo; i < lo+n && i < int64(len(c.elems)); i++ {
				s = App(s, x.abs(st, c.elems[i], v.elem))
			}
			return s
		}
		return SubSeq(x.listSeq(st, c), v.off, Add(v.off, v.len))
	case *T:
		r := SubSeq(c, v.off, Add(v.off, v.len))
		if r.op == "sub" && v.off == Int(0) && prove(st.pc, Eq(v.len, Len(c)), candTimeout).Status == "unsat" {
			return c
		}
		return r
	}
	panic(unsupported("seqOf"))
}

func (x *Exec) mapTerm(st *State, v *MapV) *T {
	if v.nilc.op == "true" {
		return EmptyMap(sortOf(v.typ.Key()), sortOf(v.typ.Elem()))
	}
	o := st.heap[v.obj]
	if o.fwd != nil {
		w := *o.fwd
		w.path = append(append([]*T{}, w.path...), v.path...)
		w.typ = v.typ
		return x.mapTerm(st, &w)
	}
	m, ok := o.c.(*T)
	if !ok {
		if cm, ok := o.c.(*CMap); ok {
			r := EmptyMap(sortOf(cm.typ.Key()), sortOf(cm.typ.Elem()))
			for i := range cm.keys {
				r = Store(r, cm.keys[i], Some(x.abs(st, cm.vals[i], cm.typ.Elem())))
			}
			return r
		}
		panic(unsupported("map content"))
	}
	for _, k := range v.path {
		// a missing inner map reads as empty
		c := Select(m, k)
		m = Ite(IsNone(c), zeroTerm(c.sort.Elem), Val(c))
	}
	return m
}

func (x *Exec) setMapTerm(st *State, v *MapV, t *T) {
	o := st.heap[v.obj]
	if o.fwd != nil {
		w := *o.fwd
		w.path = append(append([]*T{}, w.path...), v.path...)
		w.typ = v.typ
		x.setMapTerm(st, &w, t)
		return
	}
	root, ok := o.c.(*T)
	if !ok {
		panic(unsupported("write to concrete map"))
	}
	st.setContent(v.obj, storePath(root, v.path, t))
}

func storePath(root *T, path []*T, t *T) *T {
	if len(path) == 0 {
		return t
	}
	c := Select(root, path[0])
	in := Ite(IsNone(c), zeroTerm(c.sort.Elem), Val(c))
	return Store(root, path[0], Some(storePath(in, path[1:], t)))
}

func boxName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "box.ptr." + sanitize(typeName(p.Elem()))
	}
	return "box." + sanitize(typeName(t))
}
