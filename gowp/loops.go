package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopCut struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	entering bool
	first    bool
}

// a location that may change from iteration to iteration
type loc struct {
	phi   *ssa.Phi
	obj   int
	path  []int
	ghost string
	typ   types.Type
	h     *T // its value at the loop head
	init  *T
	name  string
	nilOK bool // slice phi that may be nil
}

func (l *loc) key() string {
	if l.phi != nil {
		return "phi:" + l.phi.Name()
	}
	if l.ghost != "" {
		return "ghost:" + l.ghost
	}
	return fmt.Sprintf("obj:%d:%v", l.obj, l.path)
}

var debugLoops = os.Getenv("GOWP_LOOPS") != ""

func (x *Exec) unrollable(st *State, fr *Frame, lp *loop, prev *ssa.BasicBlock) bool {
	b := lp.header
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, ins := range b.Instrs {
		if c, ok := ins.(*ssa.Call); ok {
			if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
				return false
			}
		}
	}
	s2, f2 := st.clone(), fr.clone()
	x.mute++
	defer func() { x.mute-- }()
	x.doPhis(s2, f2, b, prev)
	for i := firstNonPhi(b); i < len(b.Instrs)-1; i++ {
		switch ins := b.Instrs[i].(type) {
		case *ssa.Call:
			fv, args := x.callOperands(s2, f2, ins.Common())
			outs := x.callValue(s2, f2, ins.Common(), fv, args, ins)
			if len(outs) != 1 || outs[0].kind != RET {
				return false
			}
			x.setRes(f2, ins, outs[0].res)
		default:
			if outs := x.step(s2, f2, ins); outs != nil {
				return false
			}
		}
	}
	c, ok := x.val(s2, f2, b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond).(*T)
	return ok && (c == True || c == False)
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (x *Exec) locValue(st *State, fr *Frame, l *loc) *T {
	if l.phi != nil {
		return x.abs(st, fr.env[l.phi], l.phi.Type())
	}
	if l.ghost != "" {
		return st.ghost[l.ghost]
	}
	return x.objPart(st, l.obj, l.path)
}

func (x *Exec) objPart(st *State, id int, path []int) *T {
	v := x.content(st, id)
	typ := st.heap[id].typ
	for _, f := range path {
		s := v.(*StructV)
		v = s.f[f]
		typ = typ.Underlying().(*types.Struct).Field(f).Type()
	}
	switch c := v.(type) {
	case *T:
		return c
	case *ListV:
		return x.listSeq(st, c)
	}
	return x.abs(st, v, typ)
}

func (x *Exec) havocLoop(st *State, fr *Frame, locs []*loc, b *ssa.BasicBlock) (*State, *Frame) {
	s, f := st.clone(), fr.clone()
	for _, l := range locs {
		switch {
		case l.phi != nil:
			switch v := fr.env[l.phi].(type) {
			case *T:
				l.h = Fresh(l.name, v.sort)
				x.typeFacts(s, l.h, l.phi.Type())
				f.env[l.phi] = l.h
			case *SliceV:
				l.h = Fresh(l.name, Seq(sortOf(v.elem)))
				o := s.alloc(types.NewSlice(v.elem), l.h, l.name)
				n := False
				if l.nilOK {
					n = Fresh("nilslice", SBool)
					s.assume(Imp(n, Eq(Len(l.h), Int(0))))
				}
				s.assume(Le(Int(0), Len(l.h)))
				f.env[l.phi] = &SliceV{nilc: n, obj: o.id, off: Int(0), len: Len(l.h), elem: v.elem}
			case *PtrV:
				l.h = Fresh(l.name, Opt(sortOf(v.elem)))
				nv := x.conc(s, l.h, l.phi.Type())
				x.freezeVal(s, nv)
				f.env[l.phi] = nv
			case *IfaceV:
				l.h = Fresh(l.name, SAny)
				f.env[l.phi] = &IfaceV{nilc: Eq(l.h, NilAny), opaque: l.h, static: l.phi.Type()}
			default:
				panic(unsupported(fmt.Sprintf("loop-carried value of kind %T", v)))
			}
		case l.ghost != "":
			l.h = Fresh(l.name, st.ghost[l.ghost].sort)
			s.ghost[l.ghost] = l.h
		default:
			x.havocPart(s, l)
		}
	}
	return s, f
}

func (x *Exec) havocPart(s *State, l *loc) {
	o := s.heap[l.obj]
	if o.frozen {
		panic(unsupported("loop modifies a shared object"))
	}
	c := x.content(s, l.obj)
	if len(l.path) == 0 {
		switch cc := c.(type) {
		case *T:
			l.h = Fresh(l.name, cc.sort)
			x.typeFacts(s, l.h, o.typ)
			s.setContent(l.obj, l.h)
		case *ListV:
			l.h = Fresh(l.name, Seq(sortOf(cc.elem)))
			s.assume(Eq(Len(l.h), Int(int64(len(cc.elems)))))
			s.setContent(l.obj, l.h)
		case *CMap:
			t := x.mapTerm(s, &MapV{nilc: False, obj: l.obj, typ: cc.typ})
			l.h = Fresh(l.name, t.sort)
			s.setContent(l.obj, l.h)
		default:
			l.h = Fresh(l.name, sortOf(o.typ))
			s.setContent(l.obj, x.conc(s, l.h, o.typ))
		}
		return
	}
	typ := o.typ
	for _, f := range l.path {
		typ = typ.Underlying().(*types.Struct).Field(f).Type()
	}
	l.h = Fresh(l.name, sortOf(typ))
	x.typeFacts(s, l.h, typ)
	var steps []step
	for _, f := range l.path {
		steps = append(steps, step{field: f})
	}
	s.setContent(l.obj, x.update(s, c, steps, x.conc(s, l.h, typ), o))
}

// changedParts finds the parts of object id that differ between two states.
func (x *Exec) changedParts(a, b *State, id int, va, vb Value, typ types.Type, path []int, out *[]*loc) {
	if va == vb {
		return
	}
	sa, ok1 := va.(*StructV)
	sb, ok2 := vb.(*StructV)
	if ok1 && ok2 {
		u := typ.Underlying().(*types.Struct)
		for i := range sa.f {
			if sa.f[i] == nil && sb.f[i] == nil {
				continue
			}
			x.changedParts(a, b, id, sa.f[i], sb.f[i], u.Field(i).Type(), append(append([]int{}, path...), i), out)
		}
		return
	}
	switch p := va.(type) {
	case *PtrV:
		if q, ok := vb.(*PtrV); ok && p.obj == q.obj && p.nilc == q.nilc && fmt.Sprint(p.path) == fmt.Sprint(q.path) {
			return
		}
	case *SliceV:
		if q, ok := vb.(*SliceV); ok && p.obj == q.obj && p.off == q.off && p.len == q.len && p.nilc == q.nilc {
			return
		}
	case *MapV:
		if q, ok := vb.(*MapV); ok && p.obj == q.obj && p.nilc == q.nilc {
			return
		}
	case *IfaceV:
		if q, ok := vb.(*IfaceV); ok && p.opaque != nil && p.opaque == q.opaque {
			return
		}
	case *FuncV:
		if q, ok := vb.(*FuncV); ok && p.fn == q.fn && p.opaque == q.opaque {
			return
		}
	}
	*out = append(*out, &loc{obj: id, path: path, typ: typ})
}

func (x *Exec) expandedContent(st *State, id int) Value {
	return x.content(st, id)
}

// runBody runs the loop body once from the (havocked) head state.
func (x *Exec) runBody(s *State, f *Frame, lp *loop) []Outcome {
	f.cuts = append(f.cuts[:len(f.cuts):len(f.cuts)], &loopCut{header: lp.header, blocks: lp.blocks, entering: true, first: true})
	return x.runBlock(s, f, lp.header, nil)
}

func (x *Exec) edgeVals(o Outcome, phis []*ssa.Phi, header *ssa.BasicBlock) map[*ssa.Phi]Value {
	r := map[*ssa.Phi]Value{}
	for i, p := range header.Preds {
		if p == o.prev {
			for _, ph := range phis {
				r[ph] = x.val(o.st, o.fr, ph.Edges[i])
			}
		}
	}
	return r
}

type backEdge struct {
	delta []*T
	next  map[*loc]*T
	pc    []*T
}

func (x *Exec) cutLoop(st *State, fr *Frame, lp *loop, prev *ssa.BasicBlock) []Outcome {
	x.doPhis(st, fr, lp.header, prev)
	phis := headerPhis(lp.header)
	nCuts := len(fr.cuts)
	where := x.pos(lp.header.Instrs[len(lp.header.Instrs)-1])
	// expand lazily known objects so that comparisons see structure
	var locs []*loc
	have := map[string]bool{}
	addLoc := func(l *loc) bool {
		if have[l.key()] {
			return false
		}
		have[l.key()] = true
		locs = append(locs, l)
		return true
	}
	for _, p := range phis {
		switch v := fr.env[p].(type) {
		case *T:
			addLoc(&loc{phi: p, typ: p.Type(), name: "l." + nameOf(p)})
		case *SliceV:
			if v.nilc != True {
				o := st.heap[v.obj]
				_, isT := o.c.(*T)
				lv, isL := o.c.(*ListV)
				okOwn := false
				if isT {
					okOwn = Add(v.off, v.len) == Len(o.c.(*T))
				}
				if isL {
					okOwn = Add(v.off, v.len) == Int(int64(len(lv.elems)))
				}
				if !okOwn {
					panic(unsupported("loop-carried slice shares a larger array"))
				}
			}
			addLoc(&loc{phi: p, typ: p.Type(), name: "l." + nameOf(p), nilOK: v.nilc != False})
		}
	}
	var hs *State
	var hf *Frame
	var outs []Outcome
	var mark int
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("loop-modified locations do not stabilise at " + where))
		}
		// drop locations inside other havocked locations
		locs = pruneLocs(locs)
		hs, hf = x.havocLoop(st, fr, locs, lp.header)
		mark = freshN
		x.mute++
		hs2, hf2 := hs.clone(), hf.clone()
		outs = x.runBody(hs2, hf2, lp)
		x.mute--
		grew := false
		for _, o := range outs {
			if o.kind != BACK {
				continue
			}
			ev := x.edgeVals(o, phis, lp.header)
			for _, p := range phis {
				switch v := fr.env[p].(type) {
				case *T:
				case *SliceV:
					if nv, ok := ev[p].(*SliceV); ok && nv.nilc != False {
						for _, l := range locs {
							if l.phi == p && !l.nilOK {
								l.nilOK = true
								grew = true
							}
						}
					}
				default:
					if !sameRef(v, ev[p]) && !have["phi:"+p.Name()] {
						addLoc(&loc{phi: p, typ: p.Type(), name: "l." + nameOf(p)})
						grew = true
					}
				}
			}
			for g, v := range hs.ghost {
				if o.st.ghost[g] != v && addLoc(&loc{ghost: g, name: "g." + g}) {
					grew = true
				}
			}
			ids := []int{}
			for id := range hs.heap {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				a, b := hs.heap[id], o.st.heap[id]
				if b == nil || a == b || a.c == b.c {
					continue
				}
				if _, lazy := a.c.(*LazyV); lazy {
					if x.abs(o.st, b.c, b.typ) == a.c.(*LazyV).t {
						continue
					}
					// expand in the entry state, so that parts are visible
					if _, still := st.heap[id]; still {
						x.content(st, id)
						grew = true
					}
					continue
				}
				var ch []*loc
				x.changedParts(hs, o.st, id, a.c, b.c, a.typ, nil, &ch)
				for _, l := range ch {
					if _, inEntry := st.heap[id]; !inEntry {
						// backing object of a havocked slice: in-place write
						panic(unsupported("in-place write to a loop-carried slice at " + where))
					}
					l.name = "l." + a.name
					if addLoc(l) {
						grew = true
					}
				}
			}
		}
		if !grew {
			break
		}
	}
	for _, l := range locs {
		l.init = x.locValue(st, fr, l)
	}
	// locks held at a back edge are those held at the loop head
	for _, o := range outs {
		if o.kind == BACK && locksOf(o.st) != locksOf(hs) {
			x.oblig(o.st, "lock-released", "each iteration leaves the locks as it found them", []string{"C24"}, False, where)
		}
	}
	// back edges
	var bes []*backEdge
	var deltas [][]*T // of all outcomes
	for _, o := range outs {
		d := o.st.pc[len(hs.pc):]
		deltas = append(deltas, d)
		if o.kind != BACK {
			continue
		}
		be := &backEdge{delta: d, next: map[*loc]*T{}, pc: o.st.pc}
		ev := x.edgeVals(o, phis, lp.header)
		for _, l := range locs {
			if l.phi != nil {
				be.next[l] = x.abs(o.st, ev[l.phi], l.phi.Type())
			} else {
				be.next[l] = x.locValue(o.st, o.fr, l)
			}
		}
		be.pc = o.st.pc
		bes = append(bes, be)
	}
	cands := x.mine(st, hs, locs, bes, outs, mark)
	cands = append(cands, x.hintCands(hs, locs, bes)...)
	// a record kept up to date with a ghost
	for _, g := range locs {
		if g.ghost == "" || g.h.sort.Kind != KStruct {
			continue
		}
		for _, l := range locs {
			if l.ghost == "" && l.h.sort.Kind == KOpt && l.h.sort.Elem == g.h.sort {
				cands = append(cands, Eq(l.h, Some(g.h)))
			}
			if l.ghost != "" || l.phi != nil {
				continue
			}
			for k, fs := range g.h.sort.FSorts {
				if fs == l.h.sort {
					cands = append(cands, Eq(l.h, Sel(k, g.h)))
				}
			}
		}
	}
	kept := x.houdini(st, hs, locs, bes, cands)
	if debugLoops {
		fmt.Fprintf(os.Stderr, "LOOP %s at %s: %d locations, %d back edges, %d candidates, %d kept\n", fr.fn, where, len(locs), len(bes), len(cands), len(kept))
		for _, l := range locs {
			fmt.Fprintf(os.Stderr, "   loc %s init=%s\n", l.h, clip(l.init.String()))
		}
		for _, be := range bes {
			for _, l := range locs {
				fmt.Fprintf(os.Stderr, "   back %s := %s\n", l.h, clip(be.next[l].String()))
			}
			for _, d := range be.delta {
				fmt.Fprintf(os.Stderr, "      if %s\n", clip(d.String()))
			}
		}
		for _, c := range cands {
			k := " "
			for _, kk := range kept {
				if kk == c {
					k = "*"
				}
			}
			fmt.Fprintf(os.Stderr, "  %s %s\n", k, clip(c.String()))
		}
	}
	if x.mute == 0 {
		x.loopInfo = append(x.loopInfo, fmt.Sprintf("%s: %d inductive invariants", where, len(kept)))
		x.nInv += len(kept)
	}
	if x.mute == 0 {
		for _, t := range x.curTags {
			if t == "C23" {
				x.terminates(hs, locs, bes, kept, where)
			}
		}
	}
	// final run under the invariants
	fs, ff := hs.clone(), hf.clone()
	for _, c := range kept {
		fs.assume(c)
	}
	var res []Outcome
	for _, o := range x.runBody(fs, ff, lp) {
		switch o.kind {
		case BACK:
		case EXIT:
			o.fr.cuts = o.fr.cuts[:nCuts:nCuts]
			if o.fr.unroll != nil {
				delete(o.fr.unroll, lp.header)
			}
			o.st.trace = append(o.st.trace, where+": after the loop")
			eqFromBounds(o.st)
			res = append(res, x.runBlock(o.st, o.fr, o.target, o.prev)...)
		default:
			if o.kind == RET && o.fr != nil && len(o.fr.cuts) > nCuts {
				o.fr.cuts = o.fr.cuts[:nCuts:nCuts]
			}
			res = append(res, o)
		}
	}
	return res
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "…"
	}
	return s
}

func nameOf(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sameRef(a, b Value) bool {
	switch p := a.(type) {
	case *PtrV:
		q, ok := b.(*PtrV)
		return ok && p.obj == q.obj && p.nilc == q.nilc && fmt.Sprint(p.path) == fmt.Sprint(q.path)
	case *MapV:
		q, ok := b.(*MapV)
		return ok && p.obj == q.obj && p.nilc == q.nilc
	case *IfaceV:
		q, ok := b.(*IfaceV)
		return ok && (p == q || p.opaque != nil && p.opaque == q.opaque || p.nilc == True && q.nilc == True)
	case *FuncV:
		q, ok := b.(*FuncV)
		return ok && p.fn == q.fn
	}
	return a == b
}

func pruneLocs(ls []*loc) []*loc {
	var r []*loc
	for i, a := range ls {
		inside := false
		for j, b := range ls {
			if i != j && a.phi == nil && a.ghost == "" && b.phi == nil && b.ghost == "" && a.obj == b.obj && len(b.path) < len(a.path) {
				pre := true
				for k := range b.path {
					if a.path[k] != b.path[k] {
						pre = false
					}
				}
				if pre {
					inside = true
				}
			}
		}
		if !inside {
			r = append(r, a)
		}
	}
	return r
}

// ---------------------------------------------------------------- mining

func freshIdx(name string) int {
	i := strings.LastIndexByte(name, '!')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(name[i+1:])
	if err != nil {
		return -1
	}
	return n
}

// hasFresh tells whether t mentions constants created after mark.
func hasFresh(t *T, mark int) bool {
	r := false
	collect(t, func(s *T) {
		if s.op == "const" && freshIdx(s.name) > mark {
			r = true
		}
	})
	return r
}

func flatten(ts []*T) []*T {
	var r []*T
	for _, t := range ts {
		if t.op == "and" {
			r = append(r, flatten(t.args)...)
		} else {
			r = append(r, t)
		}
	}
	return r
}

// unitProp simplifies implications and disjunctions among atoms whose
// premises, conclusions or cases the other atoms decide.
func unitProp(atoms []*T) []*T {
	for iter := 0; iter < 8; iter++ {
		known := map[*T]bool{}
		for _, a := range atoms {
			known[a] = true
		}
		var refuted, proved func(t *T) bool
		refuted = func(t *T) bool {
			if t == False || known[Not(t)] {
				return true
			}
			switch t.op {
			case "not":
				return t.args[0].op != "not" && proved(t.args[0])
			case "and":
				for _, a := range t.args {
					if refuted(a) {
						return true
					}
				}
			case "or":
				for _, a := range t.args {
					if !refuted(a) {
						return false
					}
				}
				return true
			}
			return false
		}
		proved = func(t *T) bool {
			if t == True || known[t] {
				return true
			}
			if t.op == "and" {
				for _, a := range t.args {
					if !proved(a) {
						return false
					}
				}
				return true
			}
			if t.op == "or" {
				for _, a := range t.args {
					if proved(a) {
						return true
					}
				}
			}
			return t.op == "not" && refuted(t.args[0])
		}
		ch := false
		var r []*T
		for _, a := range atoms {
			switch a.op {
			case "=>":
				if proved(a.args[0]) {
					a, ch = a.args[1], true
				} else if refuted(a.args[1]) {
					a, ch = Not(a.args[0]), true
				}
			case "or":
				var ds []*T
				for _, d := range a.args {
					if !refuted(d) {
						ds = append(ds, d)
					}
				}
				if len(ds) < len(a.args) {
					a, ch = Or(ds...), true
				}
			}
			r = append(r, a)
		}
		atoms = flatten(r)
		if !ch {
			break
		}
	}
	return atoms
}

// solveFresh eliminates fresh constants determined by equalities.
func solveFresh(atoms []*T, mark int) ([]*T, map[*T]*T) {
	sub := map[*T]*T{}
	atoms = unitProp(flatten(atoms))
	for iter := 0; iter < 12; iter++ {
		var c, v *T
		for _, a := range atoms {
			switch {
			case a.op == "const" && a.sort == SBool && freshIdx(a.name) > mark:
				c, v = a, True
			case a.op == "not" && a.args[0].op == "const" && freshIdx(a.args[0].name) > mark:
				c, v = a.args[0], False
			case a.op == "=":
				for k := 0; k < 2; k++ {
					l, r := a.args[k], a.args[1-k]
					if l.op == "+" && len(l.args) == 2 && l.args[0].op == "const" && l.args[1].op == "int" {
						l, r = l.args[0], Sub(r, l.args[1])
					}
					if l.op == "const" && freshIdx(l.name) > mark {
						occurs := false
						collect(r, func(s *T) {
							if s == l {
								occurs = true
							}
						})
						if !occurs {
							c, v = l, r
							break
						}
					}
				}
			}
			if c != nil {
				break
			}
		}
		if c == nil {
			break
		}
		m := map[*T]*T{c: v}
		for k, w := range sub {
			sub[k] = Subst(w, m)
		}
		sub[c] = v
		var na []*T
		for _, a := range atoms {
			na = append(na, Subst(a, m))
		}
		atoms = unitProp(flatten(na))
	}
	var r []*T
	for _, a := range atoms {
		if a != True {
			r = append(r, a)
		}
	}
	return r, sub
}

type miner struct {
	x    *Exec
	locs []*loc
	mark int
	hset map[*T]*loc
	out  []*T
	seen map[*T]bool
}

func (m *miner) add(t *T) {
	if t == nil || t == True || m.seen[t] {
		return
	}
	bad := false
	collect(t, func(s *T) {
		if s.op == "const" && freshIdx(s.name) > m.mark {
			bad = true
		}
	})
	if bad || t.hasB {
		return
	}
	m.seen[t] = true
	m.out = append(m.out, t)
}

// counter: a location stepping by one
type counter struct {
	l *loc
	n *T // number of completed iterations
}

func (x *Exec) mine(st, hs *State, locs []*loc, bes []*backEdge, outs []Outcome, mark int) []*T {
	m := &miner{x: x, locs: locs, mark: mark, hset: map[*T]*loc{}, seen: map[*T]bool{}}
	for _, l := range locs {
		m.hset[l.h] = l
	}
	if len(bes) == 0 {
		// the body never runs to its end
		for _, l := range locs {
			m.add(Eq(l.h, l.init))
		}
		return m.out
	}
	type path struct {
		atoms []*T
		sub   map[*T]*T
		be    *backEdge
		alt   map[*T]*T // choices made inside next values
	}
	var paths []*path
	for _, be := range bes {
		a, s := solveFresh(be.delta, mark)
		paths = append(paths, &path{a, s, be, nil})
	}
	var exits [][]*T
	for _, o := range outs {
		if o.kind != BACK && o.kind != PANIC {
			a, _ := solveFresh(o.st.pc[len(hs.pc):], mark)
			exits = append(exits, a)
		}
	}
	nextOf := func(p *path, l *loc) *T {
		v := Subst(p.be.next[l], p.sub)
		for v.op == "ite" && p.alt[v] != nil {
			v = p.alt[v]
		}
		return v
	}
	// a value chosen by a condition (a helper's merged results) counts as
	// one path for each choice
	for i := 0; i < len(paths) && len(paths) < 12; i++ {
		p := paths[i]
		for _, l := range locs {
			v := nextOf(p, l)
			if v.op != "ite" || l.h.sort.Kind == KSeq || l.h.sort.Kind == KMap || v.hasB {
				continue
			}
			q := &path{atoms: append(append([]*T{}, p.atoms...), flatten([]*T{Not(v.args[0])})...), sub: p.sub, be: p.be, alt: map[*T]*T{v: v.args[2]}}
			for k, w := range p.alt {
				q.alt[k] = w
			}
			if p.alt == nil {
				p.alt = map[*T]*T{}
			}
			p.alt[v] = v.args[1]
			p.atoms = append(append([]*T{}, p.atoms...), flatten([]*T{v.args[0]})...)
			paths = append(paths, q)
			i--
			break
		}
	}

	// counters
	var ctrs []counter
	for _, l := range locs {
		if l.h.sort != SInt {
			continue
		}
		all := true
		for _, p := range paths {
			if nextOf(p, l) != Add(l.h, Int(1)) {
				all = false
			}
		}
		if all {
			ctrs = append(ctrs, counter{l, Sub(l.h, l.init)})
		}
	}
	// unchanged / trivially related
	for _, l := range locs {
		m.add(Eq(l.h, l.init))
		if l.h.sort == SInt {
			m.add(Le(l.init, l.h))
			m.add(Le(Int(0), l.h))
		}
		if l.h.sort.Kind == KSeq {
			m.add(Le(Len(l.init), Len(l.h)))
			for _, p := range paths {
				for _, pre := range []*T{l.init} {
					_ = p
					_ = pre
				}
			}
		}
		if l.h.sort.Kind == KOpt {
			m.add(Eq(IsNone(l.h), IsNone(l.init)))
		}
		if l.h.sort.Kind == KMap {
			k := BVar("k", l.h.sort.Key)
			m.add(Forall([]*T{k}, Imp(IsSome(Select(l.init, k)), IsSome(Select(l.h, k))), []*T{Select(l.h, k)}, []*T{Select(l.init, k)}))
		}
	}
	for i, a := range ctrs {
		for _, b := range ctrs[i+1:] {
			m.add(Eq(Sub(a.l.h, a.l.init), Sub(b.l.h, b.l.init)))
			m.add(Eq(a.l.h, Add(b.l.h, Sub(a.l.init, b.l.init))))
		}
	}
	// bounds from comparisons anywhere
	for _, at := range append(allAtoms(paths2atoms(len(paths), func(i int) []*T { return paths[i].atoms })), allAtoms(exits)...) {
		if at.op == "<" {
			for _, c := range ctrs {
				for _, s := range at.args {
					if !mentionsLocs(s, m.hset) && s.sort == SInt {
						m.add(Le(c.l.h, s))
						m.add(Lt(c.l.h, s))
						m.add(Le(s, c.l.h))
					}
				}
			}
		}
	}
	// iterated sequences: At(S, h+k)
	type iter struct {
		s *T // sequence
		c counter
		d *T // index of the element in iteration n is n + d
	}
	var iters []iter
	seenIt := map[string]bool{}
	scan := func(t *T) {
		collect(t, func(s *T) {
			if s.op != "at" || s.hasB || mentionsLocs(s.args[0], m.hset) || hasFresh(s.args[0], mark) {
				return
			}
			for _, c := range ctrs {
				d := Sub(s.args[1], c.l.h)
				if mentionsLocs(d, m.hset) || hasFresh(d, mark) {
					continue
				}
				d = Add(d, c.l.init)
				k := fmt.Sprint(s.args[0].id, ",", d.id)
				if !seenIt[k] {
					seenIt[k] = true
					iters = append(iters, iter{s.args[0], c, d})
				}
				return
			}
		})
	}
	for _, p := range paths {
		for _, a := range p.atoms {
			scan(a)
		}
		for _, l := range locs {
			scan(nextOf(p, l))
		}
	}
	for _, e := range exits {
		for _, a := range e {
			scan(a)
		}
	}
	for _, c := range ctrs {
		for _, it := range iters {
			m.add(Le(Add(Sub(c.l.h, c.l.init), it.d), Len(it.s)))
		}
		for _, l := range locs {
			if l.h.sort.Kind == KSeq {
				m.add(Eq(Len(l.h), Add(Len(l.init), Sub(c.l.h, c.l.init))))
				m.add(Le(Len(l.h), Add(Len(l.init), Sub(c.l.h, c.l.init))))
				m.add(Eq(Len(l.h), Len(l.init)))
			}
		}
		// a position counter inside a sequence being filled: out[i] = ...
		for _, l := range locs {
			if l.h.sort.Kind == KInt && l != c.l {
				m.add(Le(Sub(l.h, l.init), Sub(c.l.h, c.l.init)))
			}
		}
	}

	j := BVar("j", SInt)
	for _, it := range iters {
		it := it
		n := Sub(it.c.l.h, it.c.l.init)
		elemNow := At(it.s, Add(Add(it.c.l.h, Sub(Int(0), it.c.l.init)), it.d))
		elemNow2 := At(it.s, Add(Sub(it.c.l.h, it.c.l.init), it.d))
		atJ := At(it.s, Add(j, it.d))
		rng := And(Le(Int(0), j), Lt(j, n))
		trig := []*T{atJ}
		// generalise a term of the current iteration to iteration j
		gen := func(t *T) *T {
			r := Subst(t, map[*T]*T{elemNow: atJ, elemNow2: atJ})
			// remaining uses of counters
			sub := map[*T]*T{}
			for _, c := range ctrs {
				sub[c.l.h] = Add(j, c.l.init)
			}
			return Subst(r, sub)
		}
		pure := func(t *T) bool { return !mentionsLocs(t, m.hset) && !hasFresh(t, mark) }
		// like gen, but keeps other locations at their current value
		guard := func(atoms []*T) *T {
			var g []*T
			for _, a := range atoms {
				b := gen(a)
				if pure(b) && !indexOnly(b, j, atJ) && !machineRange(b) {
					g = append(g, b)
				}
			}
			return And(g...)
		}
		fa := func(body *T) *T { return Forall([]*T{j}, Imp(rng, body), trig) }
		var gs, lite []*T
		for _, p := range paths {
			gs = append(gs, guard(p.atoms))
			var la []*T
			for _, a := range p.atoms {
				quant := false
				collect(a, func(s *T) { quant = quant || s.op == "forall" || s.op == "exists" })
				if !quant {
					la = append(la, a)
				}
			}
			lite = append(lite, guard(la))
		}
		m.add(fa(Or(gs...)))
		for k, p := range paths {
			_ = k
			for _, a := range p.atoms {
				b := gen(a)
				if pure(b) {
					if b.hasB {
						m.add(fa(b))
						m.add(fa(Not(b)))
					}
				} else if !hasFresh(b, mark) && b.hasB {
					// stateful condition, at the current values
					m.add(fa(b))
					m.add(fa(Not(b)))
					if c := b; c.op == "<" || c.op == "not" && c.args[0].op == "<" {
						if c.op == "not" {
							c = c.args[0]
						}
						m.add(fa(Le(c.args[0], c.args[1])))
						m.add(fa(Le(c.args[1], c.args[0])))
					}
				}
			}
		}
		for _, e := range exits {
			for _, a := range e {
				b := gen(a)
				if pure(b) && b.hasB {
					m.add(fa(Not(b)))
				}
			}
			g := guard(e)
			if g.hasB {
				m.add(fa(Not(g)))
			}
		}
		// locations remembered together, such as the fields of a struct
		{
			var grp []*loc
			for _, l := range locs {
				ctr := false
				for _, c := range ctrs {
					ctr = ctr || c.l == l
				}
				ch, ok := false, true
				for _, p := range paths {
					if v := nextOf(p, l); v != l.h {
						ch = true
						ok = ok && pure(gen(v))
					}
				}
				if !ctr && l.h.sort.Kind != KSeq && l.h.sort.Kind != KMap && l.ghost == "" {
					if ch && ok {
						grp = append(grp, l)
					}
				}
			}
			byPaths := map[string][]*loc{}
			var order []string
			for _, l := range grp {
				k := ""
				for i, p := range paths {
					if nextOf(p, l) != l.h {
						k += fmt.Sprint(i, ",")
					}
				}
				if byPaths[k] == nil {
					order = append(order, k)
				}
				byPaths[k] = append(byPaths[k], l)
			}
			for _, k := range order {
				g := byPaths[k]
				var same, any []*T
				for _, l := range g {
					same = append(same, Eq(l.h, l.init))
				}
				for i, p := range paths {
					cs := []*T{gs[i]}
					for _, l := range g {
						if v := nextOf(p, l); v != l.h {
							cs = append(cs, Eq(l.h, gen(v)))
						}
					}
					if len(cs) > 1 {
						any = append(any, And(cs...))
					}
				}
				some := Exists([]*T{j}, And(rng, Or(any...)), trig)
				// nothing remembered yet: no element called for it
				var no []*T
				for i, p := range paths {
					if nextOf(p, g[0]) != g[0].h && gs[i].hasB {
						no = append(no, Not(gs[i]))
					}
				}
				if len(no) > 0 {
					m.add(Imp(And(same...), fa(And(no...))))
					for _, l := range g {
						m.add(Imp(Eq(l.h, l.init), fa(And(no...))))
					}
				}
				if len(g) > 1 {
					m.add(Or(And(same...), some))
				}
				for _, b := range locs {
					if b.h.sort != SBool {
						continue
					}
					in := false
					for _, l := range g {
						in = in || l == b
					}
					if !in {
						m.add(Imp(Eq(b.h, b.init), And(same...)))
						m.add(Imp(Not(Eq(b.h, b.init)), some))
					}
				}
			}
		}
		// accumulators
		for _, l := range locs {
			switch {
			case l.h.sort == SBool:
				var ts, fs []*T
				for k, p := range paths {
					v := nextOf(p, l)
					wasT, wasF := false, false
					for _, a := range p.atoms {
						wasT = wasT || a == l.h
						wasF = wasF || a == Not(l.h)
					}
					if wasT || wasF {
						if w := gen(v); pure(w) {
							if wasT && w != True {
								fs = append(fs, And(gs[k], Not(w)))
							}
							if wasF && w != False {
								ts = append(ts, And(gs[k], w))
							}
							continue
						}
					}
					switch {
					case v == l.h:
					case v == True:
						ts = append(ts, gs[k])
					case v == False:
						fs = append(fs, gs[k])
					default:
						// h ∨ ψ
						w := gen(Subst(v, map[*T]*T{l.h: False}))
						if pure(w) {
							ts = append(ts, And(gs[k], w))
						}
						w = gen(Subst(v, map[*T]*T{l.h: True}))
						if pure(w) {
							fs = append(fs, And(gs[k], Not(w)))
						}
					}
				}
				if len(ts) > 0 {
					c := Or(ts...)
					m.add(fa(Imp(c, l.h)))
					m.add(Imp(l.h, Or(l.init, Exists([]*T{j}, And(rng, c), trig))))
					m.add(Imp(l.init, l.h))
				}
				if len(fs) > 0 {
					c := Or(fs...)
					m.add(fa(Imp(c, Not(l.h))))
					m.add(Imp(Not(l.h), Or(Not(l.init), Exists([]*T{j}, And(rng, c), trig))))
					m.add(Imp(l.h, l.init))
				}
			case l.h.sort.Kind == KSeq:
				for _, c := range locs {
					if c.h.sort == SInt {
						m.fillCands(l, c, rng, trig, j, gen, pure, gs, func(k int, q *loc) *T { return nextOf(paths[k], q) }, len(paths))
					}
				}
				m.seqCands(l, it.s, n, it.d, elemNow2, atJ, rng, trig, j, gen, pure, gs, func(k int) *T { return nextOf(paths[k], l) }, len(paths))
				m.factCands(l, atJ, rng, trig, j, gen, pure, lite, func(k int) (*T, []*T) { return nextOf(paths[k], l), paths[k].atoms }, len(paths))
				m.memberCands(l, it.s, n, it.d, atJ, rng, trig, j, gen, pure, gs, func(k int) (*T, []*T) { return nextOf(paths[k], l), paths[k].atoms }, len(paths))
			case l.h.sort.Kind == KMap:
				m.mapMemberCands(l, atJ, rng, j, gen, pure, lite, func(k int) (*T, []*T) { return nextOf(paths[k], l), paths[k].atoms }, len(paths))
				m.mapCands(l, it.s, n, it.d, atJ, rng, trig, j, gen, pure, gs, func(k int) *T { return nextOf(paths[k], l) }, len(paths))
			default:
				// last-value accumulators: value is init or came from some element
				counts := false
				for _, c := range ctrs {
					counts = counts || c.l == l
				}
				if counts {
					break
				}
				var eqs []*T
				ok := true
				for k, p := range paths {
					v := nextOf(p, l)
					if v == l.h {
						continue
					}
					w := gen(v)
					if !pure(w) {
						ok = false
						continue
					}
					eqs = append(eqs, And(gs[k], Eq(l.h, w)))
				}
				if ok && len(eqs) > 0 {
					m.add(Or(Eq(l.h, l.init), Exists([]*T{j}, And(rng, Or(eqs...)), trig)))
				}
			}
		}
	}
	return m.out
}

// indexOnly: an order atom over the position, not over the element there
// (implied by the range of positions already visited).
// machineRange: a statement that a value lies in the range of its machine
// type; these hold of every element, visited or not.
func machineRange(b *T) bool {
	if b.op != "not" || b.args[0].op != "<" {
		return false
	}
	l, r := b.args[0].args[0], b.args[0].args[1]
	return r == Int(-2147483648) || l == Int(2147483647)
}

func indexOnly(b, j, atJ *T) bool {
	if b.op == "not" {
		b = b.args[0]
	}
	return b.op == "<" && mentionsT(b, j) && !mentionsT(b, atJ)
}

func (m *miner) seqCands(l *loc, s, n, d, elemNow, atJ, rng *T, trig []*T, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int) *T, np int) {
	es := l.h.sort.Elem
	var adds [][2]*T // guard, value (over j)
	always := true
	ident := d == Int(0) && s.sort == l.h.sort
	okAdd := true
	for k := 0; k < np; k++ {
		v := next(k)
		if v == l.h {
			always = false
			continue
		}
		cnt := 0
		for v.op == "app" {
			w := gen(v.args[1])
			if !pure(w) {
				okAdd = false
				break
			}
			adds = append(adds, [2]*T{gs[k], w})
			if w != atJ {
				ident = false
			}
			cnt++
			v = v.args[0]
		}
		if cnt != 1 {
			always = false
		}
		if v != l.h {
			if v.op == "set" && v.args[0] == l.h {
				// out[idx] = val
				idx, val := gen(v.args[1]), gen(v.args[2])
				if pure(idx) && pure(val) {
					m.add(Forall([]*T{j}, Imp(And(rng, gs[k]), Eq(At(l.h, idx), val)), trig))
					m.add(Forall([]*T{j}, Imp(rng, Eq(At(l.h, j), Subst(val, map[*T]*T{}))), []*T{At(l.h, j)}))
					x := BVar("x", es)
					m.add(Forall([]*T{x}, Imp(InP(x, l.h, n), Exists([]*T{j}, And(rng, Eq(x, val)), trig)), []*T{InP(x, l.h, n)}))
					if val == atJ {
						m.add(Forall([]*T{x}, Eq(mk("inp", "", SBool, x, l.h, n), mk("inp", "", SBool, x, s, n)), []*T{mk("inp", "", SBool, x, l.h, n)}, []*T{mk("inp", "", SBool, x, s, n)}))
					}
				}
			}
			okAdd = false
		}
	}
	if !okAdd || len(adds) == 0 {
		return
	}
	if !always {
		// nothing was skipped exactly when the length says so
		var add, skip []*T
		one := true
		for k := 0; k < np; k++ {
			v := next(k)
			if v == l.h {
				skip = append(skip, gs[k])
			} else if v.op == "app" && v.args[0] == l.h {
				add = append(add, gs[k])
			} else {
				one = false
			}
		}
		if one {
			full := Eq(Len(l.h), Add(Len(l.init), n))
			m.add(Imp(full, Forall([]*T{j}, Imp(rng, Or(add...)), trig)))
			m.add(Or(full, Exists([]*T{j}, And(rng, Or(skip...)), trig)))
		}
	}
	x := BVar("x", es)
	inAcc, inInit := In(x, l.h), In(x, l.init)
	tr := []*T{inAcc}
	if ident {
		var cs []*T
		for _, a := range adds {
			cs = append(cs, Subst(a[0], map[*T]*T{atJ: x}))
		}
		phi := Or(cs...)
		if !mentionsT(phi, j) {
			ip := InP(x, s, n)
			m.add(Forall([]*T{x}, Eq(inAcc, Or(inInit, And(ip, phi))), tr, []*T{ip}))
			m.add(Forall([]*T{x}, Imp(inAcc, Or(inInit, And(ip, phi))), tr))
			m.add(Forall([]*T{x}, Imp(And(ip, phi), inAcc), tr, []*T{ip}))
			m.add(Forall([]*T{x}, Imp(inInit, inAcc), tr))
		}
	} else {
		var fw, ex []*T
		for _, a := range adds {
			fw = append(fw, Imp(a[0], In(a[1], l.h)))
			ex = append(ex, And(a[0], Eq(x, a[1])))
		}
		m.add(Forall([]*T{j}, Imp(rng, And(fw...)), trig))
		m.add(Forall([]*T{x}, Imp(inAcc, Or(inInit, Exists([]*T{j}, And(rng, Or(ex...)), trig))), tr))
		m.add(Forall([]*T{x}, Eq(inAcc, Or(inInit, Exists([]*T{j}, And(rng, Or(ex...)), trig))), tr))
		m.add(Forall([]*T{x}, Imp(inInit, inAcc), tr))
	}
	if always && len(adds) > 0 {
		base := Len(l.init)
		pos := Add(j, base)
		v := adds[len(adds)-1][1]
		if len(adds) > 1 {
			// value depends on the path
			for i := len(adds) - 2; i >= 0; i-- {
				v = Ite(adds[i][0], adds[i][1], v)
			}
		}
		m.add(Forall([]*T{j}, Imp(rng, Eq(At(l.h, pos), v)), []*T{At(l.h, pos)}))
		if base == Int(0) {
			// also in terms of the iterated sequence
			m.add(Forall([]*T{j}, Imp(rng, Eq(At(l.h, pos), v)), trig))
		}
	}
	i := BVar("i", SInt)
	if l.init.op != "empty" {
		m.add(Forall([]*T{i}, Imp(And(Le(Int(0), i), Lt(i, Len(l.init))), Eq(At(l.h, i), At(l.init, i))), []*T{At(l.h, i)}))
	}
}

// fillCands describes a sequence whose first c elements have been filled in,
// one at a time.
func (m *miner) fillCands(l, c *loc, rng *T, trig []*T, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int, *loc) *T, np int) {
	if c.init != Int(0) {
		return
	}
	var fw, ex []*T
	X := BVar("x", l.h.sort.Elem)
	acc := InP(X, l.h, c.h)
	for k := 0; k < np; k++ {
		v, w := next(k, l), next(k, c)
		if v == l.h && w == c.h {
			continue
		}
		if v.op != "set" || v.args[0] != l.h || v.args[1] != c.h || w != Add(c.h, Int(1)) {
			return
		}
		e := gen(v.args[2])
		if !pure(e) {
			return
		}
		fw = append(fw, Imp(gs[k], InP(e, l.h, c.h)))
		ex = append(ex, And(gs[k], Eq(X, e)))
	}
	if len(ex) == 0 {
		return
	}
	m.add(Forall([]*T{j}, Imp(rng, And(fw...)), trig))
	m.add(Forall([]*T{X}, Imp(acc, Exists([]*T{j}, And(rng, Or(ex...)), trig)), []*T{acc}))
}

// factsOf says what the atoms tell about the fresh constant f: a formula over
// f without other fresh constants.  Errors that f depends on are split into
// nil and not nil; facts about anything else fresh are dropped.
func factsOf(f *T, atoms []*T, mark int) *T {
	var about []*T
	errs := map[*T]bool{}
	for _, a := range atoms {
		if mentionsT(a, f) {
			about = append(about, a)
			collect(a, func(s *T) {
				if s.op == "const" && s.sort == SErr && freshIdx(s.name) > mark {
					errs[s] = true
				}
			})
		}
	}
	for _, a := range atoms {
		if !mentionsT(a, f) {
			rel := false
			collect(a, func(s *T) { rel = rel || errs[s] })
			if rel {
				about = append(about, a)
			}
		}
	}
	if len(errs) > 2 {
		return True
	}
	branches := [][]*T{about}
	for e := range errs {
		var nb [][]*T
		isnil := Eq(NoErr, e)
		for _, b := range branches {
			for _, v := range []*T{True, False} {
				m := map[*T]*T{isnil: v}
				if v == True {
					m[e] = NoErr
				}
				var c []*T
				for _, a := range b {
					c = append(c, Subst(a, m))
				}
				nb = append(nb, unitProp(flatten(c)))
			}
		}
		branches = nb
	}
	var r []*T
	for _, b := range branches {
		var c []*T
		for _, a := range b {
			ok := true
			collect(a, func(s *T) {
				if s.op == "const" && s != f && freshIdx(s.name) > mark {
					ok = false
				}
			})
			if ok {
				c = append(c, a)
			}
		}
		r = append(r, And(c...))
	}
	return Or(r...)
}

// factCands describes elements that a loop stores and that are known only by
// facts about them (results of calls under contract).
func (m *miner) factCands(l *loc, atJ, rng *T, trig []*T, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int) (*T, []*T), np int) {
	X := BVar("x", l.h.sort.Elem)
	over := func(t, val *T, atoms []*T) *T {
		switch {
		case val.op == "const" && freshIdx(val.name) > m.mark:
			return Subst(gen(factsOf(val, atoms, m.mark)), map[*T]*T{val: t})
		case val.op == "some" && val.args[0].op == "const" && freshIdx(val.args[0].name) > m.mark:
			return And(IsSome(t), Subst(gen(factsOf(val.args[0], atoms, m.mark)), map[*T]*T{val.args[0]: Val(t)}))
		case pure(gen(val)):
			return Eq(t, gen(val))
		}
		return nil
	}
	some := false
	always := true
	var at, mem []*T
	var idx *T
	for k := 0; k < np; k++ {
		v, atoms := next(k)
		switch {
		case v == l.h:
			always = false
		case v.op == "app" && v.args[0] == l.h:
			i := Add(j, Len(l.init))
			if idx != nil && idx != i {
				return
			}
			idx = i
			val := v.args[1]
			some = some || !pure(gen(val))
			a, b := over(At(l.h, i), val, atoms), over(X, val, atoms)
			if a == nil || !pure(b) {
				return
			}
			at, mem = append(at, And(gs[k], a)), append(mem, And(gs[k], b))
		case v.op == "set" && v.args[0] == l.h:
			i := gen(v.args[1])
			if idx != nil && idx != i || !pure(i) {
				return
			}
			idx = i
			val := v.args[2]
			some = some || !pure(gen(val))
			a := over(At(l.h, i), val, atoms)
			if a == nil {
				return
			}
			at = append(at, And(gs[k], a))
		default:
			return
		}
	}
	if !some || idx == nil {
		return
	}
	if always {
		m.add(Forall([]*T{j}, Imp(rng, Or(at...)), trig))
		m.add(Forall([]*T{j}, Imp(rng, Or(at...)), []*T{At(l.h, idx)}))
	}
	if len(mem) > 0 {
		inAcc := In(X, l.h)
		m.add(Forall([]*T{X}, Imp(inAcc, Or(In(X, l.init), Exists([]*T{j}, And(rng, Or(mem...)), trig))), []*T{inAcc}))
	}
}

// pullEq finds a value v such that t is equivalent to x = v and the rest.
func pullEq(t, x *T) (v, rest *T) {
	switch t.op {
	case "=":
		for k := 0; k < 2; k++ {
			if t.args[k] == x && !mentionsT(t.args[1-k], x) {
				return t.args[1-k], True
			}
		}
	case "and":
		for i, a := range t.args {
			if v, r := pullEq(a, x); v != nil {
				os := []*T{r}
				for k, b := range t.args {
					if k != i {
						os = append(os, b)
					}
				}
				return v, And(os...)
			}
		}
	case "or":
		var v *T
		var rs []*T
		for _, a := range t.args {
			w, r := pullEq(a, x)
			if w == nil || v != nil && w != v {
				return nil, nil
			}
			v = w
			rs = append(rs, r)
		}
		return v, Or(rs...)
	case "exists":
		v, r := pullEq(t.args[0], x)
		if v != nil {
			for _, b := range t.bv {
				if mentionsT(v, b) {
					return nil, nil
				}
			}
			return v, Exists(t.bv, r, t.trig...)
		}
	}
	return nil, nil
}

// memberFact looks for a fact  forall x: x in v <==> x in h or psi.
func memberFact(atoms []*T, v, h *T) (x, psi *T) {
	for _, a := range atoms {
		if a.op != "forall" || len(a.bv) != 1 {
			continue
		}
		b := a.args[0]
		x := a.bv[0]
		if b.op != "=" || b.args[0].sort != SBool || x.sort != v.sort.Elem {
			continue
		}
		inV, inH := In(x, v), In(x, h)
		for k := 0; k < 2; k++ {
			l, r := b.args[k], b.args[1-k]
			if l != inV {
				continue
			}
			var ds []*T
			has := h.op == "empty"
			for _, d := range orArgs(r) {
				if d == inH {
					has = true
				} else {
					ds = append(ds, d)
				}
			}
			if has {
				return x, Or(ds...)
			}
		}
	}
	return nil, nil
}

func orArgs(t *T) []*T {
	if t.op == "or" {
		return t.args
	}
	return []*T{t}
}

// memberCands describes a sequence that a nested loop extends.
func (m *miner) memberCands(l *loc, s, n, d, atJ, rng *T, trig []*T, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int) (*T, []*T), np int) {
	X := BVar("x", l.h.sort.Elem)
	var cs []*T
	nested := false
	for k := 0; k < np; k++ {
		v, atoms := next(k)
		psi := False
		for v.op == "app" {
			psi = Or(psi, Eq(X, gen(v.args[1])))
			v = v.args[0]
		}
		if v != l.h {
			y, p := memberFact(atoms, v, l.h)
			if y == nil {
				return
			}
			nested = true
			psi = Or(psi, gen(Subst(p, map[*T]*T{y: X})))
		}
		if psi == False {
			continue
		}
		if !pure(psi) {
			return
		}
		cs = append(cs, And(gs[k], psi))
	}
	if !nested || len(cs) == 0 {
		return
	}
	all := Or(cs...)
	inAcc, inInit := In(X, l.h), In(X, l.init)
	if v, rest := pullEq(all, X); v == atJ && d == Int(0) && s.sort == l.h.sort {
		phi := Subst(rest, map[*T]*T{atJ: X})
		if !mentionsT(phi, j) {
			ip := InP(X, s, n)
			m.add(Forall([]*T{X}, Eq(inAcc, Or(inInit, And(ip, phi))), []*T{inAcc}, []*T{ip}))
			m.add(Forall([]*T{X}, Imp(inAcc, Or(inInit, And(ip, phi))), []*T{inAcc}))
		}
	}
	m.add(Forall([]*T{X}, Eq(inAcc, Or(inInit, Exists([]*T{j}, And(rng, all), trig))), []*T{inAcc}))
}

// mapMemberFact looks for a fact  forall x: x in v <==> x in h or psi  over
// the keys of maps.
func mapMemberFact(atoms []*T, v, h *T) (x, psi *T) {
	for _, a := range atoms {
		if a.op != "forall" || len(a.bv) != 1 || a.bv[0].sort != v.sort.Key {
			continue
		}
		b, x := a.args[0], a.bv[0]
		if b.op != "=" || b.args[0].sort != SBool {
			continue
		}
		inV, inH := IsSome(Select(v, x)), IsSome(Select(h, x))
		for k := 0; k < 2; k++ {
			if b.args[k] != inV {
				continue
			}
			var ds []*T
			has := false
			for _, d := range orArgs(b.args[1-k]) {
				if d == inH {
					has = true
				} else {
					ds = append(ds, d)
				}
			}
			if has {
				return x, Or(ds...)
			}
		}
	}
	return nil, nil
}

// mapMemberCands describes a map whose keys a nested loop extends.
func (m *miner) mapMemberCands(l *loc, atJ, rng, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int) (*T, []*T), np int) {
	X := BVar("x", l.h.sort.Key)
	var cs, idle []*T
	nested := false
	for k := 0; k < np; k++ {
		v, atoms := next(k)
		psi := False
		for v.op == "store" {
			if v.args[2].op == "none" {
				return
			}
			psi = Or(psi, Eq(X, gen(v.args[1])))
			v = v.args[0]
		}
		if v != l.h {
			y, p := mapMemberFact(atoms, v, l.h)
			if y == nil {
				return
			}
			nested = true
			psi = Or(psi, gen(Subst(p, map[*T]*T{y: X})))
		}
		if psi == False {
			idle = append(idle, gs[k])
			continue
		}
		if !pure(psi) {
			return
		}
		cs = append(cs, And(gs[k], psi))
	}
	if !nested || len(cs) == 0 {
		return
	}
	all := Or(cs...)
	sel, sel0 := IsSome(Select(l.h, X)), IsSome(Select(l.init, X))
	m.add(Forall([]*T{X}, Imp(sel, Or(sel0, Exists([]*T{j}, And(rng, all), []*T{atJ}))), []*T{Select(l.h, X)}))
	m.add(Forall([]*T{X, j}, Imp(And(rng, all), sel), []*T{atJ, Select(l.h, X)}))
	m.add(Forall([]*T{X, j}, Imp(And(rng, all, Not(Or(idle...))), sel), []*T{atJ, Select(l.h, X)}))
}

func (m *miner) mapCands(l *loc, s, n, d, atJ, rng *T, trig []*T, j *T, gen func(*T) *T, pure func(*T) bool, gs []*T, next func(int) *T, np int) {
	type upd struct{ g, k, v *T }
	var ups, dels []upd
	for p := 0; p < np; p++ {
		v := next(p)
		for v.op == "store" {
			k := gen(v.args[1])
			val := v.args[2]
			if !pure(k) {
				return
			}
			if val.op == "none" {
				dels = append(dels, upd{gs[p], k, nil})
			} else {
				ups = append(ups, upd{gs[p], k, gen(val)})
			}
			v = v.args[0]
		}
		if v != l.h {
			return
		}
	}
	x := BVar("x", l.h.sort.Key)
	sel, sel0 := Select(l.h, x), Select(l.init, x)
	tr := []*T{sel}
	ip := func() *T { return InP(x, s, n) }
	identOf := func(us []upd) (*T, bool) {
		var cs []*T
		for _, u := range us {
			if u.k != atJ || d != Int(0) {
				return nil, false
			}
			cs = append(cs, Subst(u.g, map[*T]*T{atJ: x}))
		}
		phi := Or(cs...)
		return phi, !mentionsT(phi, j)
	}
	if len(ups) > 0 && len(dels) == 0 {
		if phi, ok := identOf(ups); ok {
			m.add(Forall([]*T{x}, Eq(IsSome(sel), Or(IsSome(sel0), And(ip(), phi))), tr, []*T{ip()}))
			m.add(Forall([]*T{x}, Imp(Not(And(ip(), phi)), Eq(sel, sel0)), tr))
		} else {
			var ex, fw []*T
			for _, u := range ups {
				ex = append(ex, And(u.g, Eq(x, u.k)))
				fw = append(fw, Imp(u.g, IsSome(Select(l.h, u.k))))
			}
			m.add(Forall([]*T{x}, Imp(IsSome(sel), Or(IsSome(sel0), Exists([]*T{j}, And(rng, Or(ex...)), trig))), tr))
			m.add(Forall([]*T{x}, Or(Eq(sel, sel0), Exists([]*T{j}, And(rng, Or(ex...)), trig)), tr))
			m.add(Forall([]*T{j}, Imp(rng, And(fw...)), trig))
		}
		// values
		allConst := true
		var vals []*T
		for _, u := range ups {
			if !pure(u.v) || mentionsT(u.v, j) {
				allConst = false
			}
			if pure(u.v) {
				m.add(Forall([]*T{j}, Imp(And(rng, u.g), Eq(Select(l.h, u.k), u.v)), trig))
				if phi, ok := identOf([]upd{u}); ok {
					vx := Subst(u.v, map[*T]*T{atJ: x})
					if !mentionsT(vx, j) {
						m.add(Forall([]*T{x}, Imp(And(ip(), phi), Eq(sel, vx)), tr, []*T{ip()}))
					}
				}
			}
			vals = append(vals, u.v)
		}
		if allConst {
			cs := []*T{Eq(sel, sel0)}
			for _, v := range vals {
				cs = append(cs, Eq(sel, v))
			}
			m.add(Forall([]*T{x}, Or(cs...), tr))
		}
	}
	if len(dels) > 0 && len(ups) == 0 {
		if phi, ok := identOf(dels); ok {
			m.add(Forall([]*T{x}, Eq(sel, Ite(And(ip(), phi), None(l.h.sort.Val), sel0)), tr))
		}
	}
}

func mentionsT(t, v *T) bool {
	r := false
	collect(t, func(s *T) {
		if s == v {
			r = true
		}
	})
	return r
}

func paths2atoms(n int, f func(int) []*T) [][]*T {
	var r [][]*T
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return r
}

func allAtoms(as [][]*T) []*T {
	var r []*T
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "not", "and", "or", "=>":
			for _, a := range t.args {
				w(a)
			}
			return
		}
		r = append(r, t)
	}
	for _, a := range as {
		for _, t := range a {
			w(t)
		}
	}
	return r
}

func mentionsLocs(t *T, hs map[*T]*loc) bool {
	r := false
	collect(t, func(s *T) {
		if _, ok := hs[s]; ok {
			r = true
		}
	})
	return r
}

// ---------------------------------------------------------------- Houdini

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			f(i)
			<-sem
		}(i)
	}
	wg.Wait()
}

var candTimeout = 1500

func (x *Exec) houdini(st, hs *State, locs []*loc, bes []*backEdge, cands []*T) []*T {
	initSub := map[*T]*T{}
	for _, l := range locs {
		initSub[l.h] = l.init
	}
	// initiation
	ok := make([]bool, len(cands))
	goals := make([]*T, len(cands))
	for i, c := range cands {
		goals[i] = Subst(c, initSub)
	}
	parallel(len(cands), func(i int) {
		ok[i] = prove(st.pc, goals[i], candTimeout).Status == "unsat"
	})
	var cur []*T
	for i, c := range cands {
		if ok[i] {
			cur = append(cur, c)
		}
	}
	// consecution
	nextSub := make([]map[*T]*T, len(bes))
	for b, be := range bes {
		nextSub[b] = map[*T]*T{}
		for _, l := range locs {
			nextSub[b][l.h] = be.next[l]
		}
	}
	for round := 0; round < 12 && len(cur) > 0; round++ {
		type job struct {
			c, b int
			g    *T
		}
		var jobs []job
		for c := range cur {
			for b := range bes {
				jobs = append(jobs, job{c, b, Subst(cur[c], nextSub[b])})
			}
		}
		good := make([]bool, len(jobs))
		as := make([][]*T, len(bes))
		for b, be := range bes {
			as[b] = append(append([]*T{}, be.pc...), cur...)
		}
		parallel(len(jobs), func(i int) {
			good[i] = prove(as[jobs[i].b], jobs[i].g, candTimeout).Status == "unsat"
		})
		bad := map[int]bool{}
		for i, jb := range jobs {
			if !good[i] {
				bad[jb.c] = true
				if f := os.Getenv("GOWP_CANDDUMP"); f != "" && strings.Contains(cur[jb.c].String(), os.Getenv("GOWP_CANDMATCH")) {
					os.WriteFile(fmt.Sprintf("%s.%d.%d", f, round, i), []byte(buildQuery(as[jb.b], jb.g, 10000, false)), 0o644)
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var nc []*T
		for c := range cur {
			if !bad[c] {
				nc = append(nc, cur[c])
			}
		}
		cur = nc
		if round == 11 {
			return nil
		}
	}
	// drop invariants implied syntactically: keep all
	return cur
}

// eqFromBounds makes equalities that follow from two opposite inequalities
// explicit, so that quantifier instantiation sees them.
func eqFromBounds(st *State) {
	var eqs []*T
	for _, a := range st.pc {
		if a.op == "not" && a.args[0].op == "<" {
			l, r := a.args[0].args[0], a.args[0].args[1]
			if v, ok := st.known(Lt(r, l)); ok && !v {
				eqs = append(eqs, Eq(l, r))
			}
		}
	}
	for _, e := range eqs {
		st.assume(e)
	}
}

// hintCands offers the contract's invariant clauses, read over the state at
// the loop head, as candidates; like every candidate they are used only if
// proved inductive.
func (x *Exec) hintCands(hs *State, locs []*loc, bes []*backEdge) []*T {
	if x.hintEnv == nil {
		return nil
	}
	any := false
	for _, l := range locs {
		if l.ghost != "" {
			any = true
		}
	}
	for _, c := range x.hintK.Clauses {
		if c.Kind == "invariant" {
			any = true
		}
	}
	if !any {
		return nil
	}
	// the sequence the loop ranges over
	var seq *T
	for _, be := range bes {
		for _, d := range be.delta {
			if d.op == "<" && d.args[1].op == "len" && seq == nil {
				for _, l := range locs {
					if l.h.sort == SInt && mentionsT(d.args[0], l.h) && !mentionsT(d.args[1], l.h) {
						seq = d.args[1].args[0]
					}
				}
			}
		}
	}
	// the number of iterations done, as far as the loop's counters tell
	dones := []*T{nil}
	for _, l := range locs {
		if l.phi != nil && l.h.sort == SInt {
			dones = append(dones, l.h, Add(l.h, Int(1)))
		} else if l.ghost == "" && l.h.sort == SInt {
			dones = append(dones, l.h)
		}
	}
	var r []*T
	seen := map[*T]bool{}
	for _, c := range x.hintK.Clauses {
		if c.Kind != "invariant" && c.Kind != "ensures" {
			continue
		}
		nums := []*T{nil}
		if strings.Contains(c.Line, "num") {
			for _, l := range locs {
				if l.h.sort == SInt {
					nums = append(nums, l.h)
				}
			}
		}
		lists := []*T{nil}
		if strings.Contains(c.Line, "list") {
			lists = nil
			for _, l := range locs {
				if l.h.sort.Kind == KSeq {
					lists = append(lists, l.h)
				}
			}
		}
		tables := []*T{nil}
		if strings.Contains(c.Line, "table") {
			tables = nil
			for _, l := range locs {
				if l.h.sort.Kind == KMap {
					tables = append(tables, l.h)
				}
			}
		}
		// flag: whatever a loop may use to remember that all went well
		flags := []*T{nil}
		if strings.Contains(c.Line, "flag") {
			flags = nil
			for _, l := range locs {
				switch {
				case l.h.sort == SBool:
					flags = append(flags, l.h, Not(l.h))
				case l.h.sort == SInt:
					flags = append(flags, Eq(l.h, Int(0)))
				case l.h.sort == SErr:
					flags = append(flags, Eq(l.h, NoErr))
				case l.h.sort.Kind == KSeq:
					flags = append(flags, Eq(Len(l.h), Int(0)))
				}
			}
		}
		type pick struct{ num, list, table, flag *T }
		var picks []pick
		for _, n := range nums {
			for _, l := range lists {
				for _, t := range tables {
					for _, f := range flags {
						picks = append(picks, pick{n, l, t, f})
					}
				}
			}
		}
		for di := range dones {
			for _, pk := range picks {
				num := pk.num
				d := dones[di]
				func() {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(specErr); !ok {
								panic(e)
							}
						}
					}()
					e := *x.hintEnv
					e.ghost = map[string]*T{}
					for g, v := range hs.ghost {
						e.ghost[g] = v
					}
					if d != nil {
						e.vars = map[string]*T{"done": d}
						if seq != nil {
							e.vars["seq"] = seq
						}
						for n, v := range x.hintEnv.vars {
							e.vars[n] = v
						}
					}
					if num != nil && d != nil {
						e.vars["num"] = num
					}
					if d == nil && (pk.list != nil || pk.table != nil || pk.flag != nil) {
						e.vars = map[string]*T{}
						for n, v := range x.hintEnv.vars {
							e.vars[n] = v
						}
					}
					if pk.list != nil {
						e.vars["list"] = pk.list
					}
					if pk.table != nil {
						e.vars["table"] = pk.table
					}
					if pk.flag != nil {
						e.vars["flag"] = pk.flag
					}
					if c.Kind == "invariant" {
						e.postSt = hs
						e.postVals = map[string]*vref{}
						for n, v := range x.hintEnv.vals {
							e.postVals[n] = &vref{x, hs, v.v, v.typ, v.nilc}
						}
					}
					for _, t := range conjuncts(e.eval(c.E)) {
						if !seen[t] {
							seen[t] = true
							r = append(r, t)
						}
					}
				}()
			}
		}
	}
	return r
}

// terminates: some counter of the loop climbs towards a bound that the loop
// does not move.
func (x *Exec) terminates(hs *State, locs []*loc, bes []*backEdge, kept []*T, where string) {
	if len(bes) == 0 {
		return
	}
	type cand struct {
		l *loc
		b *T
	}
	var cs []cand
	for _, d := range bes[0].delta {
		if d.op != "<" && d.op != "<=" {
			continue
		}
		for _, l := range locs {
			if l.h.sort != SInt || !mentionsT(d.args[0], l.h) {
				continue
			}
			moved := false
			for _, m := range locs {
				moved = moved || mentionsT(d.args[1], m.h) && !sameAll(bes, m)
			}
			if !moved {
				cs = append(cs, cand{l, d.args[1]})
			}
		}
	}
	st := hs.clone()
	for _, k := range kept {
		st.assume(k)
	}
	for _, c := range cs {
		ok := true
		for _, be := range bes {
			as := append(append([]*T{}, kept...), be.pc...)
			ok = ok && prove(as, And(Lt(c.l.h, be.next[c.l]), Le(c.l.h, c.b)), candTimeout).Status == "unsat"
		}
		if ok {
			x.oblig(st, "terminates", "the loop at "+where+" comes to an end", []string{"C23"}, True, where)
			return
		}
	}
	x.oblig(st, "terminates", "the loop at "+where+" comes to an end", []string{"C23"}, False, where)
}

// sameAll: no iteration changes the location.
func sameAll(bes []*backEdge, l *loc) bool {
	for _, be := range bes {
		if be.next[l] != l.h {
			return false
		}
	}
	return true
}
