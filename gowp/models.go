package main

import (
	"fmt"
	"go/types"
	"path"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// models: assumed behaviour of functions outside the repository. Every model
// used is listed in the evidence as part of the trusted base.
type modelFn func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome

var models = map[string]modelFn{}

func sarg(x *Exec, st *State, v Value) *T {
	if t, ok := v.(*T); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("scalar argument expected, got %T", v)))
}

// ---------------------------------------------------------------- strings

func StrCat(a, b *T) *T {
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if a.op == "str" && b.op == "str" {
		return StrLit(a.name + b.name)
	}
	if a.op == "uf" && a.name == "strcat" {
		return StrCat(a.args[0], StrCat(a.args[1], b))
	}
	if a.op == "str" && b.op == "uf" && b.name == "strcat" && b.args[0].op == "str" {
		return StrCat(StrLit(a.name+b.args[0].name), b.args[1])
	}
	return UF("strcat", SStr, a, b)
}

func ufSimp(name string, s *Sort, args []*T) *T {
	allLit := true
	for _, a := range args {
		if a.op != "str" {
			allLit = false
		}
	}
	switch name {
	case "strcat":
		return StrCat(args[0], args[1])
	case "substr":
		if lo, ok := intLit(args[1]); ok && args[0].op == "str" {
			if hi, ok := intLit(args[2]); ok && 0 <= lo && lo <= hi && hi <= int64(len(args[0].name)) {
				return StrLit(args[0].name[lo:hi])
			}
		}
	case "bytes2str":
		if args[0].op == "uf" && args[0].name == "str2bytes" {
			return args[0].args[0]
		}
	}
	if len(args) == 1 && allLit {
		if f, ok := litEval[name]; ok {
			if v := f(args[0].name); v != nil {
				return v
			}
		}
	}
	if len(args) == 2 && allLit {
		if f, ok := litEval2[name]; ok {
			if v := f(args[0].name, args[1].name); v != nil {
				return v
			}
		}
	}
	if len(args) == 2 && args[1].op == "str" {
		if n, ok := catUF[name]; ok {
			if r := n(args[0], args[1].name); r != nil {
				return r
			}
		}
	}
	return UF(name, s, args...)
}

var litEval2 = map[string]func(a, b string) *T{
	"hassep":    func(a, b string) *T { return Bool(strings.Contains(a, b)) },
	"hasprefix": func(a, b string) *T { return Bool(strings.HasPrefix(a, b)) },
	"hassuffix": func(a, b string) *T { return Bool(strings.HasSuffix(a, b)) },
	"cut1": func(a, b string) *T {
		p, _, _ := strings.Cut(a, b)
		return StrLit(p)
	},
	"cut2": func(a, b string) *T {
		_, p, _ := strings.Cut(a, b)
		return StrLit(p)
	},
	"pathjoin": func(a, b string) *T { return StrLit(path.Join(a, b)) },
	"strless":  func(a, b string) *T { return Bool(a < b) },
}

// simplifications on concatenations with a literal head
var catUF = map[string]func(a *T, lit string) *T{
	"hasprefix": func(a *T, lit string) *T {
		if a.op == "uf" && a.name == "strcat" && a.args[0].op == "str" {
			h := a.args[0].name
			if strings.HasPrefix(h, lit) {
				return True
			}
			n := len(h)
			if len(lit) < n {
				n = len(lit)
			}
			if h[:n] != lit[:n] {
				return False
			}
		}
		return nil
	},
	"hassep": func(a *T, lit string) *T {
		for a.op == "uf" && a.name == "strcat" {
			if a.args[0].op == "str" && strings.Contains(a.args[0].name, lit) {
				return True
			}
			a = a.args[1]
		}
		if a.op == "str" && strings.Contains(a.name, lit) {
			return True
		}
		return nil
	},
}

func init() {
	litEval["upper"] = func(s string) *T { return StrLit(strings.ToUpper(s)) }
	litEval["lower"] = func(s string) *T { return StrLit(strings.ToLower(s)) }
	litEval["strlen"] = func(s string) *T { return Int(int64(len(s))) }
	litEval["pathbase"] = func(s string) *T { return StrLit(path.Base(s)) }
	litEval["trimspace"] = func(s string) *T { return StrLit(strings.TrimSpace(s)) }

	ax := func(name string, keys []string, bv []*T, f *T, trig ...[]*T) {
		axioms = append(axioms, &Axiom{Name: name, Keys: keys, F: Forall(bv, f, trig...)})
	}
	a, b, c := BVar("a", SStr), BVar("b", SStr), BVar("c", SStr)
	ln := func(s *T) *T { return UF("strlen", SInt, s) }
	ax("string lengths are non-negative and only the empty string has length 0", []string{"strlen"}, []*T{a},
		And(Le(Int(0), ln(a)), Eq(Eq(ln(a), Int(0)), Eq(a, StrLit("")))), []*T{ln(a)})
	sc := func(p, q *T) *T { return UF("strcat", SStr, p, q) }
	ax("a concatenation is empty only if both parts are", []string{"strcat"}, []*T{a, b},
		Imp(Eq(sc(a, b), StrLit("")), And(Eq(a, StrLit("")), Eq(b, StrLit("")))), []*T{sc(a, b)})
	sep := BVar("sep", SStr)
	has := func(s, p *T) *T { return UF("hassep", SBool, s, p) }
	cut1 := func(s, p *T) *T { return UF("cut1", SStr, s, p) }
	cut2 := func(s, p *T) *T { return UF("cut2", SStr, s, p) }
	ax("splitting a string without the separator returns it whole", []string{"cut1"}, []*T{a, sep},
		And(Imp(Not(has(a, sep)), Eq(cut1(a, sep), a)), Imp(Not(Eq(sep, StrLit(""))), Not(has(cut1(a, sep), sep)))), []*T{cut1(a, sep)})
	ax("splitting x+sep+y with x free of sep gives x and y", []string{"cut1", "strcat", "hassep"}, []*T{a, sep, b},
		Imp(Not(has(a, sep)), And(has(sc(a, sc(sep, b)), sep), Eq(cut1(sc(a, sc(sep, b)), sep), a), Eq(cut2(sc(a, sc(sep, b)), sep), b))), []*T{sc(a, sc(sep, b))})
	ax("a string containing the separator is cut1+sep+cut2", []string{"cut1", "cut2", "hassep"}, []*T{a, sep},
		Imp(has(a, sep), Eq(a, sc(cut1(a, sep), sc(sep, cut2(a, sep))))), []*T{cut1(a, sep), cut2(a, sep)})
	ax("splitting x+sep+y with x free of sep gives y after it", []string{"cut2", "strcat"}, []*T{a, sep, b},
		Imp(Not(has(a, sep)), And(has(sc(a, sc(sep, b)), sep), Eq(cut2(sc(a, sc(sep, b)), sep), b))), []*T{cut2(sc(a, sc(sep, b)), sep)})
	ax("the empty string contains no separator", []string{"hassep"}, []*T{sep},
		Imp(Not(Eq(sep, StrLit(""))), Not(has(StrLit(""), sep))), []*T{has(StrLit(""), sep)})
	ax("x+y contains the separator if x or y does", []string{"hassep", "strcat"}, []*T{a, b, sep},
		Imp(Or(has(a, sep), has(b, sep)), has(sc(a, b), sep)), []*T{has(sc(a, b), sep)})
	up := func(s *T) *T { return UF("upper", SStr, s) }
	ax("ToUpper is idempotent", []string{"upper"}, []*T{a}, Eq(up(up(a)), up(a)), []*T{up(a)})
	hp := func(s, p *T) *T { return UF("hasprefix", SBool, s, p) }
	ax("every string has itself and the empty string as prefix", []string{"hasprefix"}, []*T{a},
		And(hp(a, a), hp(a, StrLit(""))), []*T{hp(a, a)})
	ax("x+y has prefix x", []string{"hasprefix", "strcat"}, []*T{a, b}, hp(sc(a, b), a), []*T{hp(sc(a, b), a)})
	hsx := func(s, p *T) *T { return UF("hassuffix", SBool, s, p) }
	sub := func(s, i, j *T) *T { return UF("substr", SStr, s, i, j) }
	i1, j1 := BVar("i", SInt), BVar("j", SInt)
	ax("a prefix is no longer than the string", []string{"hasprefix", "strlen"}, []*T{a, b}, Imp(hp(a, b), Le(ln(b), ln(a))), []*T{hp(a, b)})
	ax("a suffix is no longer than the string", []string{"hassuffix", "strlen"}, []*T{a, b}, Imp(hsx(a, b), Le(ln(b), ln(a))), []*T{hsx(a, b)})
	ax("the length of x+y", []string{"strcat", "strlen"}, []*T{a, b}, Eq(ln(sc(a, b)), Add(ln(a), ln(b))), []*T{ln(sc(a, b))})
	ax("what follows a prefix", []string{"hasprefix", "substr", "trimprefix"}, []*T{a, b, i1, j1},
		Imp(And(hp(a, b), Eq(i1, ln(b)), Eq(j1, ln(a))), Eq(sub(a, i1, j1), UF("trimprefix", SStr, a, b))), []*T{hp(a, b), sub(a, i1, j1)})
	ax("a string is its prefix and what follows it", []string{"trimprefix"}, []*T{a, b},
		And(Imp(hp(a, b), Eq(a, sc(b, UF("trimprefix", SStr, a, b)))), Imp(Not(hp(a, b)), Eq(UF("trimprefix", SStr, a, b), a))), []*T{UF("trimprefix", SStr, a, b)})
	ax("the whole string", []string{"substr"}, []*T{a, j1}, Imp(Eq(j1, ln(a)), Eq(sub(a, Int(0), j1), a)), []*T{sub(a, Int(0), j1)})
	ax("conversion between strings and bytes loses nothing", []string{"str2bytes"}, []*T{a},
		Eq(UF("bytes2str", SStr, UF("str2bytes", SBytes, a)), a), []*T{UF("str2bytes", SBytes, a)})
	by := BVar("y", SBytes)
	ax("conversion between bytes and strings loses nothing", []string{"bytes2str"}, []*T{by},
		Eq(UF("str2bytes", SBytes, UF("bytes2str", SStr, by)), by), []*T{UF("bytes2str", SStr, by)})
	ax("string order is a strict total order (1)", []string{"strless"}, []*T{a, b},
		And(Not(And(UF("strless", SBool, a, b), UF("strless", SBool, b, a))), Or(UF("strless", SBool, a, b), UF("strless", SBool, b, a), Eq(a, b))), []*T{UF("strless", SBool, a, b)})
	ax("string order is a strict total order (2)", []string{"strless"}, []*T{a, b, c},
		Imp(And(UF("strless", SBool, a, b), UF("strless", SBool, b, c)), UF("strless", SBool, a, c)), []*T{UF("strless", SBool, a, b), UF("strless", SBool, b, c)})
}

// rePat is the pattern a compiled regular expression was made from.
func rePat(r *T) *T {
	if r.op == "uf" && r.name == "regexp" {
		return r.args[0]
	}
	return UF("re_pattern", SStr, r)
}

func (x *Exec) strSlice(st *State, s *T, name string) *SliceV {
	o := st.alloc(types.NewSlice(types.Typ[types.String]), s, name)
	return &SliceV{nilc: False, obj: o.id, off: Int(0), len: Len(s), elem: types.Typ[types.String]}
}

func splitTerm(st *State, s, sep *T, n2 bool) *T {
	if s.op == "str" && sep.op == "str" {
		var parts []string
		if n2 {
			parts = strings.SplitN(s.name, sep.name, 2)
		} else {
			parts = strings.Split(s.name, sep.name)
		}
		r := EmptySeq(SStr)
		for _, p := range parts {
			r = App(r, StrLit(p))
		}
		return r
	}
	has := ufSimp("hassep", SBool, []*T{s, sep})
	name := "split"
	if n2 {
		name = "splitn2"
	}
	r := UF(name, Seq(SStr), s, sep)
	c1 := ufSimp("cut1", SStr, []*T{s, sep})
	c2 := ufSimp("cut2", SStr, []*T{s, sep})
	st.assume(Le(Int(1), Len(r)))
	st.assume(Eq(At(r, Int(0)), c1))
	st.assume(Imp(Not(has), And(Eq(Len(r), Int(1)), Eq(c1, s))))
	if n2 {
		st.assume(Imp(has, And(Eq(Len(r), Int(2)), Eq(At(r, Int(1)), c2))))
	} else {
		st.assume(Imp(has, Le(Int(2), Len(r))))
		st.assume(Imp(And(has, Not(UF("hassep", SBool, c2, sep))), And(Eq(Len(r), Int(2)), Eq(At(r, Int(1)), c2))))
	}
	return r
}

var fmtVerb = regexp.MustCompile(`%[+#]?[a-zA-Z%]`)

func (x *Exec) sprintf(st *State, format *T, av Value) *T {
	sl, ok := av.(*SliceV)
	if !ok || format.op != "str" {
		return Fresh("sprintf", SStr)
	}
	l, ok := st.heap[sl.obj].c.(*ListV)
	if !ok {
		return Fresh("sprintf", SStr)
	}
	r := StrLit("")
	f := format.name
	k := 0
	for f != "" {
		loc := fmtVerb.FindStringIndex(f)
		if loc == nil {
			r = StrCat(r, StrLit(f))
			break
		}
		r = StrCat(r, StrLit(f[:loc[0]]))
		verb := f[loc[0]:loc[1]]
		f = f[loc[1]:]
		if verb == "%%" {
			r = StrCat(r, StrLit("%"))
			continue
		}
		if k >= len(l.elems) {
			return Fresh("sprintf", SStr)
		}
		r = StrCat(r, x.fmtArg(st, verb, l.elems[k]))
		k++
	}
	return r
}

func (x *Exec) fmtArg(st *State, verb string, v Value) *T {
	iv, ok := v.(*IfaceV)
	if ok && iv.val != nil && iv.dyn != nil {
		if t, ok := iv.val.(*T); ok {
			_, plain := iv.dyn.(*types.Basic)
			switch {
			case t.sort == SStr && (verb == "%s" || verb == "%v") && (plain || !hasStringer(x, iv.dyn)):
				return t
			case t.sort == SErr && (verb == "%s" || verb == "%v"):
				return UF("errstr", SStr, t)
			case t.sort == SInt && (verb == "%s" || verb == "%v"):
				if r := x.enumString(st, iv.dyn, t); r != nil {
					return r
				}
				if plain && verb == "%v" {
					return UF("int2str", SStr, t)
				}
			case t.sort == SInt && plain && (verb == "%d" || verb == "%v"):
				return UF("int2str", SStr, t)
			}
			return UF("fmt"+sanitize(verb)+"."+sanitize(typeName(iv.dyn)), SStr, t)
		}
		if t := x.abs(st, iv.val, iv.dyn); t != nil {
			return UF("fmt"+sanitize(verb)+"."+sanitize(typeName(iv.dyn)), SStr, t)
		}
	}
	if ok && iv.opaque != nil {
		return UF("fmt"+sanitize(verb), SStr, iv.opaque)
	}
	return Fresh("fmtarg", SStr)
}

// enumString is the name of a value of a generated protocol buffer enum: the
// entry of its name table, or the number.
func (x *Exec) enumString(st *State, t types.Type, v *T) *T {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	pkg := x.w.prog.ImportedPackage(n.Obj().Pkg().Path())
	if pkg == nil {
		return nil
	}
	g, ok := pkg.Members[n.Obj().Name()+"_name"].(*ssa.Global)
	if !ok {
		return nil
	}
	m, ok := x.w.constGlobal(x, st, g).(*MapV)
	if !ok {
		return nil
	}
	c, ok := st.heap[m.obj].c.(*T)
	if !ok {
		return nil
	}
	r := UF("enum."+sanitize(typeName(t)), SStr, v)
	num := UF("int2str", SStr, v)
	if v.op == "int" {
		r = num
	}
	var other []*T
	for c.op == "store" {
		k, val := c.args[1], c.args[2]
		if val.op != "some" || val.args[0].op != "str" {
			return nil
		}
		if k == v {
			return val.args[0]
		}
		st.assume(Imp(Eq(v, k), Eq(r, val.args[0])))
		st.assume(Not(Eq(num, val.args[0])))
		other = append(other, Not(Eq(v, k)))
		c = c.args[0]
	}
	st.assume(Imp(And(other...), Eq(r, num)))
	st.assume(Not(UF("hassep", SBool, r, StrLit(":"))))
	return r
}

func hasStringer(x *Exec, t types.Type) bool {
	ms := x.w.prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

// ---------------------------------------------------------------- proto

func mergeTerm(d, s *T) *T {
	switch d.sort.Kind {
	case KOpt:
		if s.op == "none" {
			return d
		}
		if d.sort.Elem.Kind == KStruct {
			m := Some(mergeTerm(getZ(d), getZ(s)))
			return Ite(IsNone(s), d, m)
		}
		if s.op == "some" {
			return s
		}
		return Ite(IsNone(s), d, s)
	case KSeq:
		return Cat(d, s)
	case KStruct:
		var fs []*T
		for i := range d.sort.Fields {
			fs = append(fs, mergeTerm(Sel(i, d), Sel(i, s)))
		}
		return MkStruct(d.sort, fs...)
	}
	return s
}

// protoPtr extracts the message pointer from a proto.Message argument.
func (x *Exec) protoPtr(v Value) *PtrV {
	iv, ok := v.(*IfaceV)
	if !ok || iv.val == nil {
		panic(unsupported("proto message of unknown dynamic type"))
	}
	p, ok := iv.val.(*PtrV)
	if !ok {
		panic(unsupported("proto message is not a pointer"))
	}
	return p
}

func errFork(x *Exec, st *State, prefix string) (*State, *T) {
	e := Fresh(prefix, SErr)
	s2 := st.clone()
	st.assume(Eq(e, NoErr))
	s2.assume(Not(Eq(e, NoErr)))
	return s2, e
}

func init() {
	M := models
	str1 := func(uf string, s *Sort) modelFn {
		return func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			return x.ret(st, ufSimp(uf, s, []*T{sarg(x, st, args[0])}))
		}
	}
	str2 := func(uf string, s *Sort) modelFn {
		return func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			return x.ret(st, ufSimp(uf, s, []*T{sarg(x, st, args[0]), sarg(x, st, args[1])}))
		}
	}
	M["strings.ToUpper"] = str1("upper", SStr)
	M["strings.ToLower"] = str1("lower", SStr)
	M["strings.TrimSpace"] = str1("trimspace", SStr)
	M["path.Base"] = str1("pathbase", SStr)
	M["path/filepath.Base"] = str1("pathbase", SStr)
	M["path.Clean"] = str1("pathclean", SStr)
	M["path/filepath.Clean"] = str1("pathclean", SStr)
	M["path/filepath.Dir"] = str1("pathdir", SStr)
	M["strings.HasPrefix"] = str2("hasprefix", SBool)
	M["strings.HasSuffix"] = str2("hassuffix", SBool)
	M["strings.Contains"] = str2("hassep", SBool)
	M["strings.TrimSuffix"] = str2("trimsuffix", SStr)
	M["strings.TrimPrefix"] = str2("trimprefix", SStr)
	M["strings.EqualFold"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		a, b := sarg(x, st, args[0]), sarg(x, st, args[1])
		// agrees with comparing upper-cased forms on the strings used here
		x.assumed["strings.EqualFold(a, b) agrees with ToUpper(a) == ToUpper(b)"] = true
		return x.ret(st, Eq(ufSimp("upper", SStr, []*T{a}), ufSimp("upper", SStr, []*T{b})))
	}
	M["strings.Split"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, x.strSlice(st, splitTerm(st, sarg(x, st, args[0]), sarg(x, st, args[1]), false), "split"))
	}
	M["strings.SplitN"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		if n, ok := intVal(sarg(x, st, args[2])); !ok || n != 2 {
			return x.unknownCall(st, "strings.SplitN", fn.Signature, args, ins)
		}
		return x.ret(st, x.strSlice(st, splitTerm(st, sarg(x, st, args[0]), sarg(x, st, args[1]), true), "split"))
	}
	M["strings.Cut"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		s, sep := sarg(x, st, args[0]), sarg(x, st, args[1])
		has := ufSimp("hassep", SBool, []*T{s, sep})
		return x.ret(st, Ite(has, ufSimp("cut1", SStr, []*T{s, sep}), s), Ite(has, ufSimp("cut2", SStr, []*T{s, sep}), StrLit("")), has)
	}
	join := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		sl := args[0].(*SliceV)
		l, ok := st.heap[sl.obj].c.(*ListV)
		if !ok || len(l.elems) == 0 {
			return x.unknownCall(st, fn.String(), fn.Signature, args, ins)
		}
		r := l.elems[0].(*T)
		for _, e := range l.elems[1:] {
			r = ufSimp("pathjoin", SStr, []*T{r, e.(*T)})
		}
		return x.ret(st, r)
	}
	M["path.Join"] = join
	M["path/filepath.Join"] = join
	M["fmt.Sprintf"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, x.sprintf(st, sarg(x, st, args[0]), args[1]))
	}
	M["fmt.Errorf"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		e := Fresh("errorf", SErr)
		st.assume(Not(Eq(e, NoErr)))
		st.assume(UF("liberr", SBool, e))
		return x.ret(st, e)
	}
	M["errors.New"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		e := Fresh("errnew", SErr)
		st.assume(Not(Eq(e, NoErr)))
		st.assume(UF("liberr", SBool, e))
		st.assume(Eq(UF("errstr", SStr, e), sarg(x, st, args[0])))
		return x.ret(st, e)
	}
	M["errors.Is"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		a, b := sarg(x, st, args[0]), sarg(x, st, args[1])
		if a.op == "errc" && b.op == "errc" {
			return x.ret(st, Bool(a == b))
		}
		x.assumed["errors compared with errors.Is are not wrapped (the code under contract returns its sentinels unwrapped)"] = true
		return x.ret(st, Eq(a, b))
	}
	M["google.golang.org/grpc/status.Errorf"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		e := Fresh("status", SErr)
		st.assume(Eq(Eq(e, NoErr), Eq(sarg(x, st, args[0]), Int(0))))
		return x.ret(st, e)
	}
	M["google.golang.org/grpc/status.Error"] = M["google.golang.org/grpc/status.Errorf"]

	// ---- proto helpers
	for _, pk := range []string{"github.com/golang/protobuf/proto.", "google.golang.org/protobuf/proto."} {
		for _, n := range []string{"String", "Bool", "Int32", "Int64", "Uint32", "Uint64", "Int"} {
			M[pk+n] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
				et := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
				o := st.alloc(et, args[0], "proto."+fn.Name())
				return x.ret(st, &PtrV{nilc: False, obj: o.id, elem: et})
			}
		}
		M[pk+"Merge"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			d, s := x.protoPtr(args[0]), x.protoPtr(args[1])
			if !types.Identical(d.elem, s.elem) {
				return []Outcome{{st: st, kind: PANIC, msg: "proto.Merge of different types", pos: x.pos(ins)}}
			}
			pan := x.nilCheck(st, d.nilc, "proto.Merge destination", ins)
			if len(pan) == 1 && pan[0].st == st {
				return pan
			}
			if s.nilc == True {
				return append(pan, x.ret(st)...)
			}
			src := x.abs(st, s, types.NewPointer(s.elem))
			x.mergeInto(st, d, src, ins)
			return append(pan, x.ret(st)...)
		}
		M[pk+"Clone"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			p := x.protoPtr(args[0])
			pt := types.NewPointer(p.elem)
			var np *PtrV
			if p.nilc == True {
				np = p
			} else {
				t := x.abs(st, p, pt)
				o := st.alloc(p.elem, &LazyV{Val(t), p.elem}, "clone")
				np = &PtrV{nilc: p.nilc, obj: o.id, elem: p.elem}
			}
			return x.ret(st, &IfaceV{nilc: False, dyn: pt, val: np, static: fn.Signature.Results().At(0).Type()})
		}
		M[pk+"Equal"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			a, b := x.protoPtr(args[0]), x.protoPtr(args[1])
			return x.ret(st, Eq(x.abs(st, a, types.NewPointer(a.elem)), x.abs(st, b, types.NewPointer(b.elem))))
		}
		M[pk+"Marshal"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			p := x.protoPtr(args[0])
			t := getZ(x.abs(st, p, types.NewPointer(p.elem)))
			marshalAxiom(t.sort)
			e := Fresh("marshalerr", SErr)
			st.assume(Or(Eq(e, NoErr), UF("liberr", SBool, e)))
			// on error the bytes are unspecified
			return x.ret(st, Ite(Eq(e, NoErr), UF("marshal_"+t.sort.Name, SBytes, t), Fresh("bytes", SBytes)), e)
		}
		M[pk+"Unmarshal"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			p := x.protoPtr(args[1])
			pan := x.nilCheck(st, p.nilc, "proto.Unmarshal destination", ins)
			if len(pan) == 1 && pan[0].st == st {
				return pan
			}
			b := x.bytesTerm(st, args[0])
			srt := sortOf(p.elem)
			marshalAxiom(srt)
			ok := UF("parses_"+srt.Name, SBool, b)
			e := Fresh("unmarshalerr", SErr)
			st.assume(Or(Eq(e, NoErr), UF("liberr", SBool, e)))
			st.assume(Eq(Eq(e, NoErr), ok))
			t := Ite(ok, UF("unmarshal_"+srt.Name, srt, b), Fresh("garbage", srt))
			x.storePtr(st, p, x.conc(st, t, p.elem))
			return append(pan, x.ret(st, e)...)
		}
	}

	// ---- context / grpc
	M["context.WithValue"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		c := x.ctxOf(args[0])
		n := &CtxV{base: c.base, keys: append(append([]Value{}, c.keys...), args[1]), vals: append(append([]Value{}, c.vals...), args[2])}
		return x.ret(st, &IfaceV{nilc: False, val: n, static: fn.Signature.Results().At(0).Type()})
	}
	bg := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, &IfaceV{nilc: False, val: &CtxV{base: Const("ctx.background", SAny)}, static: fn.Signature.Results().At(0).Type()})
	}
	M["context.Background"] = bg
	M["context.TODO"] = bg
	M["google.golang.org/grpc/metadata.FromIncomingContext"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		c := x.ctxOf(args[0])
		ok := UF("ctx.hasmd", SBool, c.base)
		mt := fn.Signature.Results().At(0).Type()
		md := UF("ctx.md", sortOf(mt), c.base)
		md = Ite(ok, md, EmptyMap(md.sort.Key, md.sort.Val))
		v := x.conc(st, md, mt)
		return x.ret(st, v, ok)
	}
	M["(google.golang.org/grpc/metadata.MD).Get"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		m := args[0].(*MapV)
		k := ufSimp("lower", SStr, []*T{sarg(x, st, args[1])})
		mt := x.mapTerm(st, m)
		return x.ret(st, x.mapValue(st, m, mt, k))
	}
	M["google.golang.org/grpc.Method"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, Fresh("method", SStr), Fresh("hasmethod", SBool))
	}
	M["google.golang.org/grpc/peer.FromContext"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, x.freshResults(st, fn.Signature)...)
	}

	// ---- sort
	M["sort.Strings"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		s := args[0].(*SliceV)
		if s.nilc == True {
			return x.ret(st)
		}
		c := x.seqOf(st, s)
		n := sortedSeq(st, c)
		x.overwrite(st, s, n)
		return x.ret(st)
	}
	M["slices.Sort"] = M["sort.Strings"]
	sortSlice := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		var s *SliceV
		switch a := args[0].(type) {
		case *IfaceV:
			s, _ = a.val.(*SliceV)
		case *SliceV:
			s = a
		}
		if s == nil {
			panic(unsupported("sort.Slice argument"))
		}
		l, ok := st.heap[s.obj].c.(*ListV)
		lo, ok1 := intVal(s.off)
		n, ok2 := intVal(s.len)
		f, okf := args[1].(*FuncV)
		if ok && ok1 && ok2 && okf && f.fn != nil {
			// small slices are sorted by insertion sort (as the library does
			// up to 12 elements), calling the real comparison closure
			_ = l
			for i := int64(1); i < n; i++ {
				for j := i; j > 0; j-- {
					outs := x.callFn(st, fr, f.fn, []Value{Int(j), Int(j - 1)}, f.binds, ins)
					if len(outs) != 1 || outs[0].kind != RET {
						panic(unsupported("sort comparison forks"))
					}
					st = outs[0].st
					c := outs[0].res[0].(*T)
					if c == False {
						break
					}
					if c != True {
						panic(unsupported("symbolic sort comparison"))
					}
					l := st.heap[s.obj].c.(*ListV)
					nl := &ListV{elem: l.elem, elems: append([]Value{}, l.elems...)}
					nl.elems[lo+j], nl.elems[lo+j-1] = nl.elems[lo+j-1], nl.elems[lo+j]
					st.setContent(s.obj, nl)
				}
			}
			return x.ret(st)
		}
		// abstract: some permutation
		c := x.seqOf(st, s)
		p := Fresh("perm", c.sort)
		st.assume(Eq(Len(p), Len(c)))
		e := BVar("e", c.sort.Elem)
		st.assume(Forall([]*T{e}, Eq(InP(e, p, Len(c)), InP(e, c, Len(c))), []*T{InP(e, p, Len(c))}, []*T{InP(e, c, Len(c))}))
		x.overwrite(st, s, p)
		return x.ret(st)
	}
	M["sort.Slice"] = sortSlice
	M["sort.SliceStable"] = sortSlice

	// ---- regexp
	M["regexp.MustCompile"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		et := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := st.alloc(et, UF("regexp", sortOf(et), sarg(x, st, args[0])), "regexp")
		return x.ret(st, &PtrV{nilc: False, obj: o.id, elem: et})
	}
	M["(*regexp.Regexp).ReplaceAllString"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		p := args[0].(*PtrV)
		r, ok := x.loadPtr(st, p).(*T)
		if !ok {
			panic(unsupported("regexp value"))
		}
		return x.ret(st, ufSimp("re_replace", SStr, []*T{rePat(r), sarg(x, st, args[1]), sarg(x, st, args[2])}))
	}
	M["(*regexp.Regexp).MatchString"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		p := args[0].(*PtrV)
		r, ok := x.loadPtr(st, p).(*T)
		if !ok {
			panic(unsupported("regexp value"))
		}
		return x.ret(st, ufSimp("re_match", SBool, []*T{rePat(r), sarg(x, st, args[1])}))
	}

	// ---- viper
	vip := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		k := sarg(x, st, args[0])
		rt := fn.Signature.Results().At(0).Type()
		return x.ret(st, x.conc(st, UF("viper."+fn.Name(), sortOf(rt), k), rt))
	}
	for _, n := range []string{"GetBool", "GetString", "GetInt", "GetDuration", "GetStringSlice"} {
		M["github.com/spf13/viper."+n] = vip
	}
	// the string settings are in the ghost CONF when the contracts declare it
	confG := func(x *Exec, st *State) (*T, bool) {
		if s, ok := x.w.spec.ghosts["CONF"]; !ok || s.Kind != KMap || s.Key != SStr || s.Val != SStr {
			return nil, false
		}
		return x.ghostInit(st, "CONF"), true
	}
	M["github.com/spf13/viper.GetString"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		if c, ok := confG(x, st); ok {
			v := Select(c, sarg(x, st, args[0]))
			return x.ret(st, Ite(IsSome(v), Val(v), StrLit("")))
		}
		return vip(x, st, args, fn, ins, fr)
	}
	vset := func(dflt bool) func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			c, ok := confG(x, st)
			if !ok {
				panic(unsupported(fn.String()))
			}
			k := sarg(x, st, args[0])
			var v *T
			if iv, ok := args[1].(*IfaceV); ok {
				v, _ = iv.val.(*T)
			}
			if v == nil || v.sort != SStr {
				panic(unsupported(fn.String() + " of a setting that is not a string"))
			}
			n := Store(c, k, Some(v))
			if dflt {
				n = Ite(IsSome(Select(c, k)), c, n)
			}
			st.ghost["CONF"] = n
			return x.ret(st)
		}
	}
	M["github.com/spf13/viper.Set"] = vset(false)
	M["github.com/spf13/viper.SetDefault"] = vset(true)
	M["strconv.Itoa"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, UF("int2str", SStr, sarg(x, st, args[0])))
	}
	pf := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		et := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := st.alloc(et, UF("flag."+fn.Name(), sortOf(et), sarg(x, st, args[0])), "flag")
		return x.ret(st, &PtrV{nilc: False, obj: o.id, elem: et})
	}
	for _, n := range []string{"String", "Int", "Bool", "Duration"} {
		M["github.com/spf13/pflag."+n] = pf
	}

	// ---- hclog package functions
	lg := func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.ret(st, &IfaceV{nilc: False, opaque: Const("logger", SAny), static: fn.Signature.Results().At(0).Type()})
	}
	for _, n := range []string{"L", "Default", "NewNullLogger", "New"} {
		M["github.com/hashicorp/go-hclog."+n] = lg
	}

	// ---- sync: mutual exclusion is tracked as a ghost set of held locks
	lock := func(mode string) modelFn {
		return func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
			p, ok := args[0].(*PtrV)
			if !ok {
				return x.ret(st)
			}
			return x.lockOp(st, p, mode, ins)
		}
	}
	M["(*sync.RWMutex).Lock"] = lock("L")
	M["(*sync.RWMutex).Unlock"] = lock("U")
	M["(*sync.RWMutex).RLock"] = lock("R")
	M["(*sync.RWMutex).RUnlock"] = lock("RU")
	M["(*sync.Mutex).Lock"] = lock("L")
	M["(*sync.Mutex).Unlock"] = lock("U")
}

func sortedSeq(st *State, c *T) *T {
	n := UF("sorted_"+c.sort.Name, c.sort, c)
	st.assume(Eq(Len(n), Len(c)))
	e := BVar("e", c.sort.Elem)
	i1, i2 := mk("inp", "", SBool, e, n, Len(c)), mk("inp", "", SBool, e, c, Len(c))
	st.assume(Forall([]*T{e}, Eq(i1, i2), []*T{i1}, []*T{i2}))
	k := BVar("i", SInt)
	st.assume(Forall([]*T{k}, Imp(And(Le(Int(0), k), Lt(k, Len(c))), And(mk("inp", "", SBool, At(n, k), c, Len(c)), mk("inp", "", SBool, At(c, k), n, Len(c)))), []*T{At(n, k)}))
	// a permutation: duplicate-free iff the original is
	dist := func(s *T) *T {
		i, j := BVar("i", SInt), BVar("j", SInt)
		return Forall([]*T{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, Len(c))), Not(Eq(At(s, i), At(s, j)))), []*T{At(s, i), At(s, j)})
	}
	st.assume(Imp(dist(c), dist(n)))
	if c.sort.Elem == SStr {
		i, j := BVar("i", SInt), BVar("j", SInt)
		st.assume(Forall([]*T{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, Len(c))), Or(Eq(At(n, i), At(n, j)), UF("strless", SBool, At(n, i), At(n, j)))), []*T{At(n, i), At(n, j)}))
	}
	return n
}

// overwrite replaces the whole visible contents of a slice.
func (x *Exec) overwrite(st *State, s *SliceV, n *T) {
	o := st.heap[s.obj]
	if o.frozen {
		panic(unsupported("write to a slice shared with an abstract value"))
	}
	var c *T
	switch cc := o.c.(type) {
	case *T:
		c = cc
	case *ListV:
		c = x.listSeq(st, cc)
	}
	if s.off == Int(0) && (s.len == Len(c) || prove(st.pc, Eq(s.len, Len(c)), candTimeout).Status == "unsat") {
		st.setContent(s.obj, n)
	} else {
		r := Fresh("ovw", c.sort)
		st.assume(Eq(Len(r), Len(c)))
		i := BVar("i", SInt)
		st.assume(Forall([]*T{i}, Imp(And(Le(Int(0), i), Lt(i, Len(c))),
			Eq(At(r, i), Ite(And(Le(s.off, i), Lt(i, Add(s.off, s.len))), At(n, Sub(i, s.off)), At(c, i)))), []*T{At(r, i)}))
		st.setContent(s.obj, r)
	}
	for _, other := range o.shareOf {
		if oo, ok := st.heap[other]; ok {
			if t, ok := oo.c.(*T); ok {
				f := Fresh("shared", t.sort)
				st.assume(Eq(Len(f), Len(t)))
				st.setContent(other, f)
			}
		}
	}
}

func (x *Exec) ctxOf(v Value) *CtxV {
	iv, ok := v.(*IfaceV)
	if !ok {
		panic(unsupported("context value"))
	}
	if c, ok := iv.val.(*CtxV); ok {
		return c
	}
	if iv.opaque != nil {
		return &CtxV{base: iv.opaque}
	}
	panic(unsupported("unknown context"))
}

func (x *Exec) bytesTerm(st *State, v Value) *T {
	if t, ok := v.(*T); ok {
		return t
	}
	return Fresh("bytes", SBytes)
}

var marshalAx = map[string]bool{}

func marshalAxiom(s *Sort) {
	if marshalAx[s.Name] {
		return
	}
	marshalAx[s.Name] = true
	v := BVar("v", s)
	m := UF("marshal_"+s.Name, SBytes, v)
	axioms = append(axioms, &Axiom{Name: "proto round trip for " + s.Name, Keys: []string{"marshal_" + s.Name},
		F: Forall([]*T{v}, And(UF("parses_"+s.Name, SBool, m), Eq(UF("unmarshal_"+s.Name, s, m), v)), []*T{m})})
}

// mergeInto performs proto.Merge in place on the destination message.
func (x *Exec) mergeInto(st *State, d *PtrV, src *T, ins ssa.Instruction) {
	v := x.loadPtr(st, d)
	sv, ok := v.(*StructV)
	if !ok {
		panic(unsupported("merge destination"))
	}
	u := d.elem.Underlying().(*types.Struct)
	srt := sortOf(d.elem)
	n := &StructV{typ: sv.typ, f: append([]Value{}, sv.f...)}
	for i := range sv.f {
		if !keepField(u.Field(i)) {
			continue
		}
		ft := u.Field(i).Type()
		sf := SelN(u.Field(i).Name(), getZ(src))
		sf = simplifyUnder(st, sf)
		_ = srt
		if p, ok := sv.f[i].(*PtrV); ok && sf.sort.Kind == KOpt && sf.sort.Elem.Kind == KStruct && p.nilc != True && sf.op != "none" {
			// nested message: merge in place when present
			nn, known := st.known(p.nilc)
			if known && !nn || p.nilc == False {
				isn, kn := st.known(IsNone(sf))
				if kn && isn {
					continue
				}
				if !st.heap[p.obj].frozen {
					x.mergeInto(st, p, sf, ins)
					continue
				}
			}
		}
		if sf.op == "none" || sf.op == "empty" {
			continue
		}
		cur := x.abs(st, sv.f[i], ft)
		m := mergeTerm(cur, sf)
		if m == cur {
			continue
		}
		n.f[i] = x.conc(st, m, ft)
	}
	x.storePtr(st, d, n)
}

// simplifyUnder resolves a top-level ite whose condition is known.
func simplifyUnder(st *State, t *T) *T {
	for t.op == "ite" {
		v, ok := st.known(t.args[0])
		if !ok {
			return t
		}
		if v {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return t
}

// ---------------------------------------------------------------- locks

func lockName(st *State, p *PtrV) string {
	o := st.heap[p.obj]
	n := o.name
	if s, ok := o.typ.Underlying().(*types.Struct); ok {
		t := types.Type(o.typ)
		n = typeName(t)
		_ = s
		for _, stp := range p.path {
			if u, ok := t.Underlying().(*types.Struct); ok && stp.idx == nil {
				n += "." + u.Field(stp.field).Name()
				t = u.Field(stp.field).Type()
			}
		}
	}
	return "lock:" + n + "#" + strconv.Itoa(p.obj)
}

func (x *Exec) lockOp(st *State, p *PtrV, mode string, ins ssa.Instruction) []Outcome {
	k := lockName(st, p)
	held := ""
	if v, ok := st.cache[k]; ok {
		held = v.(string)
	}
	switch mode {
	case "L", "R":
		if held != "" && !(mode == "R" && held == "R" && false) {
			x.oblig(st, "deadlock-free", "lock "+k+" is not acquired twice by one call", []string{"C24"}, False, x.pos(ins))
		}
		st.cache[k] = mode
	case "U":
		if held != "L" {
			x.oblig(st, "lock-discipline", "Unlock of "+k+" only when held", []string{"C24"}, False, x.pos(ins))
		}
		delete(st.cache, k)
	case "RU":
		if held != "R" {
			x.oblig(st, "lock-discipline", "RUnlock of "+k+" only when read-held", []string{"C24"}, False, x.pos(ins))
		}
		delete(st.cache, k)
	}
	return x.ret(st)
}

func intLit(t *T) (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.name, 10, 64)
	return n, err == nil
}
