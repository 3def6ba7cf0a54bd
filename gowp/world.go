package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program plus its specifications.
type World struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path
	fns      map[string]*ssa.Function
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loop
	mutable  map[*ssa.Global]bool
	scanned  map[*ssa.Package]bool
	errNames map[*ssa.Global]*T
	spec     *Spec
	boot     *State
	bootM    Value // the concrete *tree.Manager
	bootErr  string
	plugBoot *State // after start-up with the plugin system
	plugM    Value
	plugPM   Value // the *manager.Manager
	plugErr  string
	bootUsed map[string]bool
	bootAsm  map[string]bool
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{},
		scanned: map[*ssa.Package]bool{}, mutable: map[*ssa.Global]bool{}, errNames: map[*ssa.Global]*T{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !isRepoFn(fn) {
			continue
		}
		initish := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && !initish {
					if g, ok := s.Addr.(*ssa.Global); ok {
						w.mutable[g] = true
					}
				}
			}
		}
	}
	return w, nil
}

// findPkg resolves a package by path suffix relative to the module.
func (w *World) findPkg(p string) *ssa.Package {
	if k, ok := w.pkgs[modPath+p]; ok {
		return k
	}
	if k, ok := w.pkgs[p]; ok {
		return k
	}
	return nil
}

// findFn resolves "internal/tree.Manager.CreateEntity" or "internal/health.SystemCheck".
func (w *World) findFn(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	rest := name[i+1:]
	parts := strings.Split(rest, ".")
	pkg := w.findPkg(name[:i+1] + parts[0])
	if pkg == nil {
		return nil
	}
	if len(parts) == 2 {
		return pkg.Func(parts[1])
	}
	t := pkg.Type(parts[1])
	if t == nil {
		return nil
	}
	for _, typ := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := w.prog.MethodSets.MethodSet(typ)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == parts[2] {
				f := w.prog.MethodValue(ms.At(j))
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

// specName is the name a function has in specification files.
func specName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	p := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath)
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return p + "." + fn.Name()
}

// ---------------------------------------------------------------- loops

func (w *World) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := w.loops[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				lp := r[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = lp
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if lp.blocks[x] {
						return
					}
					lp.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	w.loops[fn] = r
	return r
}

// ---------------------------------------------------------------- globals

// errGlobal: package-level error variables assigned once, at initialisation,
// from a constructor are pairwise distinct non-nil values.
func (w *World) errGlobal(g *ssa.Global) *T {
	if t, ok := w.errNames[g]; ok {
		return t
	}
	w.errNames[g] = Const("global."+g.String(), SErr)
	if w.mutable[g] {
		return w.errNames[g]
	}
	if g.Pkg != nil {
		if init := g.Pkg.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok || s.Addr != g {
						continue
					}
					switch v := s.Val.(type) {
					case *ssa.Call:
						w.errNames[g] = ErrConst(shortPath(g.String()))
					case *ssa.UnOp: // alias of another sentinel
						if o, ok := v.X.(*ssa.Global); ok {
							w.errNames[g] = w.errGlobal(o)
						}
					case *ssa.MakeInterface:
						w.errNames[g] = ErrConst(shortPath(g.String()))
					}
				}
			}
		}
	}
	return w.errNames[g]
}

// constGlobal finds initial values of map literals over constants in packages
// whose initialisers are not executed symbolically.
func (w *World) constGlobal(x *Exec, st *State, g *ssa.Global) Value {
	if w.mutable[g] || g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	et := g.Type().(*types.Pointer).Elem()
	var val ssa.Value
	n := 0
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
				val = s.Val
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	if c, ok := val.(*ssa.Const); ok {
		return x.constVal(st, c)
	}
	mm, ok := val.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	mt, ok := et.Underlying().(*types.Map)
	if !ok || sortOf(mt.Elem()).Kind == KMap {
		return nil
	}
	m := EmptyMap(sortOf(mt.Key()), sortOf(mt.Elem()))
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.MapUpdate)
			if !ok || u.Map != mm {
				continue
			}
			k, ok1 := u.Key.(*ssa.Const)
			v, ok2 := u.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
				return nil
			}
			kt, ok1 := x.constVal(st, k).(*T)
			vt, ok2 := x.constVal(st, v).(*T)
			if !ok1 || !ok2 {
				return nil
			}
			m = Store(m, kt, Some(vt))
		}
	}
	o := st.alloc(et, m, g.Name())
	o.pre = true
	return &MapV{nilc: False, obj: o.id, typ: mt}
}

// ---------------------------------------------------------------- boot

// bootPkgs are initialised by executing their init functions symbolically
// (everything in them is concrete).
var bootPkgs = []string{"internal/startup", "internal/tree/util", "internal/tree", "internal/tree/hooks", "internal/token", "internal/token/jwt",
	"internal/token/keyprovider", "internal/crypto", "internal/db", "internal/db/bitcask", "internal/db/filesystem", "internal/db/memory", "internal/health", "internal/plugin/tree/common", "internal/plugin/tree/manager", "internal/mresolver", "internal/rpc2", "internal/crypto/bcrypt", "internal/db/util"}

func (w *World) doBoot() {
	st := &State{pcset: map[*T]bool{}, heap: map[int]*Obj{}, ghost: map[string]*T{}, cache: map[string]Value{}}
	x := newExec(w)
	x.fnName = "boot"
	x.booting = true
	x.noFeas = true
	x.mute = 1
	x.maxSteps = 3000000
	w.boot = st
	try := func(what string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					if os.Getenv("GOWP_PANIC") != "" {
						debug.PrintStack()
					}
					w.bootErr += what + ": " + u.msg + "; "
					return
				}
				panic(r)
			}
		}()
		f()
	}
	one := func(what string, outs []Outcome) []Value {
		if len(outs) != 1 || outs[0].kind != RET {
			d := ""
			for _, o := range outs {
				d += fmt.Sprintf("[%d %s %s]", o.kind, o.msg, o.pos)
			}
			panic(unsupported(fmt.Sprintf("%s: %d outcomes %s", what, len(outs), d)))
		}
		st = outs[0].st
		w.boot = st
		return outs[0].res
	}
	for _, p := range bootPkgs {
		pkg := w.findPkg(p)
		if pkg == nil {
			continue
		}
		var names []string
		for n := range pkg.Members {
			if strings.HasPrefix(n, "init#") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		try(p, func() { one(p, x.runFunc(st, pkg.Func("init"), nil, nil, nil)) })
	}
	// facts about the unnamed values behind sentinels are not needed
	var pc []*T
	for _, a := range st.pc {
		keep := true
		collect(a, func(t *T) {
			if t.op == "const" && strings.HasPrefix(t.name, "errnew!") {
				keep = false
			}
		})
		if keep {
			pc = append(pc, a)
		}
	}
	st.pc = pc
	w.bootUsed, w.bootAsm = x.used, x.assumed
	if f := w.findFn("internal/startup.DoCallbacks"); f != nil {
		try("DoCallbacks", func() { one("DoCallbacks", x.runFunc(st, f, nil, nil, nil)) })
	}
	if f := w.findFn("internal/tree.New"); f != nil {
		try("tree.New", func() {
			st.ghost["callbacks"] = EmptyMap(SStr, SAny)
			sig := f.Signature
			args := []Value{
				&IfaceV{nilc: False, opaque: Const("theDB", SAny), static: sig.Params().At(0).Type()},
				&IfaceV{nilc: False, opaque: Const("theCrypto", SAny), static: sig.Params().At(1).Type()},
				&IfaceV{nilc: False, opaque: Const("logger", SAny), static: sig.Params().At(2).Type()},
			}
			res := one("tree.New", x.runFunc(st, f, args, nil, nil))
			w.bootM = res[0]
		})
	}
}

// doBootPlugins executes the start-up sequence of cmd/netauthd/main.go with
// the plugin system switched on: the hooks of the plugin manager are registered
// before the tree is made, and inserted into its chains afterwards.
func (w *World) doBootPlugins() {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok || os.Getenv("GOWP_PANIC") != "" {
				panic(r)
			}
			w.plugErr = u.msg
		}
	}()
	x := newExec(w)
	x.fnName = "boot"
	x.booting = true
	x.noFeas = true
	x.mute = 1
	x.maxSteps = 3000000
	st := w.boot.clone()
	run := func(name string, args ...Value) []Value {
		f := w.findFn(name)
		if f == nil {
			panic(unsupported("no function " + name))
		}
		outs := x.runFunc(st, f, args, nil, nil)
		if len(outs) != 1 || outs[0].kind != RET {
			d := ""
			for _, o := range outs {
				d += fmt.Sprintf("[%d %s %s]", o.kind, o.msg, o.pos)
			}
			panic(unsupported(fmt.Sprintf("%s: %d outcomes %s", name, len(outs), d)))
		}
		st = outs[0].st
		return outs[0].res
	}
	iface := func(name, fn string, i int) Value {
		return &IfaceV{nilc: False, opaque: Const(name, SAny), static: w.findFn(fn).Signature.Params().At(i).Type()}
	}
	const pm = "internal/plugin/tree/manager."
	res := run(pm+"New", iface("logger", pm+"New", 0))
	t := w.findFn(pm + "New").Signature.Results().At(0).Type()
	o := st.alloc(t, res[0], "plug")
	p := &PtrV{nilc: False, obj: o.id, elem: t}
	run(pm+"Manager.RegisterEntityHooks", p)
	run(pm+"Manager.RegisterGroupHooks", p)
	const tn = "internal/tree.New"
	m := run(tn, iface("theDB", tn, 0), iface("theCrypto", tn, 1), iface("logger", tn, 2))[0]
	ins := func(n string) Value {
		f := w.findFn("internal/tree.Manager." + n)
		if f == nil {
			panic(unsupported("no function " + n))
		}
		return &FuncV{nilc: False, fn: f, recv: m}
	}
	run(pm+"Manager.ConfigureEntityChains", p, ins("RegisterEntityHookToChain"))
	run(pm+"Manager.ConfigureGroupChains", p, ins("RegisterGroupHookToChain"))
	w.plugBoot, w.plugM, w.plugPM = st, m, p
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func newExec(w *World) *Exec {
	return &Exec{w: w, maxSteps: 400000, used: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, noModular: map[string]bool{}}
}

// registerSorts makes the sorts of protocol messages known to specifications.
func (w *World) registerSorts() {
	for _, p := range []string{protoPath, protoPath + "/v2"} {
		pkg := w.pkgs[p]
		if pkg == nil {
			continue
		}
		for _, m := range sortedKeys(pkg.Members) {
			if t, ok := pkg.Members[m].(*ssa.Type); ok {
				if _, isS := t.Type().Underlying().(*types.Struct); isS && t.Object().Exported() {
					sortOf(t.Type())
				}
			}
		}
	}
	for path, pkg := range w.pkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		_ = pkg
	}
}

func (w *World) dumpChains() {
	if w.bootM == nil {
		fmt.Println("no manager")
		return
	}
	x := newExec(w)
	st := w.boot
	s := x.loadPtr(st, w.bootM.(*PtrV)).(*StructV)
	u := s.typ.Underlying().(*types.Struct)
	for i := range s.f {
		m, ok := s.f[i].(*MapV)
		if !ok {
			continue
		}
		cm, ok := st.heap[m.obj].c.(*CMap)
		if !ok {
			continue
		}
		for j, k := range cm.keys {
			fmt.Printf("%s[%s]:", u.Field(i).Name(), k)
			if sl, ok := cm.vals[j].(*SliceV); ok {
				if l, ok := st.heap[sl.obj].c.(*ListV); ok {
					for _, e := range l.elems {
						iv := e.(*IfaceV)
						fmt.Printf(" %s", iv.dyn)
					}
				}
			}
			fmt.Println()
		}
	}
}
