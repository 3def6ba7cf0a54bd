package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- reports

type oblOut struct {
	Name   string
	Fn     string
	Pos    string
	Desc   string
	Status string
	Trace  []string
	Goal   string
	Solver string
}

type fnOut struct {
	Name     string
	Err      string
	Total    int
	Done     int
	ByName   map[string]int
	BySolver map[string]int
	Failed   []oblOut
	Inlined  []string
	Used     []string
	Assumed  []string
	NInv     int
	Loops    []string
	Outs     int
	Dur      float64
	Disagree []string
	Cross    map[string]int
	Bounded  string
	Tags     []string
}

type shardOut struct {
	Fns     []*fnOut
	Calls   int64
	Seconds float64
}

// selected lists the contracts bearing on a property.
func (w *World) selected(id string) []*Contract {
	var r []*Contract
	for _, k := range w.spec.order {
		if id == "C11" && k.Variant != "" {
			continue
		}
		if id == "C33" || id == "C11" || hasTag(k.allTags(), id) {
			if (id == "C33" || id == "C11" && !hasTag(k.allTags(), id)) && hasOpt(k, "nopanicskip") {
				continue
			}
			r = append(r, k)
		}
	}
	if id == "C24" {
		have := map[*ssa.Function]bool{}
		for _, k := range w.spec.order {
			if k.Fn != nil && (k.Modular || hasTag(k.allTags(), "C24")) {
				have[k.Fn] = true
			}
		}
		for _, f := range w.guardUsers(have) {
			r = append(r, defaultContract(f))
		}
	}
	return r
}

// defaultContract asks only that the function is safe and keeps the locking
// discipline.
func defaultContract(f *ssa.Function) *Contract {
	k := &Contract{Kind: "func", Name: shortPath(strings.NewReplacer("(*", "", "(", "", ")", "").Replace(f.String())), Fn: f, Tags: []string{"C24"}, Symbolic: true}
	for i, p := range f.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		k.Params = append(k.Params, n)
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		k.Results = append(k.Results, fmt.Sprintf("r%d", i))
	}
	return k
}

func hasOpt(k *Contract, o string) bool {
	for _, p := range k.Pures {
		if p == o {
			return true
		}
	}
	return false
}

// checkFn verifies one function. What a first attempt leaves open is tried
// again with longer time limits, so that a busy machine raises no alarm.
func (w *World) checkFn(k *Contract, id string, deadline time.Time, thorough bool) *fnOut {
	fo := w.checkFnOnce(k, id, deadline, thorough)
	if len(fo.Failed) == 0 && fo.Err == "" || k.Fn == nil || w.bootErr != "" || os.Getenv("GOWP_ONCE") != "" {
		return fo
	}
	start := deadline.Add(-checkBudget)
	if !thorough && time.Since(start) > 260*time.Second {
		return fo
	}
	ct, ft, so := candTimeout, feasTimeout, solveTimeout
	candTimeout, feasTimeout, solveTimeout = 4000, 800, 3*solveTimeout
	if !thorough {
		solverStop = start.Add(460 * time.Second)
	}
	again := w.checkFnOnce(k, id, deadline, thorough)
	candTimeout, feasTimeout, solveTimeout = ct, ft, so
	solverStop = time.Time{}
	again.Dur += fo.Dur
	if again.Err == "" && (fo.Err != "" || len(again.Failed) <= len(fo.Failed)) {
		return again
	}
	return fo
}

func (w *World) checkFnOnce(k *Contract, id string, deadline time.Time, thorough bool) *fnOut {
	t0 := time.Now()
	fo := &fnOut{Name: k.Name, ByName: map[string]int{}, BySolver: map[string]int{}, Cross: map[string]int{}, Tags: k.allTags()}
	if k.Fn == nil {
		fo.Err = "the function under contract does not exist in the current source"
		return fo
	}
	var rep *FnReport
	if w.bootErr != "" {
		rep = &FnReport{Name: k.Name, Err: "start-up could not be executed: " + w.bootErr}
	} else {
		rep = w.verifyFn(k)
	}
	fo.Err = rep.Err
	fo.Inlined, fo.Used, fo.Assumed, fo.NInv, fo.Loops, fo.Outs, fo.Bounded = rep.Inlined, rep.Used, rep.Assumed, rep.NInv, rep.Loops, rep.Outs, rep.Bounded
	var sel []*Oblig
	for _, o := range rep.Obls {
		if hasTag(o.Tags, id) {
			sel = append(sel, o)
		}
	}
	discharge(sel, deadline)
	for _, o := range sel {
		fo.Total++
		fo.ByName[o.Name]++
		if o.Res.Status == "unsat" {
			fo.Done++
			fo.BySolver[solverName(o.Res.Solver)]++
			continue
		}
		fo.Failed = append(fo.Failed, oblOut{o.Name, k.Name, o.Pos, o.Desc, o.Res.Status, o.Trace, clipN(o.Goal.String(), 1500), o.Res.Solver})
	}
	if thorough {
		w.cross(sel, fo, deadline)
	}
	fo.Dur = time.Since(t0).Seconds()
	return fo
}

func solverName(s string) string {
	if s == "" {
		return "z3-new"
	}
	return filepath.Base(s)
}

func forOldZ3(q string) string {
	return strings.NewReplacer("(set-option :smt.solve_eqs false)\n", "", "(set-option :smt.elim_unconstrained false)\n", "").Replace(q)
}

// cross re-proves discharged obligations with other back ends.
func (w *World) cross(sel []*Oblig, fo *fnOut, deadline time.Time) {
	type job struct{ q string }
	var qs []string
	seen := map[string]bool{}
	for _, o := range sel {
		if o.Res.Status != "unsat" || o.Res.Solver == "simplifier" {
			continue
		}
		q := buildQuery(o.As, o.Goal, 20000, false)
		if !seen[q] {
			seen[q] = true
			qs = append(qs, q)
		}
	}
	res := make([][2]string, len(qs))
	parallel(len(qs), func(i int) {
		if time.Now().After(deadline) {
			res[i] = [2]string{"skipped", "skipped"}
			return
		}
		res[i][0] = runExternal("z3", []string{"-in", "-T:20"}, forOldZ3(qs[i]), 22*time.Second).Status
		res[i][1] = runExternal("cvc5", []string{"--lang=smt2", "--tlimit=10000"}, forCVC5(qs[i]), 12*time.Second).Status
	})
	for _, r := range res {
		fo.Cross["z3-4.8.12 "+r[0]]++
		fo.Cross["cvc5 "+r[1]]++
	}
}

func (w *World) runShard(id string, i, n int, deadline time.Time, thorough bool) *shardOut {
	so := &shardOut{}
	for j, k := range w.selected(id) {
		if j%n == i {
			so.Fns = append(so.Fns, w.checkFn(k, id, deadline, thorough))
		}
	}
	if i == 0 {
		if fo := w.checkLemmas(id, deadline); fo != nil {
			so.Fns = append(so.Fns, fo)
		}
	}
	so.Calls = atomic.LoadInt64(&solverCalls)
	so.Seconds = float64(atomic.LoadInt64(&solverNanos)) / 1e9
	return so
}

func (w *World) checkLemmas(id string, deadline time.Time) *fnOut {
	fo := &fnOut{Name: "lemmas", ByName: map[string]int{}, BySolver: map[string]int{}, Cross: map[string]int{}}
	var obls []*Oblig
	// a lemma may use those before it
	for _, l := range w.spec.lemmas {
		if l.ax != nil {
			l.ax.off = true
		}
	}
	for _, l := range w.spec.lemmas {
		if l.ax != nil {
			defer func(a *Axiom) { a.off = false }(l.ax)
		}
	}
	for li, l := range w.spec.lemmas {
		if li > 0 && w.spec.lemmas[li-1].ax != nil {
			w.spec.lemmas[li-1].ax.off = false
		}
		if !hasTag(l.Tags, id) {
			continue
		}
		env := &senv{sp: w.spec, vars: map[string]*T{}, ghost: map[string]*T{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specErr); ok {
						fmt.Println("SPEC-ERROR lemma", l.Name, e.msg)
						os.Exit(3)
					}
					panic(r)
				}
			}()
			env.eval(l.E)
		}()
		o := &Oblig{Name: "lemma:" + l.Name, Desc: "lemma " + l.Name, Goal: skolemGoal(env.eval(l.E))}
		discharge([]*Oblig{o}, deadline)
		if f := os.Getenv("GOWP_DUMP"); f != "" && o.Res.Status != "unsat" {
			os.WriteFile(f, []byte(buildQuery(o.As, o.Goal, 10000, false)), 0644)
		}
		obls = append(obls, o)
	}
	if len(obls) == 0 {
		return nil
	}
	for _, o := range obls {
		fo.Total++
		fo.ByName[o.Name]++
		if o.Res.Status == "unsat" {
			fo.Done++
			fo.BySolver[solverName(o.Res.Solver)]++
		} else {
			fo.Failed = append(fo.Failed, oblOut{o.Name, "lemma", "", o.Desc, o.Res.Status, nil, clipN(o.Goal.String(), 1500), ""})
		}
	}
	return fo
}

func skolemGoal(t *T) *T { return t }

// ---------------------------------------------------------------- check

type finding struct {
	Property string `json:"property"`
	Contract string `json:"contract"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

var checkBudget = 600 * time.Second

func checkMain(id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	if thorough {
		checkBudget = 3000 * time.Second
		solveTimeout = 30000
	}
	deadline := t0.Add(checkBudget)
	w := setup()
	w.doBoot()
	sel := w.selected(id)
	n := 1
	if len(sel) > 5 {
		n = 4
	}
	if len(sel) > 24 {
		n = 7
	}
	outs := make([]*shardOut, n)
	errs := make([]string, n)
	done := make(chan int, n)
	for i := 1; i < n; i++ {
		go func(i int) {
			defer func() { done <- i }()
			c := exec.Command(os.Args[0], "worker", id, fmt.Sprint(i), fmt.Sprint(n), fmt.Sprint(deadline.Unix()))
			c.Env = append(os.Environ(), "VERIF_TIER="+tier)
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			if err := c.Run(); err != nil {
				errs[i] = fmt.Sprintf("worker %d: %v: %s %s", i, err, clipN(se.String(), 2000), clipN(so.String(), 500))
				return
			}
			var r shardOut
			if err := json.Unmarshal(so.Bytes(), &r); err != nil {
				errs[i] = fmt.Sprintf("worker %d: %v", i, err)
				return
			}
			outs[i] = &r
		}(i)
	}
	outs[0] = w.runShard(id, 0, n, deadline, thorough)
	for i := 1; i < n; i++ {
		<-done
	}
	for _, e := range errs {
		if e != "" {
			fmt.Println("CHECK-ERROR", e)
			return 2
		}
	}
	return conclude(w, id, tier, outs, t0)
}

func conclude(w *World, id, tier string, outs []*shardOut, t0 time.Time) int {
	total, disch, ninv := 0, 0, 0
	bySolver, cross := map[string]int{}, map[string]int{}
	assumed, used, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fns []string
	loops := []string{}
	var failed []oblOut
	bounded := []string{}
	var calls int64
	var secs float64
	names := map[string]int{}
	perFn := map[string]string{}
	for _, so := range outs {
		calls += so.Calls
		secs += so.Seconds
		for _, f := range so.Fns {
			total += f.Total
			disch += f.Done
			ninv += f.NInv
			fns = append(fns, f.Name)
			perFn[f.Name] = fmt.Sprintf("%d/%d obligations, %d exits, %.1fs", f.Done, f.Total, f.Outs, f.Dur)
			for k, v := range f.BySolver {
				bySolver[k] += v
			}
			for k, v := range f.Cross {
				cross[k] += v
			}
			for k, v := range f.ByName {
				names[f.Name+" "+k] += v
			}
			for _, a := range f.Assumed {
				assumed[a] = true
			}
			for _, a := range f.Used {
				used[a] = true
			}
			for _, a := range f.Inlined {
				inlined[a] = true
			}
			for _, l := range f.Loops {
				loops = append(loops, f.Name+": "+l)
			}
			if f.Bounded != "" {
				bounded = append(bounded, f.Name+": "+f.Bounded)
			}
			failed = append(failed, f.Failed...)
			if f.Err != "" {
				total++
				failed = append(failed, oblOut{Name: "verifiable", Fn: f.Name, Desc: f.Err, Status: "not generated"})
			}
		}
	}
	sort.Strings(fns)
	if len(fns) == 0 || total == 0 {
		fmt.Println("CHECK-ERROR no obligations for", id)
		return 2
	}
	// known findings
	known := loadFindings(id)
	if known == nil {
		known = []finding{}
	}
	rc := 0
	vdir := verifDir()
	evid := filepath.Join(vdir, "evidence")
	os.MkdirAll(evid, 0755)
	for _, k := range known {
		if k.Fixed == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	rpath := filepath.Join(evid, id+".replay.txt")
	os.Remove(rpath)
	if len(failed) > 0 {
		rc = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d of %d obligations generated from /repo are not discharged\n\n", id, len(failed), total)
		for _, f := range failed {
			fmt.Fprintf(&b, "function   %s\nobligation %s\nat         %s\nmeaning    %s\nsolver     %s\n", f.Fn, f.Name, f.Pos, f.Desc, f.Status)
			for _, t := range f.Trace {
				fmt.Fprintf(&b, "  path: %s\n", t)
			}
			if f.Goal != "" {
				fmt.Fprintf(&b, "  goal: %s\n", f.Goal)
			}
			b.WriteString("\n")
		}
		found, txt := runReplay(id, tier)
		b.WriteString("---- replay against the real code ----\n" + txt + "\n")
		os.WriteFile(rpath, []byte(b.String()), 0644)
		for i, f := range failed {
			if i < 12 {
				fmt.Printf("  not discharged: %s %s (%s) %s\n", f.Fn, f.Name, f.Pos, clipN(f.Desc, 160))
			}
		}
		if found {
			for _, l := range strings.Split(txt, "\n") {
				if strings.Contains(l, "COUNTEREXAMPLE") {
					fmt.Println("  " + strings.TrimSpace(l))
					break
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rpath)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rpath)
		}
	}
	tb := []string{"z3-new 5.3.2 (SMT back end)", "golang.org/x/tools/go/ssa (front end: Go source to SSA)", "gowp, the verification-condition generator in /verif/gowp", "models of library functions in gowp/models.go and contracts/*.gspec (iface/extern/axiom)"}
	for a := range used {
		tb = append(tb, "used: "+a)
	}
	sort.Strings(tb[4:])
	as := []string{}
	for a := range assumed {
		as = append(as, a)
	}
	sort.Strings(as)
	cov := map[string]interface{}{
		"obligations": total, "discharged": disch,
		"checker_cmd":       "./check.sh " + id + " " + tier,
		"trusted_base":      tb,
		"functions":         fns,
		"per_function":      perFn,
		"inlined":           sortedKeys(inlined),
		"obligation_names":  names,
		"back_ends":         bySolver,
		"solver_calls":      calls,
		"solver_seconds":    secs,
		"loop_invariants":   ninv,
		"loops":             loops,
		"integers":          "mathematical, with int32 wrap-around obligations where int32 arithmetic occurs",
		"bounded_stand_ins": bounded,
		"known_findings":    known,
		"start_up_executed": "package initialisers, registration callbacks and chain initialisation are executed symbolically from /repo on this run",
	}
	if len(cross) > 0 {
		cov["second_back_ends"] = cross
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": len(failed),
	}
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evid, id+".json"), append(jb, '\n'), 0644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions, %d loop invariants, %d solver calls, %.1fs\n", id, disch, total, len(fns), ninv, calls, time.Since(t0).Seconds())
	return rc
}

func loadFindings(id string) []finding {
	var all, r []finding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	json.Unmarshal(b, &all)
	for _, f := range all {
		if f.Property == id {
			r = append(r, f)
		}
	}
	return r
}

var ceRe = regexp.MustCompile(`COUNTEREXAMPLE`)

// what the Go runtime prints when a call takes the whole process down
var fatalRe = regexp.MustCompile(`(?m)^fatal error: (stack overflow|all goroutines are asleep|concurrent map|sync: )`)

// replayPkg is where the replay tests are overlaid.
const replayPkg = "internal/token/all"

// runReplay executes the property's replay tests on the real code.
func runReplay(id, tier string) (bool, string) {
	if os.Getenv("GOWP_NOREPLAY") != "" {
		return false, ""
	}
	dir := filepath.Join(verifDir(), "replay")
	b, err := os.ReadFile(filepath.Join(dir, "replay.json"))
	if err != nil {
		return false, "no replay registered"
	}
	m := map[string]string{}
	if err := json.Unmarshal(b, &m); err != nil {
		return false, "replay.json: " + err.Error()
	}
	if m[id] == "" {
		return false, "no replay registered for this property\n"
	}
	// files named common_* are part of every replay, the others are named
	// in replay.json before the colon
	var out strings.Builder
	for _, rs := range strings.Fields(m[id]) {
		// file:Test, or file:Test@package for a test of its own in that
		// package; !race runs it under the race detector
		rs, race := strings.CutSuffix(rs, "!race")
		file, run, _ := strings.Cut(rs, ":")
		run, pkg, own := strings.Cut(run, "@")
		ov := map[string]map[string]string{"Replace": {}}
		fs := []string{filepath.Join(dir, file+"_test.go")}
		if !own {
			pkg = replayPkg
			cs, _ := filepath.Glob(filepath.Join(dir, "common_*_test.go"))
			fs = append(fs, cs...)
		}
		for _, f := range fs {
			ov["Replace"][filepath.Join(repoDir(), pkg, "verif_"+filepath.Base(f))] = f
		}
		tmp, err := os.MkdirTemp("", "replay")
		if err != nil {
			continue
		}
		ob, _ := json.Marshal(ov)
		of := filepath.Join(tmp, "overlay.json")
		os.WriteFile(of, ob, 0644)
		args := []string{"-k", "5", "170", "go", "test", "-vet=off", "-overlay", of, "-count=1", "-timeout", "150s", "-run", "^(" + run + ")$"}
		if race {
			args = append(args, "-race")
		}
		c := exec.Command("timeout", append(args, "./"+pkg)...)
		c.Dir = repoDir()
		c.Env = append(os.Environ(), "TMPDIR="+tmp, "VERIF_TIER="+tier, "VERIF_PROP="+id, "VERIF_TRACE="+filepath.Join(tmp, "trace"))
		o, err := c.CombinedOutput()
		if err != nil && !ceRe.Match(o) && fatalRe.Match(o) {
			// the process was taken down by the call the trace names
			if tr, e := os.ReadFile(filepath.Join(tmp, "trace")); e == nil {
				o = append([]byte(fmt.Sprintf("COUNTEREXAMPLE property=%s: the process dies in: %s\n", id, tr)), o...)
			}
		}
		if race && err != nil && !ceRe.Match(o) && bytes.Contains(o, []byte("WARNING: DATA RACE")) {
			o = append([]byte(fmt.Sprintf("COUNTEREXAMPLE property=%s: the race detector reports a data race in %s\n", id, run)), o...)
		}
		os.RemoveAll(tmp)
		fmt.Fprintf(&out, "$ go test -overlay … -run %s ./%s\n%s\n", run, pkg, clipN(string(o), 6000))
		if err != nil && ceRe.Match(o) {
			return true, out.String()
		}
	}
	return false, out.String()
}
