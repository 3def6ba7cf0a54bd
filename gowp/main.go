package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

func verifDir() string {
	if d := os.Getenv("GOWP_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func setup() *World {
	w, err := loadWorld(repoDir())
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	w.registerSorts()
	w.spec = newSpec(w)
	sortLookup = func(pk, name string) *Sort {
		for _, p := range w.pkgs {
			if isRepoPkg(p.Pkg) && p.Pkg.Name() == pk && p.Type(name) != nil {
				return sortOf(p.Type(name).Type())
			}
		}
		for _, p := range w.prog.AllPackages() {
			if !isRepoPkg(p.Pkg) && p.Pkg.Name() == pk && p.Type(name) != nil {
				return sortOf(p.Type(name).Type())
			}
		}
		return nil
	}
	if err := w.spec.loadDir(filepath.Join(verifDir(), "contracts")); err != nil {
		fmt.Println("SPEC-ERROR", err)
		os.Exit(3)
	}
	return w
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gowp ssa FN | fn NAME [TAG] | boot | check ID")
		os.Exit(2)
	}
	t0 := time.Now()
	switch os.Args[1] {
	case "ssa":
		w, _ := loadWorld(repoDir())
		for f := range ssautil.AllFunctions(w.prog) {
			if f.String() == os.Args[2] || strings.HasSuffix(f.String(), os.Args[2]) {
				f.WriteTo(os.Stdout)
			}
		}
	case "boot":
		w := setup()
		fmt.Println("loaded", time.Since(t0))
		w.doBoot()
		fmt.Println("boot", time.Since(t0), w.bootErr)
		w.dumpChains()
		w.doBootPlugins()
		fmt.Println("with plugins:", w.plugErr)
		w.boot, w.bootM = w.plugBoot, w.plugM
		w.dumpChains()
	case "check":
		rc := checkMain(os.Args[2])
		os.Exit(rc)
	case "worker":
		w := setup()
		w.doBoot()
		var i, n int
		var dl int64
		fmt.Sscan(os.Args[3], &i)
		fmt.Sscan(os.Args[4], &n)
		fmt.Sscan(os.Args[5], &dl)
		th := os.Getenv("VERIF_TIER") == "thorough"
		if th {
			checkBudget = 3000 * time.Second
			solveTimeout = 30000
		}
		b, _ := json.Marshal(w.runShard(os.Args[2], i, n, time.Unix(dl, 0), th))
		os.Stdout.Write(b)
	case "replay":
		ok, txt := runReplay(os.Args[2], "quick")
		fmt.Println(txt, ok)
	case "fn":
		if f := os.Getenv("GOWP_PROF"); f != "" {
			o, _ := os.Create(f)
			pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
		w := setup()
		w.doBoot()
		if w.bootErr != "" {
			fmt.Println("BOOT", w.bootErr)
		}
		tag := ""
		if len(os.Args) > 3 {
			tag = os.Args[3]
		}
		ks := w.spec.order
		if tag == "C24" {
			ks = w.selected("C24")
		}
		if os.Args[2] == "lemmas" {
			if fo := w.checkLemmas(tag, time.Now().Add(time.Minute)); fo != nil {
				fmt.Println(fo.Done, "of", fo.Total, "lemmas")
				for _, f := range fo.Failed {
					fmt.Printf("  FAIL %+v\n", f)
				}
			}
		}
		for _, k := range ks {
			if k.Name != os.Args[2] && !strings.HasSuffix(k.Name, os.Args[2]) {
				continue
			}
			w.runOne(k, tag)
		}
		fmt.Println("total", time.Since(t0), "solver calls", solverCalls, time.Duration(solverNanos))
	}
}

func (w *World) runOne(k *Contract, tag string) {
	if k.Fn == nil {
		fmt.Println("MISSING", k.Name)
		return
	}
	rep := w.verifyFn(k)
	fmt.Printf("== %s: %d outcomes, %d obligations, %d steps, %v\n", k.Name, rep.Outs, len(rep.Obls), rep.Steps, rep.Dur)
	if rep.Err != "" {
		fmt.Println("  ERR", rep.Err)
	}
	var sel []*Oblig
	for _, o := range rep.Obls {
		if hasTag(o.Tags, tag) {
			sel = append(sel, o)
		}
	}
	t1 := time.Now()
	discharge(sel, time.Now().Add(10*time.Minute))
	bad := 0
	failSeen := map[string]bool{}
	for _, o := range sel {
		if o.Res.Status != "unsat" {
			bad++
			if failSeen[o.Name+o.Pos] && os.Getenv("GOWP_V") == "" {
				continue
			}
			failSeen[o.Name+o.Pos] = true
			fmt.Printf("  FAIL %s %v [%s] %s (%s %v)\n", o.Name, o.Tags, o.Pos, clipN(o.Desc, 150), o.Res.Status, o.Res.Dur.Round(time.Millisecond))
			if os.Getenv("GOWP_V") != "" {
				for _, t := range o.Trace {
					fmt.Println("       ", t)
				}
				fmt.Println("       goal", clipN(o.Goal.String(), 2000))
				if os.Getenv("GOWP_V") == "2" {
					for _, a := range o.As {
						fmt.Println("         as", clipN(a.String(), 600))
					}
				}
			}
			if f := os.Getenv("GOWP_DUMP"); f != "" {
				os.WriteFile(f, []byte(buildQuery(o.As, o.Goal, 10000, false)), 0644)
			}
		}
	}
	fmt.Printf("  %d/%d discharged in %v\n", len(sel)-bad, len(sel), time.Since(t1))
	if os.Getenv("GOWP_V") != "" {
		fmt.Println("  inlined", rep.Inlined)
		fmt.Println("  used", rep.Used)
		fmt.Println("  assumed", rep.Assumed)
		fmt.Println("  loops", rep.Loops)
	}
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// repoDir is the tree under verification.
func repoDir() string {
	if d := os.Getenv("GOWP_REPO"); d != "" {
		return d
	}
	return "/repo"
}
