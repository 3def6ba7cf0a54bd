// Package mresolver replays C22, C23 and C24 against the real resolver.
package mresolver

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"time"
)

type rules struct{ inc, exc []string }

// member is the meaning of the rules.
func member(gs map[string]rules, direct []string, g string) bool {
	r, ok := gs[g]
	if !ok {
		return false
	}
	m := false
	for _, d := range direct {
		m = m || d == g
	}
	for _, i := range r.inc {
		m = m || member(gs, direct, i)
	}
	for _, x := range r.exc {
		if member(gs, direct, x) {
			return false
		}
	}
	return m
}

// reaches: there is a path of rules from a to b.
func reaches(gs map[string]rules, a, b string) bool {
	if a == b {
		return true
	}
	for _, t := range append(append([]string{}, gs[a].inc...), gs[a].exc...) {
		if reaches(gs, t, b) {
			return true
		}
	}
	return false
}

func list(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func TestResolver(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	r := rand.New(rand.NewSource(11))
	names := []string{"a", "b", "c", "d", "e", "aa", "a b"}
	ents := []string{"x", "y", "z"}
	step := make(chan string, 1)
	fin := make(chan string, 1)
	go func() {
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
			mr := New()
			gs := map[string]rules{}
			ds := map[string][]string{}
			hist := ""
			for i := 0; i < 25; i++ {
				g := names[r.Intn(len(names))]
				switch r.Intn(6) {
				case 0:
					hist += fmt.Sprintf("RemoveGroup(%q); ", g)
					os.WriteFile(os.Getenv("VERIF_TRACE"), []byte(hist), 0644)
					mr.RemoveGroup(g)
					delete(gs, g)
				case 1:
					e := ents[r.Intn(len(ents))]
					hist += fmt.Sprintf("RemoveEntity(%q); ", e)
					mr.RemoveEntity(e)
					delete(ds, e)
				case 2, 3:
					e := ents[r.Intn(len(ents))]
					var l []string
					for k := r.Intn(4); k > 0; k-- {
						l = append(l, names[r.Intn(len(names))])
					}
					hist += fmt.Sprintf("SyncDirectGroups(%q, %q); ", e, l)
					mr.SyncDirectGroups(e, append([]string{}, l...))
					ds[e] = l
				default:
					old, had := gs[g]
					delete(gs, g)
					var n rules
					for k := r.Intn(4); k > 0; k-- {
						o := names[r.Intn(len(names))]
						// a name may be all the way down, unknown or dropped before
						if reaches(gs, o, g) || dependsOn(gs, o, g) {
							continue
						}
						if r.Intn(3) == 0 {
							n.exc = append(n.exc, o)
						} else {
							n.inc = append(n.inc, o)
						}
					}
					_, _ = old, had
					hist += fmt.Sprintf("SyncGroup(%q, %q, %q); ", g, n.inc, n.exc)
					os.WriteFile(os.Getenv("VERIF_TRACE"), []byte(hist), 0644)
					mr.SyncGroup(g, append([]string{}, n.inc...), append([]string{}, n.exc...))
					gs[g] = n
				}
				select {
				case <-step:
				default:
				}
				step <- hist
				if prop == "C23" || prop == "C24" {
					continue
				}
				for _, g := range names {
					want, got := map[string]bool{}, map[string]bool{}
					for e, d := range ds {
						if member(gs, d, g) {
							want[e] = true
						}
					}
					for _, e := range mr.MembersOfGroup(g) {
						got[e] = true
					}
					if fmt.Sprint(list(want)) != fmt.Sprint(list(got)) {
						fin <- fmt.Sprintf("%sthen MembersOfGroup(%q) = %q instead of %q", hist, g, list(got), list(want))
						return
					}
				}
				for _, e := range ents {
					want, got := map[string]bool{}, map[string]bool{}
					for g := range gs {
						if d, ok := ds[e]; ok && member(gs, d, g) {
							want[g] = true
						}
					}
					for _, g := range mr.GroupsForEntity(e) {
						got[g] = true
					}
					if fmt.Sprint(list(want)) != fmt.Sprint(list(got)) {
						fin <- fmt.Sprintf("%sthen GroupsForEntity(%q) = %q instead of %q", hist, e, list(got), list(want))
						return
					}
				}
			}
		}
		fin <- ""
	}()
	last := ""
	for {
		select {
		case m := <-fin:
			if m != "" && (prop == "" || prop == "C22") {
				t.Fatalf("COUNTEREXAMPLE property=C22: %s", m)
			}
			return
		case last = <-step:
		case <-time.After(15 * time.Second):
			tr, _ := os.ReadFile(os.Getenv("VERIF_TRACE"))
			if prop == "" {
				prop = "C23"
			}
			t.Fatalf("COUNTEREXAMPLE property=%s: %s does not return (after %s)", prop, strings.TrimSpace(string(tr)), last)
		}
	}
}

// dependsOn: rules over o that lead to g are also followed from groups that
// are not known at present.
func dependsOn(gs map[string]rules, o, g string) bool { return o == g }

// TestResolverRace is run with the race detector.
func TestResolverRace(t *testing.T) {
	mr := New()
	for i := 0; i < 5; i++ {
		mr.SyncGroup(fmt.Sprint("g", i), nil, nil)
	}
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			r := rand.New(rand.NewSource(int64(i)))
			for k := 0; k < 300; k++ {
				a := r.Intn(5)
				g, e := fmt.Sprint("g", a), fmt.Sprint("e", r.Intn(3))
				var lower []string
				if a > 0 {
					lower = []string{fmt.Sprint("g", r.Intn(a))}
				}
				switch r.Intn(6) {
				case 0:
					mr.SyncGroup(g, lower, nil)
				case 1:
					mr.SyncGroup(g, nil, lower)
				case 2:
					mr.RemoveGroup(g)
				case 3:
					mr.SyncDirectGroups(e, []string{g, "g0"})
				case 4:
					mr.RemoveEntity(e)
				}
				mr.MembersOfGroup(g)
				mr.GroupsForEntity(e)
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			t.Fatal("COUNTEREXAMPLE property=C24: concurrent resolver operations do not return (a lock is not released)")
		}
	}
}
