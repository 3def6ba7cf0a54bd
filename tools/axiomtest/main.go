// Sanity test of the path axioms in contracts/60_db.gspec and 61_kv.gspec by
// enumeration of small strings (run by hand: go run /verif/tools/axiomtest).
package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
)

func under(b, p string) bool {
	r, err := filepath.Rel(b, p)
	return err == nil && r != "." && r != ".." && !strings.HasPrefix(r, "../")
}

func simple(x string) bool { return x != "" && x != "." && x != ".." && !strings.Contains(x, "/") }

func main() {
	var all []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		all = append(all, s)
		if n == 0 {
			return
		}
		for _, c := range []string{"a", ".", "/", "*", "-"} {
			gen(s+c, n-1)
		}
	}
	gen("", 6)
	bad := 0
	chk := func(ok bool, what string, args ...interface{}) {
		if !ok {
			bad++
			fmt.Println("AXIOM FAILS", what, args)
			if bad > 20 {
				os.Exit(1)
			}
		}
	}
	rk := map[string]string{}
	for _, b := range []string{"/b", "/b/c", "b", "b/c", "../b", "/b/kv"} {
		for _, p := range all {
			c := filepath.Clean(p)
			if !strings.HasPrefix(c, "..") && c != "." && c != "/" {
				j := filepath.Join(b, c)
				chk(under(b, j), "join-clean", b, p)
				d := filepath.Dir(j)
				chk(under(b, d) || d == filepath.Clean(b), "dir", b, p)
			}
			if simple(p) {
				for _, s := range []string{"/entities", "/groups"} {
					k := s + "/" + p
					chk(filepath.Clean(k) == k && path.Join(s, p) == k && path.Base(k) == p, "simple", p)
					m, _ := path.Match("/entities/*", k)
					g, _ := path.Match("/groups/*", k)
					chk(m == (s == "/entities") && g == (s == "/groups"), "match", p)
					j := filepath.Join(b, k)
					if o, ok := rk[j]; ok {
						chk(o == k, "distinct", o, k)
					}
					rk[j] = k
					r, err := filepath.Rel(b, j)
					chk(err == nil && "/"+r == k, "rel", b, k)
				}
			}
		}
		chk(under(b, filepath.Join(b, ".mutable")), "mutable", b)
		chk(under(b, filepath.Join(b, "*", "*")), "glob", b)
		rk = map[string]string{}
	}
	fmt.Println(len(all), "strings,", bad, "failures")
	if bad > 0 {
		os.Exit(1)
	}
}
