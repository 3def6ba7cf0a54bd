// Package fs_test replays C36 against the real cache.
package fs_test

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
)

func TestFileCache(t *testing.T) {
	owners := []string{"a", "A", "a ", "b", "aa", "a.nt", ".a", "ä", "a%20", "a\\b"}
	tokens := []string{"", " ", "t", "T", "t ", "t\n", "\n", "x.y.z", "x\x00y"}
	r := rand.New(rand.NewSource(5))
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		dir, err := os.MkdirTemp("", "cachefs")
		if err != nil {
			t.Skip(err)
		}
		os.Setenv("TMPDIR", dir)
		c, err := cache.NewTokenCache("fs")
		os.Setenv("TMPDIR", filepath.Dir(dir))
		if err != nil {
			t.Skip(err)
		}
		want := map[string]string{}
		hist := ""
		for i := 0; i < 12; i++ {
			o, v := owners[r.Intn(len(owners))], tokens[r.Intn(len(tokens))]
			if r.Intn(4) == 0 {
				v = fmt.Sprint("t", i)
			}
			if r.Intn(3) == 0 {
				hist += fmt.Sprintf("DelToken(%q); ", o)
				if err := c.DelToken(o); err != nil {
					t.Fatalf("COUNTEREXAMPLE property=C36: %sreports %v", hist, err)
				}
				delete(want, o)
			} else {
				hist += fmt.Sprintf("PutToken(%q, %q); ", o, v)
				if err := c.PutToken(o, v); err == nil {
					want[o] = v
				} else {
					t.Fatalf("COUNTEREXAMPLE property=C36: %sreports %v", hist, err)
				}
			}
			for _, o := range owners {
				g, err := c.GetToken(o)
				w, ok := want[o]
				if ok != (err == nil) || g != w {
					t.Fatalf("COUNTEREXAMPLE property=C36: %sthen GetToken(%q) = %q, %v instead of %q (stored: %v)", hist, o, g, err, w, ok)
				}
				if !ok && err != cache.ErrNoCachedToken {
					t.Fatalf("COUNTEREXAMPLE property=C36: %sthen GetToken(%q) reports %v for a token that is not there", hist, o, err)
				}
			}
			fs, _ := os.ReadDir(dir)
			for _, f := range fs {
				if st, err := f.Info(); err == nil && st.Mode().IsRegular() && st.Mode().Perm()&077 != 0 {
					t.Fatalf("COUNTEREXAMPLE property=C36: %sthen the token file %q has mode %v", hist, f.Name(), st.Mode())
				}
			}
		}
		if filepath.Base(dir) != "." && filepath.Dir(dir) == filepath.Clean(os.TempDir()) {
			os.RemoveAll(dir)
		}
	}
}
