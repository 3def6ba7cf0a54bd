// Package memory_test replays C31 against the real cache.
package memory_test

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

func TestCache(t *testing.T) {
	owners := []string{"", "a", "A", "a ", "b", "aa", "a/b", "../b", "ä"}
	tokens := []string{"", " ", "t", "T", "t ", "x.y.z"}
	r := rand.New(rand.NewSource(5))
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
		c, err := cache.NewTokenCache("memory")
		if err != nil {
			t.Skip(err)
		}
		want := map[string]string{}
		hist := ""
		for i := 0; i < 40; i++ {
			o, v := owners[r.Intn(len(owners))], tokens[r.Intn(len(tokens))]
			if r.Intn(4) == 0 {
				v = fmt.Sprint("t", i)
			}
			switch r.Intn(3) {
			case 0:
				hist += fmt.Sprintf("DelToken(%q); ", o)
				if err := c.DelToken(o); err != nil {
					t.Fatalf("COUNTEREXAMPLE property=C31: %sreports %v", hist, err)
				}
				delete(want, o)
			default:
				hist += fmt.Sprintf("PutToken(%q, %q); ", o, v)
				if err := c.PutToken(o, v); err == nil {
					want[o] = v
				} else {
					t.Fatalf("COUNTEREXAMPLE property=C31: %sreports %v", hist, err)
				}
			}
			for n := 0; n < 2; n++ {
				for _, o := range owners {
					g, err := c.GetToken(o)
					w, ok := want[o]
					if ok != (err == nil) || g != w {
						t.Fatalf("COUNTEREXAMPLE property=C31: %sthen GetToken(%q) = %q, %v instead of %q (stored: %v)", hist, o, g, err, w, ok)
					}
				}
			}
		}
	}
}

// TestCacheRace is run with the race detector.
func TestCacheRace(t *testing.T) {
	c, err := cache.NewTokenCache("memory")
	if err != nil {
		t.Skip(err)
	}
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for k := 0; k < 2000; k++ {
				switch (i + k) % 3 {
				case 0:
					c.PutToken("a", "b")
				case 1:
					c.GetToken("a")
				case 2:
					c.DelToken("a")
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			t.Fatal("COUNTEREXAMPLE property=C24: concurrent cache operations do not return (a lock is not released)")
		}
	}
}
