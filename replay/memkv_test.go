package memory_test

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/startup"
)

// TestMemRace is run with the race detector.
func TestMemRace(t *testing.T) {
	startup.DoCallbacks()
	kv, err := db.NewKV("memory", nil)
	if err != nil {
		t.Skip(err)
	}
	kv.SetEventFunc(func(db.Event) {})
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			r := rand.New(rand.NewSource(int64(i)))
			for k := 0; k < 1500; k++ {
				key := fmt.Sprint("/entities/", r.Intn(4))
				switch r.Intn(5) {
				case 0:
					kv.Put(key, []byte("x"))
				case 1:
					kv.Get(key)
				case 2:
					kv.Del(key)
				case 3:
					kv.Keys("/entities/*")
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			t.Fatal("COUNTEREXAMPLE property=C24: concurrent store operations do not return (a lock is not released)")
		}
	}
}
