//go:build go1.18

package all_test

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/startup"

	types "github.com/netauth/protocol"
)

// kvSpy sits between the database and a real store.
type kvSpy struct {
	db.KVStore
	calls []string
	fail  string // operation to fail next
	hit   bool
}

func (k *kvSpy) on(op, key string) error {
	k.calls = append(k.calls, op+" "+key)
	if k.fail == op {
		k.hit = true
		return errFault
	}
	return nil
}
func (k *kvSpy) Put(n string, v []byte) error {
	if err := k.on("Put", n); err != nil {
		return err
	}
	return k.KVStore.Put(n, v)
}
func (k *kvSpy) Get(n string) ([]byte, error) {
	if err := k.on("Get", n); err != nil {
		return nil, err
	}
	return k.KVStore.Get(n)
}
func (k *kvSpy) Del(n string) error {
	if err := k.on("Del", n); err != nil {
		return err
	}
	return k.KVStore.Del(n)
}
func (k *kvSpy) Keys(f string) ([]string, error) {
	if err := k.on("Keys", f); err != nil {
		return nil, err
	}
	return k.KVStore.Keys(f)
}

var spy *kvSpy

func openDB(t *testing.T, backend, home string) *db.DB {
	startup.DoCallbacks()
	viper.Set("core.home", home)
	db.RegisterKV("spy-"+backend, func(l hclog.Logger) (db.KVStore, error) {
		x, err := db.NewKV(backend, l)
		spy = &kvSpy{KVStore: x}
		return spy, err
	})
	d, err := db.New("spy-" + backend)
	if err != nil {
		t.Skip(err)
	}
	return d
}

func mappable(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}

// TestStore runs histories of saves, loads, deletions, listings and searches.
func TestStore(t *testing.T) {
	seed := int64(1)
	for !timeUp() {
		for _, b := range []string{"memory", "filesystem", "memory", "filesystem", "bitcask"} {
			seed++
			storeHistory(t, b, rand.New(rand.NewSource(seed)))
		}
	}
}

func storeHistory(t *testing.T, backend string, r *rand.Rand) {
	home, err := ioutil.TempDir("", "store")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(home)
	d := openDB(t, backend, home)
	defer d.Shutdown()
	var events []string
	d.RegisterCallback("spy", func(e db.Event) { events = append(events, fmt.Sprint(e.Type, " ", e.PK)) })
	names := []string{"aaa", "bbb", "ccc", "AAA", "a.b", "ä", "a b", "..a", "a..", "*", "[a]", "aaa.tmp"}
	bad := []string{"", ".", "..", "aaa/bbb", "../groups/aaa", "../entities/aaa", "/aaa", "aaa/", "./aaa", "aaa/.", "aaa/../bbb"}
	plain := []string{"aaa", "bbb", "ccc"}
	ents, grps := map[string]*types.Entity{}, map[string]*types.Group{}
	keyOf := map[string]string{} // storage key -> kind and name
	pickName := func() string {
		switch r.Intn(8) {
		case 0:
			return pick(r, bad)
		case 1, 2:
			return pick(r, names)
		}
		return pick(r, plain)
	}
	hist := backend + ":"
	big := strings.Repeat("x", 900)
	for i := 0; i < 25 && !timeUp(); i++ {
		n := pickName()
		events, spy.calls, spy.hit = nil, nil, false
		spy.fail = ""
		if r.Intn(6) == 0 {
			spy.fail = pick(r, []string{"Put", "Get", "Del", "Keys"})
		}
		kind := pick(r, []string{"entity", "group"})
		op := pick(r, []string{"save", "save", "save", "load", "delete", "list", "search", "number"})
		if op == "save" && spy.fail == "Get" {
			spy.fail = "" // the index reads the record that was saved
		}
		what := fmt.Sprintf("%s %s %q fail=%q", op, kind, n, spy.fail)
		hist += " " + what + ";"
		var err error
		expectEv := "none"
		switch op {
		case "save":
			num := int32(r.Intn(50))
			text := pick(r, []string{"one", "two", big + "1", big + "2"})
			if kind == "entity" {
				e := &types.Entity{ID: proto.String(n), Number: &num, Secret: proto.String(text), Meta: randMeta(r)}
				err = d.SaveEntity(e)
				if err == nil {
					ents[n] = proto.Clone(e).(*types.Entity)
				}
			} else {
				g := randGroup(r, n, num)
				g.DisplayName = proto.String(text)
				err = d.SaveGroup(g)
				if err == nil {
					grps[n] = proto.Clone(g).(*types.Group)
				}
			}
			if err == nil {
				expectEv = "update"
			}
			if mappable(n) && err != nil && !spy.hit {
				report(t, "C21", "%s: saving failed: %v", hist, err)
			}
			if err == nil && spy.hit {
				report(t, "C21", "%s: a failed write is reported as success", hist)
			}
		case "delete":
			if kind == "entity" {
				err = d.DeleteEntity(n)
				if err == nil {
					delete(ents, n)
				}
			} else {
				err = d.DeleteGroup(n)
				if err == nil {
					delete(grps, n)
				}
			}
			if err == nil {
				expectEv = "destroy"
			}
			if err == nil && spy.hit {
				report(t, "C21", "%s: a failed deletion is reported as success", hist)
			}
			if err != nil && spy.hit && (err == db.ErrUnknownEntity || err == db.ErrUnknownGroup) {
				report(t, "C21", "%s: a failed deletion is reported as %v", hist, err)
			}
		case "load":
			var got proto.Message
			var want proto.Message
			var known bool
			if kind == "entity" {
				var e *types.Entity
				e, err = d.LoadEntity(n)
				got, want = e, ents[n]
				_, known = ents[n]
			} else {
				var g *types.Group
				g, err = d.LoadGroup(n)
				got, want = g, grps[n]
				_, known = grps[n]
			}
			unk := err == db.ErrUnknownEntity || err == db.ErrUnknownGroup
			if spy.hit && (err == nil || unk) {
				report(t, "C21", "%s: a failed read is reported as %v", hist, err)
			}
			if !spy.hit && known && (err != nil || !proto.Equal(got, want)) {
				report(t, "C21", "%s: got %v, %v instead of %v", hist, got, err, want)
			}
			if !spy.hit && !known && !unk {
				report(t, "C21", "%s: unknown, but got %v, %v", hist, got, err)
			}
		case "list":
			var l []string
			var want []string
			if kind == "entity" {
				l, err = d.DiscoverEntityIDs()
				want = keysOf(ents)
			} else {
				l, err = d.DiscoverGroupNames()
				want = keysOf(grps)
			}
			got := []string{}
			for _, x := range l {
				got = append(got, path.Base(x))
			}
			sort.Strings(got)
			if spy.hit && err == nil {
				report(t, "C21", "%s: a failed listing is reported as success", hist)
			}
			if !spy.hit && (err != nil || fmt.Sprint(got) != fmt.Sprint(want)) {
				report(t, "C21", "%s: lists %q, %v instead of %q", hist, got, err, want)
			}
		case "number":
			var num int32
			if kind == "entity" {
				num, err = d.NextEntityNumber()
				for _, e := range ents {
					if err == nil && e.GetNumber() == num {
						report(t, "C18", "%s: number %d is in use", hist, num)
					}
				}
			} else {
				num, err = d.NextGroupNumber()
				for _, g := range grps {
					if err == nil && g.GetNumber() == num {
						report(t, "C18", "%s: number %d is in use", hist, num)
					}
				}
			}
			if spy.hit && err == nil {
				report(t, "C18", "%s: number %d although a record could not be read", hist, num)
			}
		case "search":
			p := pick(r, plain)
			if kind == "entity" {
				var es []*types.Entity
				es, err = d.SearchEntities(db.SearchRequest{Expression: "ID:" + p})
				have, known := ents[p]
				if err == nil && !spy.hit {
					cnt := 0
					for _, e := range es {
						if w, ok := ents[e.GetID()]; !ok || !proto.Equal(w, e) {
							report(t, "C25", "%s: search %q returns %v, which is not stored", hist, p, e)
						}
						if e.GetID() == p {
							cnt++
						}
					}
					if known != (cnt == 1) {
						report(t, "C25", "%s: search for %q finds %d, stored: %v", hist, p, cnt, have)
					}
				} else if err != nil && !spy.hit {
					report(t, "C25", "%s: search for %q fails: %v", hist, p, err)
				}
			} else {
				var gs []*types.Group
				gs, err = d.SearchGroups(db.SearchRequest{Expression: "Name:" + p})
				have, known := grps[p]
				if err == nil && !spy.hit {
					cnt := 0
					for _, g := range gs {
						if w, ok := grps[g.GetName()]; !ok || !proto.Equal(w, g) {
							report(t, "C25", "%s: search %q returns %v, which is not stored", hist, p, g)
						}
						if g.GetName() == p {
							cnt++
						}
					}
					if known != (cnt == 1) {
						report(t, "C25", "%s: search for %q finds %d, stored: %v", hist, p, cnt, have)
					}
				} else if err != nil && !spy.hit {
					report(t, "C25", "%s: search for %q fails: %v", hist, p, err)
				}
			}
			if spy.hit && err == nil {
				report(t, "C25", "%s: a record that fails to load is not reported", hist)
			}
		}
		// names and keys
		if op == "save" || op == "load" || op == "delete" {
			if !mappable(n) {
				if err == nil {
					report(t, "C20", "%s: the name %q is accepted", hist, n)
				}
				if len(spy.calls) != 0 {
					report(t, "C20", "%s: the name %q touches storage: %v", hist, n, spy.calls)
				}
			} else {
				for _, c := range spy.calls {
					f := strings.SplitN(c, " ", 2)
					if f[0] == "Keys" {
						continue
					}
					who := kind + " " + n
					if o, ok := keyOf[f[1]]; ok && o != who {
						report(t, "C20", "%s: %s and %s share the key %q", hist, o, who, f[1])
					}
					keyOf[f[1]] = who
				}
			}
		}
		// events
		want := map[string]string{}
		if kind == "entity" {
			want["update"], want["destroy"] = fmt.Sprint(db.EventEntityUpdate, " ", n), fmt.Sprint(db.EventEntityDestroy, " ", n)
		} else {
			want["update"], want["destroy"] = fmt.Sprint(db.EventGroupUpdate, " ", n), fmt.Sprint(db.EventGroupDestroy, " ", n)
		}
		if expectEv == "none" && len(events) != 0 {
			report(t, "C21", "%s: events %v although nothing changed", hist, events)
		}
		if expectEv != "none" && (len(events) != 1 || events[0] != want[expectEv]) {
			report(t, "C21", "%s: events %q instead of %q", hist, events, want[expectEv])
		}
		// everything else as it was
		spy.fail = ""
		for _, x := range append(append([]string{}, names...), plain...) {
			e, err := d.LoadEntity(x)
			if w, ok := ents[x]; ok && (err != nil || !proto.Equal(e, w)) {
				report(t, "C21", "%s: afterwards entity %q is %v, %v instead of %v", hist, x, e, err, w)
			} else if !ok && err != db.ErrUnknownEntity {
				if err == nil && e.GetID() != x {
					report(t, "C20", "%s: afterwards loading entity %q answers the record of %q", hist, x, e.GetID())
				}
				report(t, "C21", "%s: afterwards entity %q is there: %v, %v", hist, x, e, err)
			}
			g, err := d.LoadGroup(x)
			if w, ok := grps[x]; ok && (err != nil || !proto.Equal(g, w)) {
				report(t, "C21", "%s: afterwards group %q is %v, %v instead of %v", hist, x, g, err, w)
			} else if !ok && err != db.ErrUnknownGroup {
				if err == nil && g.GetName() != x {
					report(t, "C20", "%s: afterwards loading group %q answers the record of %q", hist, x, g.GetName())
				}
				report(t, "C21", "%s: afterwards group %q is there: %v, %v", hist, x, g, err)
			}
		}
	}
	// a damaged record is an error
	if backend != "bitcask" && !timeUp() {
		spy.KVStore.SetEventFunc(func(db.Event) {})
		for _, junk := range []string{"\xff", "\x0a\xff", "garbage garbage"} {
			spy.KVStore.Put("/entities/junk", []byte(junk))
			spy.KVStore.Put("/groups/junk", []byte(junk))
			if e, err := d.LoadEntity("junk"); err == nil || err == db.ErrUnknownEntity {
				report(t, "C21", "%s: the damaged entity %q is loaded as %v, %v", backend, junk, e, err)
			}
			if g, err := d.LoadGroup("junk"); err == nil || err == db.ErrUnknownGroup {
				report(t, "C21", "%s: the damaged group %q is loaded as %v, %v", backend, junk, g, err)
			}
			if n, err := d.NextEntityNumber(); err == nil {
				report(t, "C18", "%s: entity number %d although a record is damaged", backend, n)
			}
			if n, err := d.NextGroupNumber(); err == nil {
				report(t, "C18", "%s: group number %d although a record is damaged", backend, n)
			}
		}
	}
}

// TestIndex drives the index with its own loaders.
func TestIndex(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	for !timeUp() {
		ix := db.NewIndex(hclog.NewNullLogger())
		st := newStore()
		fail := ""
		ix.ConfigureCallback(func(id string) (*types.Entity, error) {
			if id == fail {
				return nil, errFault
			}
			return st.LoadEntity(id)
		}, func(id string) (*types.Group, error) {
			if id == fail {
				return nil, errFault
			}
			return st.LoadGroup(id)
		})
		names := []string{"aaa", "bbb", "ccc"}
		have := map[string]string{}
		hist := ""
		for i := 0; i < 20; i++ {
			n := pick(r, names)
			fail = ""
			ty := pick(r, []db.EventType{db.EventEntityCreate, db.EventEntityUpdate, db.EventEntityDestroy, db.EventGroupCreate, db.EventGroupUpdate, db.EventGroupDestroy})
			tok := pick(r, []string{"tokone", "toktwo", "tokthree"})
			hist += fmt.Sprintf(" event %d of %q (%s)", ty, n, tok)
			if r.Intn(6) == 0 {
				fail = n
				hist += " (load fails)"
			}
			switch ty {
			case db.EventEntityCreate, db.EventEntityUpdate:
				st.ents[n] = &types.Entity{ID: proto.String(n), Meta: &types.EntityMeta{DisplayName: proto.String(tok)}}
				if fail == "" {
					have["e"+n] = tok
				}
			case db.EventEntityDestroy:
				if r.Intn(2) == 0 {
					delete(st.ents, n)
				}
				delete(have, "e"+n)
			case db.EventGroupCreate, db.EventGroupUpdate:
				st.grps[n] = &types.Group{Name: proto.String(n), DisplayName: proto.String(tok)}
				if fail == "" {
					have["g"+n] = tok
				}
			case db.EventGroupDestroy:
				if r.Intn(2) == 0 {
					delete(st.grps, n)
				}
				delete(have, "g"+n)
			}
			ix.IndexCallback(db.Event{Type: ty, PK: n})
			for _, tk := range []string{"tokone", "toktwo", "tokthree"} {
				el, _ := ix.SearchEntities(db.SearchRequest{Expression: tk})
				gl, _ := ix.SearchGroups(db.SearchRequest{Expression: tk})
				for _, x := range names {
					if inList(x, el) != (have["e"+x] == tk) {
						report(t, "C25", "%s: the index of entities has %q for %q: %v, expected %v", hist, tk, x, inList(x, el), have["e"+x] == tk)
					}
					if inList(x, gl) != (have["g"+x] == tk) {
						report(t, "C25", "%s: the index of groups has %q for %q: %v, expected %v", hist, tk, x, inList(x, gl), have["g"+x] == tk)
					}
				}
			}
		}
	}
}

// TestContain gives the filesystem store keys that try to get out of its
// directory.  It gives up its privileges first, so that whatever the code
// under test does reaches nothing but files of its own.
func TestContain(t *testing.T) {
	top, err := ioutil.TempDir("", "contain")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(top)
	if os.Getuid() == 0 {
		// the directories above have to be passable
		for p := top; p != "/" && p != "/tmp"; p = filepath.Dir(p) {
			if st, err := os.Stat(p); err != nil || st.Mode().Perm()&0005 == 0 {
				if strings.HasPrefix(p, "/tmp/") {
					os.Chmod(p, 0755)
				}
			}
		}
		os.Chown(top, 65534, 65534)
		if syscall.Setgroups(nil) != nil || syscall.Setgid(65534) != nil || syscall.Setuid(65534) != nil {
			t.Skip("cannot give up privileges")
		}
	}
	home := filepath.Join(top, "x", "y", "home")
	tree := func() string {
		var out []string
		filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
			if err != nil || strings.HasPrefix(p, filepath.Join(home, "kv")+"/") || p == filepath.Join(home, "kv") {
				return nil
			}
			s := ""
			if i.Mode().IsRegular() {
				b, _ := ioutil.ReadFile(p)
				s = string(b)
			}
			out = append(out, p+"="+s)
			return nil
		})
		return strings.Join(out, "\n")
	}
	startup.DoCallbacks()
	viper.Set("core.home", home)
	segs := []string{"..", ".", "", "a", "entities", "secret", "..a", "x", "y", "home", "kv", "kv2", "a/../..", "..\\"}
	r := rand.New(rand.NewSource(3))
	for n := 0; !timeUp() && n < 30000; n++ {
		if n%50 == 0 {
			for _, f := range []string{"secret", "x/secret", "x/y/secret", "x/y/home/secret", "x/y/home/kv2/secret", "x/y/home/kvsecret", "x/y/home/a", "x/y/a"} {
				os.MkdirAll(filepath.Dir(filepath.Join(top, f)), 0755)
				ioutil.WriteFile(filepath.Join(top, f), []byte("outside"), 0600)
			}
			os.MkdirAll(filepath.Join(home, "kv", "entities"), 0755)
		}
		kv, err := db.NewKV("filesystem", hclog.NewNullLogger())
		if err != nil {
			t.Skip(err)
		}
		kv.SetEventFunc(func(db.Event) {})
		var p []string
		for i := r.Intn(6) + 1; i > 0; i-- {
			p = append(p, pick(r, segs))
		}
		k := strings.Join(p, "/")
		if r.Intn(2) == 0 {
			k = "/" + k
		}
		before := tree()
		op := pick(r, []string{"Get", "Put", "Del"})
		switch op {
		case "Get":
			if b, err := kv.Get(k); err == nil && string(b) == "outside" {
				report(t, "C26", "Get(%q) reads a file outside of the store", k)
			}
		case "Put":
			kv.Put(k, []byte("inside"))
		case "Del":
			kv.Del(k)
		}
		if tree() != before {
			report(t, "C26", "%s(%q) changes a file outside of the store", op, k)
		}
		if _, err := os.Stat(filepath.Join(home, "kv")); err != nil {
			report(t, "C26", "%s(%q) removes the base directory itself", op, k)
		}
		os.RemoveAll(filepath.Join(home, "kv"))
		os.MkdirAll(filepath.Join(home, "kv", "entities"), 0755)
	}
}
