package main

// Replay for C29: random sources, targets and failures.  The copy runs in a
// process of its own (this test binary again), because it may exit.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/startup"
)

type copyCase struct {
	Src, Dst   map[string][]byte
	SFail      []string // operations of the source that fail: "Get /entities/a", "Keys"
	DFail      []string
	Truncate   bool
	DumpTarget string
}

type fileKV struct {
	m    map[string][]byte
	fail map[string]bool
	dump string
}

var errVerif = errors.New("injected fault")

func (f *fileKV) bad(op, k string) bool { return f.fail[op] || f.fail[op+" "+k] }

func (f *fileKV) save() {
	if f.dump != "" {
		b, _ := json.Marshal(f.m)
		ioutil.WriteFile(f.dump, b, 0600)
	}
}

func (f *fileKV) Put(k string, v []byte) error {
	if f.bad("Put", k) {
		return errVerif
	}
	f.m[k] = append([]byte{}, v...)
	f.save()
	return nil
}

func (f *fileKV) Get(k string) ([]byte, error) {
	if f.bad("Get", k) {
		return nil, errVerif
	}
	v, ok := f.m[k]
	if !ok {
		return nil, db.ErrNoValue
	}
	return append([]byte{}, v...), nil
}

func (f *fileKV) Del(k string) error {
	if f.bad("Del", k) {
		return errVerif
	}
	delete(f.m, k)
	f.save()
	return nil
}

func (f *fileKV) Keys(glob string) ([]string, error) {
	if f.bad("Keys", glob) {
		return nil, errVerif
	}
	out := []string{}
	for k := range f.m {
		if ok, _ := path.Match(glob, k); ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out, nil
}

func (f *fileKV) Close() error                    { return nil }
func (f *fileKV) Capabilities() []db.KVCapability { return []db.KVCapability{db.KVMutable} }
func (f *fileKV) SetEventFunc(func(db.Event))     {}

func newFileKV(m map[string][]byte, fail []string, dump string) *fileKV {
	f := &fileKV{m: map[string][]byte{}, fail: map[string]bool{}, dump: dump}
	for k, v := range m {
		f.m[k] = v
	}
	for _, x := range fail {
		f.fail[x] = true
	}
	f.save()
	return f
}

func TestCopyChild(t *testing.T) {
	cf := os.Getenv("VERIF_COPY_CASE")
	if cf == "" {
		t.Skip()
	}
	b, err := ioutil.ReadFile(cf)
	if err != nil {
		os.Exit(9)
	}
	var c copyCase
	if err := json.Unmarshal(b, &c); err != nil {
		os.Exit(9)
	}
	src, dst := newFileKV(c.Src, c.SFail, ""), newFileKV(c.Dst, c.DFail, c.DumpTarget)
	startup.RegisterCallback(func() {
		db.RegisterKV("vsrc", func(hclog.Logger) (db.KVStore, error) { return src, nil })
		db.RegisterKV("vdst", func(hclog.Logger) (db.KVStore, error) { return dst, nil })
	})
	conf := filepath.Join(filepath.Dir(cf), "config.toml")
	ioutil.WriteFile(conf, []byte("[core]\nhome = \""+filepath.Dir(cf)+"\"\n"), 0600)
	args := []string{"copy", "vsrc", "vdst", "--no-dry-run", "--config", conf}
	if c.Truncate {
		args = append(args, "--truncate")
	}
	rootCmd.SetArgs(args)
	if err := rootCmd.Execute(); err != nil {
		os.Exit(1)
	}
	os.Exit(0)
}

func TestCopy(t *testing.T) {
	dir, err := ioutil.TempDir("", "copy")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	r := rand.New(rand.NewSource(7))
	keys := []string{"/entities/a", "/entities/b", "/entities/A", "/entities/a b", "/entities/x.dat", "/groups/a", "/groups/g1", "/groups/-", "/groups/g1.dat"}
	vals := [][]byte{[]byte("a"), []byte("b"), {}, []byte("\x0a\x01a"), []byte("\x0a\x01b"), []byte("aa\n"), []byte("aa"), []byte("x")}
	errs := 0
	end := time.Now().Add(60 * time.Second)
	for n := 0; n < 400 && time.Now().Before(end); n++ {
		c := copyCase{Src: map[string][]byte{}, Dst: map[string][]byte{}, Truncate: r.Intn(2) == 0, DumpTarget: filepath.Join(dir, "dst")}
		for _, k := range keys {
			if r.Intn(2) == 0 {
				c.Src[k] = vals[r.Intn(len(vals))]
			}
			if r.Intn(2) == 0 {
				c.Dst[k] = vals[r.Intn(len(vals))]
			}
		}
		fault := func(ops ...string) []string {
			if r.Intn(4) > 0 {
				return nil
			}
			op := ops[r.Intn(len(ops))]
			if r.Intn(4) > 0 {
				op += " " + append(keys, "/*/*", "/entities/*", "/groups/*")[r.Intn(len(keys)+3)]
			}
			return []string{op}
		}
		c.SFail, c.DFail = fault("Get", "Get", "Keys"), fault("Put", "Put", "Del", "Keys", "Get")
		b, _ := json.Marshal(c)
		cf := filepath.Join(dir, "case")
		ioutil.WriteFile(cf, b, 0600)
		os.Remove(c.DumpTarget)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestCopyChild$")
		cmd.Env = append(os.Environ(), "VERIF_COPY_CASE="+cf, "NETAUTH_LOGLEVEL=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			errs++
			continue // it terminated with an error
		}
		got := map[string][]byte{}
		if db, e := ioutil.ReadFile(c.DumpTarget); e == nil {
			json.Unmarshal(db, &got)
		}
		for k, v := range c.Src {
			if w, ok := got[k]; !ok || !bytes.Equal(w, v) {
				t.Fatalf("COUNTEREXAMPLE property=C29: copy of %s to %s (truncate=%v, failing at the source: %q, at the target: %q) reports success, but record %q of the target is %q (there: %v)\n%s", show(c.Src), show(c.Dst), c.Truncate, c.SFail, c.DFail, k, w, ok, out)
			}
		}
	}
	t.Logf("%d copies terminated with an error", errs)
}

func show(m map[string][]byte) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%q", k, m[k])
	}
	return "[" + s + " ]"
}
