//go:build go1.18

package all_test

// Replay for C30 with real plugins: this test binary again, started through
// go-plugin, which note every call and fail the one they are told to.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/plugin/tree/manager"
	"github.com/netauth/netauth/internal/tree"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	types "github.com/netauth/protocol"
)

// noting is a plugin that notes its calls in dir/log and fails the calls
// named in dir/fail.
type noting struct{ name, dir string }

func (p noting) call(action, pk string) error {
	f, err := os.OpenFile(filepath.Join(p.dir, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err == nil {
		fmt.Fprintf(f, "%s\t%s\t%s\n", p.name, action, pk)
		f.Close()
	}
	b, _ := ioutil.ReadFile(filepath.Join(p.dir, "fail"))
	if string(b) == p.name+" "+action {
		return fmt.Errorf("refused by %s in %s", p.name, action)
	}
	return nil
}

func (p noting) e(a string, e types.Entity) (types.Entity, error) { return e, p.call(a, e.GetID()) }
func (p noting) g(a string, g types.Group) (types.Group, error)   { return g, p.call(a, g.GetName()) }

func (p noting) EntityCreate(e, de types.Entity) (types.Entity, error) {
	return p.e("EntityCreate", e)
}
func (p noting) EntityUpdate(e types.Entity) (types.Entity, error)  { return p.e("EntityUpdate", e) }
func (p noting) EntityLock(e types.Entity) (types.Entity, error)    { return p.e("EntityLock", e) }
func (p noting) EntityUnlock(e types.Entity) (types.Entity, error)  { return p.e("EntityUnlock", e) }
func (p noting) EntityDestroy(e types.Entity) (types.Entity, error) { return p.e("EntityDestroy", e) }
func (p noting) GroupCreate(g types.Group) (types.Group, error)     { return p.g("GroupCreate", g) }
func (p noting) GroupUpdate(g types.Group) (types.Group, error)     { return p.g("GroupUpdate", g) }
func (p noting) GroupDestroy(g types.Group) (types.Group, error)    { return p.g("GroupDestroy", g) }
func (p noting) PreSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.e("PreSecretChange", e)
}
func (p noting) PostSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.e("PostSecretChange", e)
}
func (p noting) PreAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.e("PreAuthCheck", e)
}
func (p noting) PostAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.e("PostAuthCheck", e)
}

func TestPluginChild(t *testing.T) {
	if os.Getenv("VERIF_PLUGIN_DIR") == "" {
		t.Skip()
	}
	ptree.PluginMain(noting{os.Getenv("VERIF_PLUGIN_NAME"), os.Getenv("VERIF_PLUGIN_DIR")})
	os.Exit(0)
}

func TestPlugin(t *testing.T) {
	dir, err := ioutil.TempDir("", "plugin")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	hclog.SetDefault(hclog.NewNullLogger())
	names := []string{"p1", "p2", "p3"}
	list := []string{}
	for _, n := range names {
		f := filepath.Join(dir, n+".treeplugin")
		ioutil.WriteFile(f, []byte("#!/bin/sh\nVERIF_PLUGIN_DIR='"+dir+"' VERIF_PLUGIN_NAME="+n+" exec '"+os.Args[0]+"' -test.run '^TestPluginChild$'\n"), 0700)
		list = append(list, f)
	}
	viper.Set("plugin.enabled", true)
	viper.Set("plugin.loadstatic", true)
	viper.Set("plugin.list", list)
	// as netauthd starts
	p, err := manager.New(hclog.NewNullLogger())
	if err != nil {
		t.Skip(err)
	}
	p.LoadPlugins()
	defer p.Shutdown()
	p.RegisterEntityHooks()
	p.RegisterGroupHooks()

	s := func(x string) *string { return &x }
	type op struct {
		what    string
		kind    string // entity or group
		pk      string
		actions string
		do      func(m *tree.Manager) error
	}
	um := func(group bool, mode, k, v string) func(m *tree.Manager) error {
		return func(m *tree.Manager) (err error) {
			if group {
				_, err = m.ManageUntypedGroupMeta("g1", mode, k, v)
			} else {
				_, err = m.ManageUntypedEntityMeta("e1", mode, k, v)
			}
			return err
		}
	}
	ops := []op{
		{"CreateEntity(e9)", "entity", "e9", "EntityCreate", func(m *tree.Manager) error { return m.CreateEntity("e9", -1, "s") }},
		{"DestroyEntity(e1)", "entity", "e1", "EntityDestroy", func(m *tree.Manager) error { return m.DestroyEntity("e1") }},
		{"SetSecret(e1)", "entity", "e1", "PreSecretChange PostSecretChange", func(m *tree.Manager) error { return m.SetSecret("e1", "t") }},
		{"ValidateSecret(e1)", "entity", "e1", "PreAuthCheck PostAuthCheck", func(m *tree.Manager) error { return m.ValidateSecret("e1", "s1") }},
		{"LockEntity(e1)", "entity", "e1", "EntityLock", func(m *tree.Manager) error { return m.LockEntity("e1") }},
		{"UnlockEntity(e1)", "entity", "e1", "EntityUnlock", func(m *tree.Manager) error { return m.UnlockEntity("e1") }},
		{"UpdateEntityMeta(e1)", "entity", "e1", "EntityUpdate", func(m *tree.Manager) error { return m.UpdateEntityMeta("e1", &types.EntityMeta{Shell: s("sh")}) }},
		{"ManageUntypedEntityMeta(e1, UPSERT, a, 2)", "entity", "e1", "EntityUpdate", um(false, "UPSERT", "a", "2")},
		{"ManageUntypedEntityMeta(e1, CLEARFUZZY, a)", "entity", "e1", "EntityUpdate", um(false, "CLEARFUZZY", "a", "")},
		{"ManageUntypedEntityMeta(e1, CLEAREXACT, a)", "entity", "e1", "EntityUpdate", um(false, "CLEAREXACT", "a", "")},
		{"CreateGroup(g9)", "group", "g9", "GroupCreate", func(m *tree.Manager) error { return m.CreateGroup("g9", "G", "", -1) }},
		{"DestroyGroup(g1)", "group", "g1", "GroupDestroy", func(m *tree.Manager) error { return m.DestroyGroup("g1") }},
		{"UpdateGroupMeta(g1)", "group", "g1", "GroupUpdate", func(m *tree.Manager) error { return m.UpdateGroupMeta("g1", &types.Group{DisplayName: s("new")}) }},
		{"ManageUntypedGroupMeta(g1, UPSERT, a, 2)", "group", "g1", "GroupUpdate", um(true, "UPSERT", "a", "2")},
		{"ManageUntypedGroupMeta(g1, CLEARFUZZY, a)", "group", "g1", "GroupUpdate", um(true, "CLEARFUZZY", "a", "")},
		{"ManageUntypedGroupMeta(g1, CLEAREXACT, a)", "group", "g1", "GroupUpdate", um(true, "CLEAREXACT", "a", "")},
		// no plugin step belongs to these
		{"EntityKVAdd(e1)", "entity", "e1", "", func(m *tree.Manager) error {
			return m.EntityKVAdd("e1", []*types.KVData{{Key: s("k"), Values: []*types.KVValue{{Value: s("v")}}}})
		}},
		{"SetEntityCapability2(e1)", "entity", "e1", "", func(m *tree.Manager) error {
			c := types.Capability_CREATE_ENTITY
			return m.SetEntityCapability2("e1", &c)
		}},
	}
	all := strings.Fields("EntityCreate EntityUpdate EntityLock EntityUnlock EntityDestroy GroupCreate GroupUpdate GroupDestroy PreSecretChange PostSecretChange PreAuthCheck PostAuthCheck")
	one, lk := int32(1), true
	run := func(o op, fail string) (st *store, old image, err error, log []string) {
		st = newStore()
		st.ents["e1"] = &types.Entity{ID: s("e1"), Number: &one, Secret: s("hash(s1)#0"), Meta: &types.EntityMeta{UntypedMeta: []string{"a:1"}}}
		if strings.HasPrefix(o.what, "Unlock") {
			st.ents["e1"].Meta.Locked = &lk
		}
		st.grps["g1"] = &types.Group{Name: s("g1"), Number: &one, UntypedMeta: []string{"a:1"}}
		m := newManager(t, st)
		p.ConfigureEntityChains(m.RegisterEntityHookToChain)
		p.ConfigureGroupChains(m.RegisterGroupHookToChain)
		old = st.snap()
		ioutil.WriteFile(filepath.Join(dir, "fail"), []byte(fail), 0600)
		os.Remove(filepath.Join(dir, "log"))
		err = o.do(m)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "log"))
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				log = append(log, l)
			}
		}
		return
	}
	for _, o := range ops {
		want := strings.Fields(o.actions)
		for _, a := range append([]string{""}, all...) {
			for i, n := range append([]string{""}, names...) {
				if (a == "") != (i == 0) || a != "" && !inList(a, want) && n != "p1" {
					continue
				}
				fails := a != "" && inList(a, want)
				// plugins are called in no particular order
				for try := 0; try < 1 || fails && try < 6; try++ {
					what := fmt.Sprintf("%s with plugins %v", o.what, names)
					if a != "" {
						what += fmt.Sprintf(", of which %s fails in %s", n, a)
					}
					st, old, err, log := run(o, n+" "+a)
					calls := strings.Replace(strings.Join(log, ", "), "\t", " ", -1)
					last := -1
					for _, l := range log {
						f := strings.Split(l, "\t")
						pos := -1
						for j, w := range want {
							if w == f[1] {
								pos = j
							}
						}
						if pos < 0 || pos < last || len(f) != 3 || f[2] != o.pk {
							report(t, "C30", "%s: plugin steps that ran: %s", what, calls)
						}
						last = pos
					}
					if fails {
						if err == nil {
							report(t, "C30", "%s reports success (plugin steps: %s)", what, calls)
						}
						if d := sameImage(old, st.snap()); d != "" {
							report(t, "C30", "%s reports %v and yet %s", what, err, d)
						}
						if len(log) == 0 || !strings.HasPrefix(log[len(log)-1], n+"\t"+a+"\t") {
							report(t, "C30", "%s: the plugin steps were %s", what, calls)
						}
						if !strings.Contains(fmt.Sprint(err), "refused by "+n) {
							report(t, "C30", "%s: the error that reaches the caller is %v", what, err)
						}
						continue
					}
					if err != nil {
						report(t, "C30", "%s reports %v", what, err)
					}
					if len(log) != len(want)*len(names) {
						report(t, "C30", "%s: the plugin steps were %s", what, calls)
					}
				}
			}
		}
	}
	// plugins that are gone cannot agree
	p.Shutdown()
	for _, o := range ops {
		if o.actions == "" {
			continue
		}
		st, old, err, _ := run(o, "")
		if err == nil {
			report(t, "C30", "%s reports success though its plugins don't answer", o.what)
		}
		if d := sameImage(old, st.snap()); d != "" {
			report(t, "C30", "%s reports %v, its plugins don't answer, and yet %s", o.what, err, d)
		}
	}
}
