RH = '''
package rpc2

import (
	"context"
	"testing"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/token/null"
	"github.com/netauth/netauth/internal/tree"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

var _ = proto.String
var _ = null.ValidToken
var _ = types.Capability_GLOBAL_ROOT
var _ = pb.Action_ADD
var _ tree.DB

func demoCtx(tok string) context.Context {
	return metadata.NewIncomingContext(context.Background(), metadata.Pairs("authorization", tok))
}

func TestVerifDemo(t *testing.T) {
	s, store, m := newServerWithRefs(t)
	initTree(t, m)
	_, _ = s, store
'''
TH = '''
package interface_test

import (
	"testing"

	"github.com/golang/protobuf/proto"

	pb "github.com/netauth/protocol"
)

var _ = proto.String
var _ = pb.Capability_GLOBAL_ROOT

func TestVerifDemo(t *testing.T) {
	m, ctx := newTreeManager(t)
	addEntity(t, ctx)
	addGroup(t, ctx)
	_ = m
'''
def R(b): return RH + b + "\n}\n"
def T(b): return TH + b + "\n}\n"
RP = "internal/rpc2"
TP = "internal/tree/interface_test"
SEEDS = [
 dict(id="um-fuzzy-noauth", property="C01", pkg=RP,
  edits=[("internal/rpc2/entity.go", """		r.GetAction() != pb.Action_CLEARFUZZY {
		return &pb.ListOfStrings{}, ErrMalformedRequest
	}

	if r.GetAction() != pb.Action_READ {""", """		r.GetAction() != pb.Action_CLEARFUZZY {
		return &pb.ListOfStrings{}, ErrMalformedRequest
	}

	if r.GetAction() == pb.Action_UPSERT || r.GetAction() == pb.Action_CLEAREXACT {""")],
  needs="an unauthenticated EntityUM request with the action CLEARFUZZY", breaks="untyped metadata of an entity can be cleared without a token",
  test=R('''
	if _, err := m.ManageUntypedEntityMeta("entity1", "UPSERT", "k{0}", "v"); err != nil {
		t.Fatal(err)
	}
	s.EntityUM(UnauthenticatedContext, &pb.KVRequest{Target: proto.String("entity1"), Action: pb.Action_CLEARFUZZY.Enum(), Key: proto.String("k")})
	e, err := store.LoadEntity("entity1")
	if err != nil || len(e.GetMeta().GetUntypedMeta()) != 1 {
		t.Error("changed", err, e)
	}''')),
 dict(id="syscap-readonly-group", property="C02", pkg=RP,
  edits=[("internal/rpc2/system.go", "	if s.readonly {", "	if s.readonly && r.GetDirect() {")],
  needs="a capability change of a group on a read-only server", breaks="a read-only server changes the capabilities of groups",
  test=R('''
	s.readonly = true
	s.SystemCapabilities(PrivilegedContext, &pb.CapabilityRequest{Target: proto.String("group1"), Action: pb.Action_ADD.Enum(), Capability: types.Capability_LOCK_ENTITY.Enum()})
	g, err := store.LoadGroup("group1")
	if err != nil || len(g.GetCapabilities()) != 0 {
		t.Error("changed", err, g)
	}''')),
 dict(id="keys-self-fold", property="C03", pkg=RP,
  edits=[("internal/rpc2/entity.go", """		err = s.isAuthorized(ctx, types.Capability_MODIFY_ENTITY_KEYS)
		if err != nil && getTokenClaims(ctx).EntityID != r.GetTarget() {""", """		err = s.isAuthorized(ctx, types.Capability_MODIFY_ENTITY_KEYS)
		if err != nil && !strings.EqualFold(getTokenClaims(ctx).EntityID, r.GetTarget()) {"""),
   ("internal/rpc2/entity.go", 'import (\n	"context"\n', 'import (\n	"context"\n	"strings"\n')],
  needs="two entities whose IDs differ in case only", breaks="an entity can change the keys of another one whose ID differs in case only",
  test=R('''
	if err := m.CreateEntity("VALID", -1, "x"); err != nil {
		t.Fatal(err)
	}
	s.EntityKeys(UnprivilegedContext, &pb.KVRequest{Target: proto.String("VALID"), Action: pb.Action_ADD.Enum(), Key: proto.String("SSH"), Value: proto.String("k")})
	e, err := store.LoadEntity("VALID")
	if err != nil || len(e.GetMeta().GetKeys()) != 0 {
		t.Error("changed", err, e)
	}''')),
 dict(id="manage-prefix", property="C03", pkg=RP,
  edits=[("internal/rpc2/util.go", "		if name == g.GetManagedBy() {", "		if len(name) > 0 && strings.HasPrefix(g.GetManagedBy(), name) {"),
   ("internal/rpc2/util.go", 'import (\n	"context"\n', 'import (\n	"context"\n	"strings"\n')],
  needs="a requestor in a group whose name is a prefix of the managing group's", breaks="members of another group than the managing one can change the group",
  test=R('''
	m.CreateEntity("valid", -1, "x")
	m.CreateGroup("group", "", "", -1)
	if err := m.AddEntityToGroup("valid", "group"); err != nil {
		t.Fatal(err)
	}
	s.GroupUpdate(UnprivilegedContext, &pb.GroupRequest{Group: &types.Group{Name: proto.String("group2"), DisplayName: proto.String("changed")}})
	g, err := store.LoadGroup("group2")
	if err != nil || g.GetDisplayName() == "changed" {
		t.Error("changed", err, g)
	}''')),
 dict(id="caps-dup-break", property="C04", pkg=RP,
  edits=[("internal/rpc2/util.go", """		for _, c := range g.GetCapabilities() {
			caps[c]++
		}
	}

	// Flatten""", """		for _, c := range g.GetCapabilities() {
			if caps[c] > 0 {
				// Already granted some other way.
				break
			}
			caps[c]++
		}
	}

	// Flatten""")],
  needs="an entity that holds one of its group's capabilities directly, listed before another one of the group", breaks="tokens lack capabilities that the entity's groups have",
  test=R('''
	m.SetEntityCapability2("entity1", types.Capability_LOCK_ENTITY.Enum())
	m.SetGroupCapability2("group1", types.Capability_LOCK_ENTITY.Enum())
	m.SetGroupCapability2("group1", types.Capability_UNLOCK_ENTITY.Enum())
	if c := s.getCapabilitiesForEntity("entity1"); len(c) != 2 {
		t.Error(c)
	}''')),
 dict(id="root-first-only", property="C05", pkg="internal/token",
  edits=[("internal/token/claims.go", """	for _, tc := range c.Capabilities {
		if tc == cap || tc == pb.Capability_GLOBAL_ROOT {""", """	for i, tc := range c.Capabilities {
		if tc == cap || (i == 0 && tc == pb.Capability_GLOBAL_ROOT) {""")],
  needs="a token whose GLOBAL_ROOT capability is not the first of its list", breaks="GLOBAL_ROOT does not count for other capabilities",
  test='''
package token

import (
	"testing"

	pb "github.com/netauth/protocol"
)

func TestVerifDemo(t *testing.T) {
	c := Claims{Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY, pb.Capability_GLOBAL_ROOT}}
	if !c.HasCapability(pb.Capability_CREATE_ENTITY) {
		t.Error("root does not count")
	}
}
'''),
 dict(id="jwt-expired-skew", property="C06", pkg="internal/token/jwt",
  edits=[("internal/token/jwt/rsa.go", """	if err != nil {
		// This case gets raised if the token wasn't parsable""", """	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorNotValidYet {
		// Clocks of servers sharing a key may be off by some.
		err = nil
	}
	if err != nil {
		// This case gets raised if the token wasn't parsable""")],
  needs="a correctly signed token whose validity has not begun yet", breaks="tokens are accepted before the time they are valid from",
  test='''
package jwt

import (
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/token"
)

func TestVerifDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	s := &RSATokenService{privateKey: k, publicKey: &k.PublicKey, log: hclog.NewNullLogger()}
	now := time.Now()
	tkn, err := s.Generate(token.Claims{EntityID: "foo"}, token.Config{Lifetime: 5 * time.Hour, IssuedAt: now, NotBefore: now.Add(2 * time.Hour)})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.Validate(tkn); err == nil {
		t.Error("token accepted before its time")
	}
}
'''),
 dict(id="group-number-skip", property="C18", pkg=TP,
  edits=[("internal/db/db.go", """		g, err := db.LoadGroup(path.Base(i))
		if err != nil {
			return 0, err
		}
		if g.GetNumber() > largest {
			largest = g.GetNumber()
		}
	}
""", """		g, err := db.LoadGroup(path.Base(i))
		if err != nil {
			continue
		}
		if g.GetNumber() > largest {
			largest = g.GetNumber()
		}
	}
""")],
  needs="a group record that cannot be read while another group is created", breaks="an automatic group number already in use is assigned again",
  test='''
package interface_test

import (
	"errors"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/startup"
)

type demoKV struct {
	db.KVStore
	fail *bool
}

func (k demoKV) Get(n string) ([]byte, error) {
	if *k.fail && n == "/groups/g9" {
		return nil, errors.New("unreadable")
	}
	return k.KVStore.Get(n)
}

func TestVerifDemo(t *testing.T) {
	startup.DoCallbacks()
	fail := false
	db.RegisterKV("demo", func(l hclog.Logger) (db.KVStore, error) {
		x, err := memory.NewKV(l)
		return demoKV{x, &fail}, err
	})
	d, err := db.New("demo")
	if err != nil {
		t.Fatal(err)
	}
	g := demoGroup("g9", 9)
	if err := d.SaveGroup(g); err != nil {
		t.Fatal(err)
	}
	fail = true
	n, err := d.NextGroupNumber()
	if err == nil && n <= 9 {
		t.Error("number in use handed out", n)
	}
}
'''.replace('demoGroup("g9", 9)', '&pb.Group{Name: proto.String("g9"), Number: proto.Int32(9)}').replace('	"github.com/hashicorp/go-hclog"\n', '	"github.com/golang/protobuf/proto"\n	"github.com/hashicorp/go-hclog"\n', 1).replace('internal/startup"\n)', 'internal/startup"\n\n	pb "github.com/netauth/protocol"\n)')),
 dict(id="cycle-skip-exclude", property="C16", pkg="internal/tree/hooks",
  edits=[("internal/tree/hooks/check-expansion-cycle.go", """	for _, exp := range g.GetExpansions() {
		parts := strings.SplitN(exp, ":", 2)
		if parts[1] == candidate {
			return true
		}
""", """	for _, exp := range g.GetExpansions() {
		parts := strings.SplitN(exp, ":", 2)
		if parts[1] == candidate {
			return true
		}
		if parts[0] != "INCLUDE" {
			// Nobody gets in through an exclusion
			continue
		}
""")],
  needs="a cycle of three groups that runs through an exclude rule", breaks="group rules become cyclic",
  test='''
package hooks

import (
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/tree"

	pb "github.com/netauth/protocol"
)

func TestVerifDemo(t *testing.T) {
	startup.DoCallbacks()
	mdb, err := db.New("memory")
	if err != nil {
		t.Fatal(err)
	}
	for _, g := range []*pb.Group{
		{Name: proto.String("a")},
		{Name: proto.String("b"), Expansions: []string{"INCLUDE:c"}},
		{Name: proto.String("c"), Expansions: []string{"EXCLUDE:d"}},
		{Name: proto.String("d"), Expansions: []string{"INCLUDE:a"}},
	} {
		if err := mdb.SaveGroup(g); err != nil {
			t.Fatal(err)
		}
	}
	hook, err := NewCheckExpansionCycles(tree.RefContext{DB: mdb})
	if err != nil {
		t.Fatal(err)
	}
	if err := hook.Run(&pb.Group{Name: proto.String("a")}, &pb.Group{Expansions: []string{"INCLUDE:b"}}); err == nil {
		t.Error("cycle accepted")
	}
}
'''),
 dict(id="set-secret-unlocks", property="C09", pkg=TP,
  edits=[("internal/tree/defaults.go", '''		"SET-SECRET": {
			"load-entity",
			"set-entity-secret",
''', '''		"SET-SECRET": {
			"load-entity",
			"ensure-entity-meta",
			"unlock-entity",
			"set-entity-secret",
''')],
  needs="a change of the secret of a locked entity", breaks="changing a secret unlocks the entity",
  test=T('''
	if err := m.LockEntity("entity1"); err != nil {
		t.Fatal(err)
	}
	if err := m.SetSecret("entity1", "new"); err != nil {
		t.Fatal(err)
	}
	e, err := ctx.DB.LoadEntity("entity1")
	if err != nil || !e.GetMeta().GetLocked() {
		t.Error("unlocked", err)
	}''')),
 dict(id="meta-merge-untyped", property="C10", pkg=TP,
  edits=[("internal/tree/hooks/merge-entity-meta.go", "	de.Meta.UntypedMeta = nil\n", "")],
  needs="a metadata update whose request carries untyped metadata", breaks="a metadata update changes untyped metadata",
  test=T('''
	if err := m.UpdateEntityMeta("entity1", &pb.EntityMeta{Shell: proto.String("x"), UntypedMeta: []string{"a:b"}}); err != nil {
		t.Fatal(err)
	}
	e, err := ctx.DB.LoadEntity("entity1")
	if err != nil || len(e.GetMeta().GetUntypedMeta()) != 0 {
		t.Error("changed", err, e)
	}''')),
 dict(id="fs-put-same-size", property="C21", pkg="internal/db/filesystem",
  edits=[("internal/db/filesystem/filesystem.go", '''	if err := atomic.WriteFile(p, v, 0640); err != nil {
		return err
	}
''', '''	// Rewriting a file that is there already costs an fsync.
	if st, err := os.Stat(p); err == nil && st.Size() == int64(len(v)) {
		if old, err := ioutil.ReadFile(p); err == nil && len(old) > 512 && string(old[:512]) == string(v[:512]) {
			return nil
		}
	}

	if err := atomic.WriteFile(p, v, 0640); err != nil {
		return err
	}
''')],
  needs="rewriting a record larger than 512 bytes with one of the same size that agrees on the first 512 bytes", breaks="the store reports success and keeps the old value",
  test='''
package filesystem

import (
	"bytes"
	"io/ioutil"
	"os"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

func TestVerifDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	fs := &Filesystem{basePath: d, l: hclog.NewNullLogger(), eF: func(db.Event) {}}
	a := bytes.Repeat([]byte("a"), 600)
	b := append(bytes.Repeat([]byte("a"), 599), 'b')
	if err := fs.Put("/entities/x", a); err != nil {
		t.Fatal(err)
	}
	if err := fs.Put("/entities/x", b); err != nil {
		t.Fatal(err)
	}
	got, err := fs.Get("/entities/x")
	if err != nil || !bytes.Equal(got, b) {
		t.Error("old value kept", err)
	}
}
'''),
 dict(id="index-del-group", property="C25", pkg="internal/db/memory",
  edits=[("internal/db/search.go", '''	case EventGroupDestroy:
		s.gIndex.Delete(e.PK)''', '''	case EventGroupDestroy:
		if _, err := s.gLoader(e.PK); err == ErrUnknownGroup {
			return
		}
		s.gIndex.Delete(e.PK)''')],
  needs="searching for a group after it was destroyed", breaks="destroyed groups stay in the search index, so searches that hit them fail",
  test='''
package memory

import (
	"testing"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/startup"

	pb "github.com/netauth/protocol"
)

func TestVerifDemo(t *testing.T) {
	startup.DoCallbacks()
	d, err := db.New("memory")
	if err != nil {
		t.Fatal(err)
	}
	if err := d.SaveGroup(&pb.Group{Name: proto.String("grp1"), Number: proto.Int32(1)}); err != nil {
		t.Fatal(err)
	}
	if err := d.DeleteGroup("grp1"); err != nil {
		t.Fatal(err)
	}
	res, err := d.SearchGroups(db.SearchRequest{Expression: "*"})
	if err != nil || len(res) != 0 {
		t.Error(res, err)
	}
}
'''),
 dict(id="fs-get-raw-path", property="C26", pkg="internal/db/filesystem",
  edits=[("internal/db/filesystem/filesystem.go", '''	p, err := fs.cleanPath(k)
	if err != nil {
		return nil, err
	}

	bytes, err := ioutil.ReadFile(p)''', '''	if _, err := fs.cleanPath(k); err != nil {
		return nil, err
	}

	bytes, err := ioutil.ReadFile(fs.basePath + "/" + k)'''), ],
  needs="a key that climbs out of the store after an absolute prefix, such as /../../x", breaks="files outside of the store can be read",
  test='''
package filesystem

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

func TestVerifDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.MkdirAll(filepath.Join(d, "kv"), 0755)
	if err := ioutil.WriteFile(filepath.Join(d, "secret"), []byte("s"), 0600); err != nil {
		t.Fatal(err)
	}
	fs := &Filesystem{basePath: filepath.Join(d, "kv"), l: hclog.NewNullLogger(), eF: func(db.Event) {}}
	if _, err := fs.Get("/../secret"); err == nil {
		t.Error("read a file outside of the store")
	}
}
'''),
 dict(id="health-proto-last", property="C27", pkg="internal/health",
  edits=[("internal/health/health.go", "		status.OK = status.OK && result.OK\n		if !result.OK && status.FirstFailure == (SubsystemStatus{}) {", "		status.OK = result.OK || (status.OK && status.FirstFailure != SubsystemStatus{})\n		if !result.OK && status.FirstFailure == (SubsystemStatus{}) {")],
  needs="a failing check followed by a passing one in the map's order", breaks="the server reports itself healthy while a subsystem failed",
  test='''
package health

import "testing"

func TestVerifDemo(t *testing.T) {
	checks = map[string]SubsystemCheck{
		"a": func() SubsystemStatus { return SubsystemStatus{OK: true, Name: "a"} },
		"b": func() SubsystemStatus { return SubsystemStatus{OK: false, Name: "b"} },
		"c": func() SubsystemStatus { return SubsystemStatus{OK: true, Name: "c"} },
	}
	for i := 0; i < 200; i++ {
		if Check().OK {
			t.Fatal("healthy")
		}
	}
}
'''),
 dict(id="copy-skip-same-size", property="C29", pkg="cmd/nsutil",
  edits=[("cmd/nsutil/db_copy.go", """		if err := target.Put(k, v); err != nil {""", """		if tv, err := target.Get(k); err == nil && len(tv) == len(v) {
			// There already.
			count++
			continue
		}
		if err := target.Put(k, v); err != nil {""")],
  needs="a target that has another record of the same size under a key of the source", breaks="a record is not copied although success is reported",
  test='''
package main

import (
	"sort"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

type demoKV struct{ m map[string][]byte }

func (d *demoKV) Put(k string, v []byte) error { d.m[k] = v; return nil }
func (d *demoKV) Get(k string) ([]byte, error) {
	v, ok := d.m[k]
	if !ok {
		return nil, db.ErrNoValue
	}
	return v, nil
}
func (d *demoKV) Del(k string) error { delete(d.m, k); return nil }
func (d *demoKV) Keys(string) ([]string, error) {
	r := []string{}
	for k := range d.m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r, nil
}
func (d *demoKV) Close() error                    { return nil }
func (d *demoKV) Capabilities() []db.KVCapability { return nil }
func (d *demoKV) SetEventFunc(func(db.Event))     {}

func TestVerifDemo(t *testing.T) {
	src := &demoKV{map[string][]byte{"/entities/a": []byte("new")}}
	dst := &demoKV{map[string][]byte{"/entities/a": []byte("old"), "/entities/b": nil}}
	db.RegisterKV("demosrc", func(hclog.Logger) (db.KVStore, error) { return src, nil })
	db.RegisterKV("demodst", func(hclog.Logger) (db.KVStore, error) { return dst, nil })
	dbCopyCmdNoDryRun, dbCopyCmdTruncate = true, false
	dbCopyCmdRun(nil, []string{"demosrc", "demodst"})
	if string(dst.m["/entities/a"]) != "new" {
		t.Error("not copied")
	}
}
'''),
 dict(id="members-wrong-lock", property="C24", pkg="internal/db/memory", flags="-race",
  edits=[("internal/db/memory/memory.go", '''	kv.Lock()
	kv.l.Trace("PUT", "key", k, "value", v)
	kv.m[k] = v
	kv.Unlock()
''', '''	kv.l.Trace("PUT", "key", k, "value", v)
	kv.RLock()
	_, known := kv.m[k]
	if known {
		// No new key, the map isn't going to grow
		kv.m[k] = v
	}
	kv.RUnlock()
	if !known {
		kv.Lock()
		kv.m[k] = v
		kv.Unlock()
	}
''')],
  needs="a read of the store while a known key is written", breaks="the store's map is written while it is read",
  test='''
package memory

import (
	"sync"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

func TestVerifDemo(t *testing.T) {
	kv, err := NewKV(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	kv.SetEventFunc(func(db.Event) {})
	kv.Put("/entities/a", nil)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				kv.Put("/entities/a", nil)
				kv.Get("/entities/a")
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="delmember-continue", property="C28", pkg=RP,
  edits=[("internal/rpc2/group.go", '''		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
			s.log.Warn("Error adding entity to group",
				"entity", e.GetID(),
				"group", g,
				"authority", getTokenClaims(ctx).EntityID,
				"service", getServiceName(ctx),
				"client", getClientName(ctx),
				"error", err,
			)
			return &pb.Empty{}, ErrInternal
		}''', '''		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
			s.log.Warn("Error adding entity to group",
				"entity", e.GetID(),
				"group", g,
				"authority", getTokenClaims(ctx).EntityID,
				"service", getServiceName(ctx),
				"client", getClientName(ctx),
				"error", err,
			)
			if g != e.GetMeta().GetGroups()[len(e.GetMeta().GetGroups())-1] {
				continue
			}
			return &pb.Empty{}, ErrInternal
		}''')],
  needs="a removal from several groups in which the removal from another one than the last fails", breaks="success is reported although the entity is still a member",
  test='''
package rpc2

import (
	"testing"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

type demoManager struct {
	Manager
}

func (d *demoManager) RemoveEntityFromGroup(e, g string) error {
	if g == "group1" {
		return ErrInternal
	}
	return d.Manager.RemoveEntityFromGroup(e, g)
}

func TestVerifDemo(t *testing.T) {
	s, _, m := newServerWithRefs(t)
	initTree(t, m)
	s.Manager = &demoManager{s.Manager}
	_, err := s.GroupDelMember(PrivilegedContext, &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("entity1"), Meta: &types.EntityMeta{Groups: []string{"group1", "group2"}}}})
	if err == nil {
		t.Error("success reported")
	}
}
'''),
 dict(id="search-log-nil", property="C33", pkg=RP,
  edits=[("internal/rpc2/group.go", """	res, err := s.SearchGroups(db.SearchRequest{Expression: expr})
	if err != nil {
		s.log.Warn("Search Error",
			"expr", expr,
""", """	res, err := s.SearchGroups(db.SearchRequest{Expression: expr})
	if err != nil {
		s.log.Warn("Search Error",
			"expr", *r.Expression,
""")],
  needs="a group search request without an expression", breaks="the server crashes on a request without an expression",
  test=R('''
	s.GroupSearch(UnauthenticatedContext, &pb.SearchRequest{})''')),
]
