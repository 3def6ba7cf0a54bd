TH = '''
package interface_test

import (
	"testing"

	"github.com/golang/protobuf/proto"

	pb "github.com/netauth/protocol"
)

var _ = proto.String
var _ = pb.Capability_GLOBAL_ROOT

func TestVerifDemo(t *testing.T) {
	m, ctx := newTreeManager(t)
	addEntity(t, ctx)
	addGroup(t, ctx)
	_ = m
'''
def T(b): return TH + b + "\n}\n"
TP = "internal/tree/interface_test"
SEEDS = [
 dict(id="locked-keeps-secret", property="C07", pkg=TP,
  edits=[("internal/tree/entity.go", '''	dup.Secret = proto.String("<REDACTED>")
''', '''	// A locked entity can't be authenticated with, its secret is
	// left as it is so that clearing a secret on lock stays visible.
	if !dup.GetMeta().GetLocked() {
		dup.Secret = proto.String("<REDACTED>")
	}
''')],
  needs="an entity that is locked is fetched", breaks="the stored secret of a locked entity is handed out",
  test=T('''
	if err := m.LockEntity("entity1"); err != nil {
		t.Fatal(err)
	}
	le, err := ctx.DB.LoadEntity("entity1")
	if err != nil {
		t.Fatal(err)
	}
	e, err := m.FetchEntity("entity1")
	if err != nil {
		t.Fatal(err)
	}
	if s := e.GetSecret(); s != "" && s == le.GetSecret() {
		t.Errorf("stored secret %q returned", s)
	}
''')),
 dict(id="pass-the-hash", property="C08", pkg="internal/tree/hooks",
  edits=[("internal/tree/hooks/validate-entity-secret.go", '''	return v.VerifySecret(de.GetSecret(), e.GetSecret())
''', '''	if err := v.VerifySecret(de.GetSecret(), e.GetSecret()); err != nil {
		// Records written before a crypto engine was set up
		// hold the secret as it is.
		if e.GetSecret() == "" || e.GetSecret() != de.GetSecret() {
			return err
		}
	}
	return nil
''')],
  needs="the stored hash itself is presented as the secret", breaks="an authentication succeeds although the crypto engine refuses the secret",
  test='''
package hooks

import (
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/crypto/bcrypt"
	"github.com/netauth/netauth/internal/tree"

	pb "github.com/netauth/protocol"
)

func TestVerifDemo(t *testing.T) {
	c, err := bcrypt.New(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	h, err := c.SecureSecret("secret")
	if err != nil {
		t.Fatal(err)
	}
	hook, err := NewValidateEntitySecret(tree.RefContext{Crypto: c})
	if err != nil {
		t.Fatal(err)
	}
	e := &pb.Entity{ID: proto.String("e"), Secret: &h}
	if err := hook.Run(e, &pb.Entity{Secret: proto.String("secret")}); err != nil {
		t.Error(err)
	}
	if err := hook.Run(e, &pb.Entity{Secret: proto.String("guess")}); err == nil {
		t.Error("wrong secret accepted")
	}
	if err := hook.Run(e, &pb.Entity{Secret: &h}); err == nil {
		t.Error("hash accepted as the secret")
	}
}
'''),
 dict(id="lock-resets-shell", property="C11", pkg=TP,
  edits=[("internal/tree/hooks/entity-locks.go", '''	e.Meta.Locked = proto.Bool(elm.lockstate)
''', '''	e.Meta.Locked = proto.Bool(elm.lockstate)
	if elm.lockstate && e.Meta.Shell != nil {
		// Services that don't look at the lock should not let
		// this entity log in either.
		e.Meta.Shell = proto.String("/sbin/nologin")
	}
''')],
  needs="an entity with a shell is locked", breaks="locking an entity also changes its shell",
  test=T('''
	if err := m.UpdateEntityMeta("entity1", &pb.EntityMeta{Shell: proto.String("/bin/sh")}); err != nil {
		t.Fatal(err)
	}
	if err := m.LockEntity("entity1"); err != nil {
		t.Fatal(err)
	}
	e, err := m.FetchEntity("entity1")
	if err != nil {
		t.Fatal(err)
	}
	if s := e.GetMeta().GetShell(); s != "/bin/sh" {
		t.Errorf("shell is %q", s)
	}
''')),
 dict(id="create-trims-id", property="C17", pkg=TP,
  edits=[("internal/tree/hooks/set-entity-id.go", '''	e.ID = de.ID
''', '''	id := strings.TrimSpace(de.GetID())
	e.ID = &id
'''), ("internal/tree/hooks/set-entity-id.go", '''import (
''', '''import (
	"strings"

''')],
  needs="an ID that differs from a stored one by surrounding white space", breaks="creating an entity overwrites the stored one",
  test=T('''
	if err := m.SetSecret("entity1", "mine"); err != nil {
		t.Fatal(err)
	}
	m.CreateEntity("entity1 ", -1, "other")
	if err := m.ValidateSecret("entity1", "mine"); err != nil {
		t.Errorf("entity1 was overwritten: %v", err)
	}
''')),
 dict(id="bootstrap-stays-locked", property="C19", pkg=TP,
  edits=[("internal/tree/defaults.go", '''			"ensure-entity-meta",
			"unlock-entity",
			"set-entity-secret",
			"set-entity-capability",
''', '''			"ensure-entity-meta",
			"set-entity-secret",
			"set-entity-capability",
''')],
  needs="the entity named at bootstrap exists and is locked", breaks="the bootstrapped entity stays locked",
  test=T('''
	if err := m.LockEntity("entity1"); err != nil {
		t.Fatal(err)
	}
	m.Bootstrap("entity1", "boot")
	e, err := m.FetchEntity("entity1")
	if err != nil {
		t.Fatal(err)
	}
	if e.GetMeta().GetLocked() {
		t.Error("still locked after bootstrap")
	}
''')),
 dict(id="fs-fold-case", property="C20", pkg="internal/db/filesystem",
  edits=[("internal/db/filesystem/filesystem.go", '''	return filepath.Join(fs.basePath, p), nil
''', '''	// Not all file systems tell cases apart, so none is relied on.
	return filepath.Join(fs.basePath, strings.ToLower(p)), nil
''')],
  needs="two IDs that differ only in case", breaks="two different IDs address the same record",
  test='''
package filesystem

import (
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"

	types "github.com/netauth/protocol"
)

func TestVerifDemo(t *testing.T) {
	viper.Set("core.home", t.TempDir())
	db.RegisterKV("demofs", func(l hclog.Logger) (db.KVStore, error) { return newKV(hclog.NewNullLogger()) })
	d, err := db.New("demofs")
	if err != nil {
		t.Fatal(err)
	}
	if err := d.SaveEntity(&types.Entity{ID: proto.String("alice"), Number: proto.Int32(1)}); err != nil {
		t.Fatal(err)
	}
	if err := d.SaveEntity(&types.Entity{ID: proto.String("Alice"), Number: proto.Int32(2)}); err != nil {
		t.Fatal(err)
	}
	e, err := d.LoadEntity("alice")
	if err != nil || e.GetNumber() != 1 {
		t.Errorf("alice is %v, %v", e, err)
	}
}
'''),
 dict(id="sync-skips-empty", property="C22", pkg="internal/mresolver",
  edits=[("internal/mresolver/memberships.go", '''	list := make(map[string]struct{}, len(groups))
''', '''	if len(groups) == 0 {
		// Nothing to resolve for this entity
		return
	}
	list := make(map[string]struct{}, len(groups))
''')],
  needs="an entity leaves its last group", breaks="the entity is still reported as a member",
  test='''
package mresolver

import "testing"

func TestVerifDemo(t *testing.T) {
	mr := New()
	mr.SyncGroup("g", nil, nil)
	mr.SyncDirectGroups("e", []string{"g"})
	if m := mr.MembersOfGroup("g"); len(m) != 1 {
		t.Errorf("members: %v", m)
	}
	mr.SyncDirectGroups("e", nil)
	if m := mr.MembersOfGroup("g"); len(m) != 0 {
		t.Errorf("members after leaving: %v", m)
	}
}
'''),
 dict(id="removed-still-affects", property="C23", pkg="internal/mresolver",
  edits=[("internal/mresolver/memberships.go", '''	mr.atom.gs.Del(group)

	for _, ga := range mr.atom.ga {
		delete(ga, group)
	}
''', '''	mr.atom.gs.Del(group)

	// The rules this group had are dropped from the affector sets
	// when it is synced again.
''')],
  needs="a group with a rule is removed, then the group it named gets a rule about it", breaks="working in the change does not come to an end",
  test='''
package mresolver

import (
	"os"
	"os/exec"
	"runtime/debug"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	if os.Getenv("VERIF_DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run", "TestVerifDemo$", "-test.timeout", "60s")
		c.Env = append(os.Environ(), "VERIF_DEMO_CHILD=1")
		if o, err := c.CombinedOutput(); err != nil {
			if len(o) > 2000 {
				o = o[:2000]
			}
			t.Fatalf("%v\\n%s", err, o)
		}
		return
	}
	debug.SetMaxStack(1 << 24)
	mr := New()
	mr.SyncGroup("b", nil, nil)
	mr.SyncGroup("a", []string{"b"}, nil)
	mr.RemoveGroup("a")
	mr.SyncGroup("b", []string{"a"}, nil)
}
'''),
 dict(id="plugin-error-lost", property="C30", pkg="internal/plugin/tree/manager",
  edits=[("internal/plugin/tree/manager/manager.go", '''		res, err = r.ProcessEntity(opts)
		if err != nil {
			return common.PluginResult{}, err
		}
		opts.Entity = &res.Entity
	}
	return res, nil
''', '''		var pres common.PluginResult
		pres, err = r.ProcessEntity(opts)
		if err == nil {
			res = pres
			opts.Entity = &res.Entity
		}
	}
	return res, err
''')],
  needs="two plugins, the first one called fails and the other doesn't", breaks="the error of a plugin is lost and the operation goes on",
  test='''
package manager

import (
	"errors"
	"net"
	"net/rpc"
	"testing"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/plugin/tree/common"
	"github.com/netauth/netauth/internal/plugin/tree/consumer"

	pb "github.com/netauth/protocol"
)

type Prov struct{ err error }

func (p *Prov) ProcessEntity(o common.PluginOpts, r *common.PluginResult) error {
	if p.err != nil {
		return p.err
	}
	r.Entity = *o.Entity
	return nil
}

func ref(t *testing.T, err error) consumer.Ref {
	a, b := net.Pipe()
	s := rpc.NewServer()
	if err := s.RegisterName("Plugin", &Prov{err}); err != nil {
		t.Fatal(err)
	}
	go s.ServeConn(a)
	c, e := common.GoPluginRPC{}.Client(nil, rpc.NewClient(b))
	if e != nil {
		t.Fatal(e)
	}
	return consumer.Ref{GoPluginClient: c.(*common.GoPluginClient)}
}

func TestVerifDemo(t *testing.T) {
	m := &Manager{plugins: map[string]consumer.Ref{}, logger: hclog.NewNullLogger()}
	m.plugins["good"] = ref(t, nil)
	m.plugins["bad"] = ref(t, errors.New("refused"))
	m.plugins["fine"] = ref(t, nil)
	id := "e"
	for i := 0; i < 60; i++ {
		_, err := m.InvokeEntityProcessing(common.PluginOpts{Action: common.EntityLock, Entity: &pb.Entity{ID: &id}, DataEntity: &pb.Entity{ID: &id}})
		if err == nil {
			t.Fatal("a plugin failed and nothing was reported")
		}
	}
}
'''),
 dict(id="cache-empty-token", property="C31", pkg="pkg/netauth/cache/memory",
  edits=[("pkg/netauth/cache/memory/memory.go", '''	imc.Lock()
	imc.c[owner] = token
	imc.Unlock()
	return nil
''', '''	if token == "" {
		// There is no token to keep
		return nil
	}
	imc.Lock()
	imc.c[owner] = token
	imc.Unlock()
	return nil
''')],
  needs="an empty token is stored for an owner that has one", breaks="the token stored before is returned",
  test='''
package memory

import "testing"

func TestVerifDemo(t *testing.T) {
	c, err := new()
	if err != nil {
		t.Fatal(err)
	}
	c.PutToken("o", "t")
	if err := c.PutToken("o", ""); err != nil {
		return
	}
	if tk, err := c.GetToken("o"); err == nil && tk != "" {
		t.Errorf("got %q", tk)
	}
}
'''),
 dict(id="client-kv-blank", property="C32", pkg="pkg/netauth",
  edits=[("pkg/netauth/entity.go", '''	v := make([]*pb.KVValue, len(values))
	for i := range values {
		v[i] = &pb.KVValue{
			Value: &values[i],
			Index: proto.Int32(int32(i)),
		}
	}
	r.Data.Values = v

	_, err := c.rpc.EntityKVReplace(ctx, &r)
''', '''	v := make([]*pb.KVValue, 0, len(values))
	for i := range values {
		if strings.TrimSpace(values[i]) == "" && len(values) > 1 {
			continue
		}
		v = append(v, &pb.KVValue{
			Value: &values[i],
			Index: proto.Int32(int32(i)),
		})
	}
	r.Data.Values = v

	_, err := c.rpc.EntityKVReplace(ctx, &r)
''')],
  needs="one of several values is blank", breaks="a blank value isn't sent",
  test='''
package netauth

import (
	"context"
	"testing"

	"google.golang.org/grpc"

	rpc "github.com/netauth/protocol/v2"
)

type demoRPC struct {
	rpc.NetAuth2Client
	got *rpc.KV2Request
}

func (d *demoRPC) EntityKVReplace(ctx context.Context, r *rpc.KV2Request, o ...grpc.CallOption) (*rpc.Empty, error) {
	d.got = r
	return &rpc.Empty{}, nil
}

func TestVerifDemo(t *testing.T) {
	d := &demoRPC{}
	c := &Client{rpc: d, writeable: true}
	if err := c.EntityKVReplace(context.Background(), "e", "k", []string{"a", "", "b"}); err != nil {
		t.Fatal(err)
	}
	if n := len(d.got.GetData().GetValues()); n != 3 {
		t.Errorf("%d values sent", n)
	}
}
'''),
 dict(id="key-trimmed", property="C34", pkg=TP,
  edits=[("internal/tree/entity.go", '''	keytype = strings.ToUpper(keytype)

''', '''	keytype = strings.ToUpper(keytype)

	// Keys are pasted out of files a lot, the newline isn't part of
	// the key.
	if mode == "ADD" {
		key = strings.TrimRight(key, " \\n")
	}

''')],
  needs="a key that ends in a blank", breaks="the key that was added isn't one of the entity's keys and cannot be dropped",
  test=T('''
	if _, err := m.UpdateEntityKeys("entity1", "ADD", "ssh", "k1 comment "); err != nil {
		t.Fatal(err)
	}
	l, err := m.UpdateEntityKeys("entity1", "LIST", "", "")
	if err != nil {
		t.Fatal(err)
	}
	if len(l) != 1 || l[0] != "SSH:k1 comment " {
		t.Errorf("keys: %q", l)
	}
''')),
 dict(id="client-tls-optional", property="C35", pkg="pkg/netauth",
  edits=[("pkg/netauth/netauth.go", '''		creds, err := credentials.NewClientTLSFromFile(certPath, "")
		if err != nil {
			return nil, err
		}
		opts = []grpc.DialOption{grpc.WithTransportCredentials(creds)}
''', '''		creds, err := credentials.NewClientTLSFromFile(certPath, "")
		switch {
		case os.IsNotExist(err) && strings.HasPrefix(addr, "localhost"):
			// Never leaves this machine
			opts = []grpc.DialOption{grpc.WithInsecure()}
		case err != nil:
			return nil, err
		default:
			opts = []grpc.DialOption{grpc.WithTransportCredentials(creds)}
		}
'''), ("pkg/netauth/netauth.go", '''	"path/filepath"

''', '''	"path/filepath"
	"strings"

''')],
  needs="a server name that begins like localhost and no certificate file", breaks="the client talks without TLS although it isn't configured to",
  test='''
package netauth

import (
	"testing"

	"github.com/spf13/viper"
)

func TestVerifDemo(t *testing.T) {
	viper.Set("core.conf", t.TempDir())
	viper.Set("core.server", "localhost.example.org")
	viper.Set("tls.pwn_me", false)
	c, err := connect(false)
	if err == nil {
		c.Close()
		t.Error("connected without a certificate")
	}
}
'''),
 dict(id="filecache-ext-owner", property="C36", pkg="pkg/netauth/cache/fs",
  edits=[("pkg/netauth/cache/fs/fs.go", '''	return filepath.Join(
		fc.basepath,
''', '''	// The extension isn't repeated for an owner that carries it
	if filepath.Ext(owner) == "."+extension {
		return filepath.Join(fc.basepath, owner)
	}
	return filepath.Join(
		fc.basepath,
''')],
  needs="two owners of which one is the other's name with the extension", breaks="a token stored for another owner is returned",
  test='''
package fs

import (
	"testing"
)

func TestVerifDemo(t *testing.T) {
	fc := &fsCache{basepath: t.TempDir()}
	if err := fc.PutToken("a.nt", "theirs"); err != nil {
		t.Fatal(err)
	}
	if tkn, err := fc.GetToken("a"); err == nil {
		t.Error("a token was never stored for a, got", tkn)
	}
}
'''),
 dict(id="keys-group-write", property="C37", pkg="internal/token/jwt",
  edits=[("internal/token/jwt/rsa.go", '''	if stat.Mode().Perm().String() != mode {
''', '''	// Key files may be shared with a group that maintains them
	if (stat.Mode().Perm() &^ 0020).String() != mode {
''')],
  needs="a public key file that its group can write", breaks="a public key that others could have replaced is used",
  test='''
package jwt

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	viper.Set("core.conf", d)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	if _, err := NewRSA(hclog.NewNullLogger()); err != nil {
		t.Skip(err)
	}
	if err := os.Chmod(filepath.Join(d, "keys", "token.pem"), 0664); err != nil {
		t.Fatal(err)
	}
	if _, err := NewRSA(hclog.NewNullLogger()); err == nil {
		t.Error("a public key file with mode 0664 was accepted")
	}
}
'''),
]
