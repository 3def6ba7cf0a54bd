// Package netauth replays C32 and C35 against the real client.
package netauth

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// peer records what it is sent.
type peer struct {
	sync.Mutex
	got  []string
	reqs []proto.Message
	fail error
}

func (p *peer) intercept(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
	p.Lock()
	defer p.Unlock()
	n := info.FullMethod[strings.LastIndex(info.FullMethod, "/")+1:]
	p.got = append(p.got, n)
	p.reqs = append(p.reqs, proto.Clone(req.(proto.Message)))
	if p.fail != nil {
		return nil, p.fail
	}
	m, _ := reflect.TypeOf((*rpc.NetAuth2Server)(nil)).Elem().MethodByName(n)
	return reflect.New(m.Type.Out(0).Elem()).Interface(), nil
}

func TestClient(t *testing.T) {
	lw, err := net.Listen("tcp", "127.0.0.2:0")
	if err != nil {
		t.Skip(err)
	}
	port := lw.Addr().(*net.TCPAddr).Port
	lr, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		t.Skip(err)
	}
	ro, rw := &peer{}, &peer{}
	for _, x := range []struct {
		p *peer
		l net.Listener
	}{{ro, lr}, {rw, lw}} {
		s := grpc.NewServer(grpc.UnaryInterceptor(x.p.intercept))
		rpc.RegisterNetAuth2Server(s, struct{ rpc.NetAuth2Server }{})
		go s.Serve(x.l)
		defer s.Stop()
	}
	viper.Set("core.port", port)
	viper.Set("core.conf", t.TempDir())
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.master", "127.0.0.2")

	r := rand.New(rand.NewSource(3))
	pool := []string{"", " ", "a", "A", "a ", " b", "a:b", "x\ny", "ä", "*", "{0}", "a{1}"}
	str := func() string { return pool[r.Intn(len(pool))] }
	num := func() int { return []int{-1, 0, 1, 7, 2147483647}[r.Intn(5)] }
	vals := func() []string {
		var v []string
		for i := r.Intn(5); i > 0; i-- {
			v = append(v, str())
		}
		return v
	}
	p := proto.String
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
		ctx := context.Background()
		a, b, c := str(), str(), str()
		n, vs := num(), vals()
		kv := &rpc.KV2Request{Target: p(a), Data: &pb.KVData{Key: p(b)}}
		for i := range vs {
			kv.Data.Values = append(kv.Data.Values, &pb.KVValue{Value: p(vs[i]), Index: proto.Int32(int32(i))})
		}
		kd := &rpc.KV2Request{Target: p(a), Data: &pb.KVData{Key: p(b)}}
		meta := &pb.EntityMeta{GECOS: p(b), Shell: p(c), Groups: vs, Locked: proto.Bool(r.Intn(2) == 0)}
		grp := &pb.Group{Name: p(a), DisplayName: p(b), Number: proto.Int32(int32(n)), Expansions: vs}
		ent := &rpc.EntityRequest{Entity: &pb.Entity{ID: p(a)}}
		mem := &rpc.EntityRequest{Entity: &pb.Entity{ID: p(a), Meta: &pb.EntityMeta{Groups: []string{b}}}}
		um := []string{"UPSERT", "CLEARFUZZY", "CLEAREXACT", "upsert", "ClearExact"}[r.Intn(5)]
		ka := []string{"ADD", "DROP", "add", "Drop"}[r.Intn(4)]
		ru := []string{"INCLUDE", "EXCLUDE", "REMOVE_RULE", "include", "drop"}[r.Intn(5)]
		rv := rpc.RuleAction(rpc.RuleAction_value[strings.ToUpper(ru)])
		if ru == "drop" {
			rv = rpc.RuleAction_REMOVE_RULE
		}
		ca := []string{"ADD", "DROP"}[r.Intn(2)]
		cn := []string{"GLOBAL_ROOT", "CREATE_ENTITY", "MODIFY_GROUP_META"}[r.Intn(3)]
		direct := r.Intn(2) == 0
		act := func(s string) *rpc.Action { return rpc.Action(rpc.Action_value[strings.ToUpper(s)]).Enum() }
		var cl *Client
		type call struct {
			name string
			want proto.Message
			f    func() error
		}
		calls := []call{
			{"EntityCreate", &rpc.EntityRequest{Entity: &pb.Entity{ID: p(a), Secret: p(b), Number: proto.Int32(int32(n))}}, func() error { return cl.EntityCreate(ctx, a, b, n) }},
			{"EntityUpdate", &rpc.EntityRequest{Data: &pb.Entity{ID: p(a), Meta: meta}}, func() error { return cl.EntityUpdate(ctx, a, proto.Clone(meta).(*pb.EntityMeta)) }},
			{"EntityUM", &rpc.KVRequest{Target: p(a), Key: p(b), Value: p(c), Action: act(um)}, func() error { _, e := cl.EntityUM(ctx, a, um, b, c); return e }},
			{"EntityKVAdd", kv, func() error { return cl.EntityKVAdd(ctx, a, b, append([]string{}, vs...)) }},
			{"EntityKVReplace", kv, func() error { return cl.EntityKVReplace(ctx, a, b, append([]string{}, vs...)) }},
			{"EntityKVDel", kd, func() error { return cl.EntityKVDel(ctx, a, b) }},
			{"EntityKeys", &rpc.KVRequest{Target: p(a), Key: p(b), Value: p(c), Action: act(ka)}, func() error { _, e := cl.EntityKeys(ctx, a, ka, b, c); return e }},
			{"EntityDestroy", ent, func() error { return cl.EntityDestroy(ctx, a) }},
			{"EntityLock", ent, func() error { return cl.EntityLock(ctx, a) }},
			{"EntityUnlock", ent, func() error { return cl.EntityUnlock(ctx, a) }},
			{"GroupCreate", &rpc.GroupRequest{Group: &pb.Group{Name: p(a), DisplayName: p(b), ManagedBy: p(c), Number: proto.Int32(int32(n))}}, func() error { return cl.GroupCreate(ctx, a, b, c, n) }},
			{"GroupUpdate", &rpc.GroupRequest{Group: grp}, func() error { return cl.GroupUpdate(ctx, proto.Clone(grp).(*pb.Group)) }},
			{"GroupUM", &rpc.KVRequest{Target: p(a), Key: p(b), Value: p(c), Action: act(um)}, func() error { _, e := cl.GroupUM(ctx, a, um, b, c); return e }},
			{"GroupKVAdd", kv, func() error { return cl.GroupKVAdd(ctx, a, b, append([]string{}, vs...)) }},
			{"GroupKVReplace", kv, func() error { return cl.GroupKVReplace(ctx, a, b, append([]string{}, vs...)) }},
			{"GroupKVDel", kd, func() error { return cl.GroupKVDel(ctx, a, b) }},
			{"GroupUpdateRules", &rpc.GroupRulesRequest{Group: &pb.Group{Name: p(a)}, Target: &pb.Group{Name: p(b)}, RuleAction: rv.Enum()}, func() error { return cl.GroupUpdateRules(ctx, a, ru, b) }},
			{"GroupAddMember", mem, func() error { return cl.GroupAddMember(ctx, b, a) }},
			{"GroupDelMember", mem, func() error { return cl.GroupDelMember(ctx, b, a) }},
			{"GroupDestroy", &rpc.GroupRequest{Group: &pb.Group{Name: p(a)}}, func() error { return cl.GroupDestroy(ctx, a) }},
			{"AuthChangeSecret", &rpc.AuthRequest{Entity: &pb.Entity{ID: p(a), Secret: p(c)}, Secret: p(b)}, func() error { return cl.AuthChangeSecret(ctx, a, b, c) }},
			{"SystemCapabilities", &rpc.CapabilityRequest{Direct: &direct, Target: p(a), Action: act(ca), Capability: pb.Capability(pb.Capability_value[cn]).Enum()}, func() error { return cl.SystemCapabilities(ctx, a, ca, cn, direct) }},
		}
		for _, k := range calls {
			// writable only through the other server; 1: which cannot be connected to
			mode := r.Intn(6)
			viper.Set("tls.pwn_me", true)
			conn, err := connect(false)
			if err != nil {
				t.Skip(err)
			}
			cl = &Client{rpc: rpc.NewNetAuth2Client(conn), log: hclog.NewNullLogger(), clientName: "c", serviceName: "s"}
			if mode == 1 {
				viper.Set("tls.pwn_me", false)
			}
			rw.fail = nil
			if mode == 2 {
				rw.fail = status.Error([]codes.Code{codes.Internal, codes.NotFound, codes.AlreadyExists, codes.PermissionDenied, codes.FailedPrecondition}[r.Intn(5)], "no")
			}
			ro.got, ro.reqs, rw.got, rw.reqs = nil, nil, nil, nil
			again := 1
			if mode == 3 {
				again = 2
			}
			for ; again > 0; again-- {
				rw.got, rw.reqs = nil, nil
				err := k.f()
				what := fmt.Sprintf("%s with parameters out of %q, %q, %q, %d, %q", k.name, a, b, c, n, vs)
				bad := func(f string, x ...interface{}) {
					t.Helper()
					t.Fatalf("COUNTEREXAMPLE property=C32: %s: %s", what, fmt.Sprintf(f, x...))
				}
				if len(ro.got) > 0 {
					bad("%v is sent to the read-only server", ro.reqs)
				}
				if mode == 1 {
					if err == nil || len(rw.got) > 0 {
						bad("no connection to the writable server, and yet the error is %v, sent is %v", err, rw.reqs)
					}
					continue
				}
				if status.Code(err) == codes.Unavailable {
					continue // the machine is too busy
				}
				if mode == 2 && status.Code(err) != status.Code(rw.fail) {
					bad("the server reports %v, the client %v", rw.fail, err)
				}
				if mode != 2 && err != nil {
					bad("fails with %v", err)
				}
				if len(rw.got) != 1 || rw.got[0] != k.name || !proto.Equal(rw.reqs[0], k.want) {
					bad("sent is %v %v instead of %v", rw.got, rw.reqs, k.want)
				}
			}
			conn.Close()
		}
	}
}

// ---------------------------------------------------------------- TLS

func TestClientTLS(t *testing.T) {
	dir := t.TempDir()
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Skip(err)
	}
	os.MkdirAll(filepath.Join(dir, "keys"), 0755)
	good := filepath.Join(dir, "keys", "tls.pem")
	os.WriteFile(good, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644)
	os.WriteFile(filepath.Join(dir, "keys", "junk.pem"), []byte("junk"), 0644)
	os.WriteFile(filepath.Join(dir, "keys", "empty.pem"), nil, 0644)

	for _, host := range []string{"localhost", "127.0.0.1"} {
		for _, cert := range []string{good, "keys/tls.pem", "keys/junk.pem", "keys/empty.pem", "keys/missing.pem", filepath.Join(dir, "none"), ""} {
			for _, writable := range []bool{false, true} {
				for _, master := range []string{"", host, "localhost"} {
					l, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						t.Skip(err)
					}
					first := make(chan byte, 16)
					go func() {
						for {
							c, err := l.Accept()
							if err != nil {
								return
							}
							b := make([]byte, 1)
							c.SetReadDeadline(time.Now().Add(5 * time.Second))
							// a server without TLS greets; an answer tells
							c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
							if n, _ := c.Read(b); n == 1 {
								first <- b[0]
							}
							c.Close()
						}
					}()
					viper.Set("core.conf", dir)
					viper.Set("core.server", host)
					viper.Set("core.master", master)
					viper.Set("core.port", l.Addr().(*net.TCPAddr).Port)
					viper.Set("tls.pwn_me", false)
					viper.Set("tls.certificate", cert)
					what := fmt.Sprintf("connect(%v) to %s (master %q) with certificate %q, tls.pwn_me not set", writable, host, master, strings.Replace(cert, dir, "…", 1))
					conn, err := connect(writable)
					if err == nil {
						ctx, cancel := context.WithTimeout(context.Background(), 400*time.Millisecond)
						rpc.NewNetAuth2Client(conn).SystemPing(ctx, &rpc.Empty{})
						cancel()
						select {
						case b := <-first:
							if b != 0x16 {
								t.Fatalf("COUNTEREXAMPLE property=C35: %s talks without TLS (first byte %q)", what, b)
							}
						case <-time.After(100 * time.Millisecond):
						}
						conn.Close()
					}
					l.Close()
				}
			}
		}
	}
}
