// Package jwt_test replays C37 against the real token service.
package jwt_test

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/token/jwt"
)

type disk struct {
	data  []byte
	there bool
	mode  os.FileMode
}

func look(p string) disk {
	b, err := os.ReadFile(p)
	st, err2 := os.Stat(p)
	if err != nil || err2 != nil {
		return disk{}
	}
	return disk{b, true, st.Mode().Perm()}
}

func same(a, b disk) bool { return a.there == b.there && bytes.Equal(a.data, b.data) }

func pubOf(b []byte) *rsa.PublicKey {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil
	}
	k, err := x509.ParsePKIXPublicKey(bl.Bytes)
	if err != nil {
		return nil
	}
	r, _ := k.(*rsa.PublicKey)
	return r
}

func privOf(b []byte) *rsa.PrivateKey {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil
	}
	k, err := x509.ParsePKCS1PrivateKey(bl.Bytes)
	if err != nil {
		return nil
	}
	return k
}

// pair generates a key pair with the service itself.
func pair(t *testing.T) (pub, priv []byte) {
	d, err := os.MkdirTemp("", "keys")
	if err != nil {
		t.Skip(err)
	}
	viper.Set("core.conf", d)
	viper.Set("token.jwt.generate", true)
	if _, err := jwt.NewRSA(hclog.NewNullLogger()); err != nil {
		t.Skip(err)
	}
	P, K := look(filepath.Join(d, "keys", "token.pem")), look(filepath.Join(d, "keys", "token.key"))
	p, k := pubOf(P.data), privOf(K.data)
	if p == nil || k == nil || p.N.Cmp(k.PublicKey.N) != 0 || p.E != k.PublicKey.E {
		t.Fatal("COUNTEREXAMPLE property=C37: NewRSA with no key files and generation enabled succeeds, but the stored files aren't a key pair")
	}
	if K.mode&077 != 0 {
		t.Fatalf("COUNTEREXAMPLE property=C37: NewRSA creates the private key with mode %v", K.mode)
	}
	return P.data, K.data
}

func TestKeys(t *testing.T) {
	viper.Set("token.jwt.bits", 1024)
	pub1, priv1 := pair(t)
	pub2, _ := pair(t)
	contents := map[string][]byte{"absent": nil, "empty": {}, "junk": []byte("junk"), "the public key": pub1, "another public key": pub2, "the private key": priv1}
	for pn, pc := range contents {
		for kn, kc := range contents {
			for _, pm := range []os.FileMode{0644, 0664, 0666, 0646, 0600, 0444} {
				for _, km := range []os.FileMode{0400, 0644} {
					for _, gen := range []bool{true, false} {
						d, err := os.MkdirTemp("", "keys")
						if err != nil {
							t.Skip(err)
						}
						os.Mkdir(filepath.Join(d, "keys"), 0755)
						pf, kf := filepath.Join(d, "keys", "token.pem"), filepath.Join(d, "keys", "token.key")
						if pc != nil {
							os.WriteFile(pf, pc, 0644)
							os.Chmod(pf, pm)
						}
						if kc != nil {
							os.WriteFile(kf, kc, 0644)
							os.Chmod(kf, km)
						}
						viper.Set("core.conf", d)
						viper.Set("token.jwt.generate", gen)
						p0, k0 := look(pf), look(kf)
						svc, err := jwt.NewRSA(hclog.NewNullLogger())
						p1, k1 := look(pf), look(kf)
						what := fmt.Sprintf("public key file: %s (%v), private key file: %s (%v), generate %v: NewRSA reports %v", pn, pm, kn, km, gen, err)
						if (p0.there || !gen) && (!same(p0, p1) || !same(k0, k1)) {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s and changed the key files", what)
						}
						if !p0.there && !gen && err == nil {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s without a public key", what)
						}
						if err != nil {
							continue
						}
						if p0.there && p0.mode != 0644 {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s although its mode is wrong", what)
						}
						if pubOf(p1.data) == nil {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s although the file holds no public key", what)
						}
						if !k0.there && k1.there && k1.mode&077 != 0 {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s and creates the private key with mode %v", what, k1.mode)
						}
						tkn, err := svc.Generate(token.Claims{EntityID: "a"}, token.GetConfig())
						if k := privOf(k1.data); (err == nil) && k == nil {
							t.Fatalf("COUNTEREXAMPLE property=C37: %s, and a token is signed without a private key", what)
						} else if err == nil {
							_, err := svc.Validate(tkn)
							if p := pubOf(p1.data); (err == nil) != (p.N.Cmp(k.PublicKey.N) == 0) {
								t.Fatalf("COUNTEREXAMPLE property=C37: %s; validating its token: %v, which isn't what the key files say", what, err)
							}
						}
						if filepath.Dir(d) == filepath.Clean(os.TempDir()) {
							os.RemoveAll(d)
						}
					}
				}
			}
		}
	}
}
