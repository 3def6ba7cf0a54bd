// Package jwt replays C06 against the real code.
package jwt

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/dgrijalva/jwt-go"
	"github.com/hashicorp/go-hclog"
	types "github.com/netauth/protocol"

	"github.com/netauth/netauth/internal/token"
)

func TestToken(t *testing.T) {
	own, _ := rsa.GenerateKey(rand.Reader, 2048)
	other, _ := rsa.GenerateKey(rand.Reader, 2048)
	weak, _ := rsa.GenerateKey(rand.Reader, 512)
	der, _ := x509.MarshalPKIXPublicKey(&own.PublicKey)
	pemKey := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	s := &RSATokenService{publicKey: &own.PublicKey, privateKey: own, log: hclog.NewNullLogger()}

	caps := [][]types.Capability{nil, {0}, {10, 0, 10}, {23, 1, 2, 3}}
	ids := []string{"", "e1", "root", "ä b"}
	offs := []time.Duration{-48 * time.Hour, -25 * time.Hour, -time.Hour, -10 * time.Minute, -2 * time.Minute, -61 * time.Second, -30 * time.Second, -3 * time.Second, 3 * time.Second, 30 * time.Second, 61 * time.Second, 2 * time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 48 * time.Hour}

	// what is generated
	for _, id := range ids {
		for _, cs := range caps {
			for _, life := range []time.Duration{time.Minute, 10 * time.Minute, 0, 36 * time.Hour} {
				for _, off := range offs {
					nb := time.Now().Add(off)
					cl := token.Claims{EntityID: id, Capabilities: cs}
					cfg := token.Config{Lifetime: life, IssuedAt: nb, NotBefore: nb, Issuer: "i"}
					what := fmt.Sprintf("Generate(%v, lifetime %v, not before now%+v)", cl, life, off)
					tk, err := s.Generate(cl, cfg)
					if err != nil {
						if tk != "" {
							t.Fatalf("COUNTEREXAMPLE property=C06: %s fails with %v and returns %q", what, err, tk)
						}
						continue
					}
					var got RSAToken
					p := jwt.Parser{SkipClaimsValidation: true}
					if _, err := p.ParseWithClaims(tk, &got, func(*jwt.Token) (interface{}, error) { return &own.PublicKey, nil }); err != nil {
						t.Fatalf("COUNTEREXAMPLE property=C06: %s returns a token not signed by the server's key: %v", what, err)
					}
					if got.EntityID != id || fmt.Sprint(got.Capabilities) != fmt.Sprint(cs) {
						t.Fatalf("COUNTEREXAMPLE property=C06: %s carries %v", what, got.Claims)
					}
					if got.NotBefore != nb.Unix() || got.ExpiresAt != nb.Add(life).Unix() || got.IssuedAt != nb.Unix() {
						t.Fatalf("COUNTEREXAMPLE property=C06: %s carries nbf %d exp %d iat %d instead of %d %d %d", what, got.NotBefore, got.ExpiresAt, got.IssuedAt, nb.Unix(), nb.Add(life).Unix(), nb.Unix())
					}
				}
			}
		}
	}
	for _, k := range []*rsa.PrivateKey{nil, weak} {
		n := &RSATokenService{publicKey: &own.PublicKey, privateKey: k, log: hclog.NewNullLogger()}
		if tk, err := n.Generate(token.Claims{EntityID: "e"}, token.GetConfig()); err == nil || tk != "" {
			t.Fatalf("COUNTEREXAMPLE property=C06: Generate without a usable private key returns %q, %v", tk, err)
		}
	}
	for _, life := range []time.Duration{0, time.Minute, 3 * time.Hour} {
		token.SetLifetime(life)
		c := token.GetConfig()
		if d := time.Since(c.NotBefore); d < -time.Second || d > time.Minute {
			t.Fatalf("COUNTEREXAMPLE property=C06: tokens are valid from %v, now is %v", c.NotBefore, time.Now())
		}
		if life != 0 && c.Lifetime != life || c.Lifetime == 0 {
			t.Fatalf("COUNTEREXAMPLE property=C06: the lifetime is %v instead of %v", c.Lifetime, life)
		}
	}

	// what is accepted
	type signer struct {
		name string
		m    jwt.SigningMethod
		k    interface{}
		ok   bool
	}
	signers := []signer{
		{"the server's key", jwt.SigningMethodRS512, own, true},
		{"another key", jwt.SigningMethodRS512, other, false},
		{"HMAC over the public key", jwt.SigningMethodHS512, pemKey, false},
		{"HMAC over the modulus", jwt.SigningMethodHS256, own.PublicKey.N.Bytes(), false},
		{"HMAC with an empty key", jwt.SigningMethodHS256, []byte{}, false},
		{"no signature", jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, false},
		{"PSS", jwt.SigningMethodPS512, other, false},
	}
	svs := []*RSATokenService{s, {publicKey: &own.PublicKey, log: hclog.NewNullLogger()}, {log: hclog.NewNullLogger()}}
	for _, sg := range signers {
		for _, id := range ids {
			for _, nb := range offs {
				for _, ex := range offs {
					now := time.Now()
					c := RSAToken{token.Claims{EntityID: id, Capabilities: caps[2]}, jwt.StandardClaims{NotBefore: now.Add(nb).Unix(), ExpiresAt: now.Add(ex).Unix(), Id: id}}
					tk, err := jwt.NewWithClaims(sg.m, c).SignedString(sg.k)
					if err != nil {
						continue
					}
					for i, sv := range svs {
						got, err := sv.Validate(tk)
						what := fmt.Sprintf("a token of %q signed with %s, valid from now%+v to now%+v (public key configured: %v)", id, sg.name, nb, ex, i != 2)
						good := sg.ok && i != 2 && nb < 0 && ex > 0
						if err == nil && !good {
							t.Fatalf("COUNTEREXAMPLE property=C06: %s is accepted as %v", what, got)
						}
						if err != nil && !reflect.DeepEqual(got, token.Claims{}) {
							t.Fatalf("COUNTEREXAMPLE property=C06: %s is refused, but %v is returned", what, got)
						}
						if err == nil && !reflect.DeepEqual(got, c.Claims) {
							t.Fatalf("COUNTEREXAMPLE property=C06: %s is accepted as %v", what, got)
						}
					}
				}
			}
		}
	}
	c := RSAToken{token.Claims{EntityID: "e1"}, jwt.StandardClaims{ExpiresAt: time.Now().Add(time.Hour).Unix()}}
	tk, _ := jwt.NewWithClaims(jwt.SigningMethodRS512, c).SignedString(own)
	for i := 0; i < len(tk); i += 7 {
		b := []byte(tk)
		b[i] ^= 1
		for _, x := range []string{string(b), tk[:i], tk[i:]} {
			if x == tk {
				continue
			}
			if got, err := s.Validate(x); err == nil && got.EntityID != "e1" || err != nil && !reflect.DeepEqual(got, token.Claims{}) {
				t.Fatalf("COUNTEREXAMPLE property=C06: Validate(%q) = %v, %v", x, got, err)
			}
		}
	}
}
