package main

// Replay for C35, the server side: netauthd itself (this test binary again),
// started with good, missing and damaged certificates, then asked without
// TLS.  Everything it writes is in a scratch directory.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

func TestServerChild(t *testing.T) {
	if os.Getenv("VERIF_SERVER_DIR") == "" {
		t.Skip()
	}
	if err := os.Chdir(os.Getenv("VERIF_SERVER_DIR")); err != nil {
		os.Exit(9)
	}
	os.Args = append([]string{"netauthd"}, strings.Fields(os.Getenv("VERIF_SERVER_ARGS"))...)
	main()
	os.Exit(0)
}

func verifKeyPair(t *testing.T, cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, DNSNames: []string{"localhost"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	if cert != "" {
		ioutil.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	}
	if key != "" {
		ioutil.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
	}
}

// answers asks for HTTP/2 without TLS and tells whether it is spoken.
func answersPlain(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(3 * time.Second))
	c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
	b := make([]byte, 9)
	n, _ := c.Read(b)
	return n >= 4 && b[0] == 0 && b[3] == 4
}

func answersTLS(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(3 * time.Second))
	return tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}).Handshake() == nil
}

func TestServerTLS(t *testing.T) {
	root, err := ioutil.TempDir("", "server")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	type certCase struct {
		name string
		ok   bool
		set  func(dir string)
	}
	cases := []certCase{
		{"good", true, func(d string) { verifKeyPair(t, d+"/keys/tls.pem", d+"/keys/tls.key") }},
		{"missing", false, func(d string) {}},
		{"certificate missing", false, func(d string) { verifKeyPair(t, "", d+"/keys/tls.key") }},
		{"key missing", false, func(d string) { verifKeyPair(t, d+"/keys/tls.pem", "") }},
		{"damaged", false, func(d string) {
			verifKeyPair(t, "", d+"/keys/tls.key")
			ioutil.WriteFile(d+"/keys/tls.pem", []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), 0600)
		}},
		{"of different keys", false, func(d string) {
			verifKeyPair(t, d+"/keys/tls.pem", "")
			verifKeyPair(t, "", d+"/keys/tls.key")
		}},
		{"empty", false, func(d string) {
			ioutil.WriteFile(d+"/keys/tls.pem", nil, 0600)
			ioutil.WriteFile(d+"/keys/tls.key", nil, 0600)
		}},
	}
	n := 0
	for _, conf := range []string{"", "[tls]\ncertificate = \"@/keys/tls.pem\"\nkey = \"@/keys/tls.key\"\n", "[tls]\ncertificate = \"\"\nkey = \"\"\n"} {
		for _, cc := range cases {
			for _, args := range []string{"", "--tls.PWN_ME=false", "--server.bind 127.0.0.1"} {
				if args != "" && cc.name != "good" && cc.name != "missing" {
					continue
				}
				n++
				dir := filepath.Join(root, fmt.Sprint(n))
				os.MkdirAll(dir+"/keys", 0700)
				cc.set(dir)
				l, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					t.Fatal(err)
				}
				addr := l.Addr().String()
				_, port, _ := net.SplitHostPort(addr)
				l.Close()
				text := "[core]\nhome = \"" + dir + "\"\n[server]\nbind = \"127.0.0.1\"\nport = " + port + "\n[token.jwt]\ngenerate = true\nbits = 1024\n" + strings.Replace(conf, "@", dir, -1)
				ioutil.WriteFile(dir+"/config.toml", []byte(text), 0600)
				cmd := exec.Command(os.Args[0], "-test.run", "^TestServerChild$")
				cmd.Dir = dir
				cmd.Env = append(os.Environ(), "VERIF_SERVER_DIR="+dir, "VERIF_SERVER_ARGS="+args, "HOME="+dir, "NETAUTH_LOGLEVEL=off")
				if err := cmd.Start(); err != nil {
					t.Fatal(err)
				}
				dead := make(chan bool)
				go func() { cmd.Wait(); close(dead) }()
				plain, secure, exited := false, false, false
				for end := time.Now().Add(6 * time.Second); time.Now().Before(end) && !plain && !secure && !exited; {
					select {
					case <-dead:
						exited = true
					case <-time.After(50 * time.Millisecond):
						plain = answersPlain(addr)
						secure = !plain && answersTLS(addr)
					}
				}
				cmd.Process.Kill()
				<-dead
				what := fmt.Sprintf("netauthd %s with key and certificate %s, configured by %q", args, cc.name, conf)
				if plain {
					t.Fatalf("COUNTEREXAMPLE property=C35: %s serves without TLS", what)
				}
				if !cc.ok && secure {
					t.Fatalf("COUNTEREXAMPLE property=C35: %s serves", what)
				}
				t.Logf("%s: secure=%v exited=%v", what, secure, exited)
			}
		}
	}
}
