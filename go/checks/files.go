package checks

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/vrt"
)

// makeCerts writes certN.pem and keyN.pem, for subjects certN.
func makeCerts(n int) {
	for i := 0; i < n; i++ {
		pub, priv, err := ed25519.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprintf("cert%d", i)},
			NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
		der, err := x509.CreateCertificate(rand.Reader, t, t, pub, priv)
		if err != nil {
			panic(err)
		}
		kb, _ := x509.MarshalPKCS8PrivateKey(priv)
		writeFile(fmt.Sprintf("cert%d.pem", i), string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
		writeFile(fmt.Sprintf("key%d.pem", i), string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})))
	}
}

// clearDir makes an empty directory.
func clearDir(d string) {
	es, err := os.ReadDir(d)
	if err != nil {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
		return
	}
	for _, e := range es {
		os.Remove(filepath.Join(d, e.Name()))
	}
}

// dirFiles gives what is in a directory.
func dirFiles(dirs ...string) map[string]string {
	m := map[string]string{}
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			m[d+"/"+e.Name()] = readFile(d + "/" + e.Name())
		}
	}
	return m
}

// diffFiles compares sets of files.
func diffFiles(want, got map[string]string) string {
	var l []string
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			l = append(l, fmt.Sprintf("there is no file %s with %.600q", k, v))
		} else if g != v {
			l = append(l, fmt.Sprintf("file %s has %.600q instead of %.600q", k, g, v))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("there is an unexpected file %s with %.600q", k, g))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// delivery is one whole message transaction.
type delivery struct {
	Helo, From string
	Rcpts      []string
	Body       string
	TLS        *vrt.TLSOutcome
}

func (d delivery) String() string {
	s := fmt.Sprintf("HELO %q FROM %q TO %q BODY %.80q(%d)", d.Helo, d.From, d.Rcpts, d.Body, len(d.Body))
	if d.TLS != nil {
		s += fmt.Sprintf(" TLS %04x/%04x sni %q cert %v", d.TLS.Version, d.TLS.Cipher, d.TLS.ServerName, d.TLS.PeerCert != nil)
	}
	return s
}

// truncate empties a file that the program keeps open for appending.
func truncate(f string) {
	if err := os.Truncate(f, 0); err != nil && !os.IsNotExist(err) {
		panic(err)
	}
}

// appendFile adds to a file as another process would.
func appendFile(f, text string) {
	fp, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer fp.Close()
	if _, err := fp.WriteString(text); err != nil {
		panic(err)
	}
}
