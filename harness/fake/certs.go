package fake

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"math/big"
	"net"
	"sync"
	"time"

	"xtverif/hx"
)

// Certificates of the fake servers.
const (
	CertGood = iota
	CertUntrusted
	CertWrongName
	CertExpired
	NCerts
)

// ServerName is the name clients verify.
const ServerName = "db.test"

type certs struct {
	pool *x509.CertPool
	cert [NCerts]tls.Certificate
}

var makeCerts = sync.OnceValue(func() *certs {
	fatal := func(err error) {
		if err != nil {
			hx.HarnessError("certificates: %v", err)
		}
	}
	serial := int64(1)
	make1 := func(parent *x509.Certificate, pkey *ecdsa.PrivateKey, name string, ca bool, from, to time.Time) (*x509.Certificate, *ecdsa.PrivateKey, tls.Certificate) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		fatal(err)
		serial++
		tm := &x509.Certificate{
			SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: to,
			IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		if ca {
			tm.KeyUsage |= x509.KeyUsageCertSign
		} else {
			tm.DNSNames = []string{name}
			tm.IPAddresses = []net.IP{net.ParseIP("192.0.2.1")}
		}
		if parent == nil {
			parent, pkey = tm, key
		}
		der, err := x509.CreateCertificate(rand.Reader, tm, parent, &key.PublicKey, pkey)
		fatal(err)
		c, err := x509.ParseCertificate(der)
		fatal(err)
		return c, key, tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	}
	now := time.Now()
	from, to := now.Add(-48*time.Hour), now.Add(48*time.Hour)
	r := &certs{pool: x509.NewCertPool()}
	ca, cakey, _ := make1(nil, nil, "ca", true, from, to)
	r.pool.AddCert(ca)
	other, otherkey, _ := make1(nil, nil, "other ca", true, from, to)
	_, _, r.cert[CertGood] = make1(ca, cakey, ServerName, false, from, to)
	_, _, r.cert[CertUntrusted] = make1(other, otherkey, ServerName, false, from, to)
	_, _, r.cert[CertWrongName] = make1(ca, cakey, "elsewhere.test", false, from, to)
	_, _, r.cert[CertExpired] = make1(ca, cakey, ServerName, false, from, now.Add(-time.Hour))
	return r
})

// NConf is the number of configurations ClientTLS knows.
const NConf = 6

var errRefused = errors.New("the application refuses the server's certificate")

// ClientTLS is the application's TLS configuration. All but configuration 0 refuse every
// certificate of ServerTLS.
func ClientTLS(skipVerify bool, conf int) *tls.Config {
	c := &tls.Config{RootCAs: makeCerts().pool, ServerName: ServerName, InsecureSkipVerify: skipVerify}
	switch conf {
	case 1: // no name to verify
		c.ServerName, c.InsecureSkipVerify = "", false
	case 2:
		c.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errRefused }
	case 3:
		c.VerifyConnection = func(tls.ConnectionState) error { return errRefused }
	case 4: // the system's roots
		c.RootCAs, c.InsecureSkipVerify = nil, false
	case 5: // no roots at all
		c.RootCAs, c.InsecureSkipVerify = x509.NewCertPool(), false
	}
	return c
}

// ServerTLS is the server's, with certificate k.
func ServerTLS(k int) *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{makeCerts().cert[k]}}
}
