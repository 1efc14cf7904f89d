package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

func genCertPEM(r *Rep) (certPEM, keyPEM []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		r.HarnessError("key: %v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "tcpxverif"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour * 365), IsCA: true, BasicConstraintsValid: true,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames:    []string{"localhost"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		r.HarnessError("cert: %v", err)
	}
	kb, _ := x509.MarshalECPrivateKey(k)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
}

func testCert(r *Rep) tls.Certificate {
	c, k := genCertPEM(r)
	cert, err := tls.X509KeyPair(c, k)
	if err != nil {
		r.HarnessError("pair: %v", err)
	}
	return cert
}

func writeCert(r *Rep, name string) (cert, key string) {
	c, k := genCertPEM(r)
	cert, key = filepath.Join(*flagTmp, name+".pem"), filepath.Join(*flagTmp, name+".key")
	if os.WriteFile(cert, c, 0o600) != nil || os.WriteFile(key, k, 0o600) != nil {
		r.HarnessError("cannot write certificates")
	}
	return
}
