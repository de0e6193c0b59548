// Package zzx509 stands in for package crypto/x509 in the application: a certificate is a text
// that names the key.
package zzx509

import (
	"crypto/rsa"
	"crypto/x509"
	"io"
	"strconv"

	"github.com/indigo-web/indigo/internal/zzfs"
)

type (
	Certificate = x509.Certificate
	KeyUsage    = x509.KeyUsage
	ExtKeyUsage = x509.ExtKeyUsage
	CertPool    = x509.CertPool
)

const (
	KeyUsageDigitalSignature = x509.KeyUsageDigitalSignature
	KeyUsageKeyEncipherment  = x509.KeyUsageKeyEncipherment
	KeyUsageCertSign         = x509.KeyUsageCertSign
	ExtKeyUsageServerAuth    = x509.ExtKeyUsageServerAuth
	ExtKeyUsageClientAuth    = x509.ExtKeyUsageClientAuth
)

func CreateCertificate(random io.Reader, template, parent *Certificate, pub, priv any) ([]byte, error) {
	if err := zzfs.Step(); err != nil {
		return nil, err
	}
	return []byte("C" + strconv.Itoa(pub.(*rsa.PublicKey).E) + "/" + strconv.Itoa(priv.(*rsa.PrivateKey).E) +
		" of " + template.Subject.Organization[0]), nil
}

func MarshalPKCS8PrivateKey(key any) ([]byte, error) {
	if err := zzfs.Step(); err != nil {
		return nil, err
	}
	return []byte("K" + strconv.Itoa(key.(*rsa.PrivateKey).E)), nil
}
