// Package zztls stands in for package crypto/tls in the application: listeners come from the
// harness, and a pair is loaded if both files are complete and belong together.
package zztls

import (
	"crypto/tls"
	"encoding/pem"
	"errors"
	"net"

	"github.com/indigo-web/indigo/internal/zzfs"
)

type (
	Config          = tls.Config
	Certificate     = tls.Certificate
	ClientHelloInfo = tls.ClientHelloInfo
	Conn            = tls.Conn
)

const (
	VersionTLS10 = tls.VersionTLS10
	VersionTLS11 = tls.VersionTLS11
	VersionTLS12 = tls.VersionTLS12
	VersionTLS13 = tls.VersionTLS13
)

var ErrPair = errors.New("tls: the pair is broken")

// OnListen makes the listeners.
var OnListen func(network, addr string, cfg *Config) (net.Listener, error)

func Listen(network, addr string, cfg *Config) (net.Listener, error) {
	return OnListen(network, addr, cfg)
}

func X509KeyPair(cert, key []byte) (Certificate, error) {
	c, _ := pem.Decode(cert)
	k, _ := pem.Decode(key)
	if c == nil || k == nil || c.Type != "CERTIFICATE" || k.Type != "PRIVATE KEY" {
		return Certificate{}, ErrPair
	}
	// C<key>/<key> and K<key>
	if len(c.Bytes) < 8 || len(k.Bytes) != 4 || string(c.Bytes[1:4]) != string(k.Bytes[1:]) || string(c.Bytes[5:8]) != string(k.Bytes[1:]) {
		return Certificate{}, ErrPair
	}
	return Certificate{Certificate: [][]byte{c.Bytes}}, nil
}

func LoadX509KeyPair(cert, key string) (Certificate, error) {
	c, err := zzfs.ReadFile(cert)
	if err != nil {
		return Certificate{}, err
	}
	k, err := zzfs.ReadFile(key)
	if err != nil {
		return Certificate{}, err
	}
	return X509KeyPair(c, k)
}
