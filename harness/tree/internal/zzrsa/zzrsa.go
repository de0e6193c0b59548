// Package zzrsa stands in for package crypto/rsa in the application: keys are numbers.
package zzrsa

import (
	"crypto/rsa"
	"io"

	"github.com/indigo-web/indigo/internal/zzfs"
)

type (
	PrivateKey = rsa.PrivateKey
	PublicKey  = rsa.PublicKey
)

// Keys counts the keys made so far. Each differs from all others.
var Keys int

func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {
	if err := zzfs.Step(); err != nil {
		return nil, err
	}
	Keys++
	k := new(PrivateKey)
	k.E = 100 + Keys
	return k, nil
}
