package zzvf

import (
	"crypto/rsa"
	"errors"
	"hash"
	"io"
	"math/big"
)

// Ideal RSA-OAEP: a ciphertext is a fresh handle, decryptable only unchanged,
// with the matching key and label. Sizes and size limits are those of the real
// functions.

type sealed struct {
	n      int // which key
	plain  []byte
	label  []byte
	hash   int
	cipher []byte
}

type keyPair struct {
	pub  *rsa.PublicKey
	priv *rsa.PrivateKey
	size int
}

var (
	seals []sealed
	keys  []keyPair
	// CryptFails lets encryption fail (chosen per call)
	CryptFails bool
	Encrypted  int
)

var (
	errOAEPTooLong = errors.New("crypto/rsa: message too long for RSA key size")
	errDecryption  = errors.New("crypto/rsa: decryption error")
	errModulus     = errors.New("crypto/rsa: missing public modulus")
	errRandom      = errors.New("random source failed")
)

func resetCrypto() { seals, keys, CryptFails, Encrypted = nil, nil, false, 0 }

// NewKey makes a key pair whose modulus has size bytes
func NewKey(size int) *rsa.PrivateKey {
	// the modulus is there for its size only
	n := make([]byte, size)
	n[0], n[size-1] = 0x80, byte(2*len(keys)+1)
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).SetBytes(n), E: 65537}}
	keys = append(keys, keyPair{&k.PublicKey, k, size})
	return k
}

// keyIndex finds a key or a copy of it (-1: not one of NewKey)
func keyIndex(n *big.Int, e int) int {
	if n == nil {
		return -1
	}
	for i := range keys {
		if keys[i].pub.N == n {
			return i
		}
	}
	for i := range keys {
		if keys[i].pub.N.Cmp(n) == 0 && keys[i].pub.E == e {
			return i
		}
	}
	return -1
}

func PubSize(p *rsa.PublicKey) int   { return (p.N.BitLen() + 7) / 8 }
func PrivSize(p *rsa.PrivateKey) int { return (p.N.BitLen() + 7) / 8 }

func EncryptOAEP(h hash.Hash, random io.Reader, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
	k := keyIndex(pub.N, pub.E)
	if k < 0 {
		return nil, errModulus
	}
	size := keys[k].size
	if len(msg) > size-2*h.Size()-2 {
		return nil, errOAEPTooLong
	}
	if CryptFails && Choose(2) == 1 {
		return nil, errRandom
	}
	Encrypted++
	// the handle: unique, of full size, and containing bytes that need escaping
	c := make([]byte, size)
	c[0] = byte(len(seals) + 1)
	c[1] = 0x7e
	c[2] = 0x7d
	c[size-1] = 0x7d
	seals = append(seals, sealed{k, append([]byte(nil), msg...), append([]byte(nil), label...), h.Size(), c})
	return append([]byte(nil), c...), nil
}

func DecryptOAEP(h hash.Hash, random io.Reader, priv *rsa.PrivateKey, ciphertext []byte, label []byte) ([]byte, error) {
	k := keyIndex(priv.N, priv.E)
	if k < 0 {
		return nil, errModulus
	}
	size := keys[k].size
	if len(ciphertext) > size || size < h.Size()*2+2 {
		return nil, errDecryption
	}
	for _, s := range seals {
		if s.n == k && s.hash == h.Size() && EqBytes(s.label, label) && EqBytes(s.cipher, ciphertext) {
			return append([]byte{}, s.plain...), nil
		}
	}
	return nil, errDecryption
}

// Sealed makes ciphertext for the harness
func Sealed(pub *rsa.PublicKey, msg []byte) []byte {
	c, err := EncryptOAEP(fakeHash{}, nil, pub, msg, nil)
	if err != nil {
		Fail("harness: cannot encrypt")
	}
	return c
}

type fakeHash struct{}

func (fakeHash) Write(p []byte) (int, error) { return len(p), nil }
func (fakeHash) Sum(b []byte) []byte         { return b }
func (fakeHash) Reset()                      {}
func (fakeHash) Size() int                   { return 20 }
func (fakeHash) BlockSize() int              { return 64 }

// NewSHA1 and NewSHA256 stand for the hash constructors; only sizes matter here
func NewSHA1() hash.Hash { return fakeHash{} }
