//verif:file pkg=pkg/wallet props=C12
package wallet

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"errors"
	"strings"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// Stand-ins for the cryptographic primitives: a key is its derivation, a
// sealed text opens only under the key and nonce it was sealed with.

var randomFails bool

//verif:model crypto/rand.Read
func mRandom(b []byte) (int, error) {
	if randomFails {
		return 0, errors.New("no randomness")
	}
	copy(b, nd.Bytes("random", len(b)))
	return len(b), nil
}

type keyOf struct {
	pass, salt string
	n, r, p    int
}

//verif:model golang.org/x/crypto/scrypt.Key
func mScrypt(pass, salt []byte, n, r, p, keyLen int) ([]byte, error) {
	if keyLen != 32 || n < 1<<14 {
		return nil, errors.New("weak key")
	}
	return []byte(nd.Blob("scrypt", keyOf{string(pass), string(salt), n, r, p})), nil
}

type sealedText struct {
	key, nonce, text, plain string
}

var sealedTexts []sealedText

type modelCipher struct {
	cipher.Block
	key string
}

//verif:model crypto/aes.NewCipher
func mCipher(key []byte) (cipher.Block, error) { return &modelCipher{nil, string(key)}, nil }

type modelAEAD struct{ key string }

//verif:model crypto/cipher.NewGCM
func mGCM(b cipher.Block) (cipher.AEAD, error) { return &modelAEAD{b.(*modelCipher).key}, nil }

func (a *modelAEAD) NonceSize() int { return 12 }
func (a *modelAEAD) Overhead() int  { return 16 }
func (a *modelAEAD) Seal(dst, nonce, plain, extra []byte) []byte {
	text := nd.Bytes("sealed", len(plain)+16)
	for _, s := range sealedTexts {
		nd.Assume(s.nonce != string(nonce))
	}
	sealedTexts = append(sealedTexts, sealedText{a.key, string(nonce), string(text), string(plain)})
	return append(dst, text...)
}
func (a *modelAEAD) Open(dst, nonce, text, extra []byte) ([]byte, error) {
	for _, s := range sealedTexts {
		if s.key == a.key && s.nonce == string(nonce) && s.text == string(text) {
			return append(dst, s.plain...), nil
		}
	}
	return nil, errors.New("cipher: message authentication failed")
}

//verif:model (*encoding/base64.Encoding).EncodeToString
func mBase64(e *base64.Encoding, b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return nd.Blob("base64", b)
}

//verif:model (*encoding/base64.Encoding).DecodeString
func mUnbase64(e *base64.Encoding, s string) ([]byte, error) {
	v, ok := nd.Unblob("base64", s)
	if !ok {
		return nil, errors.New("not base64")
	}
	return append([]byte(nil), v.([]byte)...), nil
}

var (
	_ = aes.NewCipher
	_ = strings.Repeat
)

func text(label string, max int) string {
	return string(nd.Bytes(label, nd.Choice(label+" length", max+1)))
}

// HMAC, and so scrypt, takes a password and the same with NUL bytes appended
// for one.
func secret(label string, max int) string {
	s := text(label, max)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != 0)
	}
	return s
}

// A text comes back under the password it was encrypted with, and under no other.
//
//verif:harness prop=C12 time=60 replays=2
//verif:bound texts of up to 3 and passwords of up to 2 (thorough 3) arbitrary non-zero bytes
//verif:assume scrypt has no collisions; random nonces do not repeat; AES-GCM opens only what was sealed under the same key and nonce
func hSeal() {
	m, p := text("text", 3), secret("password", nd.Bound("password length", 2, 3))
	c, err := Encrypt(EncryptOpts{PlainText: m, Passphrase: p})
	nd.Assert((err != nil) == (m == "" || p == ""), "encryption is judged wrongly")
	if err != nil {
		nd.Assert(c == "", "a refused encryption returns a text")
		return
	}
	q := secret("other password", nd.Bound("password length", 2, 3))
	got, err := Decrypt(DecryptOpts{CypherText: c, Passphrase: q})
	nd.Assert((err == nil) == (p == q), "a wrong password decrypts or the right one does not")
	nd.Assert(err != nil || got == m, "decryption returns another text")
	nd.Assert(err == nil || got == "", "a failed decryption returns a text")
}

// Anything that was not encrypted is refused.
//
//verif:harness prop=C12 time=60 replays=3
//verif:bound cipher texts of 0-3, 31-33, 43-46 and 60-61 arbitrary bytes
//verif:assume no forgery of AES-GCM
func hOpenGarbage() {
	n := []int{0, 1, 2, 3, 31, 32, 33, 43, 44, 45, 46, 60, 61}[nd.Choice("length", 13)]
	s := base64.StdEncoding.EncodeToString(nd.Bytes("data", n))
	_, err := Decrypt(DecryptOpts{CypherText: s, Passphrase: secret("password", 1)})
	nd.Assert(err != nil, "garbage is decrypted")
}
