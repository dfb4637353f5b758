//verif:file pkg=internal/verifkv props=C27,C41,C28,C34
package verifkv

// Stand-ins for the encryption library: keys are numbered by the password and
// salt they are derived from, what is sealed with one opens only with it. The
// replay runs on the real library.

import (
	"bytes"

	"github.com/btcsuite/btcwallet/snacl"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

type sealKey struct {
	pw   []byte
	salt byte
}

type sealed struct {
	key   byte
	nonce int
	text  []byte
}

var (
	sealKeys []sealKey
	salts    byte
	nonces   int
)

func derive(pw []byte, salt byte) byte {
	for i, k := range sealKeys {
		if k.salt == salt && bytes.Equal(k.pw, pw) {
			return byte(i + 1)
		}
	}
	sealKeys = append(sealKeys, sealKey{append([]byte{}, pw...), salt})
	return byte(len(sealKeys))
}

//verif:model github.com/btcsuite/btcwallet/snacl.NewSecretKey
func mNewSecretKey(pw *[]byte, N, r, p int) (*snacl.SecretKey, error) {
	k := &snacl.SecretKey{Key: &snacl.CryptoKey{}}
	salts++
	k.Key[0] = derive(*pw, salts)
	k.Parameters.Salt[0], k.Parameters.Digest[0] = salts, k.Key[0]
	return k, nil
}

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).DeriveKey
func mDeriveKey(k *snacl.SecretKey, pw *[]byte) error {
	k.Key[0] = derive(*pw, k.Parameters.Salt[0])
	if k.Key[0] != k.Parameters.Digest[0] {
		return snacl.ErrInvalidPassword
	}
	return nil
}

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).Marshal
func mMarshal(k *snacl.SecretKey) []byte {
	b := make([]byte, 88)
	b[0], b[32] = k.Parameters.Salt[0], k.Parameters.Digest[0]
	return b
}

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).Unmarshal
func mUnmarshal(k *snacl.SecretKey, b []byte) error {
	if k.Key == nil {
		k.Key = &snacl.CryptoKey{}
	}
	if len(b) != 88 {
		return snacl.ErrMalformed
	}
	k.Parameters.Salt[0], k.Parameters.Digest[0] = b[0], b[32]
	return nil
}

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).Zero
func mZero(k *snacl.SecretKey) { k.Key[0] = 0 }

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).Encrypt
func mEncrypt(k *snacl.SecretKey, in []byte) ([]byte, error) {
	nonces++
	return []byte(nd.Blob("sealed", sealed{k.Key[0], nonces, append([]byte{}, in...)})), nil
}

//verif:model (*github.com/btcsuite/btcwallet/snacl.SecretKey).Decrypt
func mDecrypt(k *snacl.SecretKey, in []byte) ([]byte, error) {
	v, ok := nd.Unblob("sealed", string(in))
	if !ok {
		return nil, snacl.ErrMalformed
	}
	s := v.(sealed)
	if s.key != k.Key[0] {
		return nil, snacl.ErrDecryptFailed
	}
	return append([]byte{}, s.text...), nil
}
