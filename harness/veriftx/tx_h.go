//verif:file pkg=internal/veriftx props=C22,C23,C24,C25,C32,C33,C37,C39,C40,C42
package veriftx

// Complete transactions: printed in hex they are opaque texts holding them, a
// confidential output holds what it hides together with the key that reads it.
// The replay runs on the real libraries.

import (
	"bytes"
	"encoding/hex"
	"errors"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
)

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromHex
func mTxFromHex(s string) (*transaction.Transaction, error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	v, ok := nd.Unblob("tx", string(b))
	if !ok {
		return nil, errors.New("not a transaction")
	}
	t := v.(transaction.Transaction)
	return &t, nil
}

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).ToHex
func mTxHex(t *transaction.Transaction) (string, error) {
	return hex.EncodeToString([]byte(nd.Blob("tx", *t))), nil
}

// Transactions are told apart by their lock time or else by their first input.
//
//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func mTxHash(t *transaction.Transaction) (h chainhash.Hash) {
	n := byte(t.Locktime)
	if n == 0 && len(t.Inputs) > 0 {
		n = 128 + t.Inputs[0].Hash[0]*4 + byte(t.Inputs[0].Index)
	}
	for i := range h {
		h[i] = n
	}
	return h
}

type secret struct {
	asset string
	value uint64
	key   string
}

//verif:model github.com/vulpemventures/go-elements/confidential.UnblindOutputWithKey
func mUnblind(out *transaction.TxOutput, key []byte) (*confidential.UnblindOutputResult, error) {
	v, ok := nd.Unblob("proof", string(out.RangeProof))
	if !ok || v.(secret).key != string(key) {
		return nil, errors.New("cannot unblind")
	}
	s := v.(secret)
	a, err := hex.DecodeString(s.asset)
	return &confidential.UnblindOutputResult{
		Value: s.value, Asset: elementsutil.ReverseBytes(a),
		AssetBlindingFactor: bytes.Repeat([]byte{3}, 32), ValueBlindingFactor: bytes.Repeat([]byte{4}, 32),
	}, err
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// New is a transaction told apart from others by its number.
func New(number uint32) *transaction.Transaction {
	return &transaction.Transaction{Version: 2, Locktime: number}
}

// Foreign is the script of some other wallet.
func Foreign(k byte) []byte { return append([]byte{0, 20, 200, k}, make([]byte, 18)...) }

// Plain is an output everyone can read.
func Plain(asset string, value uint64, script []byte) *transaction.TxOutput {
	a, err := bufferutil.AssetHashToBytes(asset)
	must(err)
	v, err := bufferutil.ValueToBytes(value)
	must(err)
	return transaction.NewTxOutput(a, v, script)
}

// Hidden is an output only the private key given can read.
func Hidden(asset string, value uint64, script, key []byte) *transaction.TxOutput {
	out := Plain(asset, value, script)
	if nd.Symbolic() {
		out.Asset = append([]byte{10}, bytes.Repeat([]byte{7}, 32)...)
		out.Value = append([]byte{8}, bytes.Repeat([]byte{9}, 32)...)
		out.Nonce = append([]byte{2}, bytes.Repeat([]byte{5}, 32)...)
		out.RangeProof = []byte(nd.Blob("proof", secret{asset, value, string(key)}))
		out.SurjectionProof = []byte{1}
		return out
	}
	eph, ephPub := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{60}, 32))
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), key)
	nonce, err := confidential.NonceHash(pub.SerializeCompressed(), eph.Serialize())
	must(err)
	abf, vbf := bytes.Repeat([]byte{3}, 32), [32]byte{4}
	raw := append([]byte(nil), out.Asset[1:]...)
	ac, err := confidential.AssetCommitment(raw, abf)
	must(err)
	vc, err := confidential.ValueCommitment(value, ac, vbf[:])
	must(err)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{
		Value: value, Nonce: nonce, Asset: raw, AssetBlindingFactor: abf,
		ValueBlindFactor: vbf, ValueCommit: vc, ScriptPubkey: out.Script, MinBits: 52,
	})
	must(err)
	out.Asset, out.Value, out.Nonce, out.RangeProof, out.SurjectionProof = ac, vc, ephPub.SerializeCompressed(), rp, []byte{1}
	return out
}

// Spend is an input spending a coin with a witness.
func Spend(txid string, vout uint32, witness ...[]byte) *transaction.TxInput {
	h, err := bufferutil.TxIDToBytes(txid)
	must(err)
	in := transaction.NewTxInput(h, vout)
	in.Witness = witness
	return in
}

// Hex prints a transaction.
func Hex(t *transaction.Transaction) string {
	s, err := t.ToHex()
	must(err)
	return s
}

// ID is the id of a transaction.
func ID(t *transaction.Transaction) string { return t.TxHash().String() }

// Key is any key that is not the wallet's.
func Key() []byte {
	b, err := hex.DecodeString("02" + strings.Repeat("79", 32))
	must(err)
	if !nd.Symbolic() {
		_, pub := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{9}, 32))
		b = pub.SerializeCompressed()
	}
	return b
}

// Pub is the public signing key at a path of SeedA.
func Pub(path string) []byte {
	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: verifkeys.SeedA})
	if err != nil {
		panic(err)
	}
	_, pub, err := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: path})
	if err != nil {
		panic(err)
	}
	return pub.SerializeCompressed()
}

// Blinders are those of an output the key reads.
func Blinders(out *transaction.TxOutput, key []byte) (value, asset []byte) {
	r, err := confidential.UnblindOutputWithKey(out, key)
	must(err)
	return r.ValueBlindingFactor, r.AssetBlindingFactor
}
