//verif:file pkg=pkg/swap props=C19
package swap

import (
	"bytes"
	"encoding/hex"
	"errors"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/btcsuite/btcutil/psbt"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

//verif:model google.golang.org/protobuf/proto.Marshal
func mMarshal(m proto.Message) ([]byte, error) { return []byte(nd.Blob(nd.TypeName(m), m)), nil }

//verif:model google.golang.org/protobuf/proto.Unmarshal
func mUnmarshal(b []byte, m proto.Message) error {
	v, ok := nd.Unblob(nd.TypeName(m), string(b))
	if !ok {
		return errors.New("not this message")
	}
	nd.Assign(m, v)
	return nil
}

var drawn int

//verif:model github.com/thanhpk/randstr.Hex
func mRandom(n int) string {
	drawn++
	return nd.Blob("random", drawn)
}

type secret struct {
	asset string
	value uint64
	key   []byte
}

//verif:model github.com/vulpemventures/go-elements/confidential.UnblindOutputWithKey
func mUnblind(out *transaction.TxOutput, key []byte) (*confidential.UnblindOutputResult, error) {
	v, ok := nd.Unblob("proof", string(out.RangeProof))
	if !ok || !bytes.Equal(v.(secret).key, key) {
		return nil, errors.New("cannot unblind")
	}
	s := v.(secret)
	a, err := hex.DecodeString(s.asset)
	return &confidential.UnblindOutputResult{Value: s.value, Asset: elementsutil.ReverseBytes(a)}, err
}

//verif:model (*github.com/vulpemventures/go-elements/pset.Pset).ValidateAllSignatures
func mValidate(p *pset.Pset) (bool, error) {
	for _, in := range p.Inputs {
		if len(in.PartialSigs) == 0 {
			return false, nil
		}
		for _, s := range in.PartialSigs {
			if string(s.Signature) != "good" {
				return false, nil
			}
		}
	}
	return true, nil
}

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromHex
func mTxFromHex(s string) (*transaction.Transaction, error) {
	if len(s) < 30 {
		return nil, errors.New("not a transaction")
	}
	return &transaction.Transaction{}, nil
}

// ---- building blocks, working the same in the engine and with the real libraries

var assets = []string{
	"5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225",
	"2dcf5a8834645654911964ec3602426fd3b9b4017554d3f9c19403e7fc1411d3",
	"913df69e031ee10891afb44c0c3019ca6c43ab7b453534b642650f594ff38578",
}

const maxValue = 21_000_000_00_000_000

func keyOf(k int) []byte { return bytes.Repeat([]byte{byte(k + 1)}, 32) }
func must(err error) {
	if err != nil {
		panic(err)
	}
}

// scriptOf is the native segwit script of key k.
func scriptOf(k int) []byte {
	s := append([]byte{0, 20}, bytes.Repeat([]byte{byte(k + 1)}, 20)...)
	if !nd.Symbolic() {
		_, pub := btcec.PrivKeyFromBytes(btcec.S256(), keyOf(k))
		copy(s[2:], btcutil.Hash160(pub.SerializeCompressed()))
	}
	return s
}

func plain(asset string, value uint64, k int) *transaction.TxOutput {
	a, err := bufferutil.AssetHashToBytes(asset)
	must(err)
	v, err := bufferutil.ValueToBytes(value)
	must(err)
	return transaction.NewTxOutput(a, v, scriptOf(k))
}

// hidden is a confidential output readable with keyOf(k).
func hidden(asset string, value uint64, k int) *transaction.TxOutput {
	out := plain(asset, value, k)
	if nd.Symbolic() {
		out.Asset = append([]byte{10}, bytes.Repeat([]byte{7}, 32)...)
		out.Value = append([]byte{8}, bytes.Repeat([]byte{9}, 32)...)
		out.Nonce = append([]byte{2}, bytes.Repeat([]byte{5}, 32)...)
		out.RangeProof = []byte(nd.Blob("proof", secret{asset, value, keyOf(k)}))
		out.SurjectionProof = []byte{1}
		return out
	}
	eph, ephPub := btcec.PrivKeyFromBytes(btcec.S256(), keyOf(60+k))
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), keyOf(k))
	nonce, err := confidential.NonceHash(pub.SerializeCompressed(), eph.Serialize())
	must(err)
	abf, vbf := bytes.Repeat([]byte{3}, 32), [32]byte{4}
	raw := append([]byte(nil), out.Asset[1:]...)
	ac, err := confidential.AssetCommitment(raw, abf)
	must(err)
	vc, err := confidential.ValueCommitment(value, ac, vbf[:])
	must(err)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{
		Value: value, Nonce: nonce, Asset: raw, AssetBlindingFactor: abf,
		ValueBlindFactor: vbf, ValueCommit: vc, ScriptPubkey: out.Script, MinBits: 52,
	})
	must(err)
	out.Asset, out.Value, out.Nonce, out.RangeProof, out.SurjectionProof = ac, vc, ephPub.SerializeCompressed(), rp, []byte{1}
	return out
}

// sign adds the signature of key k to an input with a witness utxo.
func sign(p *pset.Pset, i, k int, good bool) {
	if nd.Symbolic() {
		s := "good"
		if !good {
			s = "bad"
		}
		p.Inputs[i].PartialSigs = append(p.Inputs[i].PartialSigs, &psbt.PartialSig{PubKey: []byte{2}, Signature: []byte(s)})
		return
	}
	code, err := txscript.NewScriptBuilder().AddOp(txscript.OP_DUP).AddOp(txscript.OP_HASH160).AddData(scriptOf(k)[2:]).AddOp(txscript.OP_EQUALVERIFY).AddOp(txscript.OP_CHECKSIG).Script()
	must(err)
	h := p.UnsignedTx.HashForWitnessV0(i, code, p.Inputs[i].WitnessUtxo.Value, txscript.SigHashAll)
	if !good {
		h[0] ^= 1
	}
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), keyOf(k))
	sg, err := priv.Sign(h[:])
	must(err)
	p.Inputs[i].PartialSigs = append(p.Inputs[i].PartialSigs, &psbt.PartialSig{PubKey: pub.SerializeCompressed(), Signature: append(sg.Serialize(), byte(txscript.SigHashAll))})
}

func emptyPset(nIn, nOut int) *pset.Pset {
	tx := &transaction.Transaction{Version: 2}
	for i := 0; i < nIn; i++ {
		tx.Inputs = append(tx.Inputs, transaction.NewTxInput(bytes.Repeat([]byte{byte(40 + i)}, 32), 1))
	}
	return &pset.Pset{UnsignedTx: tx, Inputs: make([]pset.PInput, nIn), Outputs: make([]pset.POutput, nOut)}
}

func b64(p *pset.Pset) string {
	s, err := p.ToBase64()
	must(err)
	return s
}

// entry is one coin spent or output created.
type entry struct {
	asset          int
	value          uint64
	hidden         bool
	key            int  // 0 right, 1 wrong, 2 absent
	lost           bool // the previous output is not there
	legacy, script bool
}

func (e entry) seen() bool { return !e.hidden || e.key == 0 }

func out(e entry, k int) *transaction.TxOutput {
	o := plain(assets[e.asset], e.value, k)
	if e.hidden {
		o = hidden(assets[e.asset], e.value, k)
	}
	if !e.script {
		o.Script = []byte{}
	}
	return o
}

// spend makes e the coin spent by input i, key k.
func spend(p *pset.Pset, i int, e entry, k int) {
	o := out(e, k)
	switch {
	case e.lost && e.legacy:
		p.Inputs[i].NonWitnessUtxo = prev(o)
		p.UnsignedTx.Inputs[i].Index = 5
	case e.lost:
	case e.legacy:
		p.Inputs[i].NonWitnessUtxo = prev(plain(assets[2], 7, 50), o)
	default:
		p.Inputs[i].WitnessUtxo = o
	}
}

func prev(outs ...*transaction.TxOutput) *transaction.Transaction {
	return &transaction.Transaction{
		Version: 2,
		Inputs:  []*transaction.TxInput{transaction.NewTxInput(bytes.Repeat([]byte{99}, 32), 0)},
		Outputs: outs,
	}
}

func give(keys map[string][]byte, e entry, k int) {
	s := hex.EncodeToString(out(e, k).Script)
	switch e.key {
	case 0:
		keys[s] = keyOf(k)
	case 1:
		keys[s] = keyOf(k + 20)
	}
}
