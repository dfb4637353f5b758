//verif:file pkg=internal/veriftx props=C24,C33,C37,C39,C40
package veriftx

// Completing, blinding and signing a partial transaction, as the libraries do.

import (
	"bytes"
	"encoding/hex"
	"errors"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil/psbt"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

type blinding struct {
	p   *pset.Pset
	ins []confidential.UnblindOutputResult
	out map[int][]byte
}

var blindings = map[*pset.Blinder]blinding{}

// what the last blinder was told about the inputs
var lastIns []confidential.UnblindOutputResult

// The blinder reads its inputs with the keys or data given.
//
//verif:model github.com/vulpemventures/go-elements/pset.NewBlinder
func mBlinder(p *pset.Pset, data []pset.BlindingDataLike, out map[int][]byte, issuance []pset.IssuanceBlindingPrivateKeys, rng func() ([]byte, error)) (*pset.Blinder, error) {
	if len(data) != len(p.Inputs) {
		return nil, errors.New("inputs blinding data do not match the number of inputs")
	}
	ins := make([]confidential.UnblindOutputResult, len(data))
	for i, d := range data {
		r, err := d.GetUnblindOutputResult(p.Inputs[i].WitnessUtxo)
		if err != nil {
			return nil, err
		}
		ins[i] = *r
	}
	b := &pset.Blinder{}
	blindings[b] = blinding{p, ins, out}
	lastIns = ins
	return b, nil
}

// The values of inputs and blinded outputs must match for the proofs to hold,
// except for the fee left out so far; that is checked where the transaction
// is published.
//
//verif:model (*github.com/vulpemventures/go-elements/pset.Blinder).Blind
func mBlind(b *pset.Blinder) error {
	d := blindings[b]
	known := 0
	for i, o := range d.p.UnsignedTx.Outputs {
		pub, ok := d.out[i]
		if ok {
			known++
		}
		if ok && len(o.Script) == 0 {
			return errors.New("values and blinders differ in number")
		}
		if !ok {
			continue
		}
		found := false
		for _, in := range d.ins {
			found = found || bytes.Equal(in.Asset, o.Asset[1:])
		}
		if !found {
			return pset.ErrGenerateSurjectionProof
		}
		v, err := elementsutil.ElementsToSatoshiValue(o.Value)
		if err != nil {
			return err
		}
		prv, _ := nd.Unblob("pub", string(pub))
		key, own := prv.(string)
		if !own {
			key = "private key of " + string(pub)
		}
		*o = *Hidden(bufferutil.AssetHashFromBytes(o.Asset), v, o.Script, []byte(key))
	}
	if known != len(d.out) {
		panic("no such output")
	}
	return nil
}

//verif:model github.com/vulpemventures/go-elements/payment.FromScript
func mFromScript(script []byte, net *network.Network, blind *btcec.PublicKey) (*payment.Payment, error) {
	if len(script) == 0 {
		return nil, errors.New("payment's script can't be empty or nil")
	}
	return &payment.Payment{Script: append([]byte{0x76}, script[2:]...), WitnessScript: script, BlindingKey: blind}, nil
}

// digest is what is signed.
type digest struct {
	tx            string // a copy
	in            int
	script, value []byte
}

var (
	digests []digest
	signed  = map[*btcec.Signature]byte{}
)

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).HashForWitnessV0
func mDigest(t *transaction.Transaction, in int, script, value []byte, kind txscript.SigHashType) (h [32]byte) {
	h[0] = byte(len(digests))
	digests = append(digests, digest{nd.Blob("tx", *t), in, script, value})
	return h
}

//verif:model (*github.com/btcsuite/btcd/btcec.PrivateKey).Sign
func mSign(k *btcec.PrivateKey, hash []byte) (*btcec.Signature, error) {
	s := &btcec.Signature{}
	signed[s] = hash[0]
	return s, nil
}

//verif:model (*github.com/btcsuite/btcd/btcec.Signature).Verify
func mVerify(s *btcec.Signature, hash []byte, k *btcec.PublicKey) bool { return true }

//verif:model (*github.com/btcsuite/btcd/btcec.Signature).Serialize
func mSigBytes(s *btcec.Signature) []byte {
	b := bytes.Repeat([]byte{48}, 70)
	b[1] = signed[s]
	return b
}

//verif:model (*github.com/vulpemventures/go-elements/pset.Updater).Sign
func mPsetSign(u *pset.Updater, in int, sig, pub, redeem, witness []byte) (psbt.SignOutcome, error) {
	i := &u.Data.Inputs[in]
	if i.WitnessUtxo == nil {
		return psbt.SignInvalid, errors.New("no coin")
	}
	k, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil || redeem != nil || witness != nil || !bytes.Equal(payment.FromPublicKey(k, &network.Regtest, nil).WitnessScript, i.WitnessUtxo.Script) {
		return psbt.SignInvalid, psbt.ErrInvalidSignatureForInput
	}
	i.PartialSigs = append(i.PartialSigs, &psbt.PartialSig{PubKey: pub, Signature: sig})
	return psbt.SignSuccesful, nil
}

// A signature is that of the key of the coin for this transaction.
//
//verif:model (*github.com/vulpemventures/go-elements/pset.Pset).ValidateAllSignatures
func mValid(p *pset.Pset) (bool, error) {
	for i := range p.Inputs {
		ok, err := mInputValid(p, i)
		if err != nil || !ok {
			return false, err
		}
	}
	return true, nil
}

//verif:model (*github.com/vulpemventures/go-elements/pset.Pset).ValidateInputSignatures
func mInputValid(p *pset.Pset, i int) (bool, error) {
	in := p.Inputs[i]
	if len(in.PartialSigs) == 0 {
		return false, nil
	}
	for _, s := range in.PartialSigs {
		k, err := btcec.ParsePubKey(s.PubKey, btcec.S256())
		if err != nil {
			return false, err
		}
		if !bytes.Equal(payment.FromPublicKey(k, &network.Regtest, nil).WitnessScript, in.WitnessUtxo.Script) {
			return false, nil
		}
		d := digests[s.Signature[1]]
		v, _ := nd.Unblob("tx", d.tx)
		t := v.(transaction.Transaction)
		if d.in != i || !bytes.Equal(d.script[1:], in.WitnessUtxo.Script[2:]) || !bytes.Equal(d.value, in.WitnessUtxo.Value) || !sameTx(&t, p.UnsignedTx) {
			return false, nil
		}
	}
	return true, nil
}

func sameTx(a, b *transaction.Transaction) bool {
	if len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) {
		return false
	}
	for i, x := range a.Inputs {
		if !bytes.Equal(x.Hash, b.Inputs[i].Hash) || x.Index != b.Inputs[i].Index || x.Sequence != b.Inputs[i].Sequence {
			return false
		}
	}
	for i, x := range a.Outputs {
		if !SameOutput(x, b.Outputs[i]) {
			return false
		}
	}
	return a.Version == b.Version && a.Locktime == b.Locktime
}

// SameOutput compares two outputs.
func SameOutput(a, b *transaction.TxOutput) bool {
	return a != nil && b != nil && bytes.Equal(a.Asset, b.Asset) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.Script, b.Script) && bytes.Equal(a.Nonce, b.Nonce) &&
		bytes.Equal(a.RangeProof, b.RangeProof)
}

// Sound says if the outputs are blinded with the inputs given in mind.
func Sound(p *pset.Pset, ins []confidential.UnblindOutputResult, keys map[int][]byte) bool {
	if nd.Symbolic() {
		if len(ins) != len(lastIns) {
			return false
		}
		for i, in := range ins {
			o := lastIns[i]
			if !bytes.Equal(in.Asset, o.Asset) || in.Value != o.Value || !bytes.Equal(in.AssetBlindingFactor, o.AssetBlindingFactor) || !bytes.Equal(in.ValueBlindingFactor, o.ValueBlindingFactor) {
				return false
			}
		}
		return true
	}
	var data []pset.BlindingDataLike
	args := confidential.FinalValueBlindingFactorArgs{}
	for _, in := range ins {
		data = append(data, pset.BlindingData(in))
		args.InValues = append(args.InValues, in.Value)
		args.InGenerators = append(args.InGenerators, in.AssetBlindingFactor)
		args.InFactors = append(args.InFactors, in.ValueBlindingFactor)
	}
	ok, err := pset.VerifyBlinding(p, data, keys, nil)
	if err != nil || !ok {
		return false
	}
	var last []byte
	for i, o := range p.UnsignedTx.Outputs {
		if !o.IsConfidential() {
			continue
		}
		r, err := confidential.UnblindOutputWithKey(o, keys[i])
		if err != nil {
			return false
		}
		if last != nil {
			args.OutFactors = append(args.OutFactors, last)
		}
		last = r.ValueBlindingFactor
		args.OutValues = append(args.OutValues, r.Value)
		args.OutGenerators = append(args.OutGenerators, r.AssetBlindingFactor)
	}
	f, err := confidential.FinalValueBlindingFactor(args)
	return err == nil && bytes.Equal(f[:], last)
}

//verif:model github.com/vulpemventures/go-elements/pset.FinalizeAll
func mFinalize(p *pset.Pset) error { return nil }

//verif:model github.com/vulpemventures/go-elements/pset.Extract
func mExtract(p *pset.Pset) (*transaction.Transaction, error) {
	t := *p.UnsignedTx
	t.Inputs = nil
	for i, in := range p.UnsignedTx.Inputs {
		c := *in
		s := p.Inputs[i].PartialSigs[0]
		c.Witness = transaction.TxWitness{s.Signature, s.PubKey}
		t.Inputs = append(t.Inputs, &c)
	}
	return &t, nil
}

// Read is what an output holds for the owner of a private key.
func Read(out *transaction.TxOutput, key []byte) (asset string, value uint64, ok bool) {
	if !out.IsConfidential() {
		return bufferutil.AssetHashFromBytes(out.Asset), bufferutil.ValueFromBytes(out.Value), true
	}
	r, err := confidential.UnblindOutputWithKey(out, key)
	if err != nil || r == nil {
		return "", 0, false
	}
	return hex.EncodeToString(elementsutil.ReverseBytes(append([]byte(nil), r.Asset...))), r.Value, true
}

// Parse reads a printed transaction.
func Parse(s string) *transaction.Transaction {
	t, err := transaction.NewTxFromHex(s)
	must(err)
	return t
}

// Stranger is an address of another wallet with its script and private blinding key.
func Stranger() (addr string, script, key []byte) {
	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: verifkeys.SeedB})
	must(err)
	addr, script, err = w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: "0'/0/0", Network: &network.Regtest})
	must(err)
	prv, _, err := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
	must(err)
	return addr, script, prv.Serialize()
}
