//verif:file pkg=pkg/wallet props=C15
package wallet

import (
	"bytes"
	"encoding/hex"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

const maxValue = 21_000_000_00_000_000

var (
	net    = &network.Regtest
	assets = []string{network.Regtest.AssetID, "2dcf5a8834645654911964ec3602426fd3b9b4017554d3f9c19403e7fc1411d3"}
	paths  = []string{"0'/1/0", "5'/1/3"}
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func seedWallet() *Wallet {
	w, err := NewWalletFromMnemonic(NewWalletFromMnemonicOpts{SigningMnemonic: verifkeys.SeedA})
	must(err)
	return w
}

// coins are up to n coins of any value of two assets.
func coins(n int) ([]explorer.Utxo, []uint64, []int) {
	k := nd.Choice("coins", n+1)
	us, vals, kinds := make([]explorer.Utxo, k), make([]uint64, k), make([]int, k)
	for i := range us {
		vals[i], kinds[i] = nd.Uint64("coin", 1, maxValue), nd.Choice("coin asset", 2)
		script := append([]byte{0, 20, byte(100 + i)}, make([]byte, 19)...)
		us[i] = esplora.NewUnconfidentialWitnessUtxo(strings.Repeat("ab", 31)+"0"+string([]byte{byte('0' + i/2)}), uint32(i%2), vals[i], assets[kinds[i]], script)
	}
	return us, vals, kinds
}

func output(asset string, value uint64, id byte) *transaction.TxOutput {
	o, err := newTxOutput(asset, value, append([]byte{0, 20, id}, bytes.Repeat([]byte{7}, 19)...))
	must(err)
	return o
}

// start is the transaction to complete: empty or with something in it.
func start(w *Wallet) (string, int, int) {
	s, err := w.CreateTx()
	must(err)
	if !nd.Bool("begun") {
		return s, 0, 0
	}
	p, err := pset.NewPsetFromBase64(s)
	must(err)
	u := esplora.NewUnconfidentialWitnessUtxo(strings.Repeat("cd", 32), 0, 1000, assets[0], append([]byte{0, 20, 99}, make([]byte, 19)...))
	s, err = addInsAndOutsToPset(p, []explorer.Utxo{u}, []*transaction.TxOutput{output(assets[1], 5, 98)})
	must(err)
	return s, 1, 1
}

// added checks the inputs added and returns what they are worth.
func added(p *pset.Pset, before int, got, us []explorer.Utxo, vals []uint64, kinds []int) [2]uint64 {
	nd.Assert(len(p.UnsignedTx.Inputs) == before+len(got) && len(p.Inputs) == before+len(got), "the inputs are not the selected coins")
	var in [2]uint64
	used := make([]bool, len(us))
	for i, u := range got {
		for j, c := range us {
			if c.Hash() == u.Hash() && c.Index() == u.Index() {
				nd.Assert(!used[j], "a coin is added twice")
				used[j] = true
				in[kinds[j]] += vals[j]
				ti, prev, err := c.Parse()
				nd.Assert(err == nil && bytes.Equal(p.UnsignedTx.Inputs[before+i].Hash, ti.Hash) && p.UnsignedTx.Inputs[before+i].Index == ti.Index, "an input does not spend its coin")
				nd.Assert(sameOutput(p.Inputs[before+i].WitnessUtxo, prev), "an input does not carry its coin")
			}
		}
	}
	n := 0
	for _, b := range used {
		if b {
			n++
		}
	}
	nd.Assert(n == len(got), "a coin is added that was not offered")
	return in
}

func sameOutput(a, b *transaction.TxOutput) bool {
	return a != nil && bytes.Equal(a.Asset, b.Asset) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.Script, b.Script) && bytes.Equal(a.Nonce, b.Nonce) &&
		bytes.Equal(a.RangeProof, b.RangeProof) && bytes.Equal(a.SurjectionProof, b.SurjectionProof)
}

func assetOf(o *transaction.TxOutput) int {
	for i, a := range assets {
		if bufferutil.AssetHashFromBytes(o.Asset) == a {
			return i
		}
	}
	return -1
}

// Completing a transaction with outputs, coins and change for the fee.
//
//verif:harness prop=C15 time=150
//verif:bound up to 2 (thorough 3) coins and 2 outputs of two assets with values up to the supply, rates of 0.1 to 100 per byte
//verif:assume hashing and key derivation have no collisions
func hComplete() {
	nd.MapOrder(true)
	w := seedWallet()
	us, vals, kinds := coins(nd.Bound("coins", 2, 3))
	var outs []*transaction.TxOutput
	var sent [2]uint64
	for i, n := 0, nd.Choice("outputs", 3); i < n; i++ {
		v, a := nd.Uint64("output", 1, maxValue), nd.Choice("output asset", 2)
		outs = append(outs, output(assets[a], v, byte(50+i)))
		sent[a] += v
	}
	s, nIn, nOut := start(w)
	rate := nd.Int("rate", 100, 100000)
	fees, private := nd.Bool("fees"), nd.Bool("private keys")
	res, err := w.UpdateTx(UpdateTxOpts{
		PsetBase64: s, Unspents: us, Outputs: outs, MilliSatsPerBytes: rate, Network: net,
		ChangePathsByAsset:   map[string]string{assets[0]: paths[0], assets[1]: paths[1]},
		WantPrivateBlindKeys: private, WantChangeForFees: fees,
	})
	if err != nil {
		have := [2]uint64{}
		for i := range vals {
			have[kinds[i]] += vals[i]
		}
		nd.Assert(nd.Or(fees, have[0] < sent[0], have[1] < sent[1]), "enough coins are refused")
		nd.Assert(len(us) > 0, "a transaction without coins is refused")
		return
	}
	p, err := pset.NewPsetFromBase64(res.PsetBase64)
	nd.Assert(err == nil, "the result is not a transaction")
	in := added(p, nIn, res.SelectedUnspents, us, vals, kinds)
	tx := p.UnsignedTx
	nd.Assert(len(tx.Outputs) >= nOut+len(outs) && len(p.Outputs) == len(tx.Outputs), "an output is lost")
	if len(us) == 0 {
		nd.Assert(len(tx.Outputs) == nOut+len(outs) && res.FeeAmount == 0, "an output is made up")
		return
	}
	for i, o := range outs {
		nd.Assert(sameOutput(tx.Outputs[nOut+i], o), "a requested output changes")
	}
	out := sent
	changes := tx.Outputs[nOut+len(outs):]
	for i, o := range changes {
		a := assetOf(o)
		nd.Assert(a >= 0, "change of an unknown asset")
		v := bufferutil.ValueFromBytes(o.Value)
		nd.Assert(nd.And(v > 0, v <= maxValue*3), "change of nothing or of a wrapped-around value")
		out[a] += v
		_, script, err := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{DerivationPath: paths[a], Network: net})
		must(err)
		nd.Assert(bytes.Equal(o.Script, script), "change does not go to its address")
		prv, pub, err := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{Script: script})
		must(err)
		want := pub.SerializeCompressed()
		if private {
			want = prv.Serialize()
		}
		nd.Assert(bytes.Equal(res.ChangeOutputsBlindingKeys[hex.EncodeToString(script)], want), "the blinding key of the change is not returned")
		for j := 0; j < i; j++ {
			nd.Assert(assetOf(changes[j]) != a, "two change outputs of an asset")
		}
	}
	nd.Assert(len(res.ChangeOutputsBlindingKeys) == len(changes), "blinding keys of no change are returned")
	nd.Assert(in[0] == out[0]+res.FeeAmount, "the fee asset is not conserved")
	nd.Assert(in[1] == out[1], "an asset is not conserved")
	nd.Assert(fees || res.FeeAmount == 0, "a fee is taken unasked")
	if fees {
		// the fee is that of the transaction as it is, with the fee output to come
		was, err := pset.NewPsetFromBase64(s)
		must(err)
		nd.Assert(res.FeeAmount == calcFeeAmount(was, len(res.SelectedUnspents), len(outs)+len(changes), rate), "the fee is not that of the transaction")
		nd.Cover("fee paid")
	}
}

// Answering a swap.
//
//verif:harness prop=C15 time=60
//verif:bound up to 3 coins of two assets with values up to the supply
//verif:assume hashing and key derivation have no collisions
func hAnswer() {
	w := seedWallet()
	us, vals, kinds := coins(3)
	s, nIn, nOut := start(w)
	give, take := nd.Uint64("given", 0, maxValue), nd.Uint64("taken", 0, maxValue)
	a := nd.Choice("given asset", 2)
	got, sel, err := w.UpdateSwapTx(UpdateSwapTxOpts{
		PsetBase64: s, Unspents: us, InputAmount: give, InputAsset: assets[a], OutputAmount: take, OutputAsset: assets[1-a],
		OutputDerivationPath: "5'/0/1", ChangeDerivationPath: paths[1], Network: net,
	})
	have := uint64(0)
	for i := range vals {
		if kinds[i] == a {
			have += vals[i]
		}
	}
	nd.Assert(nd.Iff(err == nil, nd.And(give > 0, take > 0, have >= give)), "a swap is answered with too little or refused with enough")
	if err != nil {
		return
	}
	p, err := pset.NewPsetFromBase64(got)
	nd.Assert(err == nil, "the result is not a transaction")
	in := added(p, nIn, sel, us, vals, kinds)
	tx := p.UnsignedTx
	nd.Assert(in[1-a] == 0, "a coin of the other asset is spent")
	outs := tx.Outputs[nOut:]
	nd.Assert(len(outs) == 1 || len(outs) == 2, "an output is lost or made up")
	nd.Assert(len(p.Outputs) == len(tx.Outputs), "an output is lost or made up")
	_, script, err := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{DerivationPath: "5'/0/1", Network: net})
	must(err)
	nd.Assert(assetOf(outs[0]) == 1-a && bytes.Equal(outs[0].Script, script) && bufferutil.ValueFromBytes(outs[0].Value) == take, "what is taken is not what was asked")
	change := uint64(0)
	if len(outs) == 2 {
		change = bufferutil.ValueFromBytes(outs[1].Value)
		_, script, err = w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{DerivationPath: paths[1], Network: net})
		must(err)
		nd.Assert(change > 0 && assetOf(outs[1]) == a && bytes.Equal(outs[1].Script, script), "change does not go to its address")
	}
	nd.Assert(in[a] == give+change, "the asset given is not conserved")
}
