//verif:file pkg=internal/core/application props=C39
package application

import (
	"bytes"
	"encoding/hex"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// bid is a swap request with blinding keys.
type bid struct {
	ask
	ins, outs map[string][]byte
}

func (b bid) GetInputBlindingKey() map[string][]byte  { return b.ins }
func (b bid) GetOutputBlindingKey() map[string][]byte { return b.outs }

func copied(m map[string][]byte) map[string][]byte {
	c := map[string][]byte{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// purse is the provider: coins of known keys.
type purse struct {
	vault *domain.Vault
	infos map[string]domain.AddressInfo // by script
	coins map[domain.UnspentKey]domain.Unspent
	id    byte
}

func (p *purse) info(account int, change bool) domain.AddressInfo {
	next := p.vault.DeriveNextExternalAddressForAccount
	if change {
		next = p.vault.DeriveNextInternalAddressForAccount
	}
	i, err := next(account)
	must(err)
	p.infos[i.Script] = *i
	return *i
}

func (p *purse) coin(account int, asset string, secret bool) (explorer.Utxo, domain.AddressInfo) {
	i := p.info(account, false)
	p.id++
	c := domain.Unspent{
		TxID: strings.Repeat("a", 62) + "0" + string([]byte{'0' + p.id}), VOut: uint32(p.id), Value: nd.Uint64("coin", 1, supply), AssetHash: asset,
		ScriptPubKey: script(i), Address: i.Address, Confirmed: true, Nonce: []byte{0},
	}
	if secret {
		c.ValueCommitment, c.AssetCommitment = strings.Repeat("09", 33), strings.Repeat("0a", 33)
		c.ValueBlinder, c.AssetBlinder = bytes.Repeat([]byte{20 + p.id}, 32), bytes.Repeat([]byte{40 + p.id}, 32)
		c.Nonce, c.RangeProof, c.SurjectionProof = veriftx.Key(), []byte{1}, []byte{1}
	} else {
		c.ValueBlinder, c.AssetBlinder = make([]byte, 32), make([]byte, 32)
	}
	p.coins[c.Key()] = c
	return c.ToUtxo(), i
}

// The daemon completes and signs the transaction of an accepted swap.
//
//verif:harness prop=C39 time=210 replays=12
//verif:bound a proposal of one or two inputs, confidential or not, given with their output or their whole transaction, and one or two outputs, one of them possibly odd (a fee output, no key, confidential already), one input possibly unreadable; up to two (thorough three) coins of the market and two of the fee account (not both in quick), confidential or not; any amounts
//verif:assume hashing and key derivation have no collisions, the libraries blind and sign as modelled
func hFill() {
	nd.MapFlip()
	domain.EncrypterManager = openSeed{}
	domain.MnemonicStoreManager.Unset()
	vault, err := domain.NewVault(verifkeys.SeedA, "pass", &network.Regtest)
	must(err)
	p := &purse{vault: vault, infos: map[string]domain.AddressInfo{}, coins: map[domain.UnspentKey]domain.Unspent{}}
	gets, gives := base, quote // of the market
	if nd.Bool("the market gives the base asset") {
		gets, gives = quote, base
	}
	secret := nd.Bool("confidential coins")

	o := FillProposalOpts{Mnemonic: verifkeys.SeedA, Network: &network.Regtest}
	have, fees := uint64(0), uint64(0)
	odd := nd.Choice("odd", 5)
	coins := 1
	if odd == 0 || nd.Thorough() {
		coins = nd.Choice("market coins", nd.Bound("market coins", 2, 3)+1)
	}
	for i := 0; i < coins; i++ {
		u, info := p.coin(mAccount, gives, secret)
		o.MarketUtxos, o.MarketInfo = append(o.MarketUtxos, u), append(o.MarketInfo, info)
		have += u.Value()
	}
	u, info := p.coin(mAccount, gets, secret)
	o.MarketUtxos, o.MarketInfo = append(o.MarketUtxos, u), append(o.MarketInfo, info)
	feeCoins := 1
	if odd == 0 && coins < 2 || nd.Thorough() {
		feeCoins += nd.Choice("fee coins", 2)
	}
	for i := 0; i < feeCoins; i++ {
		u, info := p.coin(domain.FeeAccount, base, secret)
		o.FeeUtxos, o.FeeInfo = append(o.FeeUtxos, u), append(o.FeeInfo, info)
		fees += u.Value()
	}
	o.OutputInfo, o.ChangeInfo, o.FeeChangeInfo = p.info(mAccount, false), p.info(mAccount, true), p.info(domain.FeeAccount, true)

	// the proposal
	r := bid{ask: ask{id: "id", p: nd.Uint64("amount p", 1, supply), r: nd.Uint64("amount r", 1, supply), ap: gets, ar: gives}, ins: map[string][]byte{}, outs: map[string][]byte{}}
	tx := veriftx.New(0)
	x := &pset.Pset{UnsignedTx: tx}
	var theirs []confidential.UnblindOutputResult
	n := 1
	if odd == 0 && (feeCoins == 1 || nd.Thorough()) || odd == 1 {
		n += nd.Choice("inputs", 2)
	}
	for i := 0; i < n; i++ {
		k := byte(70 + i)
		s, key, v := veriftx.Foreign(k), bytes.Repeat([]byte{k}, 32), nd.Uint64("input", 1, supply)
		out := veriftx.Plain(gets, v, s)
		if nd.Bool("confidential input") || odd == 1 && i == n-1 {
			out = veriftx.Hidden(gets, v, s, key)
		}
		r.ins[hex.EncodeToString(s)] = key
		if odd == 1 && i == n-1 {
			r.ins[hex.EncodeToString(s)] = bytes.Repeat([]byte{99}, 32)
		}
		in := veriftx.Spend(strings.Repeat("b", 63)+string([]byte{'1' + byte(i)}), 0)
		pin := pset.PInput{WitnessUtxo: out}
		if i == 0 && (coins == 1 || nd.Thorough()) && nd.Bool("whole transaction") {
			w := veriftx.New(uint32(k))
			w.Outputs = []*transaction.TxOutput{out}
			pin = pset.PInput{NonWitnessUtxo: w}
		}
		tx.Inputs, x.Inputs = append(tx.Inputs, in), append(x.Inputs, pin)
		if odd != 1 {
			f, err := pset.PrivateBlindingKey(key).GetUnblindOutputResult(out)
			must(err)
			theirs = append(theirs, *f)
		}
	}
	outs := 1
	if odd == 0 {
		outs += nd.Choice("outputs", 2)
	} else if odd > 1 {
		outs = 2
	}
	for i := 0; i < outs; i++ {
		k := byte(80 + i)
		s, key, asset, v := veriftx.Foreign(k), bytes.Repeat([]byte{k}, 32), gives, r.r
		if i == 1 {
			asset, v = gets, nd.Uint64("change", 1, supply)
		}
		out := veriftx.Plain(asset, v, s)
		if i == 1 && odd == 2 {
			out.Script, s = []byte{}, nil
		}
		if i == 1 && odd == 3 {
			out = veriftx.Hidden(asset, v, s, key)
		}
		if !(i == 1 && odd == 4) {
			r.outs[hex.EncodeToString(s)] = key
		}
		tx.Outputs, x.Outputs = append(tx.Outputs, out), append(x.Outputs, pset.POutput{})
	}
	r.tx, err = x.ToBase64()
	must(err)
	was, err := pset.NewPsetFromBase64(r.tx)
	must(err)
	ins, outkeys := copied(r.ins), copied(r.outs)
	o.SwapRequest = r

	var res *FillProposalResult
	nd.Assert(!nd.Panics(func() { res, err = TradeManager.FillProposal(o) }), "a proposal crashes the daemon")
	if err != nil || res == nil {
		nd.Assert(!nd.And(odd == 0, have >= r.r, fees > 100000), "a swap that can be filled is refused")
		return
	}
	nd.Assert(odd == 0, "an odd proposal is signed")
	nd.Assert(nd.And(have >= r.r, fees > 0), "a swap is filled without funds")
	got, err := pset.NewPsetFromBase64(res.PsetBase64)
	must(err)
	t := got.UnsignedTx
	if odd != 0 || len(t.Inputs) < n || len(t.Outputs) < outs {
		nd.Assert(false, "the proposer's part is missing")
		return
	}

	// the proposer's part
	nd.Assert(t.Version == was.UnsignedTx.Version && t.Locktime == was.UnsignedTx.Locktime, "the transaction is another one")
	for i := 0; i < n; i++ {
		a, b := was.UnsignedTx.Inputs[i], t.Inputs[i]
		nd.Assert(bytes.Equal(a.Hash, b.Hash) && a.Index == b.Index && a.Sequence == b.Sequence, "an input of the proposer changes")
		nd.Assert(len(got.Inputs[i].PartialSigs) == 0, "an input of the proposer is signed")
		if w := was.Inputs[i].WitnessUtxo; w != nil {
			nd.Assert(veriftx.SameOutput(w, got.Inputs[i].WitnessUtxo), "the coin of the proposer changes")
		}
	}
	keys := map[int][]byte{}
	for i := 0; i < outs; i++ {
		a, b := was.UnsignedTx.Outputs[i], t.Outputs[i]
		nd.Assert(bytes.Equal(a.Script, b.Script) && b.IsConfidential(), "an output of the proposer is redirected or not blinded")
		keys[i] = outkeys[hex.EncodeToString(a.Script)]
		asset, v, ok := veriftx.Read(b, keys[i])
		wasAsset, wasV, _ := veriftx.Read(a, nil)
		nd.Assert(ok && asset == wasAsset && v == wasV, "an output of the proposer changes")
	}

	// the coins
	all := theirs
	sel := map[string]bool{}
	used := map[domain.UnspentKey]bool{}
	in := map[bool]uint64{} // by: fee account
	nd.Assert(len(t.Inputs) == n+len(res.SelectedUnspents) && len(got.Inputs) == len(t.Inputs), "the inputs are not those selected")
	for i, u := range res.SelectedUnspents {
		if n+i >= len(t.Inputs) {
			return
		}
		c, ok := p.coins[domain.UnspentKey{TxID: u.Hash(), VOut: u.Index()}]
		nd.Assert(ok && !used[c.Key()], "a coin is made up or used twice")
		used[c.Key()] = true
		ti, prev, err := c.ToUtxo().Parse()
		must(err)
		nd.Assert(bytes.Equal(ti.Hash, t.Inputs[n+i].Hash) && ti.Index == t.Inputs[n+i].Index, "an input is not the coin selected")
		w := got.Inputs[n+i].WitnessUtxo
		nd.Assert(w != nil && bytes.Equal(w.Script, prev.Script) && bytes.Equal(w.Asset, prev.Asset) && bytes.Equal(w.Value, prev.Value), "an input does not carry its coin")
		ok, err = got.ValidateInputSignatures(n + i)
		nd.Assert(err == nil && ok && len(got.Inputs[n+i].PartialSigs) == 1, "a coin is not signed for this transaction with its key")
		s := hex.EncodeToString(c.ScriptPubKey)
		sel[s] = true
		fee := false
		for _, f := range o.FeeInfo {
			fee = fee || f.Script == s
		}
		nd.Assert(fee || c.AssetHash == gives, "a coin of the market is spent that is not asked for")
		in[fee] += c.Value
		raw, err := hex.DecodeString(c.AssetHash)
		must(err)
		for a, b := 0, len(raw)-1; a < b; a, b = a+1, b-1 {
			raw[a], raw[b] = raw[b], raw[a]
		}
		all = append(all, confidential.UnblindOutputResult{Asset: raw, Value: c.Value, ValueBlindingFactor: c.ValueBlinder, AssetBlindingFactor: c.AssetBlinder})
		nd.Assert(bytes.Equal(res.InputBlindingKeys[s], p.infos[s].BlindingKey), "the key of a coin is not told")
	}
	for s, k := range ins {
		nd.Assert(bytes.Equal(res.InputBlindingKeys[s], k), "a key of the proposer's inputs changes")
	}
	for s := range res.InputBlindingKeys {
		_, own := ins[s]
		nd.Assert(own || sel[s], "the key of another address is told")
	}

	// the outputs
	fee, out, income, change := uint64(0), map[bool]uint64{}, 0, 0
	for i := outs; i < len(t.Outputs); i++ {
		b := t.Outputs[i]
		if len(b.Script) == 0 {
			asset, v, _ := veriftx.Read(b, nil)
			nd.Assert(asset == base && !b.IsConfidential() && fee == 0 && v > 0, "the network fee is not one explicit output")
			fee = v
			continue
		}
		s := hex.EncodeToString(b.Script)
		keys[i] = p.infos[s].BlindingKey
		asset, v, ok := veriftx.Read(b, keys[i])
		nd.Assert(ok && b.IsConfidential(), "an output of the provider cannot be read with its key")
		nd.Assert(bytes.Equal(res.OutputBlindingKeys[s], keys[i]), "the key of an output is not told")
		switch s {
		case o.OutputInfo.Script:
			income++
			nd.Assert(asset == gets && v == r.p, "the market does not get what it is due")
		case o.ChangeInfo.Script:
			change++
			nd.Assert(asset == gives && v > 0, "the change is of another asset")
			out[false] += v
		case o.FeeChangeInfo.Script:
			nd.Assert(asset == base && v > 0, "the change of the fee account is of another asset")
			out[true] += v
		default:
			nd.Assert(false, "an output goes to nobody")
		}
	}
	nd.Assert(income == 1 && change <= 1, "the market is not paid once")
	nd.Assert(in[false] == out[false]+r.r, "the market gives another amount")
	nd.Assert(fee > 0 && in[true] == out[true]+fee, "the fee account does not pay just the fee")
	for s, k := range outkeys {
		nd.Assert(bytes.Equal(res.OutputBlindingKeys[s], k), "a key of the proposer's outputs changes")
	}
	for s := range res.OutputBlindingKeys {
		_, own := outkeys[s]
		nd.Assert(own || s == o.OutputInfo.Script || s == o.ChangeInfo.Script || s == o.FeeChangeInfo.Script, "the key of another address is told")
	}
	nd.Assert(veriftx.Sound(got, all, keys), "the outputs are not blinded to match the inputs")
	nd.Cover("filled")
	if change == 0 {
		nd.Cover("no change")
	}
	if secret {
		nd.Cover("confidential")
	}
}
