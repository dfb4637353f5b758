//verif:file pkg=internal/core/application props=C24,C37,C40
package application

import (
	"bytes"
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
)

// relay broadcasts transactions, or not.
type relay struct {
	explorer.Service
	sent  []string
	fails bool
}

func (r *relay) BroadcastTransaction(tx string) (string, error) {
	if r.fails {
		return "", errors.New("rejected")
	}
	r.sent = append(r.sent, tx)
	return veriftx.ID(veriftx.Parse(tx)), nil
}

// open is a coin everyone can read.
func (p *place) open(account int, id byte, asset string, value uint64) domain.Unspent {
	c := p.coin(account, id, asset, value)
	c.ValueCommitment, c.AssetCommitment, c.ValueBlinder, c.AssetBlinder, c.Nonce = "", "", nil, nil, []byte{0}
	return c
}

// owned are the keys of the addresses of an account by script.
func (p *place) owned(account int) map[string]domain.AddressInfo {
	v, err := p.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	must(err)
	infos, err := v.AllDerivedAddressesInfoForAccount(account)
	must(err)
	m := map[string]domain.AddressInfo{}
	for _, i := range infos {
		m[i.Script] = i
	}
	return m
}

// moved adds up what a transaction takes from and gives to accounts, and what
// it gives to another wallet and to the miners.
type moved struct {
	in, out map[int]map[string]uint64
	away    map[string]uint64
	fee     uint64
	spends  map[domain.UnspentKey]bool
	back    []domain.Unspent // what the accounts get
}

func (p *place) moves(tx *transaction.Transaction, coins map[domain.UnspentKey]domain.Unspent, accounts ...int) moved {
	m := moved{in: map[int]map[string]uint64{}, out: map[int]map[string]uint64{}, away: map[string]uint64{}, spends: map[domain.UnspentKey]bool{}}
	own := map[int]map[string]domain.AddressInfo{}
	for _, a := range accounts {
		m.in[a], m.out[a], own[a] = map[string]uint64{}, map[string]uint64{}, p.owned(a)
	}
	for _, in := range tx.Inputs {
		k := domain.UnspentKey{TxID: bufferutil.TxIDFromBytes(in.Hash), VOut: in.Index}
		c, ok := coins[k]
		nd.Assert(ok && !m.spends[k], "a coin is made up or spent twice")
		nd.Assert(c.Confirmed && !c.Locked && !c.Spent, "a coin that is not available is spent")
		m.spends[k] = true
		for _, a := range accounts {
			if _, ok := own[a][hex.EncodeToString(c.ScriptPubKey)]; ok {
				m.in[a][c.AssetHash] += c.Value
			}
		}
	}
	_, theirs, key := veriftx.Stranger()
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			asset, v, _ := veriftx.Read(o, nil)
			nd.Assert(asset == base, "the network fee is not paid in the base asset")
			m.fee += v
			continue
		}
		nd.Assert(o.IsConfidential(), "an output is not confidential")
		if bytes.Equal(o.Script, theirs) {
			asset, v, ok := veriftx.Read(o, key)
			nd.Assert(ok, "the receiver cannot read what he gets")
			m.away[asset] += v
			continue
		}
		found := false
		for _, a := range accounts {
			if info, ok := own[a][hex.EncodeToString(o.Script)]; ok {
				found = true
				asset, v, ok := veriftx.Read(o, info.BlindingKey)
				nd.Assert(ok, "the wallet cannot read its change")
				m.out[a][asset] += v
				m.back = append(m.back, domain.Unspent{TxID: veriftx.ID(tx), VOut: uint32(i), Value: v, AssetHash: asset, Address: info.Address})
			}
		}
		nd.Assert(found, "an output goes to nobody")
	}
	return m
}

// settled checks the coins after the operation.
func (p *place) settledCoins(before map[domain.UnspentKey]domain.Unspent, m *moved) {
	after := p.coins()
	n := 0
	for k, c := range before {
		a, ok := after[k]
		nd.Assert(ok && a.Value == c.Value && a.Confirmed == c.Confirmed && a.Address == c.Address, "a coin changes")
		nd.Assert(a.Spent == (c.Spent || m != nil && m.spends[k]), "a coin is not spent by the published transaction but marked so, or the opposite")
		nd.Assert(a.Locked == c.Locked || a.Spent, "a coin is locked or released")
	}
	if m != nil {
		for _, b := range m.back {
			n++
			a, ok := after[b.Key()]
			nd.Assert(ok && !a.Spent && !a.Locked && a.Value == b.Value && a.AssetHash == b.AssetHash && a.Address == b.Address, "change is not remembered")
		}
	}
	nd.Assert(len(after) == len(before)+n, "coins appear")
}

// The operator withdraws from a market.
//
//verif:harness prop=C24 time=200 replays=8
//verif:bound one or two base and one or two quote coins of a market (at most three), one of them available, locked, spent or unconfirmed, a fee coin; confidential or not; any values and amounts; broadcast wanted or not, accepted or not
//verif:assume hashing and key derivation have no collisions
func hWithdraw() {
	nd.MapFlip()
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	kind := nd.Choice("market coins", 3)
	secret := kind == 1
	if kind == 0 || nd.Thorough() {
		secret = nd.Bool("confidential")
	}
	coin := func(account int, id byte, asset string, value uint64) domain.Unspent {
		if secret {
			c := p.coin(account, id, asset, value)
			c.Nonce = veriftx.Key()
			return c
		}
		return p.open(account, id, asset, value)
	}
	var have [2]uint64
	id := byte(0)
	add := func(a int, odd bool) {
		v := nd.Uint64("coin", 1, supply)
		c := coin(mAccount, id, assetIDs[a], v)
		id++
		state := 0
		if odd {
			state = nd.Choice("state", 4)
		}
		c.Confirmed, c.Spent = state != 1, state == 3
		p.fund(c)
		if state == 2 {
			t := domain.NewTrade()
			_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{c.Key()}, t.ID)
			must(err)
		}
		if state == 0 {
			have[a] += v
		}
	}
	switch kind {
	case 0:
		add(0, true)
		add(1, false)
		if nd.Bool("two of the quote asset") {
			add(1, false)
		}
	case 1:
		add(0, true)
		add(0, false)
		add(1, false)
	case 2:
		add(0, false)
		add(1, true)
	}
	feeCoin := nd.Uint64("fee coin", 1, supply)
	p.fund(coin(domain.FeeAccount, id, base, feeCoin))
	before := p.coins()

	addr, _, _ := veriftx.Stranger()
	pub, net := &press{}, &relay{}
	w := newWatch()
	w.pub = pub
	push := nd.Choice("broadcast", 3)
	net.fails = push == 2
	req := WithdrawMarketReq{
		Market: Market{base, quote}, Address: addr, MillisatPerByte: 100, Push: push > 0,
		BalanceToWithdraw: Balance{nd.Uint64("base amount", 0, 1<<64-1), nd.Uint64("quote amount", 0, 1<<64-1)},
	}
	var raw []byte
	var err error
	svc := NewOperatorService(p, net, w, base, 25, &network.Regtest, 1000)
	raw, err = svc.WithdrawMarketFunds(bg, req)
	nd.RunTasks()

	b, q := req.BalanceToWithdraw.BaseAmount, req.BalanceToWithdraw.QuoteAmount
	ok := nd.And(b <= have[0], q <= have[1])
	if err != nil {
		nd.Assert(!nd.And(nd.Or(b > 0, q > 0), b <= have[0], q <= have[1], have[0] > 0, have[1] > 0, feeCoin > 100000, !(net.fails && req.Push)), "a covered withdrawal is refused")
		nd.Assert(len(net.sent) == 0 || !req.Push || net.fails, "a refused withdrawal is published")
		p.settledCoins(before, nil)
		nd.Assert(len(pub.messages) == 0, "a refused withdrawal is reported")
		return
	}
	nd.Assert(ok, "more than the balance is withdrawn")
	nd.Assert(len(net.sent) == 0 || req.Push, "a transaction is published unasked")
	nd.Assert(!req.Push || len(net.sent) == 1 && net.sent[0] == printed(raw), "the transaction is not published")
	tx := veriftx.Parse(printed(raw))
	m := p.moves(tx, before, mAccount, domain.FeeAccount)
	nd.Assert(m.away[base] == b && m.away[quote] == q && m.away[foreign] == 0, "another amount than asked is withdrawn")
	nd.Assert(m.in[mAccount][base] == m.out[mAccount][base]+b, "the market does not lose the base amount")
	nd.Assert(m.in[mAccount][quote] == m.out[mAccount][quote]+q, "the market does not lose the quote amount")
	nd.Assert(m.in[domain.FeeAccount][base] == m.out[domain.FeeAccount][base]+m.fee, "the fee account does not pay the fee")
	nd.Assert(m.fee > 0, "no fee is paid")
	if !req.Push {
		nd.Cover("kept back")
		p.settledCoins(before, nil)
		return
	}
	nd.Cover("published")
	p.settledCoins(before, &m)
	nd.Assert(len(pub.messages) == 1 && pub.topics[0] == (topic{AccountWithdraw}).Label(), "the withdrawal is not reported")
	msg := read(pub.messages[0])
	market, amount, left := fields(msg["market"]), fields(msg["amount_withdraw"]), fields(msg["balance"])
	nd.Assert(market["base_asset"] == base && market["quote_asset"] == quote, "another market is reported")
	nd.Assert(number(amount["base_amount"]) == b && number(amount["quote_amount"]) == q, "other amounts are reported")
	nd.Assert(msg["receiving_address"] == addr && msg["txid"] == veriftx.ID(tx), "another address or transaction is reported")
	nd.Assert(number(left["base_balance"]) == have[0]-b && number(left["quote_balance"]) == have[1]-q, "another balance is reported")
}

// printed is the text of the bytes of a transaction.
func printed(raw []byte) string { return hex.EncodeToString(raw) }
