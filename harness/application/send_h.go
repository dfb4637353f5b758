//verif:file pkg=internal/core/application props=C24,C37
package application

import (
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
)

// till is a relay that also knows the coins of the wallet.
type till struct {
	relay
	coins []domain.Unspent
}

func (t *till) GetUnspentsForAddresses(addrs []string, keys [][]byte) ([]explorer.Utxo, error) {
	var us []explorer.Utxo
	for i := range t.coins {
		for _, a := range addrs {
			if a == t.coins[i].Address {
				us = append(us, t.coins[i].ToUtxo())
			}
		}
	}
	return us, nil
}

// The operator sends from the wallet account.
//
//verif:harness prop=C24 time=200 replays=8
//verif:bound up to two base coins and a quote coin in the wallet, a fee coin available or locked, one or two outputs of two assets; confidential or not; any values and amounts; broadcast wanted or not, accepted or not
//verif:assume hashing and key derivation have no collisions
func hSend() {
	nd.MapFlip()
	p := newPlace(store(), domain.FeeAccount, domain.WalletAccount, mAccount)
	defer p.Close()
	net := &till{}
	svc, err := NewWalletService(p, net, newWatch(), &network.Regtest, 25, base)
	must(err)
	secret := nd.Bool("confidential")
	id := byte(0)
	coin := func(account int, asset string) domain.Unspent {
		v := nd.Uint64("coin", 1, supply)
		id++
		if secret {
			c := p.coin(account, id, asset, v)
			c.Nonce = veriftx.Key()
			return c
		}
		return p.open(account, id, asset, v)
	}
	for i, n := 0, nd.Choice("base coins", 3); i < n; i++ {
		net.coins = append(net.coins, coin(domain.WalletAccount, base))
	}
	if nd.Bool("quote coin") {
		net.coins = append(net.coins, coin(domain.WalletAccount, quote))
	}
	feeCoin := coin(domain.FeeAccount, base)
	p.fund(feeCoin, coin(mAccount, quote))
	feeFree := nd.Bool("fee coin available")
	if !feeFree {
		t := domain.NewTrade()
		_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{feeCoin.Key()}, t.ID)
		must(err)
	}
	before := p.coins()
	coins := map[domain.UnspentKey]domain.Unspent{}
	for k, c := range before {
		coins[k] = c
	}
	have, sent := map[string]uint64{}, map[string]uint64{}
	for _, c := range net.coins {
		have[c.AssetHash] += c.Value
		coins[c.Key()] = c
	}
	addr, _, _ := veriftx.Stranger()
	var outs []TxOut
	for i, n := 0, 1+nd.Choice("outputs", 2); i < n; i++ {
		o := TxOut{Asset: assetIDs[nd.Choice("asset", 2)], Value: nd.Int64("amount", 1, supply), Address: addr}
		sent[o.Asset] += uint64(o.Value)
		outs = append(outs, o)
	}
	push := nd.Choice("broadcast", 3)
	net.fails = push == 2
	raw, err := svc.SendToMany(bg, SendToManyRequest{Outputs: outs, MillisatPerByte: 100, Push: push > 0})
	nd.RunTasks()

	ok := nd.And(sent[base] <= have[base], sent[quote] <= have[quote])
	if err != nil {
		nd.Assert(!nd.And(ok, feeFree, feeCoin.Value > 100000, push != 2), "a covered payment is refused")
		nd.Assert(len(net.sent) == 0, "a refused payment is published")
		p.settledCoins(before, nil)
		return
	}
	nd.Assert(nd.And(ok, feeFree), "more than the balance is sent")
	nd.Assert(push != 2 && len(net.sent) == push && (push == 0 || net.sent[0] == printed(raw)), "the payment is not published, or unasked")
	m := p.moves(veriftx.Parse(printed(raw)), coins, domain.WalletAccount, domain.FeeAccount)
	nd.Assert(m.away[base] == sent[base] && m.away[quote] == sent[quote] && m.away[foreign] == 0, "another amount than asked is sent")
	w, f := domain.WalletAccount, domain.FeeAccount
	nd.Assert(m.in[w][base] == m.out[w][base]+sent[base] && m.in[w][quote] == m.out[w][quote]+sent[quote], "the wallet does not lose what is sent")
	nd.Assert(m.fee > 0 && m.in[f][base] == m.out[f][base]+m.fee, "the fee account does not pay the fee")
	if push == 0 {
		nd.Cover("kept back")
		p.settledCoins(before, nil)
		return
	}
	nd.Cover("published")
	// the coins of the wallet account are not kept in the store
	fees := m
	fees.spends, fees.back = map[domain.UnspentKey]bool{}, nil
	for k := range m.spends {
		if _, ok := before[k]; ok {
			fees.spends[k] = true
		}
	}
	own := p.owned(f)
	for _, b := range m.back {
		for _, i := range own {
			if i.Address == b.Address {
				fees.back = append(fees.back, b)
			}
		}
	}
	p.settledCoins(before, &fees)
}
