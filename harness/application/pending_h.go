//verif:file pkg=internal/core/application props=C37
package application

import (
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
)

// confirmedBy compares the coins with those before the transaction was
// reported as confirmed, or not.
func (p *place) confirmedBy(before map[domain.UnspentKey]domain.Unspent, txid string, confirmed bool) {
	after := p.coins()
	nd.Assert(len(after) == len(before), "a coin appears or vanishes")
	for k, c := range before {
		a := after[k]
		nd.Assert(a.Spent == c.Spent && a.Locked == c.Locked && a.Value == c.Value && a.AssetHash == c.AssetHash && a.Address == c.Address, "a coin changed otherwise")
		if confirmed && k.TxID == txid {
			nd.Assert(a.Confirmed, "the coin of a confirmed transaction does not become available")
			continue
		}
		nd.Assert(a.Confirmed == c.Confirmed, "a coin is confirmed or unconfirmed without a report")
	}
}

// The chain reports a transaction that pays some of the coins.
//
//verif:harness prop=C37 time=100
//verif:bound up to three (thorough four) coins of two transactions, each confirmed or not, spent, reserved or free, of two accounts; one or two reports, each a confirmation or not, of one of them or of another transaction
func hConfirmed() {
	messages(false)
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	ids := []string{strings.Repeat("a", 64), strings.Repeat("b", 64), strings.Repeat("c", 64)}
	for i, n := 0, nd.Choice("coins", nd.Bound("coins", 3, 4)+1); i < n; i++ {
		c := p.coin([]int{mAccount, domain.FeeAccount}[i%2], byte(i), base, nd.Uint64("value", 1, supply))
		c.TxID, c.VOut = ids[nd.Choice("of", 2)], uint32(i)
		c.Confirmed = nd.Bool("confirmed")
		state := nd.Choice("state", 3)
		c.Spent = state == 1
		p.fund(c)
		if state == 2 {
			_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{c.Key()}, domain.NewTrade().ID)
			must(err)
		}
	}
	for i, n := 0, 1+nd.Choice("reports", nd.Bound("reports", 1, 2)); i < n; i++ {
		before := p.coins()
		id := ids[nd.Choice("reported", 3)]
		ev := crawler.TransactionEvent{TxID: id, TxHex: "00", EventType: crawler.TransactionUnConfirmed}
		confirmed := nd.Bool("is confirmed")
		if confirmed {
			ev.EventType, ev.BlockTime = crawler.TransactionConfirmed, 1600000000
		}
		paid, open := false, false
		for k, c := range before {
			paid = paid || k.TxID == id
			open = open || k.TxID == id && !c.Confirmed
		}
		e := p.report(ev)
		p.confirmedBy(before, id, confirmed)
		if open {
			nd.Cover("confirmed")
			nd.Assert(e.gone[id] == confirmed, "a transaction is watched although confirmed, or no longer although not")
		}
		for _, o := range ids {
			nd.Assert(o == id || !e.gone[o], "another transaction is no longer watched")
		}
	}
}

// The change of a withdrawal or payment becomes available.
//
//verif:harness prop=C37 time=100 replays=8
//verif:bound a withdrawal from a market or a payment of the wallet with one coin of each asset, any values and amounts, confidential or not, broadcast wanted or not, accepted or not
//verif:assume hashing and key derivation have no collisions
func hChange() {
	nd.MapFlip()
	messages(false)
	p := newPlace(store(), domain.FeeAccount, domain.WalletAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	secret := nd.Bool("confidential")
	id := byte(0)
	coin := func(account int, asset string) domain.Unspent {
		v := nd.Uint64("coin", 1, supply)
		id++
		if secret {
			c := p.coin(account, id, asset, v)
			c.Nonce = veriftx.Key()
			return c
		}
		return p.open(account, id, asset, v)
	}
	net := &till{}
	net.coins = append(net.coins, coin(domain.WalletAccount, base))
	p.fund(coin(domain.FeeAccount, base), coin(mAccount, base), coin(mAccount, quote))
	addr, _, _ := veriftx.Stranger()
	w := newWatch()
	push := nd.Choice("broadcast", 3)
	net.fails = push == 2
	var err error
	var before map[domain.UnspentKey]domain.Unspent
	if nd.Bool("withdrawal") {
		before = p.coins()
		svc := NewOperatorService(p, net, w, base, 25, &network.Regtest, 1000)
		_, err = svc.WithdrawMarketFunds(bg, WithdrawMarketReq{
			Market: Market{base, quote}, Address: addr, MillisatPerByte: 100, Push: push > 0,
			BalanceToWithdraw: Balance{nd.Uint64("base amount", 0, supply), nd.Uint64("quote amount", 0, supply)},
		})
	} else {
		svc, e := NewWalletService(p, net, w, &network.Regtest, 25, base)
		must(e)
		nd.RunTasks()
		before = p.coins()
		_, err = svc.SendToMany(bg, SendToManyRequest{
			Outputs: []TxOut{{Asset: base, Value: nd.Int64("amount", 1, supply), Address: addr}}, MillisatPerByte: 100, Push: push > 0,
		})
	}
	nd.RunTasks()
	for k, c := range p.coins() {
		if _, ok := before[k]; ok {
			continue
		}
		nd.Assert(err == nil && push == 1, "change appears without a transaction")
		nd.Assert(c.Confirmed || w.txs[k.TxID], "the change is neither confirmed nor watched")
		nd.Cover("change")
	}
	if len(net.sent) == 0 || err != nil {
		return
	}
	tx := veriftx.Parse(net.sent[0])
	txid := veriftx.ID(tx)
	was := before
	before = p.coins()
	keys := map[string][]byte{}
	must(p.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
		for _, a := range []int{domain.FeeAccount, domain.WalletAccount, mAccount} {
			infos, err := v.AllDerivedAddressesInfoForAccount(a)
			must(err)
			for _, i := range infos {
				keys[i.Address] = i.BlindingKey
			}
		}
		return v, nil
	}))
	for k, c := range before {
		if _, ok := was[k]; !ok {
			spendable(c, tx.Outputs[k.VOut], keys[c.Address])
		}
	}
	p.report(crawler.TransactionEvent{TxID: txid, TxHex: net.sent[0], EventType: crawler.TransactionConfirmed, BlockTime: 1600000000})
	p.confirmedBy(before, txid, true)
}

// The operator reloads the coins or starts the daemon again.
//
//verif:harness prop=C37 time=100
//verif:bound up to two (thorough three) coins of two accounts, each unknown or stored, confirmed or not, spent, reserved or free, and listed by the explorer as confirmed, unconfirmed or not at all
func hReload() {
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	h := &history{used: map[string]bool{}, coins: map[string][]explorer.Utxo{}}
	listed := map[domain.UnspentKey]domain.Unspent{}
	for i, n := 0, nd.Choice("coins", nd.Bound("coins", 2, 3)+1); i < n; i++ {
		c := p.coin([]int{mAccount, domain.FeeAccount}[i%2], byte(i), assetIDs[i%2], nd.Uint64("value", 1, supply))
		if there := nd.Choice("listed", 3); there > 0 {
			l := c
			l.Confirmed = there == 2
			h.coins[c.Address] = append(h.coins[c.Address], l.ToUtxo())
			listed[c.Key()] = l
		}
		state := nd.Choice("stored", 4)
		if state == 0 {
			continue
		}
		c.Confirmed = nd.Bool("confirmed")
		c.Spent = state == 2
		p.fund(c)
		if state == 3 {
			_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{c.Key()}, domain.NewTrade().ID)
			must(err)
		}
	}
	before := p.coins()
	w := newWatch()
	if nd.Bool("started again") {
		_, err := NewWalletService(p, h, w, &network.Regtest, 25, base)
		must(err)
	} else {
		must(NewOperatorService(p, h, w, base, 25, &network.Regtest, 1000).ReloadUtxos(bg))
	}
	nd.RunTasks()
	after := p.coins()
	for k, a := range after {
		b, known := before[k]
		l, there := listed[k]
		nd.Assert(known || there, "a coin is made up")
		if !known {
			nd.Cover("found")
			nd.Assert(a.Confirmed == l.Confirmed && !a.Spent && !a.Locked && a.Value == l.Value && a.AssetHash == l.AssetHash && a.Address == l.Address, "a coin found is not stored as it is")
			continue
		}
		nd.Assert(a.Spent == b.Spent && a.Locked == b.Locked && a.Value == b.Value && a.AssetHash == b.AssetHash && a.Address == b.Address, "a stored coin changed otherwise")
		nd.Assert(a.Confirmed == (b.Confirmed || there && l.Confirmed), "a coin listed as confirmed does not become available, or another one does")
	}
	for k, l := range listed {
		_, ok := after[k]
		nd.Assert(ok, "a coin found is not stored")
		if !l.Confirmed {
			nd.Cover("watched")
			nd.Assert(w.txs[k.TxID], "an unconfirmed coin is not watched")
		}
	}
}
