//verif:file pkg=internal/core/application props=C22
package application

import (
	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/vulpemventures/go-elements/transaction"
)

// The chain reports the transaction of a trade in any stage, or another one.
//
//verif:harness prop=C22 time=150
//verif:bound two trades, the one reported in any of five stages; its transaction spends a market coin, a fee coin and a coin of the counterparty with any of five kinds of witness and pays the market, the fee account and the counterparty; up to two reports; any amounts, block times from 2004 to 2038
func hSettle() {
	nd.FreeGo()
	swaps := messages(false)
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	mkt, fee := p.infos[mAccount], p.infos[domain.FeeAccount]

	coin, feeCoin, kept := p.coin(mAccount, 1, quote, 1000), p.coin(domain.FeeAccount, 2, base, 500), p.coin(mAccount, 3, quote, 70)
	paid, change := nd.Uint64("amount received", 1, supply), nd.Uint64("change", 1, supply)
	tx := veriftx.New(5)
	theirs := [][][]byte{
		{{1, 2}, veriftx.Key()},  // native segwit
		nil,                      // legacy
		{{0x51}},                 // a script without arguments
		{{1, 2}, {3, 4}, {0x51}}, // a script with arguments
		{make([]byte, 64)},       // taproot
	}[nd.Choice("witness of the counterparty", 5)]
	tx.Inputs = append(tx.Inputs,
		veriftx.Spend(p.coin(mAccount, 8, base, 1).TxID, 0, theirs...),
		veriftx.Spend(coin.TxID, coin.VOut, []byte{1, 2}, veriftx.Pub(mkt.DerivationPath)),
		veriftx.Spend(feeCoin.TxID, feeCoin.VOut, []byte{1, 2}, veriftx.Pub(fee.DerivationPath)))
	tx.Outputs = []*transaction.TxOutput{
		veriftx.Hidden(quote, 900, veriftx.Foreign(1), veriftx.Key()[1:]),
		veriftx.Hidden(base, paid, script(mkt), mkt.BlindingKey),
		veriftx.Plain(base, change, script(fee)),
	}
	txid, txhex := veriftx.ID(tx), veriftx.Hex(tx)

	stage := nd.Choice("stage", 5)
	coin.Spent = stage == 1 || stage == 4
	feeCoin.Spent = coin.Spent
	paidCoin := domain.Unspent{TxID: txid, VOut: 1, Value: paid, AssetHash: base, Address: mkt.Address}
	changeCoin := domain.Unspent{TxID: txid, VOut: 2, Value: change, AssetHash: base, Address: fee.Address}
	p.fund(coin, feeCoin)
	if nd.Bool("the market has another coin") {
		p.fund(kept)
	}
	if coin.Spent {
		a, b := paidCoin, changeCoin
		a.Confirmed, b.Confirmed = stage == 4, stage == 4
		p.fund(a, b)
	}
	if stage == 0 {
		_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{coin.Key(), feeCoin.Key()}, uuid.UUID{7})
		must(err)
	}
	t := domain.Trade{ID: uuid.UUID{7}, MarketQuoteAsset: quote, Status: stages[stage], TxID: txid, PsetBase64: "pset",
		ExpiryTime: 100, SwapAccept: domain.Swap{ID: "accept"}}
	asked := ask{id: "asked", p: nd.Uint64("amount proposed", 1, supply), r: nd.Uint64("amount requested", 1, supply), ap: quote, ar: base}
	swaps.reqs = append(swaps.reqs, asked)
	t.SwapRequest = domain.Swap{ID: asked.id, Message: []byte{1}}
	t.MarketPrice = domain.Prices{BasePrice: decimal.New(4, 0), QuotePrice: decimal.New(25, -2)}
	o := t
	if stage == 4 {
		t.ExpiryTime, t.SettlementTime = 0, 55
	}
	if stage == 1 || stage == 4 {
		t.TxHex = txhex
	}
	o.ID, o.TxID, o.Status = uuid.UUID{8}, veriftx.ID(veriftx.New(6)), stages[nd.Choice("other stage", 4)]
	p.stored(t)
	p.stored(o)
	before := p.coins()

	when := nd.Int("block time", 1<<30, 1<<31-2)
	known, confirmed := true, true
	ev := crawler.TransactionEvent{TxID: txid, TxHex: txhex, EventType: crawler.TransactionConfirmed, BlockTime: float64(when)}
	switch nd.Choice("event", 3) {
	case 1:
		ev.EventType, confirmed = crawler.TransactionUnConfirmed, false
	case 2:
		ev.TxID, known = veriftx.ID(veriftx.New(7)), false
	}
	events := []crawler.Event{ev}
	if nd.Bool("reported again") {
		again := ev
		again.BlockTime = float64(when + 1)
		events = append(events, again)
	}
	pub := &press{}
	e := reportTo(p, pub, events...)

	now, after := p.trade(t.ID), p.coins()
	same := p.trade(o.ID)
	nd.Assert(same.Status == o.Status && same.SettlementTime == 0 && same.ExpiryTime == 100 && same.TxHex == "", "another trade changed")
	nd.Assert(!e.gone[o.TxID], "the transaction of another trade is no longer watched")
	settles := known && confirmed
	for k, c := range before {
		used := k == coin.Key() || k == feeCoin.Key()
		if settles && used {
			nd.Assert(after[k].Spent, "a coin consumed by a settled trade is not spent")
			continue
		}
		if settles && k.TxID == txid {
			continue
		}
		nd.Assert(after[k].Spent == c.Spent && after[k].Locked == c.Locked && after[k].Confirmed == c.Confirmed && after[k].Value == c.Value,
			"a coin not spent by the transaction changed")
	}
	if !settles {
		nd.Assert(now.Status == t.Status && now.SettlementTime == t.SettlementTime && now.ExpiryTime == t.ExpiryTime && now.TxHex == t.TxHex,
			"a trade changed by the report of an unknown or unconfirmed transaction")
		nd.Assert(len(after) == len(before), "coins appeared")
		nd.Assert(len(pub.messages) == 0, "a settlement that did not happen is published")
		return
	}
	nd.Cover("settled")
	nd.Assert(now.Status == domain.SettledStatus, "a trade is not settled although its transaction is confirmed")
	at := uint64(when)
	if stage == 4 {
		at = 55
	}
	nd.Assert(now.SettlementTime == at, "a trade is settled at another time than its block's")
	nd.Assert(now.TxID == txid && (now.TxHex == txhex || now.TxHex == "" && (stage == 2 || stage == 3)), "a settled trade has another transaction")
	for _, want := range []domain.Unspent{paidCoin, changeCoin} {
		c, ok := after[want.Key()]
		nd.Assert(ok && c.Confirmed && !c.Spent && !c.Locked, "an output paying the provider is not available")
		nd.Assert(c.Value == want.Value && c.AssetHash == base && c.Address == want.Address, "an output paying the provider has another amount, asset or owner")
		if !coin.Spent {
			spendable(c, tx.Outputs[want.VOut], mkt.BlindingKey)
		}
	}
	n := len(before)
	if !coin.Spent {
		n += 2
	}
	nd.Assert(len(after) == n, "coins of others appeared")
	nd.Assert(e.gone[txid], "the transaction of a settled trade is still watched")

	nd.Assert(len(pub.messages) <= len(events) && (len(pub.messages) > 0 || stage == 4), "a settlement is not published")
	left := map[string]uint64{}
	for _, c := range after {
		if c.Address == mkt.Address && c.Confirmed && !c.Spent {
			left[c.AssetHash] += c.Value
		}
	}
	for i := range pub.messages {
		nd.Cover("published")
		nd.Assert(pub.topics[i] == (topic{TradeSettled}).Label(), "a settlement is published as something else")
		msg := read(pub.messages[i])
		swap, price, market, balance := fields(msg["swap"]), fields(msg["price"]), fields(msg["market"]), fields(msg["balance"])
		nd.Assert(msg["txid"] == txid, "another transaction is published")
		nd.Assert(nd.And(number(swap["amount_p"]) == asked.p, number(swap["amount_r"]) == asked.r), "other amounts are published")
		nd.Assert(swap["asset_p"] == quote && swap["asset_r"] == base, "other assets are published")
		nd.Assert(price["base_price"] == "4" && price["quote_price"] == "0.25", "another price is published")
		nd.Assert(market["base_asset"] == base && market["quote_asset"] == quote, "another market is published")
		nd.Assert(nd.And(number(balance["base_balance"]) == left[base], number(balance["quote_balance"]) == left[quote]), "another balance is published")
	}
}
