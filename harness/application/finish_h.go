//verif:file pkg=internal/core/application props=C21,C38
package application

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// chain broadcasts transactions, or not.
type chain struct {
	explorer.Service
	sent []string
	bad  bool
}

func (c *chain) BroadcastTransaction(tx string) (string, error) {
	if c.bad {
		return "", errors.New("rejected")
	}
	c.sent = append(c.sent, tx)
	return "sent", nil
}

// moves says which coins a transaction creates and spends.
type moves struct {
	add   []domain.Unspent
	spend []domain.UnspentKey
}

func (m moves) ExtractUnspents(tx string, info map[string]domain.AddressInfo, net *network.Network) ([]domain.Unspent, []domain.UnspentKey, error) {
	return m.add, m.spend, nil
}
func (m moves) ExtractBlindingData(p string, in, out map[string][]byte) (map[int]BlindingData, map[int]BlindingData, error) {
	return nil, nil, errors.New("not needed")
}

// partial is a transaction spending some coins.
func partial(ks ...domain.UnspentKey) string {
	tx := &transaction.Transaction{Version: 2}
	for _, k := range ks {
		h, err := bufferutil.TxIDToBytes(k.TxID)
		must(err)
		tx.Inputs = append(tx.Inputs, transaction.NewTxInput(h, k.VOut))
	}
	p := &pset.Pset{UnsignedTx: tx, Inputs: make([]pset.PInput, len(ks))}
	s, err := p.ToBase64()
	must(err)
	return s
}

var mine, other = uuid.UUID{7}, uuid.UUID{8}

// deal is a stored trade in any stage with the coin reserved for it.
type deal struct {
	*place
	t      domain.Trade
	own    domain.UnspentKey
	watch  *watch
	chain  *chain
	svc    TradeService
	before map[domain.UnspentKey]domain.Unspent
	now    uint64
	parse  *parser
}

func anyDeal() *deal {
	d := &deal{parse: messages(false), watch: newWatch(), chain: &chain{}}
	d.place, _ = trading()
	d.now = nd.Uint64("clock", 1, 1<<40)
	nd.FixClock(int64(d.now))

	coin, theirs, fresh := d.coin(mAccount, 1, quote, 1000), d.coin(mAccount, 2, quote, 500), d.coin(mAccount, 3, base, 700)
	fresh.Confirmed = false
	d.own = coin.Key()
	d.parse.reqs = append(d.parse.reqs, ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 500, r: 900})
	accID, acc := d.parse.put(note{ref: "ask"})
	d.t = domain.Trade{ID: mine, MarketQuoteAsset: quote, PsetBase64: partial(domain.UnspentKey{TxID: strings.Repeat("b", 64), VOut: 9}, d.own, theirs.Key()),
		SwapRequest: domain.Swap{ID: "ask", Message: []byte{1}, Timestamp: 1}}
	stage := nd.Choice("stage", 6)
	d.t.Status = []domain.Status{
		domain.ProposalRejectedStatus, domain.AcceptedStatus, domain.FailedToCompleteStatus,
		domain.CompletedStatus, domain.SettledStatus, domain.ExpiredStatus,
	}[stage]
	if stage > 0 {
		d.t.TxID = "txid"
		d.t.SwapAccept = domain.Swap{ID: accID, Message: acc, Timestamp: 2}
		d.t.ExpiryTime = nd.Uint64("deadline", 1, 1<<40)
	}
	if d.t.Status.Failed {
		id, m := d.parse.put(note{ref: "ask", text: "earlier"})
		d.t.SwapFail = domain.Swap{ID: id, Message: m}
	}
	switch d.t.Status {
	case domain.CompletedStatus, domain.SettledStatus:
		d.t.TxHex = "0102"
		coin.Spent = true
		if d.t.IsSettled() {
			d.t.ExpiryTime, d.t.SettlementTime = 0, 5
		}
	}
	_, err := d.TradeRepository().GetOrCreateTrade(bg, &d.t.ID)
	must(err)
	must(d.TradeRepository().UpdateTrade(bg, &d.t.ID, func(*domain.Trade) (*domain.Trade, error) { t := d.t; return &t, nil }))

	// the coin is reserved for this trade as long as it is pending; later it is
	// free again and may be reserved for another one
	d.fund(coin, theirs)
	holder := other
	if d.t.Status == domain.AcceptedStatus {
		holder = mine
	}
	if holder == mine || !coin.Spent && nd.Bool("reserved for another trade") {
		_, err := d.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{d.own}, holder)
		must(err)
	}
	if nd.Bool("another coin is reserved") {
		_, err := d.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{theirs.Key()}, other)
		must(err)
	}
	d.watch.txs["txid"], d.watch.txs["another"] = true, true
	d.before = d.coins()
	TransactionManager = moves{[]domain.Unspent{fresh}, []domain.UnspentKey{d.own}}
	d.holding(other)
	nd.Naps(true) // deadlines are not looked at
	d.svc = NewTradeService(d, d.chain, d.watch, base, time.Minute, decimal.New(1, -1), &network.Regtest)
	return d
}

// check compares the coins: the own one as given, all others as before.
func (d *deal) check(released, spent bool) {
	for k, now := range d.coins() {
		want, known := d.before[k]
		if !known {
			nd.Assert(spent, "a coin appeared")
			continue
		}
		if k == d.own && spent {
			want.Spent = true
			nd.Assert(now.Spent, "a coin paid by a completed trade is not spent")
			continue
		}
		if k == d.own && released {
			want.Locked, want.LockedBy = false, nil
			nd.Assert(!now.Locked, "the coin of a failed or expired trade stays reserved")
		}
		nd.Assert(sameCoin(now, want), "a coin not reserved for the trade was released or changed")
	}
	if spent {
		nd.Assert(len(d.coins()) == len(d.before)+1, "the coin paid to the market is missing")
	}
	nd.Assert(d.watch.txs["another"], "another transaction is no longer watched")
}

func (d *deal) ref() (string, bool) {
	switch nd.Choice("reference", 3) {
	case 0:
		return d.t.SwapAccept.ID, d.t.SwapAccept.ID != ""
	case 1:
		return "", false
	}
	return "unknown", false
}

func (d *deal) unchanged(what string) {
	now := d.trade(mine)
	nd.Assert(now.Status == d.t.Status && now.TxHex == d.t.TxHex && now.ExpiryTime == d.t.ExpiryTime && now.SettlementTime == d.t.SettlementTime &&
		now.SwapFail.ID == d.t.SwapFail.ID && now.SwapComplete.ID == d.t.SwapComplete.ID && now.PsetBase64 == d.t.PsetBase64, what)
}

// The counterparty completes a trade in any stage.
//
//verif:harness prop=C21 time=120
//verif:bound one request on a trade in any of six stages, any deadline and clock below 2^40 s
func hTradeCompleted() {
	d := anyDeal()
	defer d.Close()
	d.parse.flaky = true
	d.chain.bad = nd.Bool("not broadcast")
	id, known := d.ref()
	tx := nd.Pick("tx", "0a0b", "signed")
	var msg domain.SwapComplete = note{id: "c", ref: id, tx: tx}
	txid, fail, err := d.svc.TradeComplete(bg, &msg, nil)
	d.parse.flaky = false
	nd.RunTasks()

	nd.Assert((txid != "") == (err == nil && fail == nil), "a completion is both acknowledged and refused or neither")
	open := known && d.t.Status == domain.AcceptedStatus && d.now < d.t.ExpiryTime
	again := known && (d.t.IsCompleted() || d.t.IsSettled())
	if txid == "" {
		nd.Assert(len(d.chain.sent) == 0, "a refused completion is broadcast")
		nd.Assert(!open || fail != nil || d.chain.bad, "a valid completion is refused")
		d.check(false, false)
		d.unchanged("a refused completion changed the trade")
		return
	}
	nd.Cover("completed")
	nd.Assert(txid == "txid", "a completion is acknowledged with another transaction")
	nd.Assert(open || again, "a completion is acknowledged for a trade that cannot be completed")
	nd.Assert(len(d.chain.sent) == 1, "an acknowledged completion is not broadcast")
	if again {
		nd.Assert(d.chain.sent[0] == d.t.TxHex, "another transaction is broadcast for a completed trade")
		d.unchanged("a repeated completion changed the trade")
		return
	}
	hex := tx
	if tx == "signed" {
		hex = "hex of signed"
	}
	now := d.trade(mine)
	nd.Assert(d.chain.sent[0] == hex && now.TxHex == hex, "another transaction is broadcast")
	nd.Assert(now.Status == domain.CompletedStatus, "an acknowledged trade is not stored as completed")
	nd.Assert(d.watch.txs["txid"], "a completed trade is no longer watched")
	d.check(false, true)
}

// The counterparty gives up a trade in any stage.
//
//verif:harness prop=C21 time=120
//verif:bound one request on a trade in any of six stages, any deadline and clock below 2^40 s
func hTradeGivenUp() {
	d := anyDeal()
	defer d.Close()
	id, known := d.ref()
	var msg domain.SwapFail = note{id: "f", ref: id, code: 3, text: "no more"}
	txid, fail, err := d.svc.TradeComplete(bg, nil, &msg)
	nd.RunTasks()
	nd.Assert(txid == "" && (fail != nil) == (err == nil), "a given up trade is acknowledged or not answered")
	nd.Assert(len(d.chain.sent) == 0, "a given up trade is broadcast")
	if !known {
		nd.Assert(err != nil, "an unknown trade is given up")
	}
	if known && d.t.Status == domain.AcceptedStatus {
		nd.Cover("given up")
		nd.Assert(err == nil, "a pending trade cannot be given up")
		now := d.trade(mine)
		nd.Assert(now.Status == domain.FailedToCompleteStatus && now.SwapFail.ID != "", "a given up trade is not marked failed")
		nd.Assert(!d.watch.txs["txid"], "a given up trade is still watched")
		d.check(true, false)
		return
	}
	d.check(false, false)
	d.unchanged("a trade that is not pending was changed when given up")
	nd.Assert(d.watch.txs["txid"] || d.t.Status.Failed, "a live trade is no longer watched")
}

// The deadline of an accepted trade is over, whatever happened meanwhile.
//
//verif:harness prop=C21 time=120
//verif:bound one accepted trade with one coin, brought to any of six stages or lost before its deadline is looked at, any clock below 2^40 s; deadlines of 1, 90 and 3600 seconds
func hTradeTimeout() {
	d := &deal{parse: messages(false), watch: newWatch()}
	d.place, _ = trading()
	defer d.Close()
	coin := d.coin(mAccount, 3, quote, 100000)
	d.own = coin.Key()
	d.fund(coin, d.coin(domain.FeeAccount, 1, base, 5000))
	was := TradeManager
	TradeManager = &taker{d.own}
	defer func() { TradeManager = was }()
	start := nd.Uint64("clock", 1, 1<<40)
	nd.FixClock(int64(start))
	secs := []uint64{1, 90, 3600}[nd.Choice("deadline", 3)]
	svc := NewTradeService(d, nil, d.watch, base, time.Duration(secs)*time.Second, decimal.New(1, -1), &network.Regtest)
	nd.Naps(true)
	acc, _, _, err := svc.TradePropose(bg, Market{base, quote}, TradeSell, ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 1000, r: 1980})
	nd.RunTasks()
	nd.Assert(err == nil && acc != nil, "a proposal is not accepted")
	if acc == nil {
		return
	}
	d.watch.txs["another"] = true

	// meanwhile
	id := d.trades()[0].ID
	stage := nd.Choice("stage", 5)
	switch stage {
	case 1, 4: // failed or expired
		_, err := d.UnspentRepository().UnlockUnspents(bg, []domain.UnspentKey{d.own})
		must(err)
		if nd.Bool("reserved for another trade") {
			_, err := d.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{d.own}, other)
			must(err)
		}
	case 2, 3: // completed or settled
		_, err := d.UnspentRepository().SpendUnspents(bg, []domain.UnspentKey{d.own})
		must(err)
	}
	must(d.TradeRepository().UpdateTrade(bg, &id, func(t *domain.Trade) (*domain.Trade, error) {
		t.Status = []domain.Status{
			domain.AcceptedStatus, domain.FailedToCompleteStatus, domain.CompletedStatus, domain.SettledStatus, domain.ExpiredStatus,
		}[stage]
		if t.IsSettled() {
			t.ExpiryTime = 0
		}
		d.t = *t
		return t, nil
	}))
	d.before = d.coins()
	d.now = nd.Uint64("later", 0, 1<<40)
	nd.Assume(d.now >= start)
	nd.FixClock(int64(d.now))
	nd.Naps(false)
	nd.RunTasks()

	now := d.trade(id)
	if d.now < start+secs || stage == 3 || stage == 4 {
		d.check(false, false)
		nd.Assert(now.Status == d.t.Status && now.ExpiryTime == d.t.ExpiryTime, "a trade changed although its deadline is not over")
		nd.Assert(d.watch.txs[d.t.TxID] || stage == 1 || stage == 4, "a live trade is no longer watched")
		return
	}
	nd.Cover("expired")
	nd.Assert(now.Status == domain.ExpiredStatus, "a trade is not marked expired after its deadline")
	nd.Assert(!d.watch.txs[d.t.TxID], "an expired trade is still watched")
	d.check(stage == 0, false)
}

// A trade that could not be stored times out.
//
//verif:harness prop=C21 time=60
func hLostTimeout() {
	messages(false)
	p, _ := trading()
	defer p.Close()
	coin := p.coin(mAccount, 3, quote, 100000)
	p.fund(coin, p.coin(domain.FeeAccount, 1, base, 5000))
	was := TradeManager
	TradeManager = &taker{coin.Key()}
	defer func() { TradeManager = was }()
	nd.FixClock(1600000000)
	svc := NewTradeService(lossy{p}, nil, newWatch(), base, time.Minute, decimal.New(1, -1), &network.Regtest)
	nd.Naps(true)
	acc, _, _, err := svc.TradePropose(bg, Market{base, quote}, TradeSell, ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 1000, r: 1980})
	nd.RunTasks()
	nd.Assert(err == nil && acc != nil, "a proposal is not accepted")
	nd.FixClock(1700000000)
	nd.Naps(false)
	crashed := nd.Panics(nd.RunTasks)
	nd.Assert(!crashed, "the deadline of a trade that is not stored crashes the service")
}

// lossy does not store trades.
type lossy struct{ ports.RepoManager }

type lossyTrades struct{ domain.TradeRepository }

func (l lossy) TradeRepository() domain.TradeRepository {
	return lossyTrades{l.RepoManager.TradeRepository()}
}
func (l lossyTrades) GetOrCreateTrade(context.Context, *uuid.UUID) (*domain.Trade, error) {
	return nil, errors.New("storage failure")
}

// taker fills any proposal with one coin.
type taker struct{ k domain.UnspentKey }

func (f *taker) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	for _, u := range o.MarketUtxos {
		if u.Hash() == f.k.TxID && u.Index() == f.k.VOut {
			return &FillProposalResult{PsetBase64: "filled", SelectedUnspents: []explorer.Utxo{u}}, nil
		}
	}
	return nil, errors.New("coin not offered")
}

// chooser fills a proposal with any of the coins offered.
type chooser struct {
	used map[string][]domain.UnspentKey
}

func (f *chooser) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	var us []explorer.Utxo
	var ks []domain.UnspentKey
	for _, u := range o.MarketUtxos {
		if nd.Bool("chosen") {
			us = append(us, u)
			ks = append(ks, domain.UnspentKey{TxID: u.Hash(), VOut: u.Index()})
		}
	}
	f.used[o.SwapRequest.GetId()] = ks
	theirs := domain.UnspentKey{TxID: strings.Repeat("b", 64), VOut: uint32(len(f.used))}
	return &FillProposalResult{PsetBase64: partial(append([]domain.UnspentKey{theirs}, ks...)...), SelectedUnspents: us}, nil
}

// Any history of proposals, completions, aborts and deadlines.
//
//verif:harness prop=C21 time=150
//verif:bound histories of four (thorough five) events over two coins and up to three trades
func hTradeHistory() {
	messages(false)
	p, funds := trading()
	defer p.Close()
	p.fund(funds, p.coin(mAccount, 4, quote, 100000), p.coin(domain.FeeAccount, 1, base, 5000))
	pick := &chooser{map[string][]domain.UnspentKey{}}
	was := TradeManager
	TradeManager = pick
	defer func() { TradeManager = was }()
	ch := &chain{}
	svc := NewTradeService(p, ch, newWatch(), base, time.Minute, decimal.New(1, -1), &network.Regtest)
	clock := int64(1600000000)
	nd.FixClock(clock)
	nd.Naps(true)

	type open struct {
		ask, id string
		pending bool
	}
	var ts []*open
	spent := map[domain.UnspentKey]bool{}
	n := nd.Bound("events", 4, 5)
	for i := 0; i < n; i++ {
		op := nd.Choice("event", 4)
		var t *open
		if op == 1 || op == 2 {
			if len(ts) == 0 {
				return
			}
			t = ts[nd.Choice("trade", len(ts))]
		}
		switch op {
		case 0:
			if len(ts) == 3 {
				return
			}
			name := "ask" + string([]byte{byte('0' + len(ts))})
			acc, fail, _, err := svc.TradePropose(bg, Market{base, quote}, TradeSell, ask{id: name, tx: "tx", ap: base, ar: quote, p: 1000, r: 1980})
			nd.RunTasks()
			if acc != nil {
				nd.Assert(err == nil && fail == nil, "a proposal is both accepted and rejected")
				ts = append(ts, &open{name, acc.GetId(), true})
			} else {
				nd.Assert(err != nil || fail != nil, "a proposal is not answered")
			}
		case 1:
			var msg domain.SwapFail = note{id: "f", ref: t.id, text: "no more"}
			_, _, err := svc.TradeComplete(bg, nil, &msg)
			nd.RunTasks()
			nd.Assert(t.pending == (err == nil), "a pending trade cannot be given up or another can")
			t.pending = false
		case 2:
			var ms moves
			ms.spend = pick.used[t.ask]
			TransactionManager = ms
			var msg domain.SwapComplete = note{id: "c", ref: t.id, tx: "0a0b"}
			txid, _, err := svc.TradeComplete(bg, &msg, nil)
			nd.RunTasks()
			if t.pending {
				nd.Cover("completed")
				nd.Assert(err == nil && txid != "", "a pending trade cannot be completed")
				for _, k := range ms.spend {
					spent[k] = true
				}
			}
			t.pending = false
		case 3:
			clock += 120
			nd.FixClock(clock)
			nd.Naps(false)
			nd.RunTasks()
			nd.Naps(true)
			for _, t := range ts {
				t.pending = false
			}
		}
		holder := map[domain.UnspentKey]string{}
		for _, t := range ts {
			if !t.pending {
				continue
			}
			for _, k := range pick.used[t.ask] {
				nd.Assert(holder[k] == "", "a coin is used by two pending trades")
				holder[k] = t.ask
			}
		}
		asks := map[uuid.UUID]string{}
		for _, t := range p.trades() {
			asks[t.ID] = t.SwapRequest.ID
		}
		for k, c := range p.coins() {
			nd.Assert(c.Spent == spent[k], "a coin is spent or not unlike its trade")
			if c.Spent {
				continue
			}
			h := holder[k]
			nd.Assert(c.Locked == (h != ""), "a coin is reserved without a pending trade or not with one")
			if c.Locked && h != "" {
				nd.Assert(asks[*c.LockedBy] == h, "a coin is reserved for another trade")
			}
		}
	}
}
