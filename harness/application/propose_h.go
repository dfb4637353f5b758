//verif:file pkg=internal/core/application props=C13,C20,C21,C38
package application

import (
	"context"
	"errors"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/vulpemventures/go-elements/network"
)

// picker answers a proposal with some of the coins it is offered, or not.
type picker struct {
	p    *place
	sure bool                           // always fills
	used map[string][]domain.UnspentKey // by request
}

func (f *picker) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	all := f.p.coins()
	var offered, chosen []explorer.Utxo
	offered = append(append(offered, o.MarketUtxos...), o.FeeUtxos...)
	for _, u := range offered {
		c := all[domain.UnspentKey{TxID: u.Hash(), VOut: u.Index()}]
		nd.Assert(!c.Spent && c.Confirmed, "a spent or unconfirmed coin is offered")
	}
	if !f.sure && nd.Bool("cannot fill") {
		return nil, errors.New("cannot fill")
	}
	for _, u := range offered {
		if nd.Bool("chosen") {
			chosen = append(chosen, u)
		}
	}
	r := o.SwapRequest
	for _, u := range chosen {
		f.used[r.GetId()] = append(f.used[r.GetId()], domain.UnspentKey{TxID: u.Hash(), VOut: u.Index()})
	}
	return &FillProposalResult{PsetBase64: "filled " + r.GetId(), SelectedUnspents: chosen}, nil
}

// weak is a store whose locking of coins fails half way.
type weak struct {
	ports.RepoManager
}

type weakCoins struct{ domain.UnspentRepository }

func (w weak) UnspentRepository() domain.UnspentRepository {
	return weakCoins{w.RepoManager.UnspentRepository()}
}

func (w weakCoins) LockUnspents(ctx context.Context, keys []domain.UnspentKey, id uuid.UUID) (int, error) {
	n := nd.Choice("locked before the failure", 2)
	if n > len(keys) {
		n = len(keys)
	}
	if _, err := w.UnspentRepository.LockUnspents(ctx, keys[:n], id); err != nil {
		return -1, err
	}
	return -1, errors.New("storage failure")
}

func trading() (*place, domain.Unspent) {
	p := newPlace(store(), domain.FeeAccount, mAccount)
	p.market(func(m *domain.Market) {
		m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
		m.Price = domain.Prices{BasePrice: decimal.New(5, -1), QuotePrice: decimal.New(2, 0)}
		m.Fee = 100
	})
	return p, p.coin(mAccount, 3, quote, 100000)
}

// the state of coins and of the proposals answered
type answer struct {
	acc  domain.SwapAccept
	fail domain.SwapFail
	exp  uint64
	err  error
}

func sameCoin(a, b domain.Unspent) bool {
	if !a.Spent && a.Locked != b.Locked || a.Spent != b.Spent || a.Confirmed != b.Confirmed {
		return false
	}
	return a.Spent || !a.Locked || *a.LockedBy == *b.LockedBy
}

// settled checks the effects of answered proposals: the coins were as given before.
func (p *place) settled(before map[domain.UnspentKey]domain.Unspent, used map[string][]domain.UnspentKey, answers map[string]answer, dur, t0, t1 uint64) {
	holder := map[domain.UnspentKey]uuid.UUID{}
	trades := p.trades()
	for id, a := range answers {
		nd.Assert(a.err != nil || (a.acc == nil) != (a.fail == nil), "a proposal is both accepted and rejected or neither")
		nd.Assert(a.err == nil || (a.acc == nil && a.fail == nil), "a proposal is answered and an error returned")
		if a.err != nil {
			continue
		}
		var t *domain.Trade
		for i := range trades {
			if trades[i].SwapRequest.ID == id {
				nd.Assert(t == nil, "a proposal is stored twice")
				t = trades[i]
			}
		}
		nd.Assert(t != nil, "an answered proposal is not stored")
		if t == nil {
			continue
		}
		if a.fail != nil {
			nd.Cover("rejected")
			nd.Assert(t.Status.Failed, "a rejected proposal is not marked failed")
			nd.Assert(t.SwapFail.ID == a.fail.GetId(), "the stored rejection is another")
			continue
		}
		nd.Cover("accepted")
		nd.Assert(t.Status == domain.AcceptedStatus, "an accepted proposal is not stored as accepted")
		nd.Assert(t.SwapAccept.ID == a.acc.GetId(), "the stored acceptance is another")
		nd.Assert(t.ExpiryTime == a.exp && a.exp >= t0+dur && a.exp <= t1+dur, "wrong deadline")
		for _, k := range used[id] {
			_, taken := holder[k]
			nd.Assert(!taken, "a coin is used by two accepted trades")
			holder[k] = t.ID
		}
	}
	for k, now := range p.coins() {
		want := before[k]
		if id, ok := holder[k]; ok {
			nd.Assert(!want.Locked && !want.Spent && want.Confirmed, "an accepted trade uses a coin that is not available")
			id := id
			want.Locked, want.LockedBy = true, &id
		}
		nd.Assert(sameCoin(now, want), "a coin changed otherwise")
	}
	nd.Assert(len(p.coins()) == len(before), "coins appeared or vanished")
}

// One proposal, whatever goes wrong while answering it.
//
//verif:harness prop=C20 time=150
//verif:bound up to three available coins, one locked, one spent and one unconfirmed; deadlines of 1, 90 and 3600 seconds
func hAnswer() {
	messages(true)
	p, funds := trading()
	defer p.Close()
	locked, spent, open := p.coin(mAccount, 5, base, 50000), p.coin(mAccount, 6, base, 50000), p.coin(mAccount, 7, base, 50000)
	spent.Spent, open.Confirmed = true, false
	fee := p.coin(domain.FeeAccount, 1, base, 5000)
	cs := []domain.Unspent{funds, locked, spent, open}
	if nd.Bool("more funds") {
		cs = append(cs, p.coin(mAccount, 4, base, 50000))
	}
	if nd.Bool("fees funded") {
		cs = append(cs, fee)
	}
	p.fund(cs...)
	_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{locked.Key()}, uuid.UUID{9})
	must(err)
	p.holding(uuid.UUID{9})
	nd.Naps(true) // deadlines are not looked at
	var repo ports.RepoManager = p
	if nd.Bool("locking fails") {
		repo = weak{p}
	}
	if nd.Bool("seed is closed") {
		domain.MnemonicStoreManager.Unset()
	}
	before := p.coins()
	pick := &picker{p, false, map[string][]domain.UnspentKey{}}
	was := TradeManager
	TradeManager = pick
	defer func() { TradeManager = was }()

	secs := []uint64{1, 90, 3600}[nd.Choice("deadline", 3)]
	svc := NewTradeService(repo, nil, newWatch(), base, time.Duration(secs)*time.Second, decimal.New(1, -1), &network.Regtest)
	r := ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 1000, r: []uint64{1980, 5000}[nd.Choice("price", 2)]}
	mkt := Market{base, quote}
	if nd.Bool("unknown market") {
		mkt.QuoteAsset = foreign
	}
	t0 := uint64(nd.NowUnix())
	acc, fail, exp, err := svc.TradePropose(bg, mkt, TradeSell, r)
	t1 := uint64(nd.NowUnix())
	nd.RunTasks()
	p.settled(before, pick.used, map[string]answer{"ask": {acc, fail, exp, err}}, secs, t0, t1)
}

// Two proposals at the same time.
//
//verif:harness prop=C20 time=120
//verif:bound two proposals, every order of their storage steps with up to one switch (thorough three) between them
func hAnswerTwo() {
	nd.FixClock(1600000000)
	messages(false)
	p, funds := trading()
	defer p.Close()
	p.fund(funds, p.coin(domain.FeeAccount, 1, base, 5000))
	before := p.coins()
	pick := &picker{p, true, map[string][]domain.UnspentKey{}}
	was := TradeManager
	TradeManager = pick
	defer func() { TradeManager = was }()
	svc := NewTradeService(p, nil, newWatch(), base, time.Minute, decimal.New(1, -1), &network.Regtest)
	nd.Schedule(nd.Bound("switches", 1, 3))
	var got [2]answer
	for i := range got {
		i := i
		nd.Go(func() {
			r := ask{id: "ask" + string([]byte{byte('0' + i)}), tx: "tx", ap: base, ar: quote, p: 1000, r: 1980}
			acc, fail, exp, err := svc.TradePropose(yieldCtx{bg}, Market{base, quote}, TradeSell, r)
			got[i] = answer{acc, fail, exp, err}
		})
	}
	nd.Naps(true)
	nd.RunTasks()
	now := uint64(nd.NowUnix())
	p.settled(before, pick.used, map[string]answer{"ask0": got[0], "ask1": got[1]}, 60, now, now)
}
