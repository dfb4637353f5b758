//verif:file pkg=internal/core/application props=C21
package application

import (
	"context"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/vulpemventures/go-elements/network"
)

// steps lets others take a step before every access to the trades or coins.
type steps struct{ ports.RepoManager }

func (s steps) TradeRepository() domain.TradeRepository {
	nd.Yield()
	return stepTrades{s.RepoManager.TradeRepository()}
}
func (s steps) UnspentRepository() domain.UnspentRepository {
	nd.Yield()
	return s.RepoManager.UnspentRepository()
}

// stepTrades also lets them take one while a trade is being changed.
type stepTrades struct{ domain.TradeRepository }

func (s stepTrades) UpdateTrade(ctx context.Context, id *uuid.UUID, f func(*domain.Trade) (*domain.Trade, error)) error {
	return s.TradeRepository.UpdateTrade(ctx, id, func(t *domain.Trade) (*domain.Trade, error) {
		t, err := f(t)
		nd.Yield()
		return t, err
	})
}

// A pending trade is completed, given up, reported by the chain and timed out
// at the same time.
//
//verif:harness prop=C21 time=150
//verif:bound two of four requests (completed, given up, deadline over, confirmed on chain) on one accepted trade, every order of their storage steps with up to two delays (thorough three)
func hTradeRaces() {
	d := &deal{parse: messages(false), watch: newWatch(), chain: &chain{}}
	d.place, _ = trading()
	defer d.Close()
	coin := d.coin(mAccount, 3, quote, 100000)
	d.own = coin.Key()
	d.fund(coin, d.coin(domain.FeeAccount, 1, base, 5000))
	was := TradeManager
	TradeManager = fixed{d.own}
	defer func() { TradeManager = was }()
	nd.FixClock(1600000000)
	repo := steps{d.place}
	svc := NewTradeService(repo, d.chain, d.watch, base, time.Minute, decimal.New(1, -1), &network.Regtest)
	nd.Naps(true)
	acc, _, _, err := svc.TradePropose(bg, Market{base, quote}, TradeSell, ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 1000, r: 1980})
	nd.RunTasks()
	nd.Assert(err == nil && acc != nil, "a proposal is not accepted")
	if acc == nil {
		return
	}
	d.t = *d.trades()[0]
	fresh := d.coin(mAccount, 4, base, 1000)
	fresh.Confirmed = false
	TransactionManager = moves{[]domain.Unspent{fresh}, []domain.UnspentKey{d.own}}

	var txid string
	completed, aborted, ended, settled := false, false, false, false
	nd.Delays(nd.Bound("delays", 2, 3))
	first := nd.Choice("first", 4)
	second := nd.Choice("second", 4)
	nd.Assume(first <= second && !(first == 2 && second == 2) && !(first == 3 && second == 3))
	for _, k := range []int{first, second} {
		switch k {
		case 0:
			completed = true
			nd.Go(func() {
				var msg domain.SwapComplete = note{id: "c", ref: acc.GetId(), tx: "0a0b"}
				id, _, err := svc.TradeComplete(bg, &msg, nil)
				if err == nil && id != "" {
					txid = id
				}
			})
		case 1:
			nd.Go(func() {
				var msg domain.SwapFail = note{id: "f", ref: acc.GetId(), text: "no more"}
				if _, _, err := svc.TradeComplete(bg, nil, &msg); err == nil {
					aborted = true
				}
			})
		case 2:
			ended = true
			nd.Go(func() {
				nd.FixClock(1600000300)
				nd.Naps(false)
			})
		case 3:
			settled = true
			nd.Go(func() {
				e := &eye{events: make(chan crawler.Event, 2), gone: map[string]bool{}}
				l := NewBlockchainListener(e, repo, nil, base, &network.Regtest)
				e.events <- crawler.TransactionEvent{TxID: d.t.TxID, TxHex: "0a0b", EventType: crawler.TransactionConfirmed, BlockTime: 1600000100}
				e.events <- crawler.CloseEvent{}
				l.StartObservation()
			})
		}
	}
	nd.RunTasks()

	now := d.trade(d.t.ID)
	c := d.coins()[d.own]
	done := len(d.chain.sent) > 0
	nd.Observe("status", now.Status.Code)
	nd.Assert(done == (txid != ""), "a completion is broadcast and refused")
	nd.Assert(!(txid != "" && aborted), "a trade is both completed and given up")
	if done {
		nd.Cover("completed")
	}
	switch {
	case settled:
		nd.Assert(now.Status == domain.SettledStatus, "a trade confirmed on chain is not settled")
		nd.Assert(c.Spent, "a coin of a settled trade is not spent")
	case ended && !aborted:
		nd.Assert(now.Status == domain.ExpiredStatus, "a trade is not marked expired after its deadline")
		nd.Assert(c.Spent == done && (done || !c.Locked), "the coin of an expired trade is spent or stays reserved")
	case done:
		nd.Assert(now.Status == domain.CompletedStatus, "an acknowledged trade is not stored as completed")
		nd.Assert(c.Spent, "a coin paid by a completed trade is not spent")
		nd.Assert(d.watch.txs[d.t.TxID], "a completed trade is no longer watched")
	case aborted:
		nd.Assert(now.Status.Failed && !c.Spent && !c.Locked, "a given up trade is not failed or its coin stays reserved")
	default:
		nd.Assert(!completed, "a valid completion is refused")
	}
}

// fixed fills any proposal with one coin, as a transaction spending it.
type fixed struct{ k domain.UnspentKey }

func (f fixed) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	r, err := (&taker{f.k}).FillProposal(o)
	if err == nil {
		r.PsetBase64 = partial(f.k)
	}
	return r, err
}
