//verif:file pkg=internal/core/application props=C38
package application

import (
	"context"
	"errors"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/vulpemventures/go-elements/network"
)

// mortal is the store of a daemon that stops after some changes of trades and coins.
type mortal struct {
	ports.RepoManager
	left int
	dead bool
}

func (m *mortal) write() error {
	if m.dead || m.left == 0 {
		m.dead = true
		return errors.New("the daemon is stopped")
	}
	m.left--
	return nil
}

type mortalTrades struct {
	domain.TradeRepository
	m *mortal
}

type mortalCoins struct {
	domain.UnspentRepository
	m *mortal
}

func (m *mortal) TradeRepository() domain.TradeRepository {
	return mortalTrades{m.RepoManager.TradeRepository(), m}
}
func (m *mortal) UnspentRepository() domain.UnspentRepository {
	return mortalCoins{m.RepoManager.UnspentRepository(), m}
}
func (t mortalTrades) UpdateTrade(ctx context.Context, id *uuid.UUID, f func(*domain.Trade) (*domain.Trade, error)) error {
	if err := t.m.write(); err != nil {
		return err
	}
	return t.TradeRepository.UpdateTrade(ctx, id, f)
}
func (t mortalTrades) GetOrCreateTrade(ctx context.Context, id *uuid.UUID) (*domain.Trade, error) {
	if t.m.dead {
		return nil, errors.New("the daemon is stopped")
	}
	return t.TradeRepository.GetOrCreateTrade(ctx, id)
}
func (c mortalCoins) AddUnspents(ctx context.Context, us []domain.Unspent) error {
	if err := c.m.write(); err != nil {
		return err
	}
	return c.UnspentRepository.AddUnspents(ctx, us)
}
func (c mortalCoins) SpendUnspents(ctx context.Context, ks []domain.UnspentKey) (int, error) {
	if err := c.m.write(); err != nil {
		return -1, err
	}
	return c.UnspentRepository.SpendUnspents(ctx, ks)
}
func (c mortalCoins) ConfirmUnspents(ctx context.Context, ks []domain.UnspentKey) (int, error) {
	if err := c.m.write(); err != nil {
		return -1, err
	}
	return c.UnspentRepository.ConfirmUnspents(ctx, ks)
}
func (c mortalCoins) LockUnspents(ctx context.Context, ks []domain.UnspentKey, id uuid.UUID) (int, error) {
	if err := c.m.write(); err != nil {
		return -1, err
	}
	return c.UnspentRepository.LockUnspents(ctx, ks, id)
}
func (c mortalCoins) UnlockUnspents(ctx context.Context, ks []domain.UnspentKey) (int, error) {
	if err := c.m.write(); err != nil {
		return -1, err
	}
	return c.UnspentRepository.UnlockUnspents(ctx, ks)
}

// post broadcasts as long as its daemon runs.
type post struct {
	chain
	m *mortal
}

func (c *post) BroadcastTransaction(tx string) (string, error) {
	if c.m.dead {
		return "", errors.New("the daemon is stopped")
	}
	return c.chain.BroadcastTransaction(tx)
}

// pick one coin and describe the transaction by its own
type spender struct{ k domain.UnspentKey }

func (f *spender) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	r, err := (&taker{f.k}).FillProposal(o)
	if err == nil {
		r.PsetBase64 = partial(f.k)
	}
	return r, err
}

// The daemon stops while it serves a trade, is started again, and goes on.
//
//verif:harness prop=C38 time=200
//verif:bound one trade with one coin and an earlier one in any of five stages, proposed, then completed, given up, timed out or completed and confirmed; the daemon stops before any change of a trade or coin or with work left undone; afterwards the deadline passes, the transaction is confirmed or the taker completes or gives up
func hCarryOn() {
	messages(false)
	start := int64(1600000000)
	nd.FixClock(start)
	p, funds := trading()
	defer p.Close()
	spare, paid := p.coin(mAccount, 4, quote, 5000), p.coin(mAccount, 9, base, 700)
	paid.Confirmed = false
	p.fund(funds, spare, p.coin(domain.FeeAccount, 1, base, 5000))
	own := funds.Key()
	was := TradeManager
	TradeManager = &spender{own}
	TransactionManager = moves{[]domain.Unspent{paid}, []domain.UnspentKey{own}}
	defer func() { TradeManager = was }()

	m := &mortal{RepoManager: p, left: nd.Choice("changes before the stop", 9)}
	ch := &post{m: m}
	svc := NewTradeService(m, ch, newWatch(), base, time.Minute, decimal.New(1, -1), &network.Regtest)
	// an earlier trade
	stage := nd.Choice("earlier trade", 6)
	if stage < 5 {
		p.stored(domain.Trade{ID: other, MarketQuoteAsset: quote, Status: stages[stage], TxID: "earlier", ExpiryTime: uint64(start + 600),
			SwapRequest: domain.Swap{ID: "earlier"}, SwapAccept: domain.Swap{ID: "earlier"}})
	}
	if stage == 0 || stage == 2 || stage == 5 { // an undone release, or a trade that was not stored
		_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{spare.Key()}, other)
		must(err)
	}

	nd.Naps(true)
	acc, _, _, err := svc.TradePropose(bg, Market{base, quote}, TradeSell, ask{id: "ask", tx: "tx", ap: base, ar: quote, p: 1000, r: 1980})
	completed := false
	if err == nil && acc != nil {
		then := nd.Choice("then", 5)
		if then > 0 {
			nd.RunTasks()
		}
		switch then {
		case 1, 4:
			var msg domain.SwapComplete = note{id: "c", ref: acc.GetId(), tx: "0a0b"}
			txid, _, err := svc.TradeComplete(bg, &msg, nil)
			completed = err == nil && txid != "" && !m.dead
			if then == 4 && completed {
				nd.RunTasks()
				reportTo(m, nil, crawler.TransactionEvent{TxID: txid, TxHex: "0a0b", EventType: crawler.TransactionConfirmed, BlockTime: 1600000030})
			}
		case 2:
			var msg domain.SwapFail = note{id: "f", ref: acc.GetId(), text: "no more"}
			_, _, _ = svc.TradeComplete(bg, nil, &msg)
		case 3:
			nd.FixClock(start + 120)
			nd.Naps(false)
			nd.RunTasks()
			nd.Naps(true)
		}
		if nd.Bool("finished") {
			nd.RunTasks()
		}
	}
	m.dead = true
	nd.DropTasks()

	// started again
	w := newWatch()
	after := &chain{}
	svc = NewTradeService(p, after, w, base, time.Minute, decimal.New(1, -1), &network.Regtest)
	nd.RunTasks()
	live := map[uuid.UUID]bool{}
	var mine *domain.Trade
	for _, t := range p.trades() {
		if t.ID != other {
			nd.Assert(mine == nil, "a trade is made up")
			mine = t
		}
		if t.Status == domain.AcceptedStatus || t.IsCompleted() {
			live[t.ID] = true
			nd.Assert(w.txs[t.TxID], "the transaction of a pending trade is not watched after a restart")
		}
	}
	for k, c := range p.coins() {
		nd.Assert(c.Spent || !c.Locked || live[*c.LockedBy], "a coin stays reserved for a trade that is over or unknown")
		if k == spare.Key() {
			nd.Assert(!c.Spent && c.Locked == (stage == 0), "the coin of another trade is released or spent")
		}
	}
	if mine == nil {
		nd.Cover("not stored")
		nd.Assert(!p.coins()[own].Locked && !p.coins()[own].Spent, "the coin of a trade that was not stored is not free")
		return
	}
	pending := mine.Status == domain.AcceptedStatus
	c, paidNow := p.coins()[own], func() bool { u, ok := p.coins()[paid.Key()]; return ok && u.Confirmed && !u.Spent && !u.Locked }
	if pending {
		nd.Cover("pending")
		nd.Assert(!completed, "a completed trade is forgotten")
		over := uint64(nd.NowUnix()) >= mine.ExpiryTime
		nd.Assert(c.Spent || over || c.Locked && *c.LockedBy == mine.ID, "the coin of a pending trade is free")
	}
	if mine.IsSettled() {
		nd.Assert(c.Spent && paidNow(), "the coins of a settled trade are not as its transaction leaves them")
	}
	switch nd.Choice("later", 4) {
	case 0: // the deadline passes
		nd.FixClock(start + 300)
		nd.Naps(false)
		nd.RunTasks()
		now, c := p.trade(mine.ID), p.coins()[own]
		if pending {
			nd.Cover("expired")
			nd.Assert(now.Status == domain.ExpiredStatus && !w.txs[mine.TxID], "a pending trade does not expire after a restart")
			nd.Assert(c.Spent || !c.Locked, "the coin of an expired trade is not free")
		} else {
			nd.Assert(now.Status == mine.Status, "a trade that is not pending changed")
		}
		if stage < 5 {
			nd.Assert(p.trade(other).Status == stages[stage] && p.coins()[spare.Key()].Locked == (stage == 0), "another trade changed")
		}
	case 1: // the transaction is confirmed
		if !live[mine.ID] {
			return
		}
		nd.Cover("confirmed")
		e := p.report(crawler.TransactionEvent{TxID: mine.TxID, TxHex: "0a0b", EventType: crawler.TransactionConfirmed, BlockTime: 1600000030})
		now, c := p.trade(mine.ID), p.coins()[own]
		nd.Assert(now.IsSettled() && e.gone[mine.TxID], "a confirmed trade is not settled after a restart")
		nd.Assert(c.Spent && paidNow(), "the coins of a settled trade are not as its transaction leaves them")
	case 2: // the taker completes
		var msg domain.SwapComplete = note{id: "c2", ref: mine.SwapAccept.ID, tx: "0a0b"}
		txid, _, err := svc.TradeComplete(bg, &msg, nil)
		nd.RunTasks()
		inTime := pending && uint64(nd.NowUnix()) < mine.ExpiryTime
		nd.Assert(err == nil && txid != "" || !inTime, "a pending trade cannot be completed after a restart")
		if inTime {
			nd.Cover("completed")
			nd.Assert(p.trade(mine.ID).IsCompleted() && p.coins()[own].Spent, "a completed trade is not stored")
		}
	case 3: // the taker gives up
		var msg domain.SwapFail = note{id: "f2", ref: mine.SwapAccept.ID, text: "no more"}
		_, _, err := svc.TradeComplete(bg, nil, &msg)
		nd.RunTasks()
		nd.Assert((err == nil) == pending, "a pending trade cannot be given up after a restart, or another one can")
		if pending {
			c := p.coins()[own]
			nd.Assert(p.trade(mine.ID).Status == domain.FailedToCompleteStatus && (c.Spent || !c.Locked), "the coin of a given up trade is not free")
		}
	}
}
