//verif:file pkg=internal/verifdb props=C26 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory,internal/infrastructure/storage/db/uow
package verifdb

import (
	"context"
	"errors"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/uow"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// member is a store taking part in a unit of work.
type member struct {
	id                               int
	key                              int // members with the same key share a transaction
	failBegin, failCommit, failUndo  bool
	begun, committed, undone, misuse int
	log                              *[]int
}

func (m *member) ContextKey() interface{} { return m.key }
func (m *member) Begin() (uow.Tx, error) {
	if m.failBegin {
		return nil, errors.New("begin")
	}
	m.begun++
	return m, nil
}
func (m *member) Commit() error {
	if m.undone > 0 || m.committed > 0 {
		m.misuse++
	}
	if m.failCommit {
		*m.log = append(*m.log, -1)
		return errors.New("commit")
	}
	m.committed++
	*m.log = append(*m.log, m.id)
	return nil
}
func (m *member) Rollback() error {
	m.undone++
	*m.log = append(*m.log, -2)
	if m.failUndo {
		return errors.New("rollback")
	}
	return nil
}

// Every outcome of every step of a unit of work over several stores.
//
//verif:harness prop=C26 time=60
func hUnitOfWork() {
	n := nd.Bound("stores", 3, 4)
	ms := make([]*member, n)
	var stores []uow.Transactional
	var log []int
	for i := range ms {
		ms[i] = &member{id: i, key: i, log: &log, failBegin: nd.Bool("failbegin"), failCommit: nd.Bool("failcommit"), failUndo: nd.Bool("failundo")}
		stores = append(stores, ms[i])
	}
	if nd.Bool("shared") {
		ms[n-1].key = 0
	}
	twice := nd.Bool("twice")
	if twice {
		stores = append(stores, ms[0])
	}
	outcome := nd.Choice("handler", 3)
	ran := 0
	err := uow.NewUnitOfWork(stores...).Run(func(c uow.Contextual) error {
		ran++
		for i, m := range ms {
			v := c.Context(m.key).Value(m.key)
			if i == n-1 && m.key == 0 {
				nd.Assert(v == uow.Tx(ms[0]), "stores sharing a transaction see different ones")
			} else {
				nd.Assert(v == uow.Tx(m), "handler sees another transaction")
			}
		}
		switch outcome {
		case 1:
			return errors.New("handler")
		case 2:
			panic("handler")
		}
		return nil
	})
	nd.Assert(ran <= 1, "handler ran more than once")
	part := ms
	if ms[n-1].key == 0 {
		part = ms[:n-1]
		nd.Assert(ms[n-1].begun+ms[n-1].committed+ms[n-1].undone == 0, "a shared store was begun or finished again")
	}
	if err == nil {
		nd.Assert(ran == 1 && outcome == 0, "success although the handler failed or did not run")
		for _, m := range part {
			nd.Assert(m.begun == 1 && m.committed == 1 && m.undone == 0, "success without every store committed once")
		}
		return
	}
	failed := false
	for _, k := range log {
		if k < 0 {
			failed = true
		} else {
			nd.Assert(!failed, "a store was committed after a failure")
		}
	}
	for _, m := range part {
		nd.Assert(m.misuse == 0, "a store was committed twice or after its rollback")
		nd.Assert(m.begun <= 1 && m.committed <= 1, "a store was begun or committed twice")
		if m.begun == 1 && m.committed == 0 {
			nd.Assert(m.undone == 1, "a store was neither committed nor rolled back")
		}
	}
	nd.Assert(outcome != 0 || ran == 0 || len(log) > 0, "failure although every step succeeded")
	allOK := outcome == 0
	for _, m := range part {
		if m.failBegin || m.failCommit {
			allOK = false
		}
	}
	nd.Assert(!allOK, "failure although every step succeeded")
	if outcome != 0 {
		for _, m := range part {
			nd.Assert(m.committed == 0, "a store was committed although the handler failed")
		}
	}
}

// Grouped changes to markets, trades and coin locks of the disk-backed store,
// with an optional foreign change in between.
//
//verif:harness prop=C26 time=60
func hGroup() {
	rm := New(true)
	defer rm.Close()
	id := ids[0]
	price := nd.Int64("price", 1, 1000)
	fee := nd.Int64("fee", 0, 9999)
	nd.Assert(rm.UnspentRepository().AddUnspents(Ctx, []domain.Unspent{{TxID: key(0).TxID, VOut: key(0).VOut, Value: 1, Confirmed: true}}) == nil, "setup failed")
	old := nd.Bool("existing")
	if old {
		_, err := rm.MarketRepository().GetOrCreateMarket(Ctx, &domain.Market{AccountIndex: first, Fee: 5})
		nd.Assert(err == nil, "setup failed")
	}
	fails := nd.Choice("fails", 5) // step at which the handler gives up, 4: never
	readOnly := nd.Bool("readonly")
	foreign := nd.Bool("foreign") // someone else changes the market meanwhile
	runs := 0
	boom := errors.New("handler")
	res, err := rm.RunTransaction(Ctx, readOnly, func(ctx context.Context) (interface{}, error) {
		runs++
		if runs > 3 {
			panic("retried without end")
		}
		if fails == 0 {
			return nil, boom
		}
		if _, err := rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: first, Fee: 5}); err != nil {
			return nil, err
		}
		if err := rm.MarketRepository().UpdateMarket(ctx, first, func(m *domain.Market) (*domain.Market, error) {
			m.QuoteAsset, m.Fee = "q0", fee
			return m, nil
		}); err != nil {
			return nil, err
		}
		if fails == 1 {
			return nil, boom
		}
		if foreign && runs == 1 {
			if _, err := rm.MarketRepository().GetOrCreateMarket(Ctx, &domain.Market{AccountIndex: first, Fee: 5}); err != nil {
				return nil, err
			}
			if err := rm.MarketRepository().UpdateMarket(Ctx, first, func(m *domain.Market) (*domain.Market, error) {
				m.BaseAsset = "foreign"
				return m, nil
			}); err != nil {
				return nil, err
			}
		}
		if _, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id); err != nil {
			return nil, err
		}
		if err := rm.TradeRepository().UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
			t.MarketQuoteAsset, t.ExpiryTime = "q0", uint64(price)
			return t, nil
		}); err != nil {
			return nil, err
		}
		if fails == 2 {
			return nil, boom
		}
		if _, err := rm.UnspentRepository().LockUnspents(ctx, []domain.UnspentKey{key(0)}, id); err != nil {
			return nil, err
		}
		if fails == 3 {
			return nil, boom
		}
		return runs, nil
	})
	m, e1 := rm.MarketRepository().GetMarketByAccount(Ctx, first)
	ts, e2 := rm.TradeRepository().GetAllTrades(Ctx)
	u, e3 := rm.UnspentRepository().GetUnspentWithKey(Ctx, key(0))
	nd.Assert(e1 == nil && e2 == nil && e3 == nil && u != nil, "lookup failed")
	if err == nil && !readOnly {
		nd.Assert(fails == 4 && res != nil, "success although the handler failed")
		nd.Assert(m != nil && m.QuoteAsset == "q0" && m.Fee == fee, "market change lost")
		if foreign && m != nil {
			nd.Assert(m.BaseAsset == "foreign", "a foreign change was overwritten")
		}
		nd.Assert(len(ts) == 1 && ts[0].ID == id && ts[0].ExpiryTime == uint64(price), "trade change lost")
		nd.Assert(u != nil && u.Locked, "coin lock lost")
		return
	}
	if fails == 4 {
		nd.Assert(err == nil, "failure although every step succeeded")
	} else {
		nd.Assert(err != nil, "success although the handler failed")
	}
	changedBy := foreign && fails >= 2
	nd.Assert((m != nil) == (old || changedBy), "half a group was kept: market")
	if m != nil {
		nd.Assert(m.QuoteAsset == "" && m.Fee == 5, "half a group was kept: market fields")
		nd.Assert(m.Price.BasePrice.Equal(decimal.NewFromInt(0)), "half a group was kept: price")
	}
	nd.Assert(len(ts) == 0, "half a group was kept: trade")
	nd.Assert(u != nil && !u.Locked, "half a group was kept: lock")
}

// A group whose changes cannot be stored.
//
//verif:harness prop=C26 time=20
//verif:bound one change of a market, a trade or a coin; the store is shut down before the group ends, or not
func hGroupLost() {
	rm := New(true)
	shut := nd.Bool("shut down")
	which := nd.Choice("store", 3)
	if which == 1 {
		nd.Assert(rm.UnspentRepository().AddUnspents(Ctx, []domain.Unspent{{TxID: key(0).TxID, VOut: key(0).VOut, Value: 1, Confirmed: true}}) == nil, "setup failed")
	}
	runs := 0
	f := func(ctx context.Context) (interface{}, error) {
		runs++
		var err error
		switch which {
		case 0:
			_, err = rm.TradeRepository().GetOrCreateTrade(ctx, &ids[0])
		case 1:
			_, err = rm.UnspentRepository().LockUnspents(ctx, []domain.UnspentKey{key(0)}, ids[0])
		case 2:
			err = rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{{TxID: key(0).TxID, VOut: key(0).VOut, Value: 1, Confirmed: true}})
		}
		if shut && err == nil {
			rm.Close()
		}
		return runs, err
	}
	run := rm.RunTransaction
	if which == 2 {
		run = rm.RunUnspentsTransaction
	}
	res, err := run(Ctx, false, f)
	if shut {
		nd.Assert(err != nil && res == nil && runs == 1, "success although the changes could not be stored")
		return
	}
	nd.Assert(err == nil && res != nil && runs == 1, "failure although every step succeeded")
	rm.Close()
}

// Grouped changes to coins of the disk-backed store, with an optional foreign
// change in between.
//
//verif:harness prop=C26 time=60
//verif:bound one coin stored or not, a group that adds another, spends or confirms the first, fails at any step or not, for reading or writing; a foreign change of the same coin in between or not
func hGroupCoins() {
	rm := New(true)
	defer rm.Close()
	us := rm.UnspentRepository()
	v := nd.Uint64("value", 1, 1<<50)
	nd.Assert(us.AddUnspents(Ctx, []domain.Unspent{{TxID: key(0).TxID, VOut: key(0).VOut, Value: v}}) == nil, "setup failed")
	fails := nd.Choice("fails", 4) // step at which the handler gives up, 3: never
	readOnly := nd.Bool("readonly")
	foreign := nd.Bool("foreign")
	spend := nd.Bool("spend")
	boom := errors.New("handler")
	runs := 0
	res, err := rm.RunUnspentsTransaction(Ctx, readOnly, func(ctx context.Context) (interface{}, error) {
		runs++
		if runs > 3 {
			panic("retried without end")
		}
		if fails == 0 {
			return nil, boom
		}
		if err := us.AddUnspents(ctx, []domain.Unspent{{TxID: key(1).TxID, VOut: key(1).VOut, Value: v + 1}}); err != nil {
			return nil, err
		}
		u, err := us.GetUnspentWithKey(ctx, key(1))
		nd.Assert(err == nil && u != nil && u.Value == v+1, "a group does not see its own changes")
		if fails == 1 {
			return nil, boom
		}
		if spend {
			_, err = us.SpendUnspents(ctx, []domain.UnspentKey{key(0)})
		} else {
			_, err = us.ConfirmUnspents(ctx, []domain.UnspentKey{key(0)})
		}
		if err != nil {
			return nil, err
		}
		if foreign && runs == 1 {
			if spend {
				_, err = us.ConfirmUnspents(Ctx, []domain.UnspentKey{key(0)})
			} else {
				_, err = us.SpendUnspents(Ctx, []domain.UnspentKey{key(0)})
			}
			if err != nil {
				return nil, err
			}
		}
		if fails == 2 {
			return nil, boom
		}
		return runs, nil
	})
	a, e1 := us.GetUnspentWithKey(Ctx, key(0))
	b, e2 := us.GetUnspentWithKey(Ctx, key(1))
	nd.Assert(e1 == nil && a != nil && a.Value == v, "lookup failed")
	_ = e2
	if fails < 3 {
		nd.Assert(err == boom && res == nil, "success although the handler failed")
	} else {
		nd.Assert(err == nil && res != nil, "failure although every step succeeded")
	}
	kept := fails == 3 && !readOnly
	nd.Assert((b != nil) == kept, "half a group was kept, or a change lost: coin added")
	others := foreign && fails >= 2
	nd.Assert(a.Spent == (spend && kept || !spend && others), "half a group was kept, or a change lost: spent")
	nd.Assert(a.Confirmed == (!spend && kept || spend && others), "half a group was kept, or a change lost: confirmed")
}
