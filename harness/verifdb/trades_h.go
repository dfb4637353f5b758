//verif:file pkg=internal/verifdb props=C11 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"errors"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// parser reads the accept id straight from the stored message.
type parser struct{ domain.SwapParser }

func (parser) DeserializeAccept(msg []byte) (domain.SwapAccept, error) {
	if len(msg) == 0 {
		return nil, errors.New("no message")
	}
	return accept{id: string(msg)}, nil
}

type accept struct {
	domain.SwapAccept
	id string
}

func (a accept) GetId() string { return a.id }

type trd struct {
	known   bool
	market  string
	code    int
	failed  bool
	acc, tx bool
	expiry  uint64
	settled uint64
	rest    domain.Trade // everything else
}

// rest fills in all that does not matter to the lookups.
func rest(t *domain.Trade, label string, which int) domain.Trade {
	swap := func(id string, there bool) domain.Swap {
		if !there {
			return domain.Swap{}
		}
		return domain.Swap{ID: label + id, Message: []byte(label + id + "m"), Timestamp: nd.Uint64("timestamp", 0, 1<<63)}
	}
	t.SwapRequest = domain.Swap{ID: label + "request", Message: []byte(label), Timestamp: nd.Uint64("timestamp", 0, 1<<63)}
	t.SwapComplete, t.SwapFail = swap("complete", which&1 != 0), swap("fail", which&2 != 0)
	t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = nd.Int64("fee", 0, 1<<62), nd.Int64("base fee", 0, 1<<62), nd.Int64("quote fee", 0, 1<<62)
	t.MarketPrice = domain.Prices{BasePrice: decimal.New(7, -2), QuotePrice: decimal.New(5, 3)}
	t.TraderPubkey, t.PsetBase64, t.TxHex = []byte(label+"key"), label+"pset", label+"hex"
	return *t
}

func sameRest(a, b *domain.Trade) bool {
	return nd.And(nd.DeepEq(a.SwapRequest, b.SwapRequest), nd.DeepEq(a.SwapComplete, b.SwapComplete), nd.DeepEq(a.SwapFail, b.SwapFail),
		a.MarketFee == b.MarketFee, a.MarketFixedBaseFee == b.MarketFixedBaseFee, a.MarketFixedQuoteFee == b.MarketFixedQuoteFee,
		a.MarketPrice.BasePrice.Equal(b.MarketPrice.BasePrice), a.MarketPrice.QuotePrice.Equal(b.MarketPrice.QuotePrice),
		string(a.TraderPubkey) == string(b.TraderPubkey), a.PsetBase64 == b.PsetBase64, a.TxHex == b.TxHex)
}

var (
	accs = []string{"acc0", "acc1", "acc2"}
	txs  = []string{"tx0", "tx1", "tx2"}
)

// Trades created and updated in any way, then looked up in every way.
//
//verif:harness prop=C11 time=120
func hTradeBook() {
	old := domain.SwapParserManager
	domain.SwapParserManager = parser{}
	defer func() { domain.SwapParserManager = old }()
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	repo := rm.TradeRepository()
	n := nd.Bound("trades", 2, 3)
	w := make([]trd, n)
	which := nd.Choice("messages", 4)
	update := func(i int) {
		w[i].code = nd.Int("code", domain.Empty, domain.Expired)
		if w[i].acc {
			nd.Assume(w[i].code >= domain.Accepted)
		}
		w[i].failed = nd.Bool("failed")
		w[i].expiry = nd.Uint64("expiry", 0, 1<<63)
		w[i].settled = nd.Uint64("settled", 0, 1<<63)
		err := repo.UpdateTrade(Ctx, &ids[i], func(t *domain.Trade) (*domain.Trade, error) {
			t.MarketQuoteAsset = w[i].market
			t.Status = domain.Status{Code: w[i].code, Failed: w[i].failed}
			t.ExpiryTime, t.SettlementTime = w[i].expiry, w[i].settled
			if w[i].acc {
				t.SwapAccept = domain.Swap{ID: accs[i], Message: []byte(accs[i]), Timestamp: w[i].expiry}
			}
			if w[i].tx {
				t.TxID = txs[i]
			}
			w[i].rest = rest(t, "a", which)
			return t, nil
		})
		nd.Assert(err == nil, "update failed")
	}
	for i := 0; i < n; i++ {
		k := nd.Choice("state", 4)
		if k == 0 {
			continue
		}
		t, err := repo.GetOrCreateTrade(Ctx, &ids[i])
		nd.Assert(err == nil && t != nil, "creation failed")
		if err != nil || t == nil {
			return
		}
		nd.Assert(t.ID == ids[i] && t.IsEmpty(), "new trade is not empty")
		w[i].known, w[i].code = true, domain.Empty
		if k == 1 {
			continue
		}
		w[i].market = []string{"q0", "q1"}[nd.Choice("market", 2)]
		w[i].acc, w[i].tx = k >= 3, k >= 3
		update(i)
	}
	if nd.Bool("again") {
		i := nd.Choice("which", n)
		nd.Assume(w[i].known && w[i].market != "")
		switch nd.Choice("more", 3) {
		case 1:
			w[i].acc, w[i].tx = true, true
		case 2:
			// a refused update
			err := repo.UpdateTrade(Ctx, &ids[i], func(t *domain.Trade) (*domain.Trade, error) {
				t.Status.Code++
				t.ExpiryTime++
				return nil, domain.ErrMarketMustBeClosed
			})
			nd.Assert(err != nil, "refused update reported as done")
		}
		update(i)
	}

	same := func(what string, i int, t *domain.Trade) {
		nd.Assert(t.ID == ids[i], what+": other trade")
		nd.Assert(t.Status.Code == w[i].code && t.Status.Failed == w[i].failed, what+": wrong status")
		nd.Assert(t.ExpiryTime == w[i].expiry && t.SettlementTime == w[i].settled, what+": wrong times")
		nd.Assert(t.MarketQuoteAsset == w[i].market, what+": wrong market")
		acc, tx := "", ""
		if w[i].acc {
			acc = accs[i]
		}
		if w[i].tx {
			tx = txs[i]
		}
		nd.Assert(t.SwapAccept.ID == acc && string(t.SwapAccept.Message) == acc && t.TxID == tx, what+": wrong ids")
		nd.Assert(sameRest(t, &w[i].rest), what+": altered")
	}
	list := func(what string, l []*domain.Trade, err error, want func(i int) bool) {
		nd.Assert(err == nil, what+": failed")
		count := 0
		for i := 0; i < n; i++ {
			found := 0
			for _, t := range l {
				if t != nil && t.ID == ids[i] {
					found++
					if w[i].known {
						same(what, i, t)
					}
				}
			}
			if want(i) {
				count++
				nd.Assert(found == 1, what+": trade not listed once")
			} else {
				nd.Assert(found == 0, what+": other trade listed")
			}
		}
		nd.Assert(len(l) == count, what+": wrong length")
	}
	lookups := func() {
		for i := 0; i < n; i++ {
			t, err := repo.GetTradeBySwapAcceptID(Ctx, accs[i])
			if w[i].acc {
				nd.Assert(err == nil && t != nil, "trade not found by its accept id")
				if t != nil {
					same("by accept id", i, t)
				}
			} else {
				nd.Assert(t == nil, "unknown accept id found")
			}
			t, err = repo.GetTradeByTxID(Ctx, txs[i])
			if w[i].tx {
				nd.Assert(err == nil && t != nil, "trade not found by its transaction id")
				if t != nil {
					same("by transaction id", i, t)
				}
			} else {
				nd.Assert(t == nil, "unknown transaction id found")
			}
			if w[i].known {
				t, err = repo.GetOrCreateTrade(Ctx, &ids[i])
				nd.Assert(err == nil && t != nil, "stored trade not found")
				if t != nil {
					same("by id", i, t)
				}
			}
		}
		l, err := repo.GetAllTrades(Ctx)
		list("all trades", l, err, func(i int) bool { return w[i].known })
		for _, q := range []string{"q0", "q1", "q2"} {
			q := q
			l, err = repo.GetAllTradesByMarket(Ctx, q)
			list("trades of a market", l, err, func(i int) bool { return w[i].known && w[i].market == q })
			l, err = repo.GetCompletedTradesByMarket(Ctx, q)
			list("completed trades of a market", l, err, func(i int) bool {
				return w[i].known && w[i].market == q && w[i].code >= domain.Completed && !w[i].failed
			})
		}
	}
	lookups()
}
