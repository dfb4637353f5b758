//verif:file pkg=internal/verifdb props=C10 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

type mkt struct {
	known, funded, open, plug bool
	fee, baseFee, quoteFee    int64
	price, inverse            int64
}

func prices(base, quote int64) domain.Prices {
	return domain.Prices{BasePrice: decimal.NewFromInt(base), QuotePrice: decimal.NewFromInt(quote)}
}

type book struct {
	rm   ports.RepoManager
	repo domain.MarketRepository
	m    []mkt
}

func (b *book) same(i int, m *domain.Market, what string) {
	w := b.m[i]
	nd.Assert(m.AccountIndex == first+i, what+": other account")
	nd.Assert(m.Fee == w.fee && m.FixedFee.BaseFee == w.baseFee && m.FixedFee.QuoteFee == w.quoteFee, what+": wrong fee")
	nd.Assert(m.IsTradable() == w.open, what+": wrong open state")
	nd.Assert(m.IsStrategyPluggable() == w.plug, what+": wrong strategy")
	if w.funded {
		nd.Assert(m.BaseAsset == "base" && m.QuoteAsset == quote(i), what+": wrong assets")
	} else {
		nd.Assert(m.BaseAsset == "" && m.QuoteAsset == "", what+": assets of a new market")
	}
	nd.Assert(m.Price.BasePrice.Equal(decimal.NewFromInt(w.price)) && m.Price.QuotePrice.Equal(decimal.NewFromInt(w.inverse)), what+": wrong price")
}

func (b *book) list(what string, l []domain.Market, err error, want func(i int) bool) {
	nd.Assert(err == nil, what+": failed")
	n := 0
	for i := range b.m {
		found := 0
		for k := range l {
			if l[k].AccountIndex == first+i {
				found++
				if b.m[i].known {
					b.same(i, &l[k], what)
				}
			}
		}
		if want(i) {
			n++
			nd.Assert(found == 1, what+": market not listed once")
		} else {
			nd.Assert(found == 0, what+": other market listed")
		}
	}
	nd.Assert(len(l) == n, what+": wrong length")
}

func (b *book) check() {
	last := first - 1
	for i := range b.m {
		m, err := b.repo.GetMarketByAccount(Ctx, first+i)
		nd.Assert(err == nil, "lookup by account failed")
		nd.Assert((m != nil) == b.m[i].known, "lookup by account: wrong presence")
		if m != nil && b.m[i].known {
			b.same(i, m, "lookup by account")
			last = first + i
		}
		m, acc, err := b.repo.GetMarketByAsset(Ctx, quote(i))
		nd.Assert(err == nil, "lookup by asset failed")
		nd.Assert((m != nil) == b.m[i].funded, "lookup by asset: wrong presence")
		if m != nil && b.m[i].funded {
			b.same(i, m, "lookup by asset")
			nd.Assert(acc == first+i, "lookup by asset: wrong account")
		}
	}
	m, acc, err := b.repo.GetLatestMarket(Ctx)
	nd.Assert(err == nil, "latest market failed")
	nd.Assert(acc == last, "latest market: wrong account")
	nd.Assert((m != nil) == (last >= first), "latest market: wrong presence")
	l, err := b.repo.GetTradableMarkets(Ctx)
	b.list("open markets", l, err, func(i int) bool { return b.m[i].open })
	l, err = b.repo.GetAllMarkets(Ctx)
	b.list("all markets", l, err, func(i int) bool { return b.m[i].known })
}

func (b *book) request(n, ops int) {
	// the last market is never created
	i := nd.Choice("market", n+1)
	if i == n {
		i = len(b.m) - 1
	}
	w := &b.m[i]
	switch nd.Choice("request", ops) {
	case 0:
		if i == len(b.m)-1 {
			nd.Assume(false)
		}
		fee := nd.Int64("fee", 0, 9999)
		m, err := b.repo.GetOrCreateMarket(Ctx, &domain.Market{AccountIndex: first + i, Fee: fee})
		nd.Assert(err == nil && m != nil, "creation failed")
		if !w.known {
			*w = mkt{known: true, fee: fee}
		}
		if m != nil {
			b.same(i, m, "creation")
		}
	case 1:
		if w.known && !w.funded {
			w.funded = true
			err := b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
				m.BaseAsset, m.QuoteAsset = "base", quote(i)
				return m, nil
			})
			nd.Assert(err == nil, "update failed")
		}
	case 2:
		fee := nd.Int64("newfee", 0, 9999)
		err := b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
			m.Fee = fee
			m.FixedFee.BaseFee, m.FixedFee.QuoteFee = fee+1, fee+2
			return m, nil
		})
		nd.Assert((err == nil) == w.known, "update of an unknown market")
		if w.known {
			w.fee, w.baseFee, w.quoteFee = fee, fee+1, fee+2
		}
	case 3:
		price, inverse := nd.Int64("price", 1, 1000), nd.Int64("inverse price", 1, 1000)
		if w.known {
			nd.Assume(w.funded)
		}
		var err error
		if nd.Bool("along with the rest") {
			if !w.known {
				nd.Assume(false)
			}
			err = b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
				m.Price = prices(price, inverse)
				return m, nil
			})
		} else {
			err = b.repo.UpdatePrices(Ctx, first+i, prices(price, inverse))
		}
		if w.known {
			nd.Assert(err == nil, "repricing failed")
			w.price, w.inverse = price, inverse
		}
	case 4:
		err := b.repo.OpenMarket(Ctx, quote(i))
		if w.funded && (!w.plug || w.price > 0) {
			nd.Assert(err == nil, "opening failed")
			w.open = true
		} else if w.funded {
			nd.Assert(err != nil, "opened without a price")
		}
	case 5:
		err := b.repo.CloseMarket(Ctx, quote(i))
		if w.funded {
			nd.Assert(err == nil, "closing failed")
			w.open = false
		}
	case 6:
		err := b.repo.DeleteMarket(Ctx, first+i)
		nd.Assert(err == nil, "deletion failed")
		*w = mkt{}
	case 7:
		if w.known && !w.open {
			pl := nd.Bool("pluggable")
			err := b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
				if pl {
					return m, m.MakeStrategyPluggable()
				}
				return m, m.MakeStrategyBalanced()
			})
			nd.Assert(err == nil, "strategy change failed")
			w.plug = pl
			if pl {
				w.price, w.inverse = 0, 0
			}
		}
	case 8:
		err := b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
			m.Fee = 1
			return nil, domain.ErrMarketMustBeClosed
		})
		nd.Assert(err != nil, "refused update reported as done")
	}
}

// One request on a book of markets in any state.
//
//verif:harness prop=C10 time=100
func hMarketRequest() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	b := &book{rm: rm, repo: rm.MarketRepository(), m: make([]mkt, 3)}
	n := nd.Bound("markets", 2, 2)
	for i := 0; i < n; i++ {
		k := nd.Choice("known", 3)
		if k == 0 {
			continue
		}
		w := &b.m[i]
		w.known, w.fee = true, nd.Int64("fee", 0, 9999)
		_, err := b.repo.GetOrCreateMarket(Ctx, &domain.Market{AccountIndex: first + i, Fee: w.fee})
		nd.Assert(err == nil, "creation failed")
		if k == 1 {
			continue
		}
		w.funded = true
		w.plug = nd.Bool("plug")
		w.open = nd.Bool("open")
		w.price, w.inverse = nd.Int64("price", 1, 1000), nd.Int64("inverse price", 1, 1000)
		nd.Assert(b.repo.UpdateMarket(Ctx, first+i, func(m *domain.Market) (*domain.Market, error) {
			m.BaseAsset, m.QuoteAsset = "base", quote(i)
			if w.plug {
				return m, m.MakeStrategyPluggable()
			}
			return m, nil
		}) == nil, "update failed")
		nd.Assert(b.repo.UpdatePrices(Ctx, first+i, prices(w.price, w.inverse)) == nil, "repricing failed")
		if w.open {
			nd.Assert(b.repo.OpenMarket(Ctx, quote(i)) == nil, "opening failed")
		}
	}
	b.check()
	b.request(n, 9)
	b.check()
}

// Any sequence of requests on one market, beside an unknown one.
//
//verif:harness prop=C10 time=100
func hMarketHistory() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	b := &book{rm: rm, repo: rm.MarketRepository(), m: make([]mkt, 2)}
	n := nd.Bound("requests", 3, 4)
	for i := 0; i < n; i++ {
		b.request(1, 8)
		b.check()
	}
}

// A market that is removed, and its account used again.
//
//verif:harness prop=C10 time=60
//verif:bound one market in any state, removed, created again or not, then any one request
func hMarketReuse() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	b := &book{rm: rm, repo: rm.MarketRepository(), m: make([]mkt, 2)}
	get := func() {
		b.m[0].fee = nd.Int64("fee", 0, 9999)
		_, err := b.repo.GetOrCreateMarket(Ctx, &domain.Market{AccountIndex: first, Fee: b.m[0].fee})
		nd.Assert(err == nil, "creation failed")
		b.m[0].known = true
	}
	get()
	nd.Assert(b.repo.UpdateMarket(Ctx, first, func(m *domain.Market) (*domain.Market, error) {
		m.BaseAsset, m.QuoteAsset = "base", quote(0)
		return m, nil
	}) == nil, "update failed")
	if nd.Bool("open") {
		nd.Assert(b.repo.OpenMarket(Ctx, quote(0)) == nil, "opening failed")
	}
	nd.Assert(b.repo.DeleteMarket(Ctx, first) == nil, "deletion failed")
	b.m[0] = mkt{}
	b.check()
	if nd.Bool("created again") {
		get()
		b.check()
	}
	b.request(1, 9)
	b.check()
}
