//verif:file pkg=internal/core/application props=C36
package application

import (
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/vulpemventures/go-elements/network"
)

// shop is a store of two markets.
type shop struct {
	*place
	svc  TradeService
	mkts []*domain.Market
	// available and confirmed funds by account and asset
	ready, all map[int]map[string]uint64
}

// anyCoins adds coins of the assets of the market in any state.
func (s *shop) anyCoins(account int, n byte, id string, assets ...string) {
	s.ready[account], s.all[account] = map[string]uint64{}, map[string]uint64{}
	for i, a := range assets {
		c := s.coin(account, n+byte(i), a, nd.Uint64("coin", 1, supply))
		switch nd.Choice("state", 4) {
		case 0:
			s.ready[account][a] += c.Value
			s.all[account][a] += c.Value
		case 1:
			c.Locked, c.LockedBy = true, &uuid.UUID{7}
			s.all[account][a] += c.Value
		case 2:
			c.Confirmed = false
		case 3:
			c.Spent = true
		}
		s.fund(c)
	}
}

func openShop(balanced bool) *shop {
	p := newPlace(store(), domain.FeeAccount, mAccount, mAccount+1)
	s := &shop{place: p, ready: map[int]map[string]uint64{}, all: map[int]map[string]uint64{}}
	s.mkts = append(s.mkts, p.market(func(m *domain.Market) {
		m.Tradable = nd.Bool("open")
		m.Fee = 25
		m.FixedFee = domain.FixedFee{BaseFee: 300, QuoteFee: 500}
		m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
		if !balanced {
			m.Fee = nd.Int64("fee", 0, 9999)
			m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
			m.Price = domain.Prices{BasePrice: decimal.New(25, -6), QuotePrice: decimal.New(399995, -1)}
		}
	}))
	other := &domain.Market{
		AccountIndex: mAccount + 1, BaseAsset: base, QuoteAsset: foreign, Fee: 30, Tradable: nd.Bool("other open"),
		FixedFee: domain.FixedFee{BaseFee: 1, QuoteFee: 2}, Price: domain.Prices{BasePrice: decimal.New(1, 0), QuotePrice: decimal.New(1, 0)},
		Strategy: mm.NewStrategyFromFormula(domain.PluggableStrategy{}),
	}
	_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: mAccount + 1, Fee: 30})
	must(err)
	must(p.MarketRepository().UpdateMarket(bg, mAccount+1, func(*domain.Market) (*domain.Market, error) { return other, nil }))
	s.mkts = append(s.mkts, other)
	s.svc = NewTradeService(p, nil, newWatch(), base, time.Minute, decimal.New(15, -3), &network.Regtest)
	return s
}

// lock locks the wallet or not.
func (s *shop) lock() bool {
	locked := nd.Bool("wallet locked")
	if locked {
		must(s.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
			v.Lock()
			return v, nil
		}))
	}
	return locked
}

func sameFee(f Fee, m *domain.Market) bool {
	return nd.And(f.BasisPoint == m.Fee, nd.And(f.FixedBaseFee == m.FixedFee.BaseFee, f.FixedQuoteFee == m.FixedFee.QuoteFee))
}

// The markets traders can see.
//
//verif:harness prop=C36 time=60
//verif:bound two markets with assets, open or closed, and a new one; any fee; wallet locked or not
func hMarkets() {
	s := openShop(false)
	defer s.Close()
	_, err := s.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: mAccount + 2, Fee: 30})
	must(err)
	locked := s.lock()
	list, err := s.svc.GetTradableMarkets(bg)
	nd.Assert((err != nil) == locked, "the markets are listed by a locked wallet or not at all")
	if err != nil {
		return
	}
	n := 0
	for _, m := range s.mkts {
		found := 0
		for _, l := range list {
			if l.Market == (Market{m.BaseAsset, m.QuoteAsset}) {
				found++
				nd.Assert(sameFee(l.Fee, m), "a market is listed with other fees")
			}
		}
		if m.Tradable {
			n++
			nd.Cover("listed")
			nd.Assert(found == 1, "an open market is not listed once")
		} else {
			nd.Assert(found == 0, "a closed market is listed")
		}
	}
	nd.Assert(len(list) == n, "something else is listed")
}

// The balance of a market.
//
//verif:harness prop=C36 time=90
//verif:bound three coins of any value up to the supply of a market and one of another one, each available, locked, unconfirmed or spent; wallet locked or not; known, unknown and malformed markets
func hBalance() {
	s := openShop(false)
	defer s.Close()
	s.anyCoins(mAccount, 1, "m", base, base, quote)
	s.anyCoins(mAccount+1, 5, "o", base)
	locked := s.lock()
	which := nd.Choice("market", 4)
	req := []Market{{base, quote}, {base, foreign}, {base, "zz"}, {base, assetIDs[0][:62] + "aa"}}[which]
	b, err := s.svc.GetMarketBalance(bg, req)
	nd.Assert((err == nil) == (!locked && which < 2), "the balance of a market is refused, or an unknown one has one")
	nd.Assert((b != nil) == (err == nil), "a balance and an error, or neither")
	if b == nil {
		return
	}
	nd.Cover("told")
	m := s.mkts[which]
	nd.Assert(b.Balance.BaseAmount == s.all[m.AccountIndex][m.BaseAsset], "the base balance is not that of the confirmed coins of the market")
	nd.Assert(b.Balance.QuoteAmount == s.all[m.AccountIndex][m.QuoteAsset], "the quote balance is not that of the confirmed coins of the market")
	nd.Assert(sameFee(b.Fee, m), "the balance is told with other fees")
}

// quoted asks the price of the market for the amount and compares it with the one
// of its rules for the coins available.
func (s *shop) quoted(amount uint64) {
	kind := nd.Choice("type", 2)
	which := nd.Choice("market", 5)
	req := []Market{{base, quote}, {base, foreign}, {foreign, quote}, {base, "zz"}, {base, assetIDs[0][:62] + "aa"}}[which]
	asset := []string{base, quote, foreign, ""}[nd.Choice("asset", 4)]
	got, err := s.svc.GetMarketPrice(bg, req, kind, amount, asset)
	nd.Assert((got != nil) == (err == nil), "a price and an error, or neither")
	if which > 1 {
		nd.Assert(err != nil, "an unknown market has a price")
		return
	}
	m := s.mkts[which]
	if !m.Tradable {
		nd.Assert(err != nil, "a closed market has a price")
		return
	}
	if asset != m.BaseAsset && asset != m.QuoteAsset {
		nd.Assert(err != nil, "a foreign asset has a price")
		return
	}
	funds := s.ready[m.AccountIndex]
	want, e := m.Preview(funds[m.BaseAsset], funds[m.QuoteAsset], amount, asset == m.BaseAsset, kind == TradeBuy)
	nd.Assert((e == nil) == (err == nil), "a price is refused, or told without one")
	if err != nil || e != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("priced")
	nd.Assert(got.Amount == want.Amount, "another amount is told")
	nd.Assert(got.Asset == want.Asset && got.Asset != asset, "another asset is told")
	nd.Assert(got.Price.BasePrice.Equal(want.Price.BasePrice) && got.Price.QuotePrice.Equal(want.Price.QuotePrice), "another price is told")
	nd.Assert(sameFee(got.Fee, m), "the price is told with other fees")
	nd.Assert(nd.And(got.Balance.BaseAmount == funds[m.BaseAsset], got.Balance.QuoteAmount == funds[m.QuoteAsset]), "another balance is told with the price")
}

// The price of a market set by its owner.
//
//verif:harness prop=C36 time=150
//verif:bound amounts and coins up to the supply; two coins of the market and one of another one, each available, locked, unconfirmed or spent; an open or closed market with a price of 39999.5 quote per base, any percentage fee and fixed fees; known, unknown and malformed markets and assets
func hQuote() {
	s := openShop(false)
	defer s.Close()
	s.anyCoins(mAccount, 1, "m", base, quote)
	s.anyCoins(mAccount+1, 5, "o", quote)
	s.quoted(nd.Uint64("amount", 0, supply))
}

// The price of a market told by its balance.
//
//verif:harness prop=C36 time=120
//verif:bound amounts up to 2000 in a market of up to 1000 and 3000 units, in up to three coins, each available, locked, unconfirmed or spent
func hQuoteBalanced() {
	s := openShop(true)
	defer s.Close()
	s.ready[mAccount], s.ready[mAccount+1] = map[string]uint64{}, map[string]uint64{}
	for i, a := range []string{base, quote, quote} {
		c := s.coin(mAccount, byte(i+1), a, []uint64{1000, 2000, 1000}[i])
		switch nd.Choice("state", 4) {
		case 0:
			s.ready[mAccount][a] += c.Value
		case 1:
			c.Locked, c.LockedBy = true, &uuid.UUID{7}
		case 2:
			c.Confirmed = false
		case 3:
			c.Spent = true
		}
		s.fund(c)
	}
	s.quoted(nd.Uint64("amount", 0, uint64(nd.Bound("amount", 300, 2000))))
}
