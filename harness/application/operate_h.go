//verif:file pkg=internal/core/application props=C35
package application

import (
	"context"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifdb"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/vulpemventures/go-elements/network"
)

// order is a command of the operator on a market.
type order struct {
	kind        int
	market      Market
	n, m        int64 // fees
	base, quote decimal.Decimal
	strategy    int
	// the answer
	reply *MarketWithFee
	err   error
}

const orders = 6

func anyOrder(name string, strange bool) *order {
	o := &order{kind: nd.Choice(name, orders), market: Market{base, quote}}
	if strange {
		o.market = []Market{
			{base, quote}, {base, foreign}, {foreign, quote}, {base, "quote"}, {"", quote}, {quote, base},
		}[nd.Choice(name+" market", 6)]
	}
	if !strange && !nd.Thorough() {
		switch o.kind {
		case 2:
			o.n = nd.Int64(name+" fee", 0, 9999)
		case 3:
			o.n, o.m = nd.Int64(name+" base fee", 1, 1000), nd.Int64(name+" quote fee", 1, 1000)
		case 4:
			o.base, o.quote = decimal.New(3, -2), decimal.New(7, 2)
		case 5:
			o.strategy = nd.Choice(name+" strategy", 2)
		}
		return o
	}
	switch o.kind {
	case 2:
		o.n = nd.Int64(name+" fee", -1<<63, 1<<63-1)
	case 3:
		o.n, o.m = nd.Int64(name+" base fee", -1<<63, 1<<63-1), nd.Int64(name+" quote fee", -1<<63, 1<<63-1)
	case 4:
		o.base = []decimal.Decimal{decimal.New(3, -2), decimal.New(0, 0), decimal.New(-1, 0), decimal.New(2099999997690001, 0)}[nd.Choice(name+" base price", 4)]
		o.quote = []decimal.Decimal{decimal.New(7, 2), decimal.New(0, 0), decimal.New(-1, 0), decimal.New(2099999997690001, 0)}[nd.Choice(name+" quote price", 4)]
	case 5:
		o.strategy = nd.Choice(name+" strategy", 4)
	}
	return o
}

func (o *order) give(ctx context.Context, svc OperatorService) {
	b, q := o.market.BaseAsset, o.market.QuoteAsset
	switch o.kind {
	case 0:
		o.err = svc.OpenMarket(ctx, b, q)
	case 1:
		o.err = svc.CloseMarket(ctx, b, q)
	case 2:
		o.reply, o.err = svc.UpdateMarketPercentageFee(ctx, MarketWithFee{Market: o.market, Fee: Fee{BasisPoint: o.n}})
	case 3:
		o.reply, o.err = svc.UpdateMarketFixedFee(ctx, MarketWithFee{Market: o.market, Fee: Fee{FixedBaseFee: o.n, FixedQuoteFee: o.m}})
	case 4:
		o.err = svc.UpdateMarketPrice(ctx, MarketWithPrice{Market: o.market, Price: Price{BasePrice: o.base, QuotePrice: o.quote}})
	case 5:
		o.err = svc.UpdateMarketStrategy(ctx, MarketStrategy{Market: o.market, Strategy: domain.StrategyType(o.strategy)})
	}
}

// apply does what is ordered to the market, and tells whether it is allowed.
func (o *order) apply(m *domain.Market) bool {
	was := *m
	ok := false
	switch o.kind {
	case 0:
		ok = m.IsTradable() || m.MakeTradable() == nil
	case 1:
		ok = m.MakeNotTradable() == nil
	case 2:
		ok = m.ChangeFeeBasisPoint(o.n) == nil
	case 3:
		ok = m.ChangeFixedFee(o.n, o.m) == nil
	case 4:
		most := decimal.New(2099999997690000, 0)
		if ok = o.base.Sign() > 0 && o.quote.Sign() > 0 && !o.base.GreaterThan(most) && !o.quote.GreaterThan(most); ok {
			m.Price = domain.Prices{BasePrice: o.base, QuotePrice: o.quote}
		}
	case 5:
		switch o.strategy {
		case int(domain.StrategyTypePluggable):
			ok = m.MakeStrategyPluggable() == nil
		case int(domain.StrategyTypeBalanced):
			ok = m.MakeStrategyBalanced() == nil
		}
	}
	if !ok {
		*m = was
	}
	return ok
}

func sameMarket(a, b *domain.Market) bool {
	ok := a.AccountIndex == b.AccountIndex && a.BaseAsset == b.BaseAsset && a.QuoteAsset == b.QuoteAsset &&
		a.IsTradable() == b.IsTradable() && a.IsStrategyPluggable() == b.IsStrategyPluggable() &&
		a.Price.BasePrice.Equal(b.Price.BasePrice) && a.Price.QuotePrice.Equal(b.Price.QuotePrice)
	return nd.And(ok, nd.And(a.Fee == b.Fee, nd.And(a.FixedFee.BaseFee == b.FixedFee.BaseFee, a.FixedFee.QuoteFee == b.FixedFee.QuoteFee)))
}

func (p *place) stored(account int) *domain.Market {
	m, err := p.MarketRepository().GetMarketByAccount(bg, account)
	must(err)
	return m
}

// aMarket is any market of the assets.
func (p *place) aMarket() *domain.Market {
	return p.market(func(m *domain.Market) {
		m.Tradable = nd.Bool("open")
		m.Fee = nd.Int64("fee", 0, 9999)
		m.FixedFee = domain.FixedFee{BaseFee: nd.Int64("base fee", 0, 1000), QuoteFee: nd.Int64("quote fee", 0, 1000)}
		m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
		own := nd.Bool("priced by its owner")
		if own {
			m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
		}
		if own && m.Tradable || nd.Bool("priced") { // or once was
			m.Price = domain.Prices{BasePrice: decimal.New(5, -1), QuotePrice: decimal.New(2, 0)}
		}
	})
}

func operator(p *place) OperatorService {
	return NewOperatorService(p, nil, newWatch(), base, 100, &network.Regtest, 1000)
}

// listed checks that the market is listed as it is.
func listed(svc OperatorService, m *domain.Market) {
	all, err := svc.ListMarket(bg)
	nd.Assert(err == nil && len(all) == 2, "the markets cannot be listed")
	for _, i := range all {
		if i.AccountIndex != uint64(m.AccountIndex) {
			nd.Assert(i.Market == Market{} && !i.Tradable, "another market is listed wrong")
			continue
		}
		kind := int(domain.StrategyTypeBalanced)
		if m.IsStrategyPluggable() {
			kind = int(domain.StrategyTypePluggable)
		}
		nd.Assert(i.Market == Market{m.BaseAsset, m.QuoteAsset}, "a market is listed with other assets")
		nd.Assert(i.Tradable == m.IsTradable(), "a closed market is listed as open or the other way round")
		nd.Assert(i.StrategyType == kind, "a market is listed with another strategy")
		nd.Assert(i.Price.BasePrice.Equal(m.Price.BasePrice) && i.Price.QuotePrice.Equal(m.Price.QuotePrice), "a market is listed with other prices")
		nd.Assert(nd.And(i.Fee.BasisPoint == m.Fee, nd.And(i.Fee.FixedBaseFee == m.FixedFee.BaseFee, i.Fee.FixedQuoteFee == m.FixedFee.QuoteFee)), "a market is listed with other fees")
	}
}

// One command on any market.
//
//verif:harness prop=C35 time=120
//verif:bound one command (open, close, percentage fee, fixed fees, prices, strategy) with any fees, prices within and outside the limits and well-formed, foreign and malformed assets, on a market in any state, with and without an address for fees; both storage back ends
func hOrder() {
	accounts := []int{mAccount}
	if nd.Bool("fee account in use") {
		accounts = append(accounts, domain.FeeAccount)
	}
	p := newPlace(verifdb.New(nd.Bool("on disk")), accounts...)
	defer p.Close()
	want := p.aMarket()
	_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: mAccount + 1, Fee: 30})
	must(err)
	other := p.stored(mAccount + 1)
	svc := operator(p)
	o := anyOrder("command", true)
	o.give(bg, svc)

	ok := o.market == Market{base, quote} && (o.kind != 0 || len(accounts) == 2) && o.apply(want)
	if o.kind == 1 && o.market == (Market{base, foreign}) {
		// an unknown market is as closed as it can be
	} else {
		nd.Assert(ok == (o.err == nil), "a valid command is refused or an invalid one accepted")
	}
	if o.err == nil {
		nd.Cover("done")
	} else {
		nd.Cover("refused")
	}
	nd.Assert(sameMarket(p.stored(mAccount), want), "a command did not change the market as told")
	nd.Assert(sameMarket(p.stored(mAccount+1), other), "a command changed another market")
	nd.Assert((o.reply != nil) == (o.err == nil && (o.kind == 2 || o.kind == 3)), "a command is answered with nothing or with a reply and an error")
	if r := o.reply; r != nil {
		nd.Assert(r.Market == Market{want.BaseAsset, want.QuoteAsset}, "the reply tells another market")
		nd.Assert(nd.And(r.BasisPoint == want.Fee, nd.And(r.FixedBaseFee == want.FixedFee.BaseFee, r.FixedQuoteFee == want.FixedFee.QuoteFee)), "the reply tells other fees")
	}
	listed(svc, want)
}

// Two commands at the same time are as good as one after the other.
//
//verif:harness prop=C35 time=240
//verif:bound two valid (thorough: any two) of the commands above on a market in any state, every order of their storage steps with up to two switches (thorough three) between them
func hOrders() {
	p := newPlace(store(), mAccount, domain.FeeAccount)
	defer p.Close()
	m := p.aMarket()
	svc := operator(p)
	os := []*order{anyOrder("first", false), anyOrder("second", false)}
	nd.Schedule(nd.Bound("switches", 2, 3))
	for _, o := range os {
		o := o
		nd.Go(func() { o.give(yieldCtx{bg}, svc) })
	}
	nd.RunTasks()
	now := p.stored(mAccount)
	serial := func(a, b *order) bool {
		want := *m
		if a.apply(&want) != (a.err == nil) || b.apply(&want) != (b.err == nil) {
			return false
		}
		return sameMarket(now, &want)
	}
	one, two := serial(os[0], os[1]), serial(os[1], os[0])
	nd.Assert(nd.Or(one, two), "commands given at the same time lose each other's changes")
	nd.Cover("done")
}

// stopCtx stops the daemon at any look into it, that is before any storage step.
type stopCtx struct{ context.Context }

func (c stopCtx) Value(k interface{}) interface{} {
	if nd.Bool("stops here") {
		panic("stopped")
	}
	return c.Context.Value(k)
}

// The daemon stops while a command is carried out.
//
//verif:harness prop=C35 time=60
//verif:bound one valid command (thorough any) on a market in any state, stopped before any of its storage steps, and a second command after the next start
func hOrderStop() {
	p := newPlace(store(), mAccount, domain.FeeAccount)
	defer p.Close()
	before := p.aMarket()
	after := *before
	o := anyOrder("command", false)
	ok := o.apply(&after)
	stopped := nd.Panics(func() { o.give(stopCtx{bg}, operator(p)) })
	now := p.stored(mAccount)
	if !stopped {
		nd.Cover("finished")
		nd.Assert(ok == (o.err == nil) && sameMarket(now, &after), "a command did not change the market as told")
		return
	}
	nd.Cover("stopped")
	done := sameMarket(now, &after)
	if !now.IsStrategyPluggable() && !before.IsStrategyPluggable() {
		// the prices of a market priced by its balance mean nothing
		now.Price = before.Price
	}
	nd.Assert(nd.Or(done, sameMarket(now, before)), "a command took effect in part when the daemon stopped")
}
