//verif:file pkg=internal/core/application props=C07
package application

import (
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/vulpemventures/go-elements/network"
)

// filler answers every proposal.
type filler struct{ asked int }

func (f *filler) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	f.asked++
	return &FillProposalResult{PsetBase64: "filled", SelectedUnspents: []explorer.Utxo{}}, nil
}

// propose puts any proposal to the market and checks the answer against what the
// market quotes for either of its amounts.
func propose(p *place, mkt *domain.Market, b, q uint64, r ask, kind int, slip int64) {
	fill := &filler{}
	was := TradeManager
	TradeManager = fill
	defer func() { TradeManager = was }()
	svc := NewTradeService(p, nil, newWatch(), base, time.Minute, decimal.New(slip, -3), &network.Regtest)
	acc, fail, _, err := svc.TradePropose(bg, Market{base, quote}, kind, r)
	nd.DropTasks()
	if err != nil {
		nd.Observe("err", err.Error())
	}
	nd.Assert(err == nil, "a proposal is not answered")
	nd.Assert((acc == nil) != (fail == nil), "a proposal is both accepted and rejected or neither")
	nd.Assert(fill.asked == 0 || acc != nil, "coins are prepared for a rejected proposal")

	// amounts of the base and the quote asset, and the quotes for them
	isBuy := kind == TradeBuy
	baseAmt, quoteAmt := r.p, r.r
	right := r.ap == base && r.ar == quote
	if isBuy {
		baseAmt, quoteAmt = r.r, r.p
		right = r.ap == quote && r.ar == base
	}
	if !right {
		nd.Assert(acc == nil, "a proposal of other assets is accepted")
		return
	}
	forBase, err1 := mkt.Preview(b, q, baseAmt, true, isBuy)
	forQuote, err2 := mkt.Preview(b, q, quoteAmt, false, isBuy)
	k := uint64(slip)
	fair, exact := false, false
	if err1 == nil { // a fair amount of the quote asset
		e := forBase.Amount
		exact = quoteAmt == e
		if isBuy {
			fair = noLess(quoteAmt, e, k)
		} else {
			fair = noMore(quoteAmt, e, k)
		}
	}
	if err2 == nil { // a fair amount of the base asset
		e := forQuote.Amount
		exact = nd.Or(exact, baseAmt == e)
		if isBuy {
			fair = nd.Or(fair, noMore(baseAmt, e, k))
		} else {
			fair = nd.Or(fair, noLess(baseAmt, e, k))
		}
	}
	if acc != nil {
		nd.Cover("accepted")
		nd.Assert(fair, "a proposal below the market price is accepted")
		nd.Assert(mkt.Tradable, "a proposal to a closed market is accepted")
	} else {
		nd.Assert(!exact, "a proposal at the market price is rejected")
	}
}

const big = 1 << 53 // more than any amount

func noLess(a, e, k uint64) bool {
	if e > big {
		return k >= 1000
	}
	return 1000*a >= e*(1000-k)
}

func noMore(a, e, k uint64) bool {
	if e > big {
		return true
	}
	return 1000*a <= e*(1000+k)
}

func anyAsk(most uint64) (ask, int) {
	r := ask{id: "ask", tx: "tx", p: nd.Uint64("given", 1, most), r: nd.Uint64("wanted", 1, most)}
	kind := nd.Choice("type", 2)
	assets := nd.Choice("assets", 5)
	r.ap = []string{base, quote, foreign, base, base}[assets]
	r.ar = []string{quote, base, quote, foreign, base}[assets]
	return r, kind
}

// some of a few settings, fewer in the quick check
func some(name string, quick, all []int64) int64 {
	if nd.Thorough() {
		quick = all
	}
	return quick[nd.Choice(name, len(quick))]
}

func anySlip() int64 { return some("slippage", []int64{0, 15}, []int64{0, 15, 50, 1000}) }
func anyFee() int64  { return some("fee", []int64{25}, []int64{0, 25, 5000}) }

// Any proposal to a market with prices set by its owner.
//
//verif:harness prop=C07 time=200
//verif:bound amounts and coins up to the supply, fixed fees up to 100000; prices of 0.00002 and 39999.5 (thorough also 1) quote per base; slippage of 0 and 1.5 (thorough also 5 and 100) percent; market fees of 0.25 (thorough also 0 and 50) percent
func hProposal() {
	messages(false)
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	mkt := p.market(func(m *domain.Market) {
		m.Fee = anyFee()
		if nd.Bool("fixed fees") {
			m.FixedFee = domain.FixedFee{BaseFee: nd.Int64("base fee", 1, 100000), QuoteFee: nd.Int64("quote fee", 1, 100000)}
		}
		m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
		m.Price = []domain.Prices{
			{BasePrice: decimal.New(50000, 0), QuotePrice: decimal.New(2, -5)},
			{BasePrice: decimal.New(25, -6), QuotePrice: decimal.New(399995, -1)},
			{BasePrice: decimal.New(1, 0), QuotePrice: decimal.New(1, 0)},
		}[nd.Choice("price", nd.Bound("prices", 2, 3))]
	})
	b, q := nd.Uint64("base balance", 1, supply), nd.Uint64("quote balance", 1, supply)
	p.fund(p.coin(domain.FeeAccount, 1, base, 5000), p.coin(mAccount, 2, base, b), p.coin(mAccount, 3, quote, q))
	r, kind := anyAsk(supply)
	propose(p, mkt, b, q, r, kind, anySlip())
}

// Any proposal to a market priced by its balance.
//
//verif:harness prop=C07 time=120
//verif:bound amounts up to 300 (thorough 2000), one of them 1, 7, 40 or 60, in a market of 1000 and 3000 units; slippage of 0 and 1.5 (thorough also 5 and 100) percent; market fees of 0.25 (thorough also 0 and 50) percent
func hProposalBalanced() {
	messages(false)
	p := newPlace(store(), domain.FeeAccount, mAccount)
	defer p.Close()
	mkt := p.market(func(m *domain.Market) {
		m.Fee = anyFee()
		m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
	})
	b, q := uint64(1000), uint64(3000)
	p.fund(p.coin(domain.FeeAccount, 1, base, 5000), p.coin(mAccount, 2, base, b), p.coin(mAccount, 3, quote, q))
	r, kind := anyAsk(uint64(nd.Bound("amount", 300, 2000)))
	few := []uint64{1, 7, 40, 60}[nd.Choice("amount", 4)]
	if nd.Bool("given is fixed") {
		nd.Assume(r.p == few)
		r.p = few
	} else {
		nd.Assume(r.r == few)
		r.r = few
	}
	propose(p, mkt, b, q, r, kind, anySlip())
}
