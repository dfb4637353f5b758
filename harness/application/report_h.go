//verif:file pkg=internal/core/application props=C25
package application

import (
	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

// The fee report of a market for any book of trades.
//
//verif:harness prop=C25 time=150
//verif:bound up to two trades of two markets in any of eight stages, in both directions, amounts below 2^50, fees of 0, 25, 9999 (thorough also 1, 333) basis points
func hReport() {
	fees := []int64{0, 25, 9999, 1, 333}
	report(nd.Choice("trades", 3), 8, fees[:nd.Bound("fees", 3, 5)])
}

// The fee report of a market for longer books.
//
//verif:harness prop=C25 time=150
//verif:bound three (thorough four) trades of two markets, settled, completed or failed to settle, in both directions, amounts below 2^50, a fee of 25 basis points
func hReportMany() {
	report(nd.Bound("trades", 3, 4), 3, []int64{25})
}

func report(n, stages int, rates []int64) {
	parse := messages(false)
	p := newPlace(store(), mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	type line struct {
		asset string
		bp    int64
		fee   uint64
		price decimal.Decimal
	}
	want := map[string]line{}
	total := map[string]uint64{}
	for i := 0; i < n; i++ {
		t := domain.Trade{ID: uuid.UUID{byte(i + 1)}, MarketQuoteAsset: []string{quote, foreign}[nd.Choice("market", 2)]}
		t.Status = []domain.Status{
			domain.SettledStatus, domain.CompletedStatus, domain.FailedToSettleStatus, domain.ProposalStatus, domain.ProposalRejectedStatus,
			domain.AcceptedStatus, domain.FailedToCompleteStatus, domain.ExpiredStatus,
		}[nd.Choice("stage", stages)]
		amount := nd.Uint64("amount", 1, 1<<50)
		t.MarketFee = rates[nd.Choice("fee", len(rates))]
		t.MarketPrice = domain.Prices{BasePrice: decimal.New(int64(10+i), -1), QuotePrice: decimal.New(int64(20+i), -1)}
		r := ask{id: "ask", p: amount, r: 77, ap: base, ar: t.MarketQuoteAsset}
		l := line{base, t.MarketFee, amount * uint64(t.MarketFee) / 10000, t.MarketPrice.BasePrice}
		if nd.Bool("the trader pays the quote asset") {
			r.ap, r.ar = r.ar, r.ap
			l.asset, l.price = quote, t.MarketPrice.QuotePrice
		}
		_, e := parse.SerializeRequest(r)
		nd.Assert(e == nil, "no message")
		t.SwapRequest = domain.Swap{ID: "ask", Message: []byte{byte(len(parse.reqs))}}
		_, err := p.TradeRepository().GetOrCreateTrade(bg, &t.ID)
		must(err)
		must(p.TradeRepository().UpdateTrade(bg, &t.ID, func(*domain.Trade) (*domain.Trade, error) { return &t, nil }))
		if t.MarketQuoteAsset == quote && !t.Status.Failed && t.Status.Code >= domain.Completed {
			want[t.ID.String()] = l
			total[l.asset] += l.fee
		}
	}
	svc := NewOperatorService(p, nil, newWatch(), base, 25, &network.Regtest, 1000)
	rep, err := svc.GetCollectedMarketFee(bg, Market{base, quote})
	nd.Assert(err == nil && rep != nil, "no fee report")
	if err != nil {
		return
	}
	seen := map[string]bool{}
	for _, f := range rep.CollectedFees {
		l, ok := want[f.TradeID]
		nd.Assert(ok, "a trade of another market or an unfinished one is reported")
		nd.Assert(!seen[f.TradeID], "a trade is reported twice")
		seen[f.TradeID] = true
		nd.Assert(f.Asset == l.asset && f.BasisPoint == l.bp, "a fee is reported with another asset or rate")
		nd.Assert(f.Amount == l.fee, "another fee than the one charged is reported")
		nd.Assert(f.MarketPrice.Equal(l.price), "a fee is reported at another price")
		nd.Cover("reported")
	}
	nd.Assert(len(seen) == len(want), "a completed trade is not reported")
	for a, v := range rep.TotalCollectedFeesPerAsset {
		nd.Assert(uint64(v) == total[a], "a total is not the sum of the fees listed")
	}
	for a, v := range total {
		nd.Assert(uint64(rep.TotalCollectedFeesPerAsset[a]) == v, "the total of an asset is missing")
	}
	_, err = svc.GetCollectedMarketFee(bg, Market{base, "4f4f"})
	nd.Assert(err != nil, "an unknown market has a fee report")
}
