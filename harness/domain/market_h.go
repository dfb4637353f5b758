//verif:file pkg=internal/core/domain props=C03,C05,C06
package domain

import (
	"math/big"

	"github.com/shopspring/decimal"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

func vDec(name string, lo, hi int64) decimal.Decimal {
	return decimal.New(nd.Int64(name, lo, hi), -8)
}

// vMarket is any market that respects the limits.
func vMarket() *Market {
	m := &Market{AccountIndex: 5}
	m.Fee = nd.Int64("fee", 0, 9999)
	bf := nd.Int64("fixed base fee", 0, 1<<53)
	qf := nd.Int64("fixed quote fee", 0, 1<<53)
	nd.Assume(nd.Iff(bf == 0, qf == 0))
	m.FixedFee = FixedFee{BaseFee: bf, QuoteFee: qf}
	if nd.Bool("pluggable") {
		if nd.Bool("legacy strategy") {
			m.Strategy = mm.MakingStrategy{}
		} else {
			m.Strategy = mm.NewStrategyFromFormula(PluggableStrategy{})
		}
	} else {
		m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
	}
	if nd.Bool("has base asset") {
		m.BaseAsset = "base"
	}
	if nd.Bool("has quote asset") {
		m.QuoteAsset = "quote"
	}
	if nd.Bool("priced") {
		m.Price = Prices{BasePrice: vDec("base price", 0, 1<<50), QuotePrice: vDec("quote price", 0, 1<<50)}
	}
	m.Tradable = nd.Bool("open")
	nd.Assume(nd.Imp(m.Tradable, m.BaseAsset != "" && m.QuoteAsset != ""))
	return m
}

// One configuration request of any kind on any market.
//
//verif:harness prop=C03 time=100
//verif:bound one request (fund with up to 3 outpoints over 3 assets, open, close, change fee, change fixed fee, switch strategy, set price) on an arbitrary market within its limits; fees are arbitrary int64, prices multiples of 1e-8 below 2^50 units
func hMarketStep() {
	m := vMarket()
	pre := *m
	funded := m.BaseAsset != "" && m.QuoteAsset != ""
	priced := nd.Or(!m.BaseAssetPrice().IsZero(), !m.QuoteAssetPrice().IsZero())
	changedPrice := false
	var err error
	op := nd.Choice("request", 8)
	switch op {
	case 0:
		n := nd.Choice("outpoints", 4)
		var outs []OutpointWithAsset
		var nb, nq, nx int
		for i := 0; i < n; i++ {
			a := nd.Pick("asset", "base", "quote", "other")
			outs = append(outs, OutpointWithAsset{Asset: a, Txid: "t", Vout: i})
			switch a {
			case "base":
				nb = 1
			case "quote":
				nq = 1
			default:
				nx = 1
			}
		}
		err = m.FundMarket(outs, "base")
		if !funded {
			good := nd.And(nb == 1, nq+nx == 1)
			nd.Assert(nd.Iff(err == nil, good), "funding accepted or refused wrongly")
			if err == nil {
				nd.Assert(m.BaseAsset == "base" && nd.Iff(m.QuoteAsset == "quote", nq == 1) && nd.Iff(m.QuoteAsset == "other", nx == 1), "funding recorded the wrong assets")
				nd.Cover("funded")
			}
		} else {
			nd.Assert(m.BaseAsset == pre.BaseAsset && m.QuoteAsset == pre.QuoteAsset, "funding a funded market changed its assets")
		}
	case 1:
		err = m.MakeTradable()
		if err == nil {
			nd.Assert(nd.And(m.Tradable, funded, nd.Imp(m.IsStrategyPluggable(), priced)), "market opened without assets or prices")
			nd.Cover("opened")
		}
		nd.Assert(nd.Imp(nd.And(funded, nd.Or(!m.IsStrategyPluggable(), priced)), err == nil), "a complete market could not be opened")
	case 2:
		err = m.MakeNotTradable()
		nd.Assert(nd.Iff(err == nil, funded), "closing refused or accepted wrongly")
		nd.Assert(nd.Imp(err == nil, !m.Tradable), "closed market still open")
	case 3:
		fee := nd.Int64("new fee", -1<<63, 1<<63-1)
		err = m.ChangeFeeBasisPoint(fee)
		nd.Assert(nd.Iff(err == nil, nd.And(funded, !pre.Tradable, fee >= 0, fee <= 9999)), "fee change accepted or refused wrongly")
		nd.Assert(nd.Imp(err == nil, m.Fee == fee), "fee not recorded")
	case 4:
		bf := nd.Int64("new base fee", -1<<63, 1<<63-1)
		qf := nd.Int64("new quote fee", -1<<63, 1<<63-1)
		err = m.ChangeFixedFee(bf, qf)
		nd.Assert(nd.Iff(err == nil, nd.And(funded, !pre.Tradable, bf >= 0, qf >= 0, nd.Iff(bf == 0, qf == 0))), "fixed fee change accepted or refused wrongly")
		nd.Assert(nd.Imp(err == nil, nd.And(m.FixedFee.BaseFee == bf, m.FixedFee.QuoteFee == qf)), "fixed fees not recorded")
	case 5:
		err = m.MakeStrategyPluggable()
		nd.Assert(nd.Iff(err == nil, !pre.Tradable), "strategy change accepted or refused wrongly")
		if err == nil {
			nd.Assert(m.IsStrategyPluggable(), "strategy not recorded")
			nd.Assert(nd.Imp(funded, m.MakeTradable() != nil), "a market just switched to operator prices can be opened without new prices")
			m.Tradable = pre.Tradable
			changedPrice = true
		}
	case 6:
		err = m.MakeStrategyBalanced()
		nd.Assert(nd.Iff(err == nil, !pre.Tradable), "strategy change accepted or refused wrongly")
		if err == nil {
			_, isBal := m.Strategy.Formula().(formula.BalancedReserves)
			nd.Assert(!m.IsStrategyPluggable() && isBal, "strategy not recorded")
		}
	case 7:
		p := vDec("new price", 0, 1<<50)
		if nd.Bool("base side") {
			err = m.ChangeBasePrice(p)
			nd.Assert(nd.Imp(err == nil, m.Price.BasePrice.Equal(p) && m.Price.QuotePrice.Equal(pre.Price.QuotePrice)), "base price not recorded")
		} else {
			err = m.ChangeQuotePrice(p)
			nd.Assert(nd.Imp(err == nil, m.Price.QuotePrice.Equal(p) && m.Price.BasePrice.Equal(pre.Price.BasePrice)), "quote price not recorded")
		}
		nd.Assert(nd.Iff(err == nil, funded), "price accepted for an incomplete market or refused for a complete one")
		changedPrice = true
	}
	if err != nil {
		nd.Assert(nd.DeepEq(pre, *m), "a refused change modified the market")
		nd.Cover("refused")
	}
	// limits
	nd.Assert(nd.And(m.Fee >= 0, m.Fee <= 9999), "fee out of limits")
	nd.Assert(nd.And(m.FixedFee.BaseFee >= 0, m.FixedFee.QuoteFee >= 0, nd.Iff(m.FixedFee.BaseFee == 0, m.FixedFee.QuoteFee == 0)), "fixed fees out of limits")
	// nothing else moved
	nd.Assert(nd.Or(op == 3, m.Fee == pre.Fee), "fee changed by another request")
	nd.Assert(nd.Or(op == 4, m.FixedFee == pre.FixedFee), "fixed fee changed by another request")
	nd.Assert(nd.Or(op == 1, op == 2, m.Tradable == pre.Tradable), "market opened or closed by another request")
	nd.Assert(nd.Or(op == 5, op == 6, m.Strategy == pre.Strategy), "strategy changed by another request")
	nd.Assert(changedPrice || nd.DeepEq(m.Price, pre.Price), "price changed by another request")
	nd.Assert(nd.Or(op == 0, m.BaseAsset == pre.BaseAsset && m.QuoteAsset == pre.QuoteAsset), "assets changed by another request")
	nd.Assert(m.AccountIndex == pre.AccountIndex, "account changed")
	nd.Observe("open", m.Tradable)
	nd.Observe("fee", m.Fee)
}

// A market is created only within the fee limits.
//
//verif:harness prop=C03 time=30
//verif:bound every account index and every int64 fee
func hMarketNew() {
	acc := nd.Int("account", -1<<62, 1<<62)
	fee := nd.Int64("fee", -1<<63, 1<<63-1)
	m, err := NewMarket(acc, fee)
	nd.Assert(nd.Iff(err == nil, nd.And(acc >= 0, fee >= 0, fee <= 9999)), "creation accepted or refused wrongly")
	if err == nil {
		nd.Assert(nd.And(m.AccountIndex == acc, m.Fee == fee, !m.Tradable, m.FixedFee.BaseFee == 0, m.FixedFee.QuoteFee == 0), "created market is not as requested")
		nd.Cover("created")
	} else {
		nd.Assert(m == nil, "refused creation returned a market")
	}
}

func vFloorFee(a *big.Int, f int64) *big.Int {
	x := new(big.Int).Mul(a, big.NewInt(f))
	return x.Div(x, big.NewInt(10000))
}

// A quote at an operator price.
//
//verif:harness prop=C05 time=160
//verif:bound every uint64 amount, every balance up to 21e14 units, prices in steps of 1e-8 up to 4e10 units per unit, fees 0..9999, fixed fees up to 2^50, both directions and both assets
//verif:assume amounts or converted amounts of 2^62 and more may be refused
func hPluggableQuote() {
	m := &Market{AccountIndex: 5, BaseAsset: "base", QuoteAsset: "quote", Tradable: nd.Bool("open"), Strategy: mm.NewStrategyFromFormula(PluggableStrategy{})}
	m.Fee = nd.Int64("fee", 0, 9999)
	bf := nd.Int64("fixed base fee", 0, 1<<50)
	qf := nd.Int64("fixed quote fee", 0, 1<<50)
	m.FixedFee = FixedFee{BaseFee: bf, QuoteFee: qf}
	const max = 2100000000000000
	bp := nd.Int64("base price", 1, 1<<62)
	qp := nd.Int64("quote price", 1, 1<<62)
	m.Price = Prices{BasePrice: decimal.New(bp, -8), QuotePrice: decimal.New(qp, -8)}
	bb := nd.Uint64("base balance", 0, max)
	qb := nd.Uint64("quote balance", 0, max)
	amount := nd.Uint64("amount", 0, 1<<64-1)
	isBase := nd.Bool("amount is base asset")
	isBuy := nd.Bool("buy")
	res, err := m.Preview(bb, qb, amount, isBase, isBuy)
	if err != nil {
		nd.Assert(res == nil, "refusal with a quote")
		nd.Cover("refused")
	} else {
		nd.Assert(m.Tradable, "closed market quoted")
		nd.Cover("quoted")
	}
	// reference
	price, fixed, own := bp, bf, qf
	asset := "base"
	if isBase {
		price, fixed, own = qp, qf, bf
		asset = "quote"
	}
	gross := new(big.Int).Mul(new(big.Int).SetUint64(amount), big.NewInt(price))
	gross.Div(gross, big.NewInt(100000000))
	traderPays := isBase == isBuy // the quoted amount is what the trader pays
	var ref *big.Int
	ok := nd.And(m.Tradable, amount > 0, amount >= uint64(own))
	// far beyond any real balance the market may refuse to quote
	fits := nd.And(amount < 1<<62-1, gross.Cmp(big.NewInt(1<<62-1)) < 0)
	if traderPays {
		ref = new(big.Int).Add(gross, vFloorFee(gross, m.Fee))
		payBal := bb
		if !isBase {
			payBal = qb
		}
		ok = nd.And(ok, amount < payBal, gross.Sign() > 0)
		ref.Add(ref, big.NewInt(fixed))
	} else {
		ref = vFloorFee(gross, 10000-m.Fee)
		ref.Sub(ref, big.NewInt(fixed))
		outBal := qb
		if !isBase {
			outBal = bb
		}
		ok = nd.And(ok, ref.Sign() > 0, ref.Cmp(new(big.Int).SetUint64(outBal)) < 0)
	}
	nd.Assert(nd.Imp(err == nil, ok), "quote returned although not payable")
	nd.Assert(nd.Imp(nd.And(ok, fits), err == nil), "quote refused although payable")
	if err == nil {
		nd.Assert(new(big.Int).SetUint64(res.Amount).Cmp(ref) == 0, "quoted amount is not price plus fees")
		nd.Assert(res.Asset == asset, "quote names the wrong asset")
		nd.Assert(res.Price.BasePrice.Equal(m.Price.BasePrice) && res.Price.QuotePrice.Equal(m.Price.QuotePrice), "quote reports another price")
		nd.Observe("amount", res.Amount)
	}
}

// A quote of a market priced from its reserves.
//
//verif:harness prop=C06 time=80
//verif:bound every uint64 amount, every balance up to 21e14 units, fees 0..9999, fixed fees up to 2^50, both directions and both assets
func hBalancedQuote() {
	m := &Market{AccountIndex: 5, BaseAsset: "base", QuoteAsset: "quote", Tradable: nd.Bool("open"), Strategy: mm.NewStrategyFromFormula(formula.BalancedReserves{})}
	m.Fee = nd.Int64("fee", 0, 9999)
	bf := nd.Int64("fixed base fee", 0, 1<<50)
	qf := nd.Int64("fixed quote fee", 0, 1<<50)
	m.FixedFee = FixedFee{BaseFee: bf, QuoteFee: qf}
	const max = 2100000000000000
	bb := nd.Uint64("base balance", 0, max)
	qb := nd.Uint64("quote balance", 0, max)
	amount := nd.Uint64("amount", 0, 1<<64-1)
	isBase := nd.Bool("amount is base asset")
	isBuy := nd.Bool("buy")
	res, err := m.Preview(bb, qb, amount, isBase, isBuy)
	if err != nil {
		nd.Assert(res == nil, "refusal with a quote")
		nd.Cover("refused")
		return
	}
	nd.Cover("quoted")
	nd.Assert(nd.And(m.Tradable, amount > 0, bb > 0, qb > 0), "closed or empty market quoted")
	// what leaves the market
	opts := formula.BalancedReservesOpts{BalanceIn: bb, BalanceOut: qb, Fee: uint64(m.Fee), ChargeFeeOnTheWayIn: true}
	given, bal := res.Amount, qb
	if isBuy {
		opts.BalanceIn, opts.BalanceOut = qb, bb
		bal = bb
	}
	if isBase == isBuy {
		given = amount
	}
	nd.Assert(given < bal, "the whole reserve given out")
	other, own := uint64(bf), uint64(qf)
	if isBase {
		other, own = uint64(qf), uint64(bf)
		nd.Assert(res.Asset == "quote", "quote names the wrong asset")
	} else {
		nd.Assert(res.Asset == "base", "quote names the wrong asset")
	}
	nd.Assert(amount >= own, "an amount below the fixed fee quoted")
	if isBase == isBuy {
		x, e := formula.BalancedReserves{}.InGivenOut(opts, amount)
		nd.Assert(nd.And(e == nil, res.Amount == x+other), "the amount to pay is not the formula's plus the fixed fee")
	} else {
		x, e := formula.BalancedReserves{}.OutGivenIn(opts, amount)
		nd.Assert(nd.And(e == nil, x > other, res.Amount == x-other), "the amount given is not the formula's minus the fixed fee")
	}
	nd.Observe("amount", res.Amount)
}
