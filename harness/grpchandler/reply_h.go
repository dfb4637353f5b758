//verif:file pkg=internal/interfaces/grpc/handler props=C31,C25,C35,C36,C40
package grpchandler

import (
	"math"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifapp"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
)

//verif:model (time.Time).UTC
func mUTC(t time.Time) time.Time { return t }

//verif:model (time.Time).String
func mTimeString(t time.Time) string {
	if t.Unix() == 1600000000 {
		return "2020-09-13 12:26:40 +0000 UTC"
	}
	return "some time"
}

func someFee(tag string) application.Fee {
	return application.Fee{BasisPoint: i64("basis point " + tag), FixedBaseFee: i64("base fee " + tag), FixedQuoteFee: i64("quote fee " + tag)}
}

func isMarket(m *pbtypes.Market, base, quote string) bool {
	return m.GetBaseAsset() == base && m.GetQuoteAsset() == quote
}

func coins(tag string, n int) []application.UtxoInfo {
	var l []application.UtxoInfo
	for i := 0; i < n; i++ {
		t := tag + string(rune('0'+i))
		l = append(l, application.UtxoInfo{
			Outpoint: &application.TxOutpoint{Hash: "hash" + t, Index: int(nd.Int64("index "+t, 0, math.MaxInt32))}, Value: u64("value " + t), Asset: "asset" + t,
		})
	}
	return l
}

func sameCoins(a []*pboperator.UtxoInfo, b []application.UtxoInfo) {
	nd.Assert(len(a) == len(b), "coins listed are not the service's")
	for i := range b {
		nd.Assert(a[i].GetOutpoint().GetHash() == b[i].Outpoint.Hash && a[i].GetAsset() == b[i].Asset, "coins listed are not the service's")
		nd.Assert(nd.And(int(a[i].GetOutpoint().GetIndex()) == b[i].Outpoint.Index, a[i].GetValue() == b[i].Value), "coins listed are not the service's")
	}
}

// What a listing of the service is told as.
//
//verif:harness prop=C31 time=60 replays=16
//verif:bound listings of up to two items with any numbers
func hListing() { listing(nd.Choice("listing", 4)) }

func listing(c int) {
	app := &verifapp.App{}
	h := NewOperatorHandler(app)
	n := nd.Choice("items", 3)
	switch c {
	case 0:
		for i := 0; i < n; i++ {
			t := string(rune('0' + i))
			app.Markets = append(app.Markets, application.MarketInfo{
				AccountIndex: u64("account " + t), Market: application.Market{BaseAsset: "base" + t, QuoteAsset: "quote" + t}, Fee: someFee(t),
				Tradable: nd.Bool("tradable " + t), StrategyType: nd.Choice("strategy "+t, 3),
				Price: domain.Prices{BasePrice: decimal.New(5, -1), QuotePrice: decimal.NewFromInt(int64(2 + i))},
			})
		}
		r, err := h.ListMarket(bg, &pboperator.ListMarketRequest{})
		nd.Assert(err == nil && len(app.Calls) == 1, "the markets are not listed")
		l := r.GetMarkets()
		nd.Assert(len(l) == n, "the markets listed are not the service's")
		for i, m := range app.Markets {
			nd.Assert(isMarket(l[i].GetMarket(), m.Market.BaseAsset, m.Market.QuoteAsset), "the markets listed are not the service's")
			nd.Assert(nd.And(sameFee(l[i].GetFee(), m.Fee), l[i].GetAccountIndex() == m.AccountIndex), "the markets listed are not the service's")
			nd.Assert(l[i].GetTradable() == m.Tradable && int(l[i].GetStrategyType()) == m.StrategyType, "the markets listed are not the service's")
			nd.Assert(l[i].GetPrice().GetBasePrice() == 0.5 && l[i].GetPrice().GetQuotePrice() == float32(2+i), "the markets listed are not the service's")
		}
	case 1:
		app.Utxos = map[uint64]application.UtxoInfoList{}
		for i := 0; i < n; i++ {
			t := string(rune('0' + i))
			app.Utxos[uint64(i)] = application.UtxoInfoList{
				Unspents: coins("u"+t, nd.Choice("unspents "+t, 3)), Spents: coins("s"+t, nd.Choice("spents "+t, 2)), Locks: coins("l"+t, nd.Choice("locks "+t, 2)),
			}
		}
		r, err := h.ListUtxos(bg, &pboperator.ListUtxosRequest{})
		nd.Assert(err == nil && len(app.Calls) == 1, "the coins are not listed")
		nd.Assert(len(r.GetInfoPerAccount()) == n, "coins listed are not the service's")
		for a, c := range app.Utxos {
			l := r.GetInfoPerAccount()[a]
			sameCoins(l.GetUnspents(), c.Unspents)
			sameCoins(l.GetSpents(), c.Spents)
			sameCoins(l.GetLocks(), c.Locks)
		}
	case 2:
		app.Report.TotalCollectedFeesPerAsset = map[string]int64{"a": i64("total a"), "b": i64("total b")}
		for i := 0; i < n; i++ {
			t := string(rune('0' + i))
			app.Report.CollectedFees = append(app.Report.CollectedFees, application.FeeInfo{
				TradeID: "trade" + t, BasisPoint: i64("basis point " + t), Asset: "asset" + t, Amount: u64("amount " + t), MarketPrice: decimal.New(25, -1),
			})
		}
		if !nd.Symbolic() {
			newApp()
		}
		r, err := h.ReportMarketFee(bg, &pboperator.ReportMarketFeeRequest{Market: &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}})
		nd.Assert(err == nil && len(app.Calls) == 1, "the fees are not reported")
		l, tot := r.GetCollectedFees(), r.GetTotalCollectedFeesPerAsset()
		nd.Assert(len(l) == n && len(tot) == 2, "the report is not the service's")
		nd.Assert(nd.And(tot["a"] == app.Report.TotalCollectedFeesPerAsset["a"], tot["b"] == app.Report.TotalCollectedFeesPerAsset["b"]), "the report is not the service's")
		for i, f := range app.Report.CollectedFees {
			nd.Assert(l[i].GetTradeId() == f.TradeID && l[i].GetAsset() == f.Asset && l[i].GetMarketPrice() == 2.5, "the report is not the service's")
			nd.Assert(nd.And(l[i].GetBasisPoint() == f.BasisPoint, l[i].GetAmount() == f.Amount), "the report is not the service's")
		}
	case 3:
		for i := 0; i < n; i++ {
			t := string(rune('0' + i))
			app.Tradable = append(app.Tradable, application.MarketWithFee{Market: application.Market{BaseAsset: "base" + t, QuoteAsset: "quote" + t}, Fee: someFee(t)})
		}
		r, err := NewTraderHandler(app).Markets(bg, &pbtrade.MarketsRequest{})
		nd.Assert(err == nil && len(app.Calls) == 1, "the markets are not listed")
		l := r.GetMarkets()
		nd.Assert(len(l) == n, "the markets listed are not the service's")
		for i, m := range app.Tradable {
			nd.Assert(isMarket(l[i].GetMarket(), m.BaseAsset, m.QuoteAsset), "the markets listed are not the service's")
			nd.Assert(sameFee(l[i].GetFee(), m.Fee), "the markets listed are not the service's")
		}
	}
}

// The settings a market has after a change are told.
//
//verif:harness prop=C31 time=30 replays=4
//verif:bound any fees
func hNewFee() { newFee() }

func newFee() {
	app := newApp()
	nd.Assume(app.Err == nil)
	app.Fee = application.MarketWithFee{Market: application.Market{BaseAsset: "one", QuoteAsset: "two"}, Fee: someFee("")}
	m := &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}
	var r *pboperator.UpdateMarketFeeReply
	var err error
	if nd.Bool("fixed") {
		r, err = NewOperatorHandler(app).UpdateMarketFixedFee(bg, &pboperator.UpdateMarketFixedFeeRequest{Market: m, Fixed: &pbtypes.Fixed{}})
	} else {
		r, err = NewOperatorHandler(app).UpdateMarketPercentageFee(bg, &pboperator.UpdateMarketPercentageFeeRequest{Market: m})
	}
	nd.Assert(err == nil, "a change is refused")
	nd.Assert(isMarket(r.GetMarketWithFee().GetMarket(), "one", "two"), "the market told is not the service's")
	nd.Assert(sameFee(r.GetMarketWithFee().GetFee(), app.Fee.Fee), "the fee told is not the service's")
}

// What is told about a trade.
//
//verif:harness prop=C31 time=60 replays=16
//verif:bound one trade in any state, with or without request and failure and any of its times known
func hTradeListed() { tradeListed() }

func tradeListed() {
	app := &verifapp.App{}
	h := NewOperatorHandler(app)
	when := func(name string) uint64 {
		if nd.Bool(name) {
			return 1600000000
		}
		return 0
	}
	told := func(s string, t uint64) bool {
		if t == 0 {
			return s == ""
		}
		return s == "2020-09-13 12:26:40 +0000 UTC"
	}
	t := application.TradeInfo{
		ID: "trade", Status: domain.Status{Code: nd.Choice("status", 6), Failed: nd.Bool("failed")},
		MarketWithFee: application.MarketWithFee{Market: application.Market{BaseAsset: "base", QuoteAsset: "quote"}, Fee: someFee("")},
		Price:         application.Price{BasePrice: decimal.New(5, -1), QuotePrice: decimal.NewFromInt(2)}, TxURL: "url",
		RequestTimeUnix: when("requested"), AcceptTimeUnix: when("accepted"), CompleteTimeUnix: when("completed"), SettleTimeUnix: when("settled"), ExpiryTimeUnix: when("expiring"),
	}
	if nd.Bool("request") {
		t.SwapInfo = application.SwapInfo{AmountP: u64("P"), AssetP: "assetP", AmountR: u64("R"), AssetR: "assetR"}
	}
	if nd.Bool("failure") {
		t.SwapFailInfo = application.SwapFailInfo{Code: int(nd.Int64("code", 0, math.MaxUint32)), Message: "why"}
	}
	app.Trades = []application.TradeInfo{t, {ID: "other"}}
	r, err := h.ListTrades(bg, &pboperator.ListTradesRequest{})
	nd.Assert(err == nil && len(app.Calls) == 1, "the trades are not listed")
	l := r.GetTrades()
	nd.Assert(len(l) == 2 && l[0].GetTradeId() == "trade" && l[1].GetTradeId() == "other", "the trades listed are not the service's")
	x := l[0]
	nd.Assert(int(x.GetStatus().GetStatus()) == t.Status.Code && x.GetStatus().GetFailed() == t.Status.Failed, "the status of a trade is not the service's")
	nd.Assert(isMarket(x.GetMarketWithFee().GetMarket(), "base", "quote") && x.GetTxUrl() == "url" && x.GetPrice().GetBasePrice() == 0.5 && x.GetPrice().GetQuotePrice() == 2, "a trade listed is not the service's")
	nd.Assert(sameFee(x.GetMarketWithFee().GetFee(), t.MarketWithFee.Fee), "the fee of a trade is not the service's")
	s, f := x.GetSwapInfo(), x.GetFailInfo()
	nd.Assert((s != nil) == (t.SwapInfo.AssetP != "") && (f != nil) == (t.SwapFailInfo.Message != ""), "a trade listed is not the service's")
	if s != nil {
		nd.Assert(s.GetAssetP() == "assetP" && s.GetAssetR() == "assetR", "the request of a trade is not the service's")
		nd.Assert(nd.And(s.GetAmountP() == t.SwapInfo.AmountP, s.GetAmountR() == t.SwapInfo.AmountR), "the request of a trade is not the service's")
	}
	if f != nil {
		nd.Assert(f.GetFailureMessage() == "why", "the failure of a trade is not the service's")
		nd.Assert(int(f.GetFailureCode()) == t.SwapFailInfo.Code, "the failure of a trade is not the service's")
	}
	nd.Assert(x.GetRequestTimeUnix() == t.RequestTimeUnix && x.GetAcceptTimeUnix() == t.AcceptTimeUnix && x.GetCompleteTimeUnix() == t.CompleteTimeUnix &&
		x.GetSettleTimeUnix() == t.SettleTimeUnix && x.GetExpiryTimeUnix() == t.ExpiryTimeUnix, "a time of a trade is not the service's")
	nd.Assert(told(x.GetRequestTimeUtc(), t.RequestTimeUnix) && told(x.GetAcceptTimeUtc(), t.AcceptTimeUnix) && told(x.GetCompleteTimeUtc(), t.CompleteTimeUnix) &&
		told(x.GetSettleTimeUtc(), t.SettleTimeUnix) && told(x.GetExpiryTimeUtc(), t.ExpiryTimeUnix), "a time of a trade is not told as it is")
}

// The creation of the wallet, or its restoration.
//
//verif:harness prop=C31 time=60 replays=12
//verif:bound up to two progress messages; all orders in which the handler gets what the service tells
//verif:assume the service ends by closing both of its channels
func hInitWallet() {
	nd.FreeGo()
	if nd.Symbolic() {
		nd.Schedule(0)
	}
	fails, restore := nd.Bool("service fails"), nd.Bool("restore")
	words := []string{"one", "two"}[:nd.Choice("words", 3)]
	password := nd.Pick("password", "password", "")
	n := nd.Choice("messages", 3)
	a, b := int(nd.Int64("account", 0, math.MaxInt32)), int(nd.Int64("address", 0, math.MaxInt32))
	done := nd.Choice("status", 2)
	gone := nd.Choice("client gone after", 3)
	rounds := 1
	if !nd.Symbolic() {
		rounds = 20 // the choices the handler makes are random
	}
	for ; rounds > 0; rounds-- {
		app := &verifapp.App{}
		if fails {
			app.Err = errDown
		}
		for i := 0; i < n; i++ {
			app.Replies = append(app.Replies, &application.InitWalletReply{AccountIndex: a, AddressIndex: b, Status: done, Data: "data" + string(rune('0'+i))})
		}
		s := &stream{ctx: bg, broken: gone}
		err := NewWalletHandler(app).InitWallet(&pbwallet.InitWalletRequest{SeedMnemonic: words, WalletPassword: []byte(password), Restore: restore}, creating{s})
		valid := len(words) > 0 && password != ""
		if gone > 0 && gone <= n && valid {
			nd.Assert(err != nil, "the failure to answer is hidden")
			if nd.Symbolic() {
				nd.RunTasks()
			}
			for i := 0; i < 1000 && !nd.Symbolic() && !app.Done; i++ {
				time.Sleep(time.Millisecond)
			}
			nd.Assert(app.Done, "the service is stuck after its client went away")
			if !app.Done {
				return
			}
			err = app.Err
		} else {
			k := 0
			if valid {
				k = n
			}
			nd.Assert(len(s.progress) == k, "the progress is not told")
			for i, p := range s.progress {
				nd.Assert(p.GetData() == "data"+string(rune('0'+i)) && int(p.GetStatus()) == done, "the progress told is not the service's")
				nd.Assert(nd.And(p.GetAccount() == uint64(a), p.GetIndex() == uint64(b)), "the progress told is not the service's")
			}
		}
		judge(app, valid, err, "InitWallet", words, password, restore)
	}
}

// The report, as it is told remotely.
//
//verif:harness prop=C25 time=60 replays=8
//verif:bound a report of up to two fees with any numbers
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteReport() {
	onlyValid = true
	listing(2)
	onlyValid = false
}

// The market list, as it is told remotely.
//
//verif:harness prop=C35 time=60 replays=8
//verif:bound a list of up to two markets with any numbers
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteMarkets() {
	onlyValid = true
	listing(0)
	onlyValid = false
}

// The settings after a change, as they are told remotely.
//
//verif:harness prop=C35 time=60 replays=8
//verif:bound any fees
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteNewFee() {
	onlyValid = true
	newFee()
	onlyValid = false
}

// The markets told to traders remotely.
//
//verif:harness prop=C36 time=60 replays=8
//verif:bound a list of up to two markets with any fees
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteTradable() {
	onlyValid = true
	listing(3)
	onlyValid = false
}

// The coins, as they are told remotely.
//
//verif:harness prop=C40 time=60 replays=8
//verif:bound up to two accounts with up to four coins each
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteCoins() {
	onlyValid = true
	listing(1)
	onlyValid = false
}

// The trades, as they are told remotely.
//
//verif:harness prop=C40 time=60 replays=8
//verif:bound one trade in any state
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteTrades() {
	onlyValid = true
	tradeListed()
	onlyValid = false
}
