//verif:file pkg=internal/interfaces/grpc/handler props=C31,C13,C20,C21,C23,C24,C25,C32,C35,C36,C40
package grpchandler

import (
	"context"
	"errors"
	"math"
	"math/big"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifapp"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
)

const (
	base  = "b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0"
	quote = "c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0"
)

var (
	bg      = context.Background()
	errDown = errors.New("service failed")
)

type statusErr struct {
	code codes.Code
	msg  string
}

func (e *statusErr) Error() string { return e.msg }

//verif:model google.golang.org/grpc/status.Error
func mStatusError(c codes.Code, msg string) error {
	if c == codes.OK {
		return nil
	}
	return &statusErr{c, msg}
}

//verif:model google.golang.org/grpc/status.Errorf
func mStatusErrorf(c codes.Code, format string, a ...interface{}) error {
	return mStatusError(c, format)
}

//verif:model google.golang.org/grpc/status.Code
func mStatusCode(err error) codes.Code {
	if err == nil {
		return codes.OK
	}
	if e, ok := err.(*statusErr); ok {
		return e.code
	}
	return codes.Unknown
}

//verif:model github.com/tdex-network/tdex-daemon/config.GetString
func mConfigString(key string) string {
	if key == config.BaseAssetKey {
		return base
	}
	return ""
}

// onlyValid leaves out the requests that have to be refused.
var onlyValid bool

func newApp() *verifapp.App {
	if !nd.Symbolic() {
		config.Set(config.BaseAssetKey, base)
	}
	app := &verifapp.App{}
	if nd.Bool("service fails") {
		app.Err = errDown
	}
	return app
}

// market is a market of a request and whether it is one of this daemon.
func market() (*pbtypes.Market, application.Market, bool) {
	if onlyValid {
		return &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}, application.Market{BaseAsset: base, QuoteAsset: quote}, true
	}
	switch nd.Pick("market", "known", "none", "no base", "no quote", "foreign") {
	case "known":
		return &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}, application.Market{BaseAsset: base, QuoteAsset: quote}, true
	case "no base":
		return &pbtypes.Market{QuoteAsset: quote}, application.Market{}, false
	case "no quote":
		return &pbtypes.Market{BaseAsset: base}, application.Market{}, false
	case "foreign":
		return &pbtypes.Market{BaseAsset: quote, QuoteAsset: base}, application.Market{}, false
	}
	return nil, application.Market{}, false
}

// judge checks what happened to a request.
func judge(app *verifapp.App, valid bool, err error, name string, args ...interface{}) {
	if onlyValid {
		nd.Assume(valid)
	}
	if !valid {
		nd.Assert(err != nil && status.Code(err) == codes.InvalidArgument, "an invalid request is not refused as such")
		nd.Assert(len(app.Calls) == 0, "an invalid request reaches the service")
		return
	}
	nd.Assert(len(app.Calls) == 1 && app.Calls[0].Name == name, "a valid request is not passed on once")
	nd.Assert((err != nil) == (app.Err != nil), "the outcome is not the one of the service")
	c := app.Calls[0]
	nd.Assert(len(c.Args) == len(args), "a request is passed on with other arguments")
	for i := range args {
		nd.Assert(nd.DeepEq(c.Args[i], args[i]), "a request is passed on changed")
	}
	if app.Err == nil {
		nd.Cover(name + " passed on")
	}
}

func i64(name string) int64 { return nd.Int64(name, math.MinInt64, math.MaxInt64) }

func u64(name string) uint64 { return nd.Uint64(name, 0, math.MaxUint64) }

var prices = []float32{1, 0.5, 20000, 0, -1, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}

// A command about a market.
//
//verif:harness prop=C31 time=60 replays=24
//verif:bound any one command about a market, with any numbers, a market that is known, foreign or misses a part, and prices from a list with zero, negative, infinite and undefined ones
//verif:assume one base asset is configured
func hMarketCommand() { marketCommand(nd.Choice("command", 9)) }

func marketCommand(c int) {
	app := newApp()
	h := NewOperatorHandler(app)
	m, mkt, valid := market()
	switch c {
	case 0:
		_, err := h.OpenMarket(bg, &pboperator.OpenMarketRequest{Market: m})
		judge(app, valid, err, "OpenMarket", base, quote)
	case 1:
		_, err := h.CloseMarket(bg, &pboperator.CloseMarketRequest{Market: m})
		judge(app, valid, err, "CloseMarket", base, quote)
	case 2:
		n := i64("basis point")
		_, err := h.UpdateMarketPercentageFee(bg, &pboperator.UpdateMarketPercentageFeeRequest{Market: m, BasisPoint: n})
		judge(app, valid, err, "UpdateMarketPercentageFee", application.MarketWithFee{Market: mkt, Fee: application.Fee{BasisPoint: n}})
	case 3:
		var f *pbtypes.Fixed
		b, q := i64("base fee"), i64("quote fee")
		if nd.Bool("fee given") {
			f = &pbtypes.Fixed{BaseFee: b, QuoteFee: q}
		}
		_, err := h.UpdateMarketFixedFee(bg, &pboperator.UpdateMarketFixedFeeRequest{Market: m, Fixed: f})
		judge(app, valid && f != nil, err, "UpdateMarketFixedFee", application.MarketWithFee{Market: mkt, Fee: application.Fee{FixedBaseFee: b, FixedQuoteFee: q}})
	case 4:
		var p *pbtypes.Price
		var want application.MarketWithPrice
		if nd.Bool("price given") {
			b, q := nd.Choice("base price", len(prices)), nd.Choice("quote price", len(prices))
			p = &pbtypes.Price{BasePrice: prices[b], QuotePrice: prices[q]}
			valid = valid && b < 3 && q < 3
			if b < 3 && q < 3 {
				want = application.MarketWithPrice{Market: mkt, Price: application.Price{
					BasePrice: decimal.NewFromFloat32(prices[b]), QuotePrice: decimal.NewFromFloat32(prices[q]),
				}}
			}
		}
		_, err := h.UpdateMarketPrice(bg, &pboperator.UpdateMarketPriceRequest{Market: m, Price: p})
		judge(app, valid && p != nil, err, "UpdateMarketPrice", want)
	case 5:
		t := int32(nd.Int64("strategy", math.MinInt32, math.MaxInt32))
		_, err := h.UpdateMarketStrategy(bg, &pboperator.UpdateMarketStrategyRequest{Market: m, StrategyType: pboperator.StrategyType(t)})
		judge(app, valid && t >= 0 && t <= 2, err, "UpdateMarketStrategy", application.MarketStrategy{Market: mkt, Strategy: domain.StrategyType(t)})
	case 6:
		var b *pbtypes.Balance
		x, y, rate := u64("base amount"), u64("quote amount"), i64("rate")
		want := application.WithdrawMarketReq{Market: mkt, MillisatPerByte: rate, Address: "address", Push: true}
		if nd.Bool("amounts given") {
			b = &pbtypes.Balance{BaseAmount: x, QuoteAmount: y}
			want.BalanceToWithdraw = application.Balance{BaseAmount: x, QuoteAmount: y}
		}
		app.Raw = []byte{1, 2, 3}
		r, err := h.WithdrawMarket(bg, &pboperator.WithdrawMarketRequest{Market: m, BalanceToWithdraw: b, MillisatPerByte: rate, Address: "address"})
		judge(app, valid, err, "WithdrawMarketFunds", want)
		nd.Assert(err != nil || nd.DeepEq(r.GetRawTx(), app.Raw), "the transaction of a withdrawal is not the service's")
	case 7:
		app.Addrs = []string{"one", "two"}
		r, err := h.ListDepositMarket(bg, &pboperator.ListDepositMarketRequest{Market: m})
		judge(app, valid, err, "ListMarketExternalAddresses", mkt)
		nd.Assert(err != nil || nd.DeepEq(r.GetAddress(), app.Addrs), "the addresses of a market are not the service's")
	case 8:
		_, err := h.ReportMarketFee(bg, &pboperator.ReportMarketFeeRequest{Market: m})
		judge(app, valid, err, "GetCollectedMarketFee", mkt)
	}
}

// A command that is not about one market of this daemon.
//
//verif:harness prop=C31 time=60 replays=16
//verif:bound any one other command, with any numbers, up to two outputs
func hCommand() { command(nd.Choice("command", 11)) }

func command(c int) {
	app := newApp()
	h := NewOperatorHandler(app)
	n := nd.Int64("number", math.MinInt32, math.MaxInt32)
	i, j := int32(nd.Int64("first index", math.MinInt32, math.MaxInt32)), int32(nd.Int64("second index", math.MinInt32, math.MaxInt32))
	outs := []*pboperator.TxOutpoint{{Hash: "one", Index: i}, {Hash: "two", Index: j}}[:nd.Choice("outputs", 3)]
	want := []application.TxOutpoint{{Hash: "one", Index: int(i)}, {Hash: "two", Index: int(j)}}[:len(outs)]
	var m *pbtypes.Market
	var mkt application.Market
	switch c {
	case 0:
		app.Keys = []application.AddressAndBlindingKey{{Address: "a", BlindingKey: "x"}, {Address: "b", BlindingKey: "y"}}
		if nd.Bool("market given") {
			m, mkt = &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}, application.Market{BaseAsset: base, QuoteAsset: quote}
		}
		r, err := h.DepositMarket(bg, &pboperator.DepositMarketRequest{Market: m, NumOfAddresses: n})
		judge(app, true, err, "DepositMarket", mkt.BaseAsset, mkt.QuoteAsset, int(n))
		nd.Assert(err != nil || nd.DeepEq(r.GetAddresses(), []string{"a", "b"}), "the addresses of a deposit are not the service's")
	case 1:
		app.Keys = []application.AddressAndBlindingKey{{Address: "a", BlindingKey: "x"}, {Address: "b", BlindingKey: "y"}}
		r, err := h.DepositFeeAccount(bg, &pboperator.DepositFeeAccountRequest{NumOfAddresses: n})
		judge(app, true, err, "DepositFeeAccount", int(n))
		if err == nil {
			l := r.GetAddressWithBlindingKey()
			nd.Assert(len(l) == 2, "the addresses of a deposit are not the service's")
			nd.Assert(l[0].GetAddress() == "a" && l[0].GetBlinding() == "x" && l[1].GetAddress() == "b" && l[1].GetBlinding() == "y", "the addresses of a deposit are not the service's")
		}
	case 2:
		if nd.Bool("market given") {
			m, mkt = &pbtypes.Market{BaseAsset: base, QuoteAsset: quote}, application.Market{BaseAsset: base, QuoteAsset: quote}
		}
		_, err := h.ClaimMarketDeposit(bg, &pboperator.ClaimMarketDepositRequest{Market: m, Outpoints: outs})
		judge(app, true, err, "ClaimMarketDeposit", mkt, want)
	case 3:
		_, err := h.ClaimFeeDeposit(bg, &pboperator.ClaimFeeDepositRequest{Outpoints: outs})
		judge(app, true, err, "ClaimFeeDeposit", want)
	case 4:
		a := nd.Uint64("account", 0, math.MaxInt64)
		_, err := h.DropMarket(bg, &pboperator.DropMarketRequest{AccountIndex: a})
		judge(app, true, err, "DropMarket", int(a))
	case 5:
		_, err := h.ReloadUtxos(bg, &pboperator.ReloadUtxosRequest{})
		judge(app, true, err, "ReloadUtxos")
	case 6:
		app.ID = "id"
		r, err := h.AddWebhook(bg, &pboperator.AddWebhookRequest{Action: pboperator.ActionType(n), Endpoint: "url", Secret: "secret"})
		judge(app, true, err, "AddWebhook", application.Webhook{ActionType: int(n), Endpoint: "url", Secret: "secret"})
		nd.Assert(err != nil || r.GetId() == "id", "the id of a hook is not the service's")
	case 7:
		_, err := h.RemoveWebhook(bg, &pboperator.RemoveWebhookRequest{Id: "id"})
		judge(app, true, err, "RemoveWebhook", "id")
	case 8:
		secured := nd.Bool("secured")
		app.Hooks = []application.WebhookInfo{{Id: "one", ActionType: 1, Endpoint: "url", IsSecured: secured}, {Id: "two", Endpoint: "url2"}}
		r, err := h.ListWebhooks(bg, &pboperator.ListWebhooksRequest{Action: pboperator.ActionType(n)})
		judge(app, true, err, "ListWebhooks", int(n))
		if err == nil {
			l := r.GetWebhookInfo()
			nd.Assert(len(l) == 2, "the hooks listed are not the service's")
			nd.Assert(l[0].GetId() == "one" && l[0].GetEndpoint() == "url" && l[0].GetIsSecured() == secured && l[1].GetId() == "two" && l[1].GetEndpoint() == "url2" && !l[1].GetIsSecured(), "the hooks listed are not the service's")
		}
	case 9:
		app.Total = i64("balance")
		r, err := h.BalanceFeeAccount(bg, &pboperator.BalanceFeeAccountRequest{})
		judge(app, true, err, "FeeAccountBalance")
		nd.Assert(err != nil || r.GetBalance() == app.Total, "the balance of the fee account is not the service's")
	case 10:
		_, err := h.ListTrades(bg, &pboperator.ListTradesRequest{})
		judge(app, true, err, "ListTrades")
	}
}

// A request to the wallet.
//
//verif:harness prop=C31 time=60 replays=16
//verif:bound any one request to the wallet but its creation; up to two outputs that may miss a part, any rate and amounts
func hWalletRequest() { walletRequest(nd.Choice("request", 6)) }

func walletRequest(c int) {
	app := newApp()
	h := NewWalletHandler(app)
	secret := func(name string) []byte {
		return []byte(nd.Pick(name, name, ""))
	}
	switch c {
	case 0:
		app.Words = []string{"one", "two", "three"}
		r, err := h.GenSeed(bg, &pbwallet.GenSeedRequest{})
		judge(app, true, err, "GenSeed")
		nd.Assert(err != nil || nd.DeepEq(r.GetSeedMnemonic(), app.Words), "the seed is not the service's")
	case 1:
		p := secret("password")
		_, err := h.UnlockWallet(bg, &pbwallet.UnlockWalletRequest{WalletPassword: p})
		judge(app, len(p) > 0, err, "UnlockWallet", string(p))
	case 2:
		p, q := secret("password"), secret("other")
		_, err := h.ChangePassword(bg, &pbwallet.ChangePasswordRequest{CurrentPassword: p, NewPassword: q})
		judge(app, len(p) > 0 && len(q) > 0, err, "ChangePassword", string(p), string(q))
	case 3:
		app.Addr, app.Key = "address", "key"
		r, err := h.WalletAddress(bg, &pbwallet.WalletAddressRequest{})
		judge(app, true, err, "GenerateAddressAndBlindingKey")
		nd.Assert(err != nil || r.GetAddress() == "address" && r.GetBlinding() == "key", "the address is not the service's")
	case 4:
		a, b, c, d := u64("a"), u64("b"), u64("c"), u64("d")
		app.Balances = map[string]application.BalanceInfo{
			base:  {TotalBalance: a, ConfirmedBalance: b, UnconfirmedBalance: c},
			quote: {TotalBalance: d},
		}
		r, err := h.WalletBalance(bg, &pbwallet.WalletBalanceRequest{})
		judge(app, true, err, "GetWalletBalance")
		if err == nil {
			l := r.GetBalance()
			x, y := l[base], l[quote]
			nd.Assert(len(l) == 2, "the balance is not the service's")
			nd.Assert(nd.And(x.GetTotalBalance() == a, x.GetConfirmedBalance() == b, x.GetUnconfirmedBalance() == c,
				y.GetTotalBalance() == d, y.GetConfirmedBalance() == 0, y.GetUnconfirmedBalance() == 0), "the balance is not the service's")
		}
	case 5:
		rate := i64("rate")
		ok := rate >= domain.MinMilliSatPerByte
		var outs []*pbwallet.TxOut
		var want []application.TxOut
		n := nd.Choice("outputs", 3)
		for i := 0; i < n; i++ {
			tag := string(rune('1' + i))
			o := &pbwallet.TxOut{
				Asset: nd.Pick("asset "+tag, "asset"+tag, ""), Value: i64("value " + tag), Address: nd.Pick("address "+tag, "address"+tag, ""),
			}
			ok = ok && o.Asset != "" && o.Address != "" && o.Value > 0
			outs, want = append(outs, o), append(want, application.TxOut{Asset: o.Asset, Value: o.Value, Address: o.Address})
		}
		app.Raw = []byte{1, 2, 3}
		r, err := h.SendToMany(bg, &pbwallet.SendToManyRequest{Outputs: outs, MillisatPerByte: rate})
		judge(app, ok && n > 0, err, "SendToMany", application.SendToManyRequest{Outputs: want, MillisatPerByte: rate, Push: true})
		nd.Assert(err != nil || nd.DeepEq(r.GetRawTx(), app.Raw), "the transaction of a payment is not the service's")
	}
}

// stream is the way back to whoever asked.
type stream struct {
	grpc.ServerStream
	ctx      context.Context
	broken   int
	propose  []*pbtrade.TradeProposeReply
	complete []*pbtrade.TradeCompleteReply
	progress []*pbwallet.InitWalletReply
}

func (s *stream) Context() context.Context { return s.ctx }

func (s *stream) sent() error {
	if !nd.Symbolic() {
		time.Sleep(time.Millisecond)
	}
	s.broken--
	if s.broken == 0 {
		return errDown
	}
	return nil
}

type proposing struct{ *stream }

func (s proposing) Send(r *pbtrade.TradeProposeReply) error {
	s.propose = append(s.propose, r)
	return s.sent()
}

type completing struct{ *stream }

func (s completing) Send(r *pbtrade.TradeCompleteReply) error {
	s.complete = append(s.complete, r)
	return s.sent()
}

type creating struct{ *stream }

func (s creating) Send(r *pbwallet.InitWalletReply) error {
	s.progress = append(s.progress, r)
	return s.sent()
}

func failure() *pbswap.SwapFail {
	return &pbswap.SwapFail{Id: "fail", MessageId: "message", FailureCode: uint32(nd.Uint64("failure", 0, math.MaxUint32)), FailureMessage: "because"}
}

func sameFailure(a, b *pbswap.SwapFail) bool {
	if a == nil || b == nil {
		return a == b
	}
	return nd.And(a.Id == b.Id, a.MessageId == b.MessageId, a.FailureCode == b.FailureCode, a.FailureMessage == b.FailureMessage)
}

func key(n byte) map[string][]byte { return map[string][]byte{"script": {n}} }

// A request of a trader.
//
//verif:harness prop=C31 time=90 replays=24
//verif:bound any one request of a trader with any amounts and types, where at most one of the parts of the proposal is missing
//verif:assume one base asset is configured
func hTradeRequest() { tradeRequest(nd.Choice("request", 4)) }

func tradeRequest(c int) {
	app := newApp()
	h := NewTraderHandler(app)
	s := &stream{ctx: bg}
	gone := nd.Bool("client gone")
	if gone {
		s.broken = 1
	}
	switch c {
	case 0:
		m, mkt, valid := market()
		f := application.Fee{BasisPoint: i64("basis point"), FixedBaseFee: i64("base fee"), FixedQuoteFee: i64("quote fee")}
		app.Balance = application.BalanceWithFee{Fee: f, Balance: application.Balance{BaseAmount: u64("base"), QuoteAmount: u64("quote")}}
		r, err := h.Balances(bg, &pbtrade.BalancesRequest{Market: m})
		judge(app, valid, err, "GetMarketBalance", mkt)
		if err == nil {
			nd.Assert(len(r.GetBalances()) == 1, "the balance is not the service's")
			b := r.GetBalances()[0]
			nd.Assert(nd.And(b.GetBalance().GetBaseAmount() == app.Balance.Balance.BaseAmount, b.GetBalance().GetQuoteAmount() == app.Balance.Balance.QuoteAmount,
				sameFee(b.GetFee(), f)), "the balance is not the service's")
		}
	case 1:
		m, mkt, valid := market()
		t, amount := int32(nd.Int64("type", math.MinInt32, math.MaxInt32)), u64("amount")
		asset := nd.Pick("asset", quote, "", quote[:62], quote+"c0", "zz"+quote[2:])
		f := application.Fee{BasisPoint: i64("basis point"), FixedBaseFee: i64("base fee"), FixedQuoteFee: i64("quote fee")}
		app.Price = application.PriceWithFee{
			Price: application.Price{BasePrice: decimal.New(5, -1), QuotePrice: decimal.NewFromInt(2)}, Fee: f,
			Amount: u64("answer"), Asset: base, Balance: application.Balance{BaseAmount: u64("base"), QuoteAmount: u64("quote")},
		}
		r, err := h.MarketPrice(bg, &pbtrade.MarketPriceRequest{Market: m, Type: pbtrade.TradeType(t), Amount: amount, Asset: asset})
		judge(app, valid && t >= 0 && t <= 1 && amount > 0 && asset == quote, err, "GetMarketPrice", mkt, int(t), amount, asset)
		if err == nil {
			nd.Assert(len(r.GetPrices()) == 1, "the price is not the service's")
			p := r.GetPrices()[0]
			nd.Assert(p.GetPrice().GetBasePrice() == 0.5 && p.GetPrice().GetQuotePrice() == 2 && p.GetAsset() == base, "the price is not the service's")
			nd.Assert(nd.And(p.GetAmount() == app.Price.Amount, p.GetBalance().GetBaseAmount() == app.Price.Balance.BaseAmount,
				p.GetBalance().GetQuoteAmount() == app.Price.Balance.QuoteAmount, sameFee(p.GetFee(), f)), "the price is not the service's")
		}
	case 2:
		m, mkt, valid := market()
		t := int32(nd.Int64("type", math.MinInt32, math.MaxInt32))
		req := &pbswap.SwapRequest{
			Id: "id", AssetP: base, AmountP: u64("amount P"), AssetR: quote, AmountR: u64("amount R"),
			Transaction: "tx", InputBlindingKey: key(1), OutputBlindingKey: key(2),
		}
		missing := nd.Choice("missing", 7)
		switch missing {
		case 1:
			req.AssetP = ""
		case 2:
			req.AssetR = ""
		case 3:
			req.Transaction = ""
		case 4:
			req.InputBlindingKey = nil
		case 5:
			req.OutputBlindingKey = nil
		case 6:
			req = nil
		}
		if nd.Bool("accepted") {
			app.Accept = &pbswap.SwapAccept{Id: "accept", RequestId: "id", Transaction: "tx2", InputBlindingKey: key(3), OutputBlindingKey: key(4)}
		}
		var f *pbswap.SwapFail
		if nd.Bool("rejected") {
			f = failure()
			app.Fail = f
		}
		app.Expiry = u64("expiry")
		err := h.TradePropose(&pbtrade.TradeProposeRequest{Market: m, Type: pbtrade.TradeType(t), SwapRequest: req}, proposing{s})
		valid = valid && t >= 0 && t <= 1 && missing == 0
		if valid {
			valid = nd.And(req.AmountP > 0, req.AmountR > 0)
		}
		told := len(s.propose)
		if told == 1 {
			nd.Assert((err != nil) == gone, "the failure to answer is hidden")
			err = nil
		}
		judge(app, valid, err, "TradePropose", mkt, int(t), domain.SwapRequest(req))
		if app.Err == nil && valid {
			nd.Assert(told == 1, "a proposal is not answered once")
			a := s.propose[0]
			nd.Assert(sameFailure(a.GetSwapFail(), f), "the rejection is not the service's")
			nd.Assert(a.GetExpiryTimeUnix() == app.Expiry, "the deadline is not the service's")
			nd.Assert((a.GetSwapAccept() != nil) == (app.Accept != nil), "the acceptance is not the service's")
			if b := a.GetSwapAccept(); b != nil {
				nd.Assert(b.Id == "accept" && b.RequestId == "id" && b.Transaction == "tx2" && nd.DeepEq(b.InputBlindingKey, key(3)) && nd.DeepEq(b.OutputBlindingKey, key(4)), "the acceptance is not the service's")
			}
		} else {
			nd.Assert(told == 0, "a failure is answered")
		}
	case 3:
		req := &pbtrade.TradeCompleteRequest{}
		var complete *domain.SwapComplete
		var fail *domain.SwapFail
		if nd.Bool("complete") {
			req.SwapComplete = &pbswap.SwapComplete{Id: "complete", AcceptId: "accept", Transaction: "tx"}
			d := domain.SwapComplete(req.SwapComplete)
			complete = &d
		}
		if nd.Bool("fail") {
			req.SwapFail = &pbswap.SwapFail{Id: "id", MessageId: "accept", FailureCode: 3, FailureMessage: "no"}
			d := domain.SwapFail(req.SwapFail)
			fail = &d
		}
		var f *pbswap.SwapFail
		if nd.Bool("rejected") {
			f = failure()
			app.Fail = f
		}
		app.ID = "txid"
		err := h.TradeComplete(req, completing{s})
		valid := complete != nil || fail != nil
		told := len(s.complete)
		if told == 1 {
			nd.Assert((err != nil) == gone, "the failure to answer is hidden")
			err = nil
		}
		judge(app, valid, err, "TradeComplete", complete, fail)
		if app.Err == nil && valid {
			nd.Assert(told == 1, "a completion is not answered once")
			nd.Assert(s.complete[0].GetTxid() == "txid" && sameFailure(s.complete[0].GetSwapFail(), f), "the answer to a completion is not the service's")
		} else {
			nd.Assert(told == 0, "a failure is answered")
		}
	}
}

func sameFee(f *pbtypes.Fee, want application.Fee) bool {
	return nd.And(f.GetBasisPoint() == want.BasisPoint, f.GetFixed().GetBaseFee() == want.FixedBaseFee, f.GetFixed().GetQuoteFee() == want.FixedQuoteFee)
}

// Decimals as floats, for decimals of a few digits.

//verif:model (github.com/shopspring/decimal.Decimal).Float64
func mDecimalFloat64(d decimal.Decimal) (float64, bool) {
	n := float64(d.Coefficient().Int64())
	if e := int(d.Exponent()); e < 0 {
		return n / math.Pow10(-e), true
	} else {
		return n * math.Pow10(e), true
	}
}

var bigFloats = map[*big.Float]float64{}

//verif:model (github.com/shopspring/decimal.Decimal).BigFloat
func mDecimalBigFloat(d decimal.Decimal) *big.Float {
	f := &big.Float{}
	bigFloats[f], _ = mDecimalFloat64(d)
	return f
}

//verif:model (*math/big.Float).Float32
func mBigFloatFloat32(f *big.Float) (float32, big.Accuracy) {
	return float32(bigFloats[f]), big.Exact
}

//verif:model (*math/big.Float).Float64
func mBigFloatFloat64(f *big.Float) (float64, big.Accuracy) { return bigFloats[f], big.Exact }

// A command on a market, as it is asked remotely.
//
//verif:harness prop=C35 time=60 replays=8
//verif:bound any one command on a market with any numbers the interface lets through
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteCommand() {
	onlyValid = true
	marketCommand(nd.Choice("command", 6))
	onlyValid = false
}

// A withdrawal, as it is asked remotely.
//
//verif:harness prop=C24 time=60 replays=8
//verif:bound any amounts and rate
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteWithdrawal() {
	onlyValid = true
	marketCommand(6)
	onlyValid = false
}

// A payment of the wallet, as it is asked remotely.
//
//verif:harness prop=C24 time=60 replays=8
//verif:bound up to two outputs with any amounts, any rate
//verif:assume the remote request is well-formed (C31 has the others)
func hRemotePayment() {
	onlyValid = true
	walletRequest(5)
	onlyValid = false
}

// The addresses of a market, as they are told remotely.
//
//verif:harness prop=C40 time=60 replays=8
//verif:bound one market
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteAddresses() {
	onlyValid = true
	marketCommand(7)
	onlyValid = false
}

// Commands of the operator on markets, hooks and fees, as they are asked remotely.
//
//verif:harness prop=C40 time=60 replays=8
//verif:bound any one such command with any numbers
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteOperator() {
	onlyValid = true
	command(4 + nd.Choice("command", 7))
	onlyValid = false
}

// A claim, as it is asked remotely.
//
//verif:harness prop=C23 time=60 replays=8
//verif:bound up to two outputs with any index
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteClaim() {
	onlyValid = true
	command(2 + nd.Choice("command", 2))
	onlyValid = false
}

// Addresses, as they are asked and told remotely.
//
//verif:harness prop=C13 time=60 replays=8
//verif:bound any number of addresses asked
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteDeposit() {
	onlyValid = true
	command(nd.Choice("command", 2))
	onlyValid = false
}

// An address of the wallet, as it is told remotely.
//
//verif:harness prop=C13 time=60 replays=8
//verif:bound one address
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteAddress() {
	onlyValid = true
	walletRequest(3)
	onlyValid = false
}

// The balance of the wallet, as it is told remotely.
//
//verif:harness prop=C32 time=60 replays=8
//verif:bound two assets with any amounts
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteBalance() {
	onlyValid = true
	walletRequest(4)
	onlyValid = false
}

// Balances and prices, as they are asked and told remotely.
//
//verif:harness prop=C36 time=60 replays=8
//verif:bound any amounts and fees
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteQuote() {
	onlyValid = true
	tradeRequest(nd.Choice("request", 2))
	onlyValid = false
}

// A proposal, as it is passed on and answered remotely.
//
//verif:harness prop=C20 time=60 replays=8
//verif:bound any amounts
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteProposal() {
	onlyValid = true
	tradeRequest(2)
	onlyValid = false
}

// A completion or failure, as it is passed on and answered remotely.
//
//verif:harness prop=C21 time=60 replays=8
//verif:bound any one message
//verif:assume the remote request is well-formed (C31 has the others)
func hRemoteCompletion() {
	onlyValid = true
	tradeRequest(3)
	onlyValid = false
}
