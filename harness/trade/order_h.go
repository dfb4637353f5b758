//verif:file pkg=pkg/trade props=C33
package trade

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"net"
	"strings"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	tradetype "github.com/tdex-network/tdex-daemon/pkg/trade/type"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

//verif:model google.golang.org/protobuf/proto.Marshal
func mMarshal(m proto.Message) ([]byte, error) { return []byte(nd.Blob(nd.TypeName(m), m)), nil }

//verif:model google.golang.org/protobuf/proto.Unmarshal
func mUnmarshal(b []byte, m proto.Message) error {
	if len(b) == 0 {
		return nil
	}
	v, ok := nd.Unblob(nd.TypeName(m), string(b))
	if !ok {
		return errors.New("not this message")
	}
	nd.Assign(m, v)
	return nil
}

var drawn int

//verif:model github.com/thanhpk/randstr.Hex
func mRandom(n int) string {
	drawn++
	return nd.Blob("random", drawn)
}

//verif:model google.golang.org/grpc.WithInsecure
func mInsecure() grpc.DialOption { return nil }

//verif:model google.golang.org/grpc.Dial
func mDial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return &grpc.ClientConn{}, nil
}

// line is the connection of a client with a server.
type line struct {
	pbtrade.TradeClient
	s *server
}

var serving *server

//verif:model github.com/tdex-network/tdex-protobuf/generated/go/trade.NewTradeClient
func mClient(c grpc.ClientConnInterface) pbtrade.TradeClient { return line{s: serving} }

func (l line) MarketPrice(c context.Context, r *pbtrade.MarketPriceRequest, o ...grpc.CallOption) (*pbtrade.MarketPriceReply, error) {
	return l.s.MarketPrice(c, r)
}
func (l line) Markets(c context.Context, r *pbtrade.MarketsRequest, o ...grpc.CallOption) (*pbtrade.MarketsReply, error) {
	return l.s.Markets(c, r)
}
func (l line) Balances(c context.Context, r *pbtrade.BalancesRequest, o ...grpc.CallOption) (*pbtrade.BalancesReply, error) {
	return l.s.Balances(c, r)
}

type proposing struct {
	pbtrade.Trade_TradeProposeClient
	s *server
	r *pbtrade.TradeProposeRequest
}

func (p proposing) Recv() (*pbtrade.TradeProposeReply, error) { return p.s.propose(p.r) }

type completing struct {
	pbtrade.Trade_TradeCompleteClient
	s *server
	r *pbtrade.TradeCompleteRequest
}

func (p completing) Recv() (*pbtrade.TradeCompleteReply, error) { return p.s.complete(p.r) }

func (l line) TradePropose(c context.Context, r *pbtrade.TradeProposeRequest, o ...grpc.CallOption) (pbtrade.Trade_TradeProposeClient, error) {
	return proposing{s: l.s, r: r}, nil
}
func (l line) TradeComplete(c context.Context, r *pbtrade.TradeCompleteRequest, o ...grpc.CallOption) (pbtrade.Trade_TradeCompleteClient, error) {
	return completing{s: l.s, r: r}, nil
}

// server is a provider; natively the client is connected with it.
type server struct {
	pbtrade.UnimplementedTradeServer
	calls     int
	asked     *pbtrade.MarketPriceRequest
	price     *pbtrade.MarketPriceReply // nil if it fails
	proposed  *pbtrade.TradeProposeRequest
	answer    func(*pbtrade.TradeProposeRequest) *pbtrade.TradeProposeReply // nil if it fails
	completed *pbtrade.TradeCompleteRequest
	end       *pbtrade.TradeCompleteReply // nil if it fails
}

var errServer = errors.New("server failed")

func (s *server) MarketPrice(c context.Context, r *pbtrade.MarketPriceRequest) (*pbtrade.MarketPriceReply, error) {
	s.calls++
	s.asked = r
	if s.price == nil {
		return nil, errServer
	}
	return s.price, nil
}

func (s *server) Markets(c context.Context, r *pbtrade.MarketsRequest) (*pbtrade.MarketsReply, error) {
	s.calls++
	return &pbtrade.MarketsReply{Markets: []*pbtypes.MarketWithFee{{Market: &pbtypes.Market{BaseAsset: lbtc}}}}, nil
}

func (s *server) Balances(c context.Context, r *pbtrade.BalancesRequest) (*pbtrade.BalancesReply, error) {
	s.calls++
	nd.Assert(r.GetMarket().GetBaseAsset() == lbtc && r.GetMarket().GetQuoteAsset() == usdt, "the balances of another market are asked for")
	return &pbtrade.BalancesReply{Balances: []*pbtypes.BalanceWithFee{{Balance: &pbtypes.Balance{BaseAmount: 3}}}}, nil
}

func (s *server) propose(r *pbtrade.TradeProposeRequest) (*pbtrade.TradeProposeReply, error) {
	s.calls++
	s.proposed = r
	if a := s.answer(r); a != nil {
		return a, nil
	}
	return nil, errServer
}

func (s *server) complete(r *pbtrade.TradeCompleteRequest) (*pbtrade.TradeCompleteReply, error) {
	s.calls++
	s.completed = r
	if s.end == nil {
		return nil, errServer
	}
	return s.end, nil
}

func (s *server) TradePropose(r *pbtrade.TradeProposeRequest, st pbtrade.Trade_TradeProposeServer) error {
	a, err := s.propose(r)
	if err != nil {
		return err
	}
	return st.Send(a)
}

func (s *server) TradeComplete(r *pbtrade.TradeCompleteRequest, st pbtrade.Trade_TradeCompleteServer) error {
	a, err := s.complete(r)
	if err != nil {
		return err
	}
	return st.Send(a)
}

// connect connects a client with the server.
func (s *server) connect() (c *tradeclient.Client, stop func()) {
	serving, drawn = s, 0
	if nd.Symbolic() {
		c, err := tradeclient.NewTradeClient("127.0.0.1", 9)
		must(err)
		return c, func() {}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	g := grpc.NewServer()
	pbtrade.RegisterTradeServer(g, s)
	go g.Serve(l)
	c, err = tradeclient.NewTradeClient("127.0.0.1", l.Addr().(*net.TCPAddr).Port)
	must(err)
	return c, func() { c.CloseConnection(); g.Stop() }
}

// chain is the explorer.
type chain struct {
	explorer.Service
	owner string
	coins []explorer.Utxo
	fails bool
	calls int
}

func (c *chain) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	c.calls++
	nd.Assert(addr == c.owner && len(keys) == 1 && bytes.Equal(keys[0], blindKey), "the coins of somebody else are asked for")
	if c.fails {
		return nil, errors.New("explorer failed")
	}
	return c.coins, nil
}

const (
	lbtc    = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"
	usdt    = "2dcf5a8834645654911964ec3602426fd3b9b4017554d3f9c19403e7fc1411d3"
	foreign = "913df69e031ee10891afb44c0c3019ca6c43ab7b453534b642650f594ff38578"
	supply  = 21_000_000_00_000_000
)

var (
	signKey  = bytes.Repeat([]byte{11}, 32)
	blindKey = bytes.Repeat([]byte{12}, 32)
	market   = trademarket.Market{BaseAsset: lbtc, QuoteAsset: usdt}
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// desk is a trader with coins, connected with a provider.
type desk struct {
	*Trade
	s      *server
	chain  *chain
	wallet *Wallet
	script []byte
}

func open(s *server) (*desk, func()) {
	c, stop := s.connect()
	w := NewWalletFromKey(signKey, blindKey, &network.Regtest)
	_, script := w.Script()
	d := &desk{s: s, chain: &chain{owner: w.Address()}, wallet: w, script: script}
	t, err := NewTrade(NewTradeOpts{Chain: "regtest", ExplorerService: d.chain, Client: c})
	must(err)
	d.Trade = t
	return d, stop
}

func (d *desk) coin(asset string, value uint64) {
	id := strings.Repeat("0"+string([]byte{byte('1' + len(d.chain.coins))}), 32)
	d.chain.coins = append(d.chain.coins, esplora.NewUnconfidentialWitnessUtxo(id, uint32(len(d.chain.coins)), value, asset, d.script))
}

// valueOf is what is paid from the coins named in the inputs.
func (d *desk) spent(asset string, ins []*transaction.TxInput) (sum uint64) {
	for n, in := range ins {
		found := false
		for _, c := range d.chain.coins {
			if bufferutil.TxIDFromBytes(in.Hash) == c.Hash() && in.Index == c.Index() {
				found = true
				nd.Assert(c.Asset() == asset, "a coin of another asset is spent")
				sum += c.Value()
			}
		}
		nd.Assert(found, "a coin of somebody else is spent")
		for _, o := range ins[:n] {
			nd.Assert(!bytes.Equal(o.Hash, in.Hash) || o.Index != in.Index, "a coin is spent twice")
		}
	}
	return
}

// trade is what is exchanged for what.
type exchange struct {
	send, receive       string
	toSend, toReceive   uint64
	kind                tradetype.TradeType
	asked               string
	amount, quotedAmout uint64
}

// agreed is what a trade of the given kind about an amount of an asset means
// if the amount of the other asset is as quoted.
func agreed(buy bool, asset string, amount, quoted uint64) (e exchange) {
	e = exchange{send: usdt, receive: lbtc, asked: asset, amount: amount, quotedAmout: quoted, kind: tradetype.Buy}
	if !buy {
		e.send, e.receive, e.kind = lbtc, usdt, tradetype.Sell
	}
	e.toSend, e.toReceive = amount, quoted
	if asset == e.receive {
		e.toSend, e.toReceive = quoted, amount
	}
	return
}

func other(asset string) string {
	if asset == lbtc {
		return usdt
	}
	return lbtc
}

// Quotes are taken as they are meant.
//
//verif:harness prop=C33 time=60
//verif:bound all amounts, assets of the market, foreign or malformed ones, trade types and malformed markets; a provider that fails, answers nothing or any amount of any of the assets, possibly with further prices
func hPreview() {
	s := &server{}
	d, stop := open(s)
	defer stop()
	buy := nd.Bool("buy")
	asset := nd.Pick("asset", lbtc, usdt)
	o := PreviewOpts{Market: market, Asset: asset, Amount: nd.Uint64("amount", 1, 1<<64-1)}
	if !buy {
		o.TradeType = int(tradetype.Sell)
	}
	bad := nd.Choice("malformed", 9)
	switch bad {
	case 1:
		o.Amount = 0
	case 2:
		o.Asset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	case 3:
		o.TradeType = 2 + nd.Choice("type", 2)
	case 4:
		o.TradeType = -1
	case 5:
		o.Market.BaseAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	case 6:
		o.Market.QuoteAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	case 7:
		o.Asset = foreign
	}
	quoted := nd.Uint64("quoted", 0, 1<<64-1)
	kind := nd.Choice("answer", 6)
	switch kind {
	case 1:
		s.price = &pbtrade.MarketPriceReply{}
	case 2:
		s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: asset, Amount: quoted}}}
	case 3:
		s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: foreign, Amount: quoted}}}
	case 4:
		s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: other(asset), Amount: quoted}}}
	case 5:
		s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: other(asset), Amount: quoted}, {Asset: asset, Amount: 1}}}
	}
	p, err := d.Preview(o)
	if bad >= 1 && bad <= 7 {
		nd.Assert(err != nil && p == nil, "a malformed order is previewed")
		nd.Assert(s.calls == 0, "a malformed order reaches the provider")
		return
	}
	nd.Assert(s.calls == 1 && s.asked != nil, "the provider is not asked once")
	q := s.asked
	nd.Assert(q.GetMarket().GetBaseAsset() == lbtc && q.GetMarket().GetQuoteAsset() == usdt && q.GetAsset() == asset, "the price of something else is asked for")
	nd.Assert(nd.And(q.GetAmount() == o.Amount, (q.GetType() == pbtrade.TradeType_BUY) == buy), "the price of another trade is asked for")
	if kind < 4 {
		nd.Assert(err != nil && p == nil, "a failed or meaningless quote is taken for a price")
		return
	}
	nd.Assert(err == nil, "a quote is refused")
	e := agreed(buy, asset, o.Amount, quoted)
	nd.Assert(p.AssetToSend == e.send && p.AssetToReceive == e.receive, "a trade goes in the other direction")
	nd.Assert(nd.And(p.AmountToSend == e.toSend, p.AmountToReceive == e.toReceive), "a trade is about other amounts")
	nd.Cover("quoted")
}

// check looks at the proposal that was made.
func (d *desk) check(e exchange) {
	r := d.s.proposed
	nd.Assert(r.GetMarket().GetBaseAsset() == lbtc && r.GetMarket().GetQuoteAsset() == usdt, "a trade is proposed on another market")
	nd.Assert(int(r.GetType()) == int(e.kind), "a trade of the other kind is proposed")
	m := r.GetSwapRequest()
	nd.Assert(m.GetAssetP() == e.send && m.GetAssetR() == e.receive, "a trade in the other direction is proposed")
	nd.Assert(nd.And(m.GetAmountP() == e.toSend, m.GetAmountR() == e.toReceive), "a trade about other amounts is proposed")
	key := hex.EncodeToString(d.script)
	nd.Assert(bytes.Equal(m.GetInputBlindingKey()[key], blindKey) && bytes.Equal(m.GetOutputBlindingKey()[key], blindKey), "the provider cannot read the transaction")
	tx, err := pset.NewPsetFromBase64(m.GetTransaction())
	must(err)
	sum := d.spent(e.send, tx.UnsignedTx.Inputs)
	for n, in := range tx.Inputs {
		for _, c := range d.chain.coins {
			if bufferutil.TxIDFromBytes(tx.UnsignedTx.Inputs[n].Hash) == c.Hash() {
				nd.Assert(in.WitnessUtxo != nil && bytes.Equal(in.WitnessUtxo.Script, d.script), "a coin is not described")
				nd.Assert(bufferutil.ValueFromBytes(in.WitnessUtxo.Value) == c.Value(), "a coin is described with another value")
			}
		}
	}
	outs := tx.UnsignedTx.Outputs
	nd.Assert(len(outs) == 1 || len(outs) == 2, "more than the change is paid")
	for _, o := range outs {
		nd.Assert(bytes.Equal(o.Script, d.script), "somebody else is paid")
	}
	nd.Assert(bufferutil.AssetHashFromBytes(outs[0].Asset) == e.receive && bufferutil.ValueFromBytes(outs[0].Value) == e.toReceive, "the transaction does not pay what is to be received")
	change := uint64(0)
	if len(outs) == 2 {
		nd.Assert(bufferutil.AssetHashFromBytes(outs[1].Asset) == e.send, "the change is of another asset")
		change = bufferutil.ValueFromBytes(outs[1].Value)
		nd.Assert(change > 0, "the change is nothing")
	}
	nd.Assert(nd.And(change <= sum, sum-change == e.toSend), "the transaction does not pay what is to be sent")
}

// Proposals are what was quoted.
//
//verif:harness prop=C33 time=90
//verif:bound buying and selling any amount of either asset at any quote of the other one, of a trader with up to two coins of the asset to send and one of the other, of any values; an explorer that fails or knows no coins, a provider that fails, refuses, accepts or answers nothing
func hPropose() {
	s := &server{}
	d, stop := open(s)
	defer stop()
	buy, asset := nd.Bool("buy"), nd.Pick("asset", lbtc, usdt)
	amount, quoted := nd.Uint64("amount", 1, supply), nd.Uint64("quoted", 1, supply)
	e := agreed(buy, asset, amount, quoted)
	s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: other(asset), Amount: quoted}}}
	have := uint64(0)
	n := nd.Choice("coins", 3)
	for k := 0; k < n; k++ {
		v := nd.Uint64("coin", 1, supply)
		d.coin(e.send, v)
		have += v
	}
	if nd.Bool("other coin") {
		d.coin(e.receive, nd.Uint64("coin", 1, supply))
	}
	d.chain.fails = nd.Bool("explorer fails")
	kind := nd.Choice("answer", 4)
	s.answer = func(r *pbtrade.TradeProposeRequest) *pbtrade.TradeProposeReply {
		switch kind {
		case 0:
			return nil
		case 1:
			return &pbtrade.TradeProposeReply{SwapFail: &pbswap.SwapFail{Id: "fail", MessageId: r.GetSwapRequest().GetId(), FailureMessage: "no"}}
		case 2:
			return &pbtrade.TradeProposeReply{}
		}
		return &pbtrade.TradeProposeReply{SwapAccept: &pbswap.SwapAccept{Id: "accept", RequestId: r.GetSwapRequest().GetId(), Transaction: "tx"}}
	}
	o := BuyOrSellOpts{Market: market, Amount: amount, Asset: asset, Address: d.chain.owner, BlindingKey: blindKey}
	var b []byte
	var err error
	if buy {
		b, err = d.Buy(o)
	} else {
		b, err = d.Sell(o)
	}
	if d.chain.fails || have < e.toSend {
		nd.Assert(err != nil && b == nil, "a trade that cannot be paid succeeds")
		nd.Assert(s.proposed == nil, "a trade that cannot be paid is proposed")
		return
	}
	nd.Assert(s.proposed != nil, "a trade is not proposed")
	d.check(e)
	if kind < 3 {
		nd.Assert(err != nil && b == nil, "a trade that failed or was refused is reported as accepted")
		return
	}
	nd.Assert(err == nil, "an accepted trade is reported as failed")
	var a pbswap.SwapAccept
	must(proto.Unmarshal(b, &a))
	nd.Assert(a.GetId() == "accept" && a.GetRequestId() == s.proposed.GetSwapRequest().GetId() && a.GetTransaction() == "tx", "another accept is returned")
	nd.Cover("accepted")
}

// Malformed orders do not leave the client.
//
//verif:harness prop=C33 time=60
//verif:bound buying and selling, at once or step by step, with one malformed field
func hMalformed() {
	s := &server{price: &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: usdt, Amount: 5}}}}
	s.answer = func(*pbtrade.TradeProposeRequest) *pbtrade.TradeProposeReply { return &pbtrade.TradeProposeReply{} }
	d, stop := open(s)
	defer stop()
	d.coin(lbtc, 100)
	d.coin(usdt, 100)
	m, amount, asset, addr, key, prv := market, uint64(5), lbtc, d.chain.owner, blindKey, signKey
	whole := nd.Bool("whole")
	switch nd.Choice("malformed", 7) {
	case 0:
		m.BaseAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	case 1:
		m.QuoteAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	case 2:
		amount = 0
	case 3:
		asset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00", foreign)
	case 4:
		if whole {
			prv = nil
		} else {
			addr = nd.Pick("bad address", "", "nowhere")
		}
	case 5:
		key = nil
	case 6:
		key = []byte{}
	}
	var err error
	var out string
	switch {
	case whole && nd.Bool("buy"):
		out, err = d.BuyAndComplete(BuyOrSellAndCompleteOpts{m, amount, asset, prv, key})
	case whole:
		out, err = d.SellAndComplete(BuyOrSellAndCompleteOpts{m, amount, asset, prv, key})
	case nd.Bool("buy"):
		var b []byte
		b, err = d.Buy(BuyOrSellOpts{m, amount, asset, addr, key})
		out = string(b)
	default:
		var b []byte
		b, err = d.Sell(BuyOrSellOpts{m, amount, asset, addr, key})
		out = string(b)
	}
	nd.Assert(err != nil && out == "", "a malformed order succeeds")
	nd.Assert(s.calls == 0, "a malformed order reaches the provider")
}

// Trades are completed with the client's signatures on what was accepted.
//
//verif:harness prop=C33 time=60
//verif:bound buying and selling a fixed amount of either asset at a fixed quote, a provider that accepts with a transaction with its signed or unsigned or undescribed coin or with no transaction at all, and then fails, refuses, succeeds or answers nothing
func hComplete() {
	s := &server{}
	d, stop := open(s)
	defer stop()
	buy, asset := nd.Bool("buy"), nd.Pick("asset", lbtc, usdt)
	e := agreed(buy, asset, 500, 700)
	s.price = &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Asset: other(asset), Amount: 700}}}
	d.coin(e.send, 400)
	d.coin(e.send, 600)
	provider := NewWalletFromKey(bytes.Repeat([]byte{21}, 32), bytes.Repeat([]byte{22}, 32), &network.Regtest)
	_, theirs := provider.Script()
	var accepted *pset.Pset
	kind := nd.Choice("answer", 6)
	s.answer = func(r *pbtrade.TradeProposeRequest) *pbtrade.TradeProposeReply {
		if kind == 5 {
			return nil
		}
		q := r.GetSwapRequest()
		tx, err := pset.NewPsetFromBase64(q.GetTransaction())
		must(err)
		u, err := pset.NewUpdater(tx)
		must(err)
		u.AddInput(veriftx.Spend(strings.Repeat("ee", 32), 1))
		if kind != 2 {
			must(u.AddInWitnessUtxo(veriftx.Plain(q.GetAssetR(), q.GetAmountR()+100, theirs), len(tx.Inputs)-1))
		}
		u.AddOutput(veriftx.Plain(q.GetAssetR(), 100, theirs))
		u.AddOutput(veriftx.Plain(q.GetAssetP(), q.GetAmountP(), theirs))
		text, err := tx.ToBase64()
		must(err)
		if kind != 1 && kind != 2 {
			text, err = provider.Sign(text)
			must(err)
		}
		accepted, err = pset.NewPsetFromBase64(text)
		must(err)
		switch kind {
		case 3:
			text = "no transaction"
		case 4:
			text = ""
		}
		return &pbtrade.TradeProposeReply{SwapAccept: &pbswap.SwapAccept{Id: "accept", RequestId: q.GetId(), Transaction: text}}
	}
	end := nd.Choice("end", 4)
	switch end {
	case 1:
		s.end = &pbtrade.TradeCompleteReply{}
	case 2:
		s.end = &pbtrade.TradeCompleteReply{SwapFail: &pbswap.SwapFail{Id: "fail", FailureMessage: "no"}}
	case 3:
		s.end = &pbtrade.TradeCompleteReply{Txid: "txid"}
	}
	o := BuyOrSellAndCompleteOpts{Market: market, Amount: 500, Asset: asset, PrivateKey: signKey, BlindingKey: blindKey}
	var txid string
	var err error
	if buy {
		txid, err = d.BuyAndComplete(o)
	} else {
		txid, err = d.SellAndComplete(o)
	}
	nd.Assert((err == nil) == (txid == "txid") && (txid == "" || txid == "txid"), "a trade has another outcome than the provider's")
	nd.Assert(s.proposed != nil, "a trade is not proposed")
	d.check(e)
	if kind != 0 {
		nd.Assert(err != nil, "a trade that is not fully signed succeeds")
		nd.Assert(s.completed == nil, "a trade that is not fully signed is completed")
		return
	}
	nd.Assert((err == nil) == (end == 3), "a trade has another outcome than the provider's")
	nd.Assert(s.completed != nil && s.completed.GetSwapFail() == nil, "an accepted trade is not completed")
	c := s.completed.GetSwapComplete()
	nd.Assert(c.GetAcceptId() == "accept" && c.GetId() != "", "another trade is completed")
	tx, err := pset.NewPsetFromBase64(c.GetTransaction())
	nd.Assert(err == nil, "a trade is completed with no transaction")
	ok, err := tx.ValidateAllSignatures()
	nd.Assert(ok && err == nil, "a trade is completed without all signatures")
	nd.Assert(len(tx.Inputs) == len(accepted.Inputs) && len(tx.UnsignedTx.Outputs) == len(accepted.UnsignedTx.Outputs), "a trade is completed with another transaction")
	for n, in := range accepted.UnsignedTx.Inputs {
		got := tx.UnsignedTx.Inputs[n]
		nd.Assert(bytes.Equal(in.Hash, got.Hash) && in.Index == got.Index, "a trade is completed with other coins")
	}
	for n, out := range accepted.UnsignedTx.Outputs {
		got := tx.UnsignedTx.Outputs[n]
		nd.Assert(bytes.Equal(out.Script, got.Script) && bytes.Equal(out.Value, got.Value) && bytes.Equal(out.Asset, got.Asset), "a trade is completed with other payments")
	}
	nd.Cover("completed")
}

// The client passes on what it is given.
//
//verif:harness prop=C33 time=30
//verif:bound the other requests of the client with valid and malformed arguments
func hClient() {
	s := &server{end: &pbtrade.TradeCompleteReply{Txid: "txid"}}
	s.answer = func(*pbtrade.TradeProposeRequest) *pbtrade.TradeProposeReply {
		return &pbtrade.TradeProposeReply{SwapAccept: &pbswap.SwapAccept{Id: "accept"}}
	}
	c, stop := s.connect()
	defer stop()
	must2 := func(ok bool, err error) { nd.Assert(ok == (err == nil), "a request is judged wrongly") }
	bad := market
	if nd.Bool("base") {
		bad.BaseAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	} else {
		bad.QuoteAsset = nd.Pick("bad asset", "", "zz", lbtc[:62], lbtc+"00")
	}
	message, err := proto.Marshal(&pbswap.SwapRequest{Id: "request"})
	must(err)
	complete, err := proto.Marshal(&pbswap.SwapComplete{Id: "complete"})
	must(err)
	fail, err := proto.Marshal(&pbswap.SwapFail{Id: "fail"})
	must(err)
	garbage := []byte{255, 255, 255}

	_, err = c.Balances(tradeclient.BalancesOpts{Market: bad})
	must2(false, err)
	_, err = c.MarketPrice(tradeclient.MarketPriceOpts{Market: bad, Amount: 1, Asset: lbtc})
	must2(false, err)
	_, err = c.MarketPrice(tradeclient.MarketPriceOpts{Market: market, Asset: lbtc})
	must2(false, err)
	_, err = c.MarketPrice(tradeclient.MarketPriceOpts{Market: market, Amount: 1, Asset: lbtc[2:]})
	must2(false, err)
	_, err = c.MarketPrice(tradeclient.MarketPriceOpts{Market: market, Amount: 1, Asset: lbtc, TradeType: 2})
	must2(false, err)
	_, err = c.TradePropose(tradeclient.TradeProposeOpts{Market: bad, SwapRequest: message})
	must2(false, err)
	_, err = c.TradePropose(tradeclient.TradeProposeOpts{Market: market, SwapRequest: garbage})
	must2(false, err)
	_, err = c.TradePropose(tradeclient.TradeProposeOpts{Market: market, SwapRequest: message, TradeType: -1})
	must2(false, err)
	for _, o := range []tradeclient.TradeCompleteOpts{{}, {SwapComplete: complete, SwapFail: fail}, {SwapComplete: garbage}, {SwapFail: garbage}} {
		_, err = c.TradeComplete(o)
		must2(false, err)
	}
	nd.Assert(s.calls == 0, "a malformed request reaches the provider")

	b, err := c.Balances(tradeclient.BalancesOpts{Market: market})
	must2(true, err)
	nd.Assert(len(b.GetBalances()) == 1 && b.GetBalances()[0].GetBalance().GetBaseAmount() == 3, "other balances are returned")
	m, err := c.Markets()
	must2(true, err)
	nd.Assert(len(m.GetMarkets()) == 1 && m.GetMarkets()[0].GetMarket().GetBaseAsset() == lbtc, "other markets are returned")
	kind := tradetype.Buy
	if nd.Bool("sell") {
		kind = tradetype.Sell
	}
	a, err := c.TradePropose(tradeclient.TradeProposeOpts{Market: market, SwapRequest: message, TradeType: kind})
	must2(true, err)
	p := s.proposed
	nd.Assert(a.GetSwapAccept().GetId() == "accept" && p.GetSwapRequest().GetId() == "request" && int(p.GetType()) == int(kind) && p.GetMarket().GetBaseAsset() == lbtc && p.GetMarket().GetQuoteAsset() == usdt, "another proposal is made")
	r, err := c.TradeComplete(tradeclient.TradeCompleteOpts{SwapComplete: complete})
	must2(true, err)
	nd.Assert(r.GetTxid() == "txid" && s.completed.GetSwapComplete().GetId() == "complete" && s.completed.GetSwapFail() == nil, "another trade is completed")
	_, err = c.TradeComplete(tradeclient.TradeCompleteOpts{SwapFail: fail})
	must2(true, err)
	nd.Assert(s.completed.GetSwapFail().GetId() == "fail" && s.completed.GetSwapComplete() == nil, "another trade is given up")
	for n, o := range []NewTradeOpts{{"", &chain{}, c}, {"bitcoin", &chain{}, c}, {"regtest", nil, c}, {"liquid", &chain{}, nil}, {"liquid", &chain{}, c}} {
		_, err := NewTrade(o)
		must2(n == 4, err)
	}
}
