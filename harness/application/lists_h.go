//verif:file pkg=internal/core/application props=C40
package application

import (
	"encoding/hex"
	"errors"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

// seen knows what some transactions hide.
type seen struct {
	TransactionHandler
	outs map[string]map[int]BlindingData
	keys map[string]string
}

func (s seen) ExtractBlindingData(p string, in, out map[string][]byte) (map[int]BlindingData, map[int]BlindingData, error) {
	if in != nil || string(out["script"]) != s.keys[p] {
		return nil, nil, errors.New("other keys")
	}
	return nil, s.outs[p], nil
}

func reversed(b []byte) string {
	var r []byte
	for i := len(b) - 1; i >= 0; i-- {
		r = append(r, b[i])
	}
	return hex.EncodeToString(r)
}

// The operator lists the trades.
//
//verif:harness prop=C40 time=90
//verif:bound up to two (thorough three) trades of two markets in any of nine stages, both directions, any amounts, times and failures, one or two outputs of settled ones
func hListTrades() {
	nd.FreeGo()
	nd.MapFlip()
	parse := messages(false)
	p := newPlace(store(), mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	know := seen{outs: map[string]map[int]BlindingData{}, keys: map[string]string{}}
	TransactionManager = know
	want := map[string]TradeInfo{}
	urls := map[string][2]string{}
	for i, n := 0, nd.Choice("trades", nd.Bound("trades", 2, 3)+1); i < n; i++ {
		id := string([]byte{'0' + byte(i)})
		t := domain.Trade{ID: uuid.UUID{byte(i + 1)}, MarketQuoteAsset: []string{quote, foreign}[nd.Choice("market", 2)]}
		t.Status = []domain.Status{
			domain.SettledStatus, domain.CompletedStatus, domain.FailedToCompleteStatus, domain.ProposalStatus, domain.ProposalRejectedStatus,
			domain.AcceptedStatus, domain.FailedToSettleStatus, domain.ExpiredStatus, domain.EmptyStatus,
		}[nd.Choice("stage", 9)]
		t.TxID, t.PsetBase64 = "tx"+id, "pset"+id
		t.MarketFee = nd.Int64("fee", 0, 9999)
		t.MarketPrice = domain.Prices{BasePrice: decimal.New(int64(10+i), -1), QuotePrice: decimal.New(int64(20+i), -1)}
		r := ask{id: "ask" + id, p: nd.Uint64("amount p", 0, 1<<64-1), r: nd.Uint64("amount r", 0, 1<<64-1), ap: base, ar: t.MarketQuoteAsset}
		if nd.Bool("the trader pays the quote asset") {
			r.ap, r.ar = r.ar, r.ap
		}
		_, e := parse.SerializeRequest(r)
		nd.Assert(e == nil, "no message")
		at := func(what string) uint64 { return nd.Uint64(what, 0, 1<<62) }
		t.SwapRequest = domain.Swap{ID: "ask", Message: []byte{byte(len(parse.reqs))}, Timestamp: at("requested")}
		info := TradeInfo{ID: t.ID.String(), Status: t.Status, SwapInfo: SwapInfo{AmountP: r.p, AssetP: r.ap, AmountR: r.r, AssetR: r.ar},
			MarketWithFee: MarketWithFee{Market{base, t.MarketQuoteAsset}, Fee{BasisPoint: t.MarketFee}}, Price: Price(t.MarketPrice), RequestTimeUnix: t.SwapRequest.Timestamp}
		if t.Status.Failed {
			info.SwapFailInfo = SwapFailInfo{Code: nd.Int("code", 0, 100), Message: "why" + id}
			_, t.SwapFail.Message = parse.put(note{code: uint32(info.SwapFailInfo.Code), text: info.SwapFailInfo.Message})
		}
		if t.Status.Code > domain.Proposal {
			_, t.SwapAccept.Message = parse.put(note{ref: "ask" + id, outs: map[string][]byte{"script": {byte(i)}}})
			t.SwapAccept.Timestamp, t.ExpiryTime = at("accepted"), at("expires")
		}
		if t.Status.Code > domain.Accepted {
			t.SwapComplete.Timestamp = at("completed")
		}
		if t.Status.Code == domain.Settled {
			t.SettlementTime = at("settled")
			outs, line := map[int]BlindingData{}, [2]string{}
			for j, m := 0, 1+nd.Choice("outputs", 2); j < m; j++ {
				amount := nd.Pick("amount", "1", "2100000000000000")
				d := BlindingData{Asset: quote, Amount: 1, AssetBlinder: []byte{1, byte(j)}, AmountBlinder: []byte{2, byte(j)}}
				if amount != "1" {
					d.Asset, d.Amount = base, 2100000000000000
				}
				outs[j] = d
				line[j] = amount + "," + d.Asset + "," + reversed(d.AmountBlinder) + "," + reversed(d.AssetBlinder)
			}
			know.outs[t.PsetBase64], know.keys[t.PsetBase64] = outs, string([]byte{byte(i)})
			urls[info.ID] = line
		}
		info.AcceptTimeUnix, info.CompleteTimeUnix, info.SettleTimeUnix, info.ExpiryTimeUnix = t.SwapAccept.Timestamp, t.SwapComplete.Timestamp, t.SettlementTime, t.ExpiryTime
		info.TxURL = t.TxID
		_, err := p.TradeRepository().GetOrCreateTrade(bg, &t.ID)
		must(err)
		must(p.TradeRepository().UpdateTrade(bg, &t.ID, func(*domain.Trade) (*domain.Trade, error) { return &t, nil }))
		if t.Status != domain.EmptyStatus {
			want[info.ID] = info
		}
	}
	main := nd.Bool("liquid")
	net, page := &network.Regtest, "http://localhost:3001/tx/"
	if main {
		net, page = &network.Liquid, "https://blockstream.info/liquid/tx/"
	}
	svc := NewOperatorService(p, nil, newWatch(), base, 25, net, 1000)
	list, err := svc.ListTrades(bg)
	nd.Assert(err == nil, "the trades are not listed")
	nd.Assert(len(list) == len(want), "a trade is missing or listed twice")
	listed := map[string]bool{}
	last := uint64(0)
	for _, g := range list {
		w, ok := want[g.ID]
		nd.Assert(ok && !listed[g.ID], "a trade is made up or listed twice")
		listed[g.ID] = true
		nd.Assert(g.RequestTimeUnix >= last, "the trades are not in order of time")
		last = g.RequestTimeUnix
		nd.Assert(g.Status == w.Status && g.SwapInfo == w.SwapInfo && g.SwapFailInfo == w.SwapFailInfo && g.MarketWithFee == w.MarketWithFee, "a trade is listed with other terms or another outcome")
		nd.Assert(g.Price.BasePrice.Equal(w.Price.BasePrice) && g.Price.QuotePrice.Equal(w.Price.QuotePrice), "a trade is listed at another price")
		nd.Assert(g.RequestTimeUnix == w.RequestTimeUnix && g.AcceptTimeUnix == w.AcceptTimeUnix && g.CompleteTimeUnix == w.CompleteTimeUnix && g.SettleTimeUnix == w.SettleTimeUnix && g.ExpiryTimeUnix == w.ExpiryTimeUnix, "a trade is listed with other times")
		line, settled := urls[g.ID]
		if !settled {
			nd.Assert(g.TxURL == "", "a trade that is not settled has a transaction to look at")
			continue
		}
		nd.Cover("settled")
		start := page + w.TxURL + "#blinded="
		if line[1] == "" {
			nd.Assert(g.TxURL == start+line[0], "the transaction of a trade cannot be looked at")
		} else {
			nd.Assert(g.TxURL == start+line[0]+","+line[1] || g.TxURL == start+line[1]+","+line[0], "the transaction of a trade cannot be looked at")
		}
	}
}

// The operator lists coins, balances and addresses.
//
//verif:harness prop=C40 time=90
//verif:bound up to two (thorough three) coins of two assets on three accounts, each free, reserved, spent, or both, confirmed or not, any values
func hListCoins() {
	nd.MapFlip()
	messages(false)
	p := newPlace(store(), domain.FeeAccount, domain.WalletAccount, mAccount)
	defer p.Close()
	p.market(func(*domain.Market) {})
	accounts := []int{domain.FeeAccount, domain.WalletAccount, mAccount}
	fee := uint64(0)
	type place struct {
		account uint64
		state   int
	}
	want := map[TxOutpoint]place{}
	info := map[TxOutpoint]UtxoInfo{}
	for i, n := 0, nd.Choice("coins", nd.Bound("coins", 2, 3)+1); i < n; i++ {
		a := accounts[nd.Choice("account", 3)]
		c := p.coin(a, byte(i), assetIDs[nd.Choice("asset", 2)], nd.Uint64("value", 1, supply))
		state := nd.Choice("state", 4) // free, reserved, spent, both
		c.Confirmed = state == 2 || nd.Bool("confirmed")
		p.fund(c)
		if state%2 == 1 {
			_, err := p.UnspentRepository().LockUnspents(bg, []domain.UnspentKey{c.Key()}, domain.NewTrade().ID)
			must(err)
		}
		if state >= 2 {
			_, err := p.UnspentRepository().SpendUnspents(bg, []domain.UnspentKey{c.Key()})
			must(err)
			state = 2
		}
		if a == domain.FeeAccount && c.AssetHash == base && c.Confirmed && state < 2 {
			fee += c.Value
		}
		at := TxOutpoint{Hash: c.TxID, Index: int(c.VOut)}
		want[at], info[at] = place{uint64(a), state}, UtxoInfo{Value: c.Value, Asset: c.AssetHash}
	}
	svc := NewOperatorService(p, nil, newWatch(), base, 25, &network.Regtest, 1000)
	list, err := svc.ListUtxos(bg)
	nd.Assert(err == nil, "the coins are not listed")
	listed := map[TxOutpoint]bool{}
	for a, l := range list {
		for state, us := range [][]UtxoInfo{l.Unspents, l.Locks, l.Spents} {
			for _, u := range us {
				at := *u.Outpoint
				nd.Assert(!listed[at], "a coin is listed twice")
				listed[at] = true
				w, ok := want[at]
				nd.Assert(ok && w.account == a && w.state == state, "a coin is made up or listed for another account or in another state")
				nd.Assert(u.Value == info[at].Value && u.Asset == info[at].Asset, "a coin is listed with another value")
				nd.Cover("listed")
			}
		}
	}
	nd.Assert(len(listed) == len(want), "a coin is not listed")
	balance, err := svc.FeeAccountBalance(bg)
	nd.Assert(err == nil && uint64(balance) == fee, "the balance of the fee account is not that of its coins")
}

// The operator lists the addresses of markets and drops one of them.
//
//verif:harness prop=C40 time=60
//verif:bound two markets, up to three addresses of each account derived in any order, any request; a drop of either or of an unknown one
func hListAddresses() {
	messages(false)
	p := newPlace(store())
	defer p.Close()
	p.market(func(m *domain.Market) { m.Tradable = nd.Bool("open") })
	other := mAccount + 1
	second := &domain.Market{AccountIndex: other, BaseAsset: base, QuoteAsset: foreign, Fee: 30}
	_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: other, Fee: 30})
	must(err)
	must(p.MarketRepository().UpdateMarket(bg, other, func(*domain.Market) (*domain.Market, error) { return second, nil }))
	want := map[int][]string{}
	must(p.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
		for i := 0; i < 3; i++ {
			a := []int{mAccount, other}[nd.Choice("account", 2)]
			if nd.Bool("for change") {
				_, err := v.DeriveNextInternalAddressForAccount(a)
				must(err)
				continue
			}
			d, err := v.DeriveNextExternalAddressForAccount(a)
			must(err)
			want[a] = append(want[a], d.Address)
		}
		return v, nil
	}))
	svc := NewOperatorService(p, nil, newWatch(), base, 25, &network.Regtest, 1000)
	drop := nd.Choice("drop", 4)
	if drop > 0 {
		nd.Assert(svc.DropMarket(bg, []int{mAccount, other, other + 1}[drop-1]) == nil, "a market cannot be dropped")
	}
	ms, err := p.MarketRepository().GetAllMarkets(bg)
	must(err)
	found := map[int]bool{}
	for _, m := range ms {
		found[m.AccountIndex] = true
		nd.Assert(m.QuoteAsset == map[int]string{mAccount: quote, other: foreign}[m.AccountIndex], "another market changes")
	}
	nd.Assert(found[mAccount] == (drop != 1) && found[other] == (drop != 2) && len(ms) == len(found), "another market is dropped than the one asked for")
	ask := nd.Choice("request", 5)
	req := []Market{{base, quote}, {base, foreign}, {quote, base}, {base, "4f"}, {base, base}}[ask]
	got, err := svc.ListMarketExternalAddresses(bg, req)
	account := []int{mAccount, other, -1, -1, -1}[ask]
	if account < 0 || !found[account] {
		nd.Assert(err != nil, "a market that does not exist has addresses")
		return
	}
	if len(want[account]) == 0 {
		nd.Assert(len(got) == 0, "an address is listed that was not derived to receive")
		return
	}
	nd.Cover("addresses")
	nd.Assert(err == nil && len(got) == len(want[account]), "an address is missing, or one for change is listed")
	for _, a := range want[account] {
		n := 0
		for _, g := range got {
			if g == a {
				n++
			}
		}
		nd.Assert(n == 1, "an address is missing or listed twice")
	}
}

type hook struct{ id, topic, url, secret string }

func (h hook) Id() string         { return h.id }
func (h hook) NotifyAt() string   { return h.url }
func (h hook) IsSecured() bool    { return h.secret != "" }
func (h hook) Topic() ports.Topic { return topic{int(h.topic[len(h.topic)-1] - '0')} }

// desk keeps subscriptions.
type desk struct {
	press
	hooks []hook
	fails bool
}

func (d *desk) Subscribe(topic string, args ...interface{}) (string, error) {
	if d.fails {
		return "", errors.New("refused")
	}
	url, secret := args[0].(string), args[1].(string)
	d.hooks = append(d.hooks, hook{"hook" + string([]byte{'0' + byte(len(d.hooks))}), topic, url, secret})
	return d.hooks[len(d.hooks)-1].id, nil
}

func (d *desk) Unsubscribe(_, id string) error {
	for i, h := range d.hooks {
		if h.id == id {
			d.hooks = append(append([]hook{}, d.hooks[:i]...), d.hooks[i+1:]...)
			return nil
		}
	}
	return errors.New("unknown")
}

func (d *desk) ListSubscriptionsForTopic(topic string) []ports.Subscription {
	var l []ports.Subscription
	for _, h := range d.hooks {
		if h.topic == topic {
			l = append(l, h)
		}
	}
	return l
}

// The operator registers, lists and removes webhooks.
//
//verif:harness prop=C40 time=60
//verif:bound up to two (thorough three) registrations for any of eight action types, secured or not, a removal of any, then a list for any type; or no service for them at all
func hWebhooks() {
	messages(false)
	p := newPlace(store())
	defer p.Close()
	w, d := newWatch(), &desk{}
	svc := NewOperatorService(p, nil, w, base, 25, &network.Regtest, 1000)
	if nd.Bool("no service") {
		_, err := svc.AddWebhook(bg, Webhook{ActionType: nd.Choice("type", 6), Endpoint: "http://a"})
		nd.Assert(err != nil, "a webhook is added to nothing")
		_, err = svc.ListWebhooks(bg, nd.Choice("type", 6))
		nd.Assert(err != nil && svc.RemoveWebhook(bg, "hook0") != nil, "webhooks of nothing are listed or removed")
		return
	}
	w.pub = d
	types := []int{0, 1, 2, 3, 4, 5, 6, -1}
	want := map[string]WebhookInfo{}
	for i, n := 0, nd.Choice("webhooks", nd.Bound("webhooks", 2, 3)+1); i < n; i++ {
		k := types[nd.Choice("type", 8)]
		h := Webhook{ActionType: k, Endpoint: "http://" + string([]byte{'a' + byte(i)}), Secret: nd.Pick("secret", "", "s")}
		d.fails = i == 1 && nd.Bool("refused")
		id, err := svc.AddWebhook(bg, h)
		ok := k >= 0 && k < 6 && !d.fails
		nd.Assert((err == nil) == ok, "a webhook is refused, or one of an unknown type accepted")
		if ok {
			want[id] = WebhookInfo{id, k, h.Endpoint, h.Secret != ""}
			last := d.hooks[len(d.hooks)-1]
			nd.Assert(last.id == id && last.topic == (topic{k}).Label() && last.url == h.Endpoint && last.secret == h.Secret, "another webhook is added than asked for")
		}
	}
	nd.Assert(len(d.hooks) == len(want), "a webhook is added that was refused")
	gone := nd.Pick("remove", "", "hook0", "hook1", "hook9")
	if gone != "" {
		_, ok := want[gone]
		nd.Assert((svc.RemoveWebhook(bg, gone) == nil) == ok, "a webhook cannot be removed, or an unknown one can")
		delete(want, gone)
	}
	nd.Assert(len(d.hooks) == len(want), "another webhook is removed")
	k := types[nd.Choice("list", 8)]
	list, err := svc.ListWebhooks(bg, k)
	nd.Assert((err == nil) == (k >= 0 && k < 6), "webhooks are not listed, or those of an unknown type are")
	n := 0
	for _, h := range want {
		if h.ActionType == k {
			n++
		}
	}
	nd.Assert(err != nil || len(list) == n, "a webhook is missing or listed twice")
	for _, l := range list {
		nd.Assert(l.ActionType == k && l == want[l.Id], "a webhook is listed as another one")
		nd.Cover("listed")
	}
}
