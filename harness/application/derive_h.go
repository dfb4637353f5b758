//verif:file pkg=internal/core/application props=C13
package application

import (
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

// slip is an address handed out to somebody.
type slip struct {
	account       int // or -1 for that of a new market
	address, what string
}

// counter of the operator, the wallet and the traders.
type counter struct {
	*place
	op     OperatorService
	wallet WalletService
	trade  TradeService
	out    *[]slip
}

// filler notes the addresses of the transactions it fills.
type filler struct{ c *counter }

func (f filler) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	*f.c.out = append(*f.c.out,
		slip{mAccount, o.OutputInfo.Address, "output"},
		slip{mAccount, o.ChangeInfo.Address, "change"},
		slip{domain.FeeAccount, o.FeeChangeInfo.Address, "change"})
	return &FillProposalResult{PsetBase64: "filled " + o.SwapRequest.GetId(), SelectedUnspents: o.FeeUtxos[:1]}, nil
}

func openCounter() *counter {
	nd.FixClock(1600000000)
	messages(false)
	p := newPlace(store(), domain.FeeAccount, domain.WalletAccount, mAccount, mAccount+1)
	p.market(func(m *domain.Market) { m.Fee = 100 })
	_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: mAccount + 1, Fee: 10})
	must(err)
	must(p.MarketRepository().UpdateMarket(bg, mAccount+1, func(m *domain.Market) (*domain.Market, error) {
		m.BaseAsset, m.QuoteAsset = base, foreign
		return m, nil
	}))
	p.fund(p.coin(mAccount, 3, quote, 100000), p.coin(mAccount, 4, base, 100000), p.coin(domain.FeeAccount, 1, base, 5000), p.coin(domain.FeeAccount, 2, base, 5000))
	c := &counter{place: p, out: &[]slip{}}
	w := newWatch()
	h := &history{}
	ws, err := NewWalletService(p, h, w, &network.Regtest, 25, base)
	must(err)
	c.wallet = ws
	c.op = NewOperatorService(p, h, w, base, 25, &network.Regtest, 1000)
	c.trade = NewTradeService(p, nil, w, base, time.Minute, decimal.New(1, -1), &network.Regtest)
	TradeManager = filler{c}
	return c
}

// serve hands out addresses for one request.
func (c *counter) serve(kind int, id string) {
	ctx := yieldCtx{bg}
	var list []AddressAndBlindingKey
	var err error
	account := -1
	switch kind {
	case 0:
		account = domain.FeeAccount
		list, err = c.op.DepositFeeAccount(ctx, 1)
	case 1:
		account = mAccount
		list, err = c.op.DepositMarket(ctx, base, quote, 1)
	case 2:
		list, err = c.op.DepositMarket(ctx, "", "", 2)
	case 3:
		account = domain.WalletAccount
		var a string
		a, _, err = c.wallet.GenerateAddressAndBlindingKey(ctx)
		list = []AddressAndBlindingKey{{Address: a}}
	case 4:
		_, _, _, err := c.trade.TradePropose(ctx, Market{base, quote}, TradeBuy, ask{id: id, tx: "tx", ap: quote, ar: base, p: 1000, r: 100})
		must(err)
		return
	}
	if err != nil {
		nd.Cover("refused")
		return
	}
	for _, l := range list {
		*c.out = append(*c.out, slip{account, l.Address, "deposit"})
	}
}

// verify checks the addresses handed out, after another start of the daemon.
func (c *counter) verify() {
	domain.MnemonicStoreManager.Unset()
	must(c.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
		must(v.Unlock("pass"))
		seen := map[string]bool{}
		for _, i := range c.infos {
			seen[i.Address] = true
		}
		for _, s := range *c.out {
			nd.Assert(!seen[s.address], "an address is handed out twice")
			seen[s.address] = true
			_, a, err := v.AccountByAddress(s.address)
			nd.Assert(err == nil && (a == s.account || s.account < 0 && a > mAccount+1), "an address handed out is not known")
			infos, err := v.AllDerivedAddressesInfoForAccount(a)
			nd.Assert(err == nil, "the account of an address is lost")
			found := false
			for _, i := range infos {
				found = found || i.Address == s.address
			}
			nd.Assert(found, "an address handed out is lost")
		}
		return v, nil
	}))
}

// Requests for addresses one after the other, each before the one before is stored.
//
//verif:harness prop=C13 time=120
//verif:bound two markets; two requests (deposit for fees, for a market, for a new market, wallet address, trade), every order of their storage steps with up to one switch (thorough two) between them
func hHandOut() {
	c := openCounter()
	defer c.Close()
	was := TradeManager
	defer func() { TradeManager = was }()
	nd.Schedule(nd.Bound("switches", 1, 2))
	for i := 0; i < 2; i++ {
		kind, id := nd.Choice("request", 5), "ask"+string([]byte{byte('0' + i)})
		nd.Go(func() { c.serve(kind, id) })
	}
	nd.Naps(true)
	nd.RunTasks()
	c.verify()
	nd.Cover("handed out")
}

// The daemon stops as soon as a request is answered.
//
//verif:harness prop=C13 time=60
//verif:bound one request of those above and one before it
func hHandOutStop() {
	c := openCounter()
	defer c.Close()
	was := TradeManager
	defer func() { TradeManager = was }()
	c.serve(nd.Choice("request", 5), "ask0")
	if nd.Bool("finished") {
		nd.Naps(true)
		nd.RunTasks()
	}
	c.serve(nd.Choice("request", 5), "ask1")
	nd.DropTasks()
	c.verify()
	nd.Cover("stopped")
}
