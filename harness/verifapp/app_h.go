//verif:file pkg=internal/verifapp props=C27,C41,C31,C13,C20,C21,C23,C24,C25,C32,C35,C36,C40
package verifapp

// Application services that record the requests they get.

import (
	"context"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

type Call struct {
	Name string
	Args []interface{}
}

// App records calls and answers with what is set.
type App struct {
	Calls []Call
	Err   error
	Pass  chan application.PassphraseMsg
	Done  bool // the wallet creation is over

	Words     []string
	Replies   []*application.InitWalletReply
	Addr, Key string
	Balances  map[string]application.BalanceInfo
	Raw       []byte
	Keys      []application.AddressAndBlindingKey
	Fee       application.MarketWithFee
	Trades    []application.TradeInfo
	Addrs     []string
	Total     int64
	Markets   []application.MarketInfo
	Report    application.ReportMarketFee
	Utxos     map[uint64]application.UtxoInfoList
	ID        string
	Hooks     []application.WebhookInfo
	Tradable  []application.MarketWithFee
	Price     application.PriceWithFee
	Accept    domain.SwapAccept
	Fail      domain.SwapFail
	Expiry    uint64
	Balance   application.BalanceWithFee
}

func (a *App) got(name string, args ...interface{}) error {
	a.Calls = append(a.Calls, Call{name, args})
	return a.Err
}

type ctxT = context.Context

func (a *App) GenSeed(ctx ctxT) ([]string, error) { return a.Words, a.got("GenSeed") }
func (a *App) InitWallet(ctx ctxT, mnemonic []string, passphrase string, restore bool, chRes chan *application.InitWalletReply, chErr chan error) {
	err := a.got("InitWallet", mnemonic, passphrase, restore)
	for _, r := range a.Replies {
		chRes <- r
	}
	if err != nil {
		chErr <- err
	}
	close(chErr)
	close(chRes)
	a.Done = true
}
func (a *App) UnlockWallet(ctx ctxT, passphrase string) error {
	return a.got("UnlockWallet", passphrase)
}
func (a *App) ChangePassword(ctx ctxT, old, now string) error {
	return a.got("ChangePassword", old, now)
}
func (a *App) GenerateAddressAndBlindingKey(ctx ctxT) (string, string, error) {
	return a.Addr, a.Key, a.got("GenerateAddressAndBlindingKey")
}
func (a *App) GetWalletBalance(ctx ctxT) (map[string]application.BalanceInfo, error) {
	return a.Balances, a.got("GetWalletBalance")
}
func (a *App) SendToMany(ctx ctxT, req application.SendToManyRequest) ([]byte, error) {
	return a.Raw, a.got("SendToMany", req)
}
func (a *App) PassphraseChan() chan application.PassphraseMsg { return a.Pass }

func (a *App) DepositMarket(ctx ctxT, base, quote string, n int) ([]application.AddressAndBlindingKey, error) {
	return a.Keys, a.got("DepositMarket", base, quote, n)
}
func (a *App) DepositFeeAccount(ctx ctxT, n int) ([]application.AddressAndBlindingKey, error) {
	return a.Keys, a.got("DepositFeeAccount", n)
}
func (a *App) OpenMarket(ctx ctxT, base, quote string) error {
	return a.got("OpenMarket", base, quote)
}
func (a *App) CloseMarket(ctx ctxT, base, quote string) error {
	return a.got("CloseMarket", base, quote)
}
func (a *App) UpdateMarketPercentageFee(ctx ctxT, req application.MarketWithFee) (*application.MarketWithFee, error) {
	return &a.Fee, a.got("UpdateMarketPercentageFee", req)
}
func (a *App) UpdateMarketFixedFee(ctx ctxT, req application.MarketWithFee) (*application.MarketWithFee, error) {
	return &a.Fee, a.got("UpdateMarketFixedFee", req)
}
func (a *App) UpdateMarketPrice(ctx ctxT, req application.MarketWithPrice) error {
	return a.got("UpdateMarketPrice", req)
}
func (a *App) UpdateMarketStrategy(ctx ctxT, req application.MarketStrategy) error {
	return a.got("UpdateMarketStrategy", req)
}
func (a *App) ListTrades(ctx ctxT) ([]application.TradeInfo, error) {
	return a.Trades, a.got("ListTrades")
}
func (a *App) ListMarketExternalAddresses(ctx ctxT, req application.Market) ([]string, error) {
	return a.Addrs, a.got("ListMarketExternalAddresses", req)
}
func (a *App) WithdrawMarketFunds(ctx ctxT, req application.WithdrawMarketReq) ([]byte, error) {
	return a.Raw, a.got("WithdrawMarketFunds", req)
}
func (a *App) FeeAccountBalance(ctx ctxT) (int64, error) {
	return a.Total, a.got("FeeAccountBalance")
}
func (a *App) ClaimMarketDeposit(ctx ctxT, market application.Market, outs []application.TxOutpoint) error {
	return a.got("ClaimMarketDeposit", market, outs)
}
func (a *App) ClaimFeeDeposit(ctx ctxT, outs []application.TxOutpoint) error {
	return a.got("ClaimFeeDeposit", outs)
}
func (a *App) ListMarket(ctx ctxT) ([]application.MarketInfo, error) {
	return a.Markets, a.got("ListMarket")
}
func (a *App) GetCollectedMarketFee(ctx ctxT, market application.Market) (*application.ReportMarketFee, error) {
	return &a.Report, a.got("GetCollectedMarketFee", market)
}
func (a *App) ListUtxos(ctx ctxT) (map[uint64]application.UtxoInfoList, error) {
	return a.Utxos, a.got("ListUtxos")
}
func (a *App) ReloadUtxos(ctx ctxT) error { return a.got("ReloadUtxos") }
func (a *App) DropMarket(ctx ctxT, account int) error {
	return a.got("DropMarket", account)
}
func (a *App) AddWebhook(ctx ctxT, hook application.Webhook) (string, error) {
	return a.ID, a.got("AddWebhook", hook)
}
func (a *App) RemoveWebhook(ctx ctxT, id string) error { return a.got("RemoveWebhook", id) }
func (a *App) ListWebhooks(ctx ctxT, action int) ([]application.WebhookInfo, error) {
	return a.Hooks, a.got("ListWebhooks", action)
}

func (a *App) GetTradableMarkets(ctx ctxT) ([]application.MarketWithFee, error) {
	return a.Tradable, a.got("GetTradableMarkets")
}
func (a *App) GetMarketPrice(ctx ctxT, market application.Market, tradeType int, amount uint64, asset string) (*application.PriceWithFee, error) {
	return &a.Price, a.got("GetMarketPrice", market, tradeType, amount, asset)
}
func (a *App) TradePropose(ctx ctxT, market application.Market, tradeType int, req domain.SwapRequest) (domain.SwapAccept, domain.SwapFail, uint64, error) {
	return a.Accept, a.Fail, a.Expiry, a.got("TradePropose", market, tradeType, req)
}
func (a *App) TradeComplete(ctx ctxT, complete *domain.SwapComplete, fail *domain.SwapFail) (string, domain.SwapFail, error) {
	return a.ID, a.Fail, a.got("TradeComplete", complete, fail)
}
func (a *App) GetMarketBalance(ctx ctxT, market application.Market) (*application.BalanceWithFee, error) {
	return &a.Balance, a.got("GetMarketBalance", market)
}
