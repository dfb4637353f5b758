//verif:file pkg=internal/core/application props=C07,C13,C20,C21,C22,C23,C24,C25,C32,C35,C36,C37,C38,C39,C40 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package application

// The surroundings of the services: stores, seed, watched items and messages.

import (
	"context"
	"errors"
	"strings"

	"github.com/google/uuid"
	"github.com/sony/gobreaker"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/verifdb"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

const (
	supply   = 21_000_000_00_000_000
	mAccount = domain.MarketAccountStart
)

var (
	bg       = context.Background()
	base     = network.Regtest.AssetID
	quote    = strings.Repeat("2d", 32)
	foreign  = strings.Repeat("3e", 32)
	assetIDs = []string{base, quote, foreign}
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// openSeed keeps the seed as it is (its encryption is checked on its own).
type openSeed struct{}

func (openSeed) Encrypt(m, p string) (string, error) { return m, nil }
func (openSeed) Decrypt(c, p string) (string, error) { return c, nil }

// place is a store with a vault of some accounts, one address each.
type place struct {
	ports.RepoManager
	vault *domain.Vault
	infos map[int]domain.AddressInfo
}

func newPlace(repo ports.RepoManager, accounts ...int) *place {
	domain.EncrypterManager = openSeed{}
	domain.MnemonicStoreManager.Unset()
	p := &place{RepoManager: repo, infos: map[int]domain.AddressInfo{}}
	_, err := p.VaultRepository().GetOrCreateVault(bg, verifkeys.SeedA, "pass", &network.Regtest)
	must(err)
	must(p.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
		for _, a := range accounts {
			info, err := v.DeriveNextExternalAddressForAccount(a)
			must(err)
			p.infos[a] = *info
		}
		return v, nil
	}))
	return p
}

// market opens a market of the base and the quote asset.
func (p *place) market(change func(m *domain.Market)) *domain.Market {
	m := &domain.Market{
		AccountIndex: mAccount, BaseAsset: base, QuoteAsset: quote, Fee: 25, Tradable: true,
	}
	change(m)
	_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: mAccount, Fee: m.Fee})
	must(err)
	must(p.MarketRepository().UpdateMarket(bg, mAccount, func(*domain.Market) (*domain.Market, error) { return m, nil }))
	return m
}

func script(info domain.AddressInfo) []byte {
	b := make([]byte, len(info.Script)/2)
	for i := range b {
		b[i] = unhex(info.Script[2*i])<<4 | unhex(info.Script[2*i+1])
	}
	return b
}

func unhex(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	return c - 'a' + 10
}

// coin is a coin of an account.
func (p *place) coin(account int, id byte, asset string, value uint64) domain.Unspent {
	return domain.Unspent{
		TxID: strings.Repeat("a", 62) + "0" + string([]byte{'0' + id}), VOut: uint32(id), Value: value, AssetHash: asset,
		ValueCommitment: strings.Repeat("09", 33), AssetCommitment: strings.Repeat("0a", 33), ValueBlinder: make([]byte, 32), AssetBlinder: make([]byte, 32),
		ScriptPubKey: script(p.infos[account]), Nonce: make([]byte, 33), RangeProof: []byte{1}, SurjectionProof: []byte{1},
		Address: p.infos[account].Address, Confirmed: true,
	}
}

func (p *place) fund(coins ...domain.Unspent) {
	must(p.UnspentRepository().AddUnspents(bg, coins))
}

func (p *place) coins() map[domain.UnspentKey]domain.Unspent {
	m := map[domain.UnspentKey]domain.Unspent{}
	for _, u := range p.UnspentRepository().GetAllUnspents(bg) {
		m[u.Key()] = u
	}
	return m
}

func (p *place) trades() []*domain.Trade {
	ts, err := p.TradeRepository().GetAllTrades(bg)
	must(err)
	return ts
}

func (p *place) trade(id uuid.UUID) *domain.Trade {
	for _, t := range p.trades() {
		if t.ID == id {
			return t
		}
	}
	return nil
}

// watch records what is watched.
type watch struct {
	txs, addrs map[string]bool
	pub        ports.SecurePubSub
}

func newWatch() *watch { return &watch{txs: map[string]bool{}, addrs: map[string]bool{}} }

func (w *watch) StartObservation()                                   {}
func (w *watch) StopObservation()                                    {}
func (w *watch) StartObserveAddress(account int, a string, k []byte) { w.addrs[a] = true }
func (w *watch) StopObserveAddress(a string)                         { delete(w.addrs, a) }
func (w *watch) StartObserveTx(id string)                            { w.txs[id] = true }
func (w *watch) StopObserveTx(id string)                             { delete(w.txs, id) }
func (w *watch) PubSubService() ports.SecurePubSub                   { return w.pub }

// ask is a swap request.
type ask struct {
	id     string
	p, r   uint64
	ap, ar string
	tx     string
}

func (s ask) GetId() string                           { return s.id }
func (s ask) GetAssetP() string                       { return s.ap }
func (s ask) GetAmountP() uint64                      { return s.p }
func (s ask) GetAssetR() string                       { return s.ar }
func (s ask) GetAmountR() uint64                      { return s.r }
func (s ask) GetTransaction() string                  { return s.tx }
func (s ask) GetInputBlindingKey() map[string][]byte  { return map[string][]byte{"in": {1}} }
func (s ask) GetOutputBlindingKey() map[string][]byte { return map[string][]byte{"out": {2}} }

// note is any other message of a swap.
type note struct {
	id, ref, tx string
	code        uint32
	text        string
	ins, outs   map[string][]byte
}

func (n note) GetId() string                           { return n.id }
func (n note) GetRequestId() string                    { return n.ref }
func (n note) GetAcceptId() string                     { return n.ref }
func (n note) GetMessageId() string                    { return n.ref }
func (n note) GetTransaction() string                  { return n.tx }
func (n note) GetFailureCode() uint32                  { return n.code }
func (n note) GetFailureMessage() string               { return n.text }
func (n note) GetInputBlindingKey() map[string][]byte  { return n.ins }
func (n note) GetOutputBlindingKey() map[string][]byte { return n.outs }

// parser keeps messages in a list; their bytes are their number. Which of them
// are well-formed is arbitrary (the real ones are checked on their own).
type parser struct {
	notes []note
	reqs  []domain.SwapRequest
	flaky bool
}

func (p *parser) fails(what string) *domain.SwapError {
	if p.flaky && nd.Bool(what+" is malformed") {
		return &domain.SwapError{Err: errors.New(what), Code: 5}
	}
	return nil
}

func (p *parser) put(n note) (string, []byte) {
	n.id = "id" + string([]byte{byte('0' + len(p.notes))})
	p.notes = append(p.notes, n)
	return n.id, []byte{byte(len(p.notes))}
}

func (p *parser) get(b []byte) (note, error) {
	if len(b) != 1 {
		return note{}, errors.New("no message")
	}
	return p.notes[b[0]-1], nil
}

func (p *parser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if err := p.fails("request"); err != nil {
		return nil, err
	}
	p.reqs = append(p.reqs, r)
	return []byte{byte(len(p.reqs))}, nil
}
func (p *parser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	if err := p.fails("accept"); err != nil {
		return "", nil, err
	}
	id, b := p.put(note{ref: p.reqs[a.RequestMessage[0]-1].GetId(), tx: a.Transaction, ins: a.InputBlindingKeys, outs: a.OutputBlindingKeys})
	return id, b, nil
}
func (p *parser) SerializeComplete(acc []byte, tx string) (string, []byte, *domain.SwapError) {
	if err := p.fails("complete"); err != nil {
		return "", nil, err
	}
	n, err := p.get(acc)
	must(err)
	id, b := p.put(note{ref: n.id, tx: tx})
	return id, b, nil
}
func (p *parser) SerializeFail(id string, code int, msg string) (string, []byte) {
	return p.put(note{ref: id, code: uint32(code), text: msg})
}
func (p *parser) DeserializeRequest(b []byte) (domain.SwapRequest, error) {
	if len(b) != 1 {
		return nil, errors.New("no message")
	}
	return p.reqs[b[0]-1], nil
}
func (p *parser) DeserializeAccept(b []byte) (domain.SwapAccept, error)     { return p.get(b) }
func (p *parser) DeserializeComplete(b []byte) (domain.SwapComplete, error) { return p.get(b) }
func (p *parser) DeserializeFail(b []byte) (domain.SwapFail, error)         { return p.get(b) }

// txs knows the transactions by their partial ones.
type txs struct{ flaky bool }

func (t txs) GetTxID(p string) (string, error) { return "id of " + p, nil }
func (t txs) GetTxHex(p string) (string, error) {
	if t.flaky && nd.Bool("transaction is incomplete") {
		return "", errors.New("incomplete")
	}
	return "hex of " + p, nil
}

// messages replaces the parsers.
func messages(flaky bool) *parser {
	p := &parser{flaky: flaky}
	domain.SwapParserManager, domain.PsetParserManager = p, txs{flaky}
	return p
}

//verif:model github.com/sony/gobreaker.NewCircuitBreaker
func mBreaker(s gobreaker.Settings) *gobreaker.CircuitBreaker { return &gobreaker.CircuitBreaker{} }

// The breaker is closed.
//
//verif:model (*github.com/sony/gobreaker.CircuitBreaker).Execute
func mExecute(b *gobreaker.CircuitBreaker, f func() (interface{}, error)) (interface{}, error) {
	return f()
}

func store() ports.RepoManager { return verifdb.New(true) }

// yieldCtx lets other requests run before every look into it, that is before
// every storage step.
type yieldCtx struct{ context.Context }

func (c yieldCtx) Value(k interface{}) interface{} {
	nd.Yield()
	return c.Context.Value(k)
}

// holding keeps a pending trade that coins can be reserved for.
func (p *place) holding(id uuid.UUID) {
	_, err := p.TradeRepository().GetOrCreateTrade(bg, &id)
	must(err)
	must(p.TradeRepository().UpdateTrade(bg, &id, func(*domain.Trade) (*domain.Trade, error) {
		return &domain.Trade{ID: id, MarketQuoteAsset: quote, Status: domain.AcceptedStatus, TxID: "held", ExpiryTime: 1 << 41,
			SwapRequest: domain.Swap{ID: "held"}, SwapAccept: domain.Swap{ID: "held"}}, nil
	}))
}
