//verif:file pkg=internal/core/application props=C23
package application

import (
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
)

// ledger knows some transactions.
type ledger struct {
	explorer.Service
	txs  map[string]*transaction.Transaction
	wait map[string]bool // not confirmed
}

type page struct {
	explorer.Transaction
	outs []*transaction.TxOutput
}

func (p page) Outputs() []*transaction.TxOutput { return p.outs }

func (l *ledger) GetTransaction(id string) (explorer.Transaction, error) {
	if t, ok := l.txs[id]; ok {
		return page{outs: t.Outputs}, nil
	}
	return nil, errors.New("unknown transaction")
}

func (l *ledger) IsTransactionConfirmed(id string) (bool, error) {
	if _, ok := l.txs[id]; ok {
		return !l.wait[id], nil
	}
	return false, errors.New("unknown transaction")
}

// An operator claims outputs for the fee account, for a market or for a new one.
//
//verif:harness prop=C23 time=180
//verif:bound claims of up to two outputs (thorough: three for a new market), each existing or not, confirmed or not, readable or not, of three assets, any amount, paying any of three accounts or a stranger; the claimed coin unknown or stored unconfirmed
func hClaim() {
	p := newPlace(store(), domain.FeeAccount, mAccount, mAccount+1, mAccount+2)
	defer p.Close()
	p.market(func(*domain.Market) {})
	for _, a := range []int{mAccount + 1, mAccount + 2} {
		_, err := p.MarketRepository().GetOrCreateMarket(bg, &domain.Market{AccountIndex: a, Fee: 10})
		must(err)
	}
	kind := nd.Choice("claim", 3) // fee account, market, new market
	most := 2
	if kind == 2 {
		most = nd.Bound("outputs", 2, 3)
	}
	n := 1 + nd.Choice("outputs", most)
	l := &ledger{txs: map[string]*transaction.Transaction{}, wait: map[string]bool{}}
	accounts := []int{domain.FeeAccount, mAccount, mAccount + 1, mAccount + 2, -1}
	names := []string{base, quote, foreign}
	var want []domain.Unspent
	var outpoints []TxOutpoint
	good, to, has := true, -1, map[string]bool{}
	for i := 0; i < n; i++ {
		tx := veriftx.New(uint32(10 + i))
		id := veriftx.ID(tx)
		at := TxOutpoint{Hash: id, Index: 1}
		fault := nd.Choice("fault", 6)
		owner, asset, value := mAccount, base, nd.Uint64("value", 1, supply)
		if fault == 0 {
			owner, asset = accounts[nd.Choice("owner", 5)], names[nd.Choice("asset", 3)]
		} else if kind == 0 {
			owner = domain.FeeAccount
		} else if kind == 2 {
			owner = mAccount + 1
		}
		to2, key := veriftx.Foreign(3), veriftx.Key()[1:]
		if owner >= 0 {
			to2, key = script(p.infos[owner]), p.infos[owner].BlindingKey
		}
		if fault == 1 {
			key = veriftx.Key()[1:]
		}
		out := veriftx.Plain(asset, value, to2)
		if fault == 1 || nd.Bool("confidential") {
			out = veriftx.Hidden(asset, value, to2, key)
		}
		tx.Outputs = []*transaction.TxOutput{veriftx.Plain(foreign, 7, veriftx.Foreign(2)), out}
		id = veriftx.ID(tx)
		at.Hash = id
		l.txs[id] = tx
		switch fault {
		case 2:
			delete(l.txs, id)
		case 3:
			l.wait[id] = true
		case 4:
			at.Index = 2
		case 5:
			at.Index = -1
		}
		good = good && fault == 0 && owner >= 0 && (i == 0 || owner == to)
		to = owner
		has[asset] = true
		outpoints = append(outpoints, at)
		if owner >= 0 {
			want = append(want, domain.Unspent{TxID: id, VOut: 1, Value: value, AssetHash: asset, Address: p.infos[owner].Address})
		}
	}
	stored := good && nd.Bool("already stored, unconfirmed")
	if stored {
		u := want[0]
		u.ScriptPubKey = script(p.infos[to])
		p.fund(u)
	}
	before := p.coins()
	market := Market{base, quote}
	switch kind {
	case 0:
		good = good && to == domain.FeeAccount
	case 1:
		good = good && to == mAccount
	case 2:
		market.QuoteAsset = foreign
		good = good && to > mAccount && has[base] && has[foreign] && len(has) == 2
	}
	svc := NewOperatorService(p, l, newWatch(), base, 25, &network.Regtest, 1000)
	var err error
	if kind == 0 {
		err = svc.ClaimFeeDeposit(bg, outpoints)
	} else {
		err = svc.ClaimMarketDeposit(bg, market, outpoints)
	}
	nd.RunTasks()

	if kind != 1 || !has[foreign] || !good {
		nd.Assert(good == (err == nil), "a valid claim is refused or another one accepted")
	}
	after := p.coins()
	if err != nil {
		nd.Assert(len(after) == len(before), "a refused claim is credited")
		for k, c := range before {
			nd.Assert(after[k].Confirmed == c.Confirmed, "a refused claim changes a coin")
		}
	} else if good {
		nd.Cover([]string{"fee", "market", "new market"}[kind])
		nd.Assert(len(after) == n, "other coins than the claimed ones are credited")
		for _, w := range want {
			c, ok := after[w.Key()]
			nd.Assert(ok && c.Confirmed && !c.Spent && !c.Locked, "a claimed coin is not available")
			nd.Assert(c.Value == w.Value && c.AssetHash == w.AssetHash && c.Address == w.Address, "a claimed coin has another amount, asset or owner")
			if !stored {
				spendable(c, l.txs[w.TxID].Outputs[1], p.infos[to].BlindingKey)
			}
		}
	}
	// the markets
	markets, merr := p.MarketRepository().GetAllMarkets(bg)
	must(merr)
	for _, m := range markets {
		switch {
		case m.AccountIndex == mAccount:
			nd.Assert(m.QuoteAsset == quote && m.BaseAsset == base, "another market changed")
		case kind == 2 && err == nil && m.AccountIndex == to:
			nd.Assert(m.BaseAsset == base && m.QuoteAsset == foreign, "a funded market has other assets than its deposit")
		default:
			nd.Assert(m.BaseAsset == "" && m.QuoteAsset == "", "another market was funded")
		}
	}
	nd.Assert(len(markets) == 3, "markets appeared")
}
