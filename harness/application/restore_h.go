//verif:file pkg=internal/core/application props=C13,C32,C37
package application

import (
	"errors"
	"fmt"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/network"
)

// history knows which addresses were used and the coins they hold.
type history struct {
	explorer.Service
	used  map[string]bool
	coins map[string][]explorer.Utxo
	down  bool
}

func (h *history) GetTransactionsForAddress(a string, k []byte) ([]explorer.Transaction, error) {
	if h.used[a] {
		return make([]explorer.Transaction, 1), nil
	}
	return nil, nil
}

func (h *history) GetUnspents(a string, k [][]byte) ([]explorer.Utxo, error) {
	if h.down {
		return nil, errors.New("explorer is down")
	}
	return h.coins[a], nil
}

func (h *history) GetUnspentsForAddresses(as []string, k [][]byte) ([]explorer.Utxo, error) {
	var us []explorer.Utxo
	for _, a := range as {
		us = append(us, h.coins[a]...)
	}
	return us, nil
}

func addressAt(account, chain, i int) (string, []byte) {
	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: verifkeys.SeedA})
	must(err)
	a, s, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{
		DerivationPath: fmt.Sprintf("%d'/%d/%d", account, chain, i), Network: &network.Regtest,
	})
	must(err)
	return a, s
}

// start runs the initialization and returns the errors it reports.
func begin(svc WalletService, restore bool) []error {
	replies, errs := make(chan *InitWalletReply, 1000), make(chan error, 10)
	nd.Go(func() { svc.InitWallet(bg, verifkeys.SeedA, "pass", restore, replies, errs) })
	nd.RunTasks()
	var got []error
	for err := range errs {
		got = append(got, err)
	}
	select {
	case <-svc.PassphraseChan():
	default:
	}
	return got
}

// An account is restored from its seed.
//
//verif:harness prop=C32 time=200 replays=4
//verif:bound an account of three, on one chain (thorough: on each) two used addresses, the first up to position 21, the second up to 22 further (quick: 0 to 2 or 19 to 22); the other chain unused or used at position 19 (thorough: or 0)
//verif:assume hashing and key derivation have no collisions; the explorer answers which addresses were used
func hRestore() {
	nd.FreeGo()
	domain.EncrypterManager = openSeed{}
	domain.MnemonicStoreManager.Unset()
	p := &place{RepoManager: store()}
	defer p.Close()
	h := &history{used: map[string]bool{}, coins: map[string][]explorer.Utxo{}}
	which := nd.Choice("account", 3)
	account, chain := []int{domain.FeeAccount, domain.WalletAccount, mAccount}[which], which%2
	if nd.Thorough() {
		chain = nd.Choice("chain", 2)
	}
	first := nd.Choice("first", 23) - 1
	last := [2]int{-1, -1}
	if first >= 0 {
		a, _ := addressAt(account, chain, first)
		h.used[a] = true
		if first < 20 {
			last[chain] = first
		}
		gap := 0
		if nd.Thorough() {
			gap = nd.Choice("gap", 23)
		} else {
			gap = []int{0, 1, 2, 19, 20, 21, 22}[nd.Choice("gap", 7)]
		}
		a, _ = addressAt(account, chain, first+gap)
		h.used[a] = true
		if first < 20 && gap <= 20 {
			last[chain] = first + gap
		}
	}
	if i := []int{-1, 19, 0}[nd.Choice("other chain", nd.Bound("other chain", 2, 3))]; i >= 0 {
		a, _ := addressAt(account, 1-chain, i)
		h.used[a] = true
		last[1-chain] = i
	}
	svc, err := NewWalletService(p, h, newWatch(), &network.Regtest, 25, base)
	must(err)
	nd.Assert(len(begin(svc, true)) == 0, "a wallet is not restored")
	must(p.VaultRepository().UpdateVault(bg, func(v *domain.Vault) (*domain.Vault, error) {
		must(v.Unlock("pass"))
		for _, a := range []int{domain.FeeAccount, domain.WalletAccount, mAccount} {
			infos, err := v.AllDerivedAddressesInfoForAccount(a)
			if a != account || last[0] < 0 && last[1] < 0 {
				nd.Assert(err != nil || len(infos) == 0, "an address is made up")
				continue
			}
			nd.Cover("restored")
			nd.Assert(err == nil && len(infos) == last[0]+last[1]+2, "the restored addresses are not those up to the last used ones")
			known := map[string]bool{}
			for _, i := range infos {
				known[i.Address] = true
			}
			for c := 0; c < 2; c++ {
				for i := 0; i <= last[c]; i++ {
					x, _ := addressAt(a, c, i)
					nd.Assert(known[x], "an address is not found")
				}
			}
			e, err := v.DeriveNextExternalAddressForAccount(a)
			must(err)
			i, err := v.DeriveNextInternalAddressForAccount(a)
			must(err)
			we, _ := addressAt(a, 0, last[0]+1)
			wi, _ := addressAt(a, 1, last[1]+1)
			nd.Assert(e.Address == we && i.Address == wi, "derivation does not resume after the last used address")
		}
		return v, nil
	}))
}

// The coins of a restored wallet, also after a failed attempt.
//
//verif:harness prop=C32 time=100
//verif:bound a fee coin, a wallet coin and up to two market coins of three assets, any values, confirmed or not; the explorer answers or fails at the first attempt, at the transactions or at the coins
func hRestoreCoins() {
	nd.FreeGo()
	domain.EncrypterManager = openSeed{}
	domain.MnemonicStoreManager.Unset()
	p := &place{RepoManager: store()}
	defer p.Close()
	h := &history{used: map[string]bool{}, coins: map[string][]explorer.Utxo{}}
	var want []domain.Unspent
	put := func(account, chain, i int, asset string, confirmed bool) {
		a, s := addressAt(account, chain, i)
		h.used[a] = true
		u := domain.Unspent{
			TxID: strings.Repeat("c", 62) + "0" + string([]byte{byte('0' + len(h.used))}), VOut: uint32(i), Value: nd.Uint64("coin", 1, supply),
			AssetHash: asset, ScriptPubKey: s, Address: a, Confirmed: confirmed, Nonce: []byte{0},
		}
		h.coins[a] = append(h.coins[a], u.ToUtxo())
		if account != domain.WalletAccount {
			want = append(want, u)
		}
	}
	put(domain.FeeAccount, 0, 0, base, true)
	put(domain.WalletAccount, 1, 0, quote, true)
	a, _ := addressAt(mAccount, 0, 2)
	h.used[a] = true
	has := map[string]bool{}
	pending := ""
	for i, n := 0, nd.Choice("market coins", 3); i < n; i++ {
		asset, confirmed := assetIDs[nd.Choice("asset", 3)], nd.Bool("confirmed")
		has[asset] = true
		put(mAccount, i%2, i, asset, confirmed)
		if !confirmed {
			pending = want[len(want)-1].TxID
		}
	}
	w := newWatch()
	svc, err := NewWalletService(p, h, w, &network.Regtest, 25, base)
	must(err)
	if nd.Bool("the explorer is down first") {
		nd.Cover("failed")
		h.down = true
		nd.Assert(len(begin(svc, true)) > 0, "a failed restore is not reported")
		nd.Assert(len(p.coins()) == 0, "a failed restore leaves coins")
		h.down = false
		_, err := p.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
		nd.Assert(err != nil, "a failed restore leaves a vault")
		if nd.Bool("restarted") {
			svc, err = NewWalletService(p, h, w, &network.Regtest, 25, base)
			nd.Assert(err == nil, "a daemon does not start after a failed restore")
		}
	}
	nd.Assert(len(begin(svc, true)) == 0, "a wallet is not restored")
	got := p.coins()
	nd.Assert(len(got) == len(want), "other coins than those found are stored")
	for _, u := range want {
		c, ok := got[u.Key()]
		nd.Assert(ok && c.Value == u.Value && c.AssetHash == u.AssetHash && c.Address == u.Address && c.Confirmed == u.Confirmed && !c.Spent && !c.Locked, "a coin found is not stored as it is")
	}
	nd.Assert(pending == "" || w.txs[pending], "an unconfirmed coin is not watched")
	nd.Cover("restored coins")
	ms, err := p.MarketRepository().GetAllMarkets(bg)
	must(err)
	nd.Assert(len(ms) == 1 && ms[0].AccountIndex == mAccount, "a market is lost or made up")
	other := quote
	if has[foreign] {
		other = foreign
	}
	if has[base] && has[other] && len(has) == 2 {
		nd.Assert(ms[0].BaseAsset == base && ms[0].QuoteAsset == other, "a funded market is not restored")
	} else {
		nd.Assert(!ms[0].IsFunded(), "a market is funded with something else")
	}
	must(svc.UnlockWallet(bg, "pass"))
	_, err = svc.GetWalletBalance(bg)
	nd.Assert(err == nil, "a restored wallet cannot be used")
}

// The balance of the wallet account.
//
//verif:harness prop=C32 time=60
//verif:bound up to 3 (thorough 4) coins of two assets of the wallet or another account, any values, confirmed or not
func hTotals() {
	p := newPlace(store(), domain.FeeAccount, domain.WalletAccount)
	defer p.Close()
	h := &history{coins: map[string][]explorer.Utxo{}}
	svc, err := NewWalletService(p, h, newWatch(), &network.Regtest, 25, base)
	must(err)
	total, confirmed := map[string]uint64{}, map[string]uint64{}
	for i, n := 0, nd.Choice("coins", nd.Bound("coins", 3, 4)+1); i < n; i++ {
		account := domain.WalletAccount
		if nd.Bool("of another account") {
			account = domain.FeeAccount
		}
		c := p.coin(account, byte(i), assetIDs[nd.Choice("asset", 2)], nd.Uint64("coin", 1, supply))
		c.Confirmed = nd.Bool("confirmed")
		h.coins[c.Address] = append(h.coins[c.Address], c.ToUtxo())
		if account == domain.WalletAccount {
			total[c.AssetHash] += c.Value
			if c.Confirmed {
				confirmed[c.AssetHash] += c.Value
			}
		}
	}
	got, err := svc.GetWalletBalance(bg)
	nd.Assert(err == nil && len(got) == len(total), "an asset is lost or made up")
	for a, v := range total {
		b := got[a]
		nd.Assert(b.TotalBalance == v, "the total is not the sum of the coins")
		nd.Assert(b.ConfirmedBalance == confirmed[a] && b.UnconfirmedBalance == v-confirmed[a], "the parts are not those of the total")
	}
	nd.Cover("balance")
}

// Unconfirmed coins of a restored wallet are watched.
//
//verif:harness prop=C37 time=60 replays=6
//verif:bound a wallet restored with a fee coin and up to two market coins, each confirmed or not
func hRestoredPending() {
	nd.FreeGo()
	domain.EncrypterManager = openSeed{}
	domain.MnemonicStoreManager.Unset()
	p := &place{RepoManager: store()}
	defer p.Close()
	h := &history{used: map[string]bool{}, coins: map[string][]explorer.Utxo{}}
	pending := map[string]bool{}
	for i, n := 0, 1+nd.Choice("market coins", 3); i < n; i++ {
		account := mAccount
		if i == 0 {
			account = domain.FeeAccount
		}
		a, s := addressAt(account, 0, i)
		u := domain.Unspent{
			TxID: strings.Repeat("c", 62) + "0" + string([]byte{byte('0' + i)}), VOut: uint32(i), Value: 7,
			AssetHash: base, ScriptPubKey: s, Address: a, Confirmed: nd.Bool("confirmed"), Nonce: []byte{0},
		}
		h.used[a], h.coins[a] = true, []explorer.Utxo{u.ToUtxo()}
		pending[u.TxID] = !u.Confirmed
	}
	w := newWatch()
	svc, err := NewWalletService(p, h, w, &network.Regtest, 25, base)
	must(err)
	nd.Assert(len(begin(svc, true)) == 0, "a wallet is not restored")
	for id, is := range pending {
		nd.Assert(w.txs[id] == is, "an unconfirmed coin of a restored wallet is not watched, or another one is")
	}
	nd.Cover("restored")
}
