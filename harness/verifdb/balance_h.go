//verif:file pkg=internal/verifdb props=C09 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// Coins in any state, owned by one of three addresses, two assets.
//
//verif:harness prop=C09 time=120
//verif:bound addresses: three, of which none, one or two are asked for; assets: two
func hBalances() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	repo := rm.UnspentRepository()
	n := nd.Bound("coins", 2, 3)
	addrs := []string{"addr0", "addr1", "addr2"}
	assets := []string{"lbtc", "usdt"}
	us := make([]domain.Unspent, n)
	mine := make([]bool, n)
	all := addrs[:nd.Choice("asked", 3)]
	asset := assets[nd.Choice("asset", 2)]
	var bal, free uint64
	for i := 0; i < n; i++ {
		us[i] = domain.Unspent{
			TxID: key(i).TxID, VOut: key(i).VOut,
			Value:     nd.Uint64("value", 0, 2100000000000000),
			AssetHash: assets[nd.Choice("coinasset", 2)],
			Address:   addrs[nd.Choice("owner", 3)],
			Spent:     nd.Bool("spent"),
			Confirmed: nd.Bool("confirmed"),
		}
		for _, a := range all {
			if us[i].Address == a {
				mine[i] = true
			}
		}
	}
	nd.Assert(repo.AddUnspents(Ctx, us) == nil, "storing coins failed")
	for i := 0; i < n; i++ {
		if nd.Bool("locked") {
			nd.Assume(!us[i].Spent)
			_, err := repo.LockUnspents(Ctx, []domain.UnspentKey{key(i)}, trades[0])
			nd.Assert(err == nil, "locking failed")
			us[i].Locked = true
		}
		if mine[i] && us[i].AssetHash == asset && !us[i].Spent && us[i].Confirmed {
			bal += us[i].Value
			if !us[i].Locked {
				free += us[i].Value
			}
		}
	}
	b, err := repo.GetBalance(Ctx, all, asset)
	nd.Assert(err == nil, "balance query failed")
	nd.Assert(b == bal, "balance is not the sum of the unspent confirmed coins")
	b, err = repo.GetUnlockedBalance(Ctx, all, asset)
	nd.Assert(err == nil, "balance query failed")
	nd.Assert(b == free, "unlocked balance is not the sum of the free coins")

	same := func(what string, l []domain.Unspent, err error, want func(i int) bool) {
		nd.Assert(err == nil, what+": query failed")
		count := 0
		for i := 0; i < n; i++ {
			found := 0
			for _, u := range l {
				if u.TxID == us[i].TxID && u.VOut == us[i].VOut {
					found++
					nd.Assert(u.Value == us[i].Value && u.AssetHash == us[i].AssetHash && u.Address == us[i].Address && u.Locked == us[i].Locked, what+": coin altered")
				}
			}
			if want(i) {
				count++
				nd.Assert(found == 1, what+": matching coin not listed once")
			} else {
				nd.Assert(found == 0, what+": other coin listed")
			}
		}
		nd.Assert(len(l) == count, what+": unknown coin listed")
	}
	avail := func(i int) bool { return !us[i].Spent && us[i].Confirmed && !us[i].Locked }
	l := repo.GetAllUnspents(Ctx)
	same("all coins", l, nil, func(i int) bool { return true })
	l, err = repo.GetAvailableUnspents(Ctx)
	same("available coins", l, err, avail)
	l, err = repo.GetAllUnspentsForAddresses(Ctx, all)
	same("all coins of addresses", l, err, func(i int) bool { return mine[i] })
	l, err = repo.GetUnspentsForAddresses(Ctx, all)
	same("unspent coins of addresses", l, err, func(i int) bool { return mine[i] && !us[i].Spent && us[i].Confirmed })
	l, err = repo.GetAvailableUnspentsForAddresses(Ctx, all)
	same("available coins of addresses", l, err, func(i int) bool { return mine[i] && avail(i) })
}
