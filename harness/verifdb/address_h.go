//verif:file pkg=internal/verifdb props=C13 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"fmt"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

var accountIndexes = []int{0, 1, 5}

// plainSeed keeps the seed as it is.
type plainSeed struct{}

func (plainSeed) Encrypt(m, p string) (string, error) { return m, nil }
func (plainSeed) Decrypt(c, p string) (string, error) { return c, nil }

func useSeed() func() {
	old := domain.EncrypterManager
	domain.EncrypterManager = plainSeed{}
	domain.MnemonicStoreManager.Unset()
	return func() { domain.EncrypterManager = old }
}

func derive(v *domain.Vault, account int, internal bool) (*domain.AddressInfo, error) {
	if internal {
		return v.DeriveNextInternalAddressForAccount(account)
	}
	return v.DeriveNextExternalAddressForAccount(account)
}

func sameInfo(a, b domain.AddressInfo) bool { return nd.DeepEq(a, b) }

func in(a domain.AddressInfo, list domain.AddressesInfo) bool {
	for _, b := range list {
		if sameInfo(a, b) {
			return true
		}
	}
	return false
}

// Any sequence of derivation requests on a few accounts, with the vault being
// locked or kept in between.
//
//verif:harness prop=C13 time=120
//verif:bound 3 (thorough 4) requests over accounts 0, 1, 5 and -1, both chains, both stores
//verif:assume hashing and key derivation have no collisions
func hAddresses() {
	defer useSeed()()
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	repo := rm.VaultRepository()
	_, err := repo.GetOrCreateVault(Ctx, verifkeys.SeedA, "pass", &network.Regtest)
	nd.Assert(err == nil, "the vault is not created")
	var all domain.AddressesInfo
	chains := map[int]*[2]domain.AddressesInfo{}
	exists := map[int]bool{}
	k := nd.Bound("requests", 3, 4)
	for i := 0; i < k; i++ {
		op := nd.Choice("request", 5)
		account, internal := -1, nd.Bool("internal")
		if op < 4 {
			if op < 3 {
				account = accountIndexes[op]
			}
			err = repo.UpdateVault(Ctx, func(v *domain.Vault) (*domain.Vault, error) {
				info, err := derive(v, account, internal)
				if account < 0 {
					nd.Assert(err != nil, "an address of an account below 0")
					return v, err
				}
				nd.Assert(err == nil && info != nil, "no address is derived")
				exists[account] = true
				if chains[account] == nil {
					chains[account] = &[2]domain.AddressesInfo{}
				}
				c := 0
				if internal {
					c = 1
				}
				list := &chains[account][c]
				nd.Assert(info.AccountIndex == account && info.DerivationPath == fmt.Sprintf("%d'/%d/%d", account, c, len(*list)), "an address is not at the next position of its chain")
				for _, a := range all {
					nd.Assert(a.Address != info.Address && a.Script != info.Script && string(a.BlindingKey) != string(info.BlindingKey), "an address is handed out twice")
				}
				*list = append(*list, *info)
				all = append(all, *info)
				return v, nil
			})
			nd.Assert((err == nil) == (account >= 0), "the outcome is not passed on")
			continue
		}
		// the same request on a locked vault, or creating an account
		account = accountIndexes[nd.Choice("account", 2)]
		repo.UpdateVault(Ctx, func(v *domain.Vault) (*domain.Vault, error) {
			if internal {
				v.InitAccount(account)
				exists[account] = true
				return v, nil
			}
			v.Lock()
			_, err := derive(v, account, nd.Bool("change"))
			nd.Assert(err != nil, "a locked vault derives an address")
			nd.Assert(v.Unlock("pass") == nil, "the vault does not unlock")
			return v, nil
		})
	}
	v, err := repo.GetOrCreateVault(Ctx, nil, "", nil)
	nd.Assert(err == nil, "the vault is lost")
	listed := v.AllDerivedAddressesInfo()
	nd.Assert(len(listed) == len(all), "not all addresses handed out are listed")
	for _, a := range all {
		acc, i, err := repo.GetAccountByAddress(Ctx, a.Address)
		nd.Assert(err == nil && acc != nil && i == a.AccountIndex && acc.AccountIndex == i, "an address does not belong to its account")
		paths, err := repo.GetDerivationPathByScript(Ctx, a.AccountIndex, []string{a.Script})
		nd.Assert(err == nil && len(paths) == 1 && paths[a.Script] == a.DerivationPath, "the derivation path of an address is lost")
		nd.Assert(in(a, listed), "an address handed out is listed differently")
		for _, other := range accountIndexes {
			if other != a.AccountIndex {
				_, err := repo.GetDerivationPathByScript(Ctx, other, []string{a.Script})
				nd.Assert(err != nil, "two accounts share an address")
			}
		}
	}
	_, _, err = repo.GetAccountByAddress(Ctx, "unknown")
	nd.Assert(err != nil, "an unknown address has an account")
	for _, i := range accountIndexes {
		acc, err := repo.GetAccountByIndex(Ctx, i)
		nd.Assert((err == nil) == exists[i], "an account is lost or made up")
		if !exists[i] {
			_, err = repo.GetAllDerivedAddressesInfoForAccount(Ctx, i)
			_, err2 := repo.GetAllDerivedExternalAddressesInfoForAccount(Ctx, i)
			nd.Assert(err != nil && err2 != nil, "an unknown account lists addresses")
			continue
		}
		c := chains[i]
		if c == nil {
			c = &[2]domain.AddressesInfo{}
		}
		nd.Assert(acc.AccountIndex == i && acc.LastExternalIndex == len(c[0]) && acc.LastInternalIndex == len(c[1]), "an account's positions are wrong")
		want := append(append(domain.AddressesInfo{}, c[0]...), c[1]...)
		got, err := repo.GetAllDerivedAddressesInfoForAccount(Ctx, i)
		nd.Assert(err == nil && nd.DeepEq(got, want), "an account lists other addresses")
		addrs, keys := got.AddressesAndKeys()
		nd.Assert(len(addrs) == len(want) && len(keys) == len(want) && nd.DeepEq(addrs, got.Addresses()), "addresses and keys are not listed side by side")
		for j, a := range want {
			nd.Assert(addrs[j] == a.Address && string(keys[j]) == string(a.BlindingKey), "addresses and keys are not listed side by side")
		}
		ext, err := repo.GetAllDerivedExternalAddressesInfoForAccount(Ctx, i)
		nd.Assert(err == nil && nd.DeepEq(ext, append(domain.AddressesInfo{}, c[0]...)), "an account lists other external addresses")
	}
}

// Anywhere on the two chains.
//
//verif:harness prop=C13 time=60
//verif:bound any account number and any two positions below 2^31-1
func hAnyPosition() {
	defer useSeed()()
	v, err := domain.NewVault(verifkeys.SeedA, "pass", &network.Regtest)
	nd.Assert(err == nil, "the vault is not created")
	n := nd.Int("account", 0, 1<<31-1)
	v.InitAccount(n)
	acc, err := v.AccountByIndex(n)
	nd.Assert(err == nil && acc.AccountIndex == n, "an account is lost")
	e, c := nd.Int("external", 0, 1<<31-3), nd.Int("internal", 0, 1<<31-3)
	acc.LastExternalIndex, acc.LastInternalIndex = e, c
	var all domain.AddressesInfo
	for i := 0; i < 3; i++ {
		internal := nd.Bool("is internal")
		info, err := derive(v, n, internal)
		nd.Assert(err == nil, "no address is derived")
		chain, at := 0, &e
		if internal {
			chain, at = 1, &c
		}
		nd.Assert(info.DerivationPath == fmt.Sprintf("%d'/%d/%d", n, chain, *at), "an address is not at the next position of its chain")
		*at++
		if *at == 1<<31-1 {
			return // the chain is used up
		}
		for _, a := range all {
			nd.Assert(a.Address != info.Address && a.Script != info.Script && string(a.BlindingKey) != string(info.BlindingKey), "an address is handed out twice")
		}
		all = append(all, *info)
		nd.Assert(acc.LastExternalIndex == e && acc.LastInternalIndex == c, "an account's positions are wrong")
		_, i, err := v.AccountByAddress(info.Address)
		nd.Assert(err == nil && i == n, "an address does not belong to its account")
		nd.Assert(acc.DerivationPathByScript[info.Script] == info.DerivationPath, "the derivation path of an address is lost")
	}
}
