//verif:file pkg=internal/verifdb props=C12 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"errors"
	"strings"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/network"
)

// sealed stands in for the seed encryption (checked on its own in pkg/wallet).
type sealed struct {
	text, pass []string
	flaky      bool
}

func (s *sealed) Encrypt(m, p string) (string, error) {
	if s.flaky && nd.Bool("encryption fails") {
		return "", errors.New("cannot encrypt")
	}
	if m == "" || p == "" {
		return "", errors.New("nothing to encrypt")
	}
	s.text, s.pass = append(s.text, m), append(s.pass, p)
	return strings.Repeat("c", len(s.text)), nil
}

func (s *sealed) Decrypt(c, p string) (string, error) {
	if c == "" || s.pass[len(c)-1] != p {
		return "", errors.New("wrong password")
	}
	return s.text[len(c)-1], nil
}

func password(label string) string {
	return string(nd.Bytes(label, nd.Choice(label+" length", nd.Bound("password length", 2, 3)+1)))
}

func locked(v *domain.Vault) bool {
	m, err := v.GetMnemonicSafe()
	nd.Assert(v.IsLocked() == (err != nil), "the seed is readable while locked or hidden while unlocked")
	nd.Assert(err == nil || len(m) == 0, "the seed is revealed while locked")
	nd.Assert(err != nil || nd.DeepEq(m, verifkeys.SeedA), "another seed is revealed")
	return err != nil
}

// Requests of any kind and with any password, from a fresh vault.
//
//verif:harness prop=C12 time=120
//verif:bound passwords of up to 2 (thorough 3) arbitrary bytes; encryption may fail; both stores
func hVaultLock() {
	enc := &sealed{}
	old := domain.EncrypterManager
	domain.EncrypterManager = enc
	defer func() { domain.EncrypterManager = old }()
	domain.MnemonicStoreManager.Unset()
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	repo := rm.VaultRepository()
	err := repo.UpdateVault(Ctx, func(v *domain.Vault) (*domain.Vault, error) { return v, nil })
	nd.Assert(err != nil, "a vault exists before it is created")
	cur := password("password")
	_, err = repo.GetOrCreateVault(Ctx, verifkeys.SeedA, cur, &network.Regtest)
	nd.Assert((err != nil) == (cur == ""), "creation is judged wrongly")
	if err != nil {
		_, err = repo.GetOrCreateVault(Ctx, nil, "", nil)
		nd.Assert(err != nil, "a refused creation leaves a vault")
		return
	}
	enc.flaky = true
	open := true
	for i := 0; i < nd.Bound("requests", 3, 4); i++ {
		op := nd.Choice("request", 3)
		var refused error
		p := ""
		if op > 0 {
			p = password("given")
		}
		n := len(enc.text)
		err := repo.UpdateVault(Ctx, func(v *domain.Vault) (*domain.Vault, error) {
			nd.Assert(v.IsInitialized(), "a created vault is not initialized")
			nd.Assert(locked(v) != open, "wrong lock state")
			switch op {
			case 0:
				v.Lock()
				return v, nil
			case 1:
				refused = v.Unlock(p)
				return v, refused
			}
			q := password("new")
			was := *v
			refused = v.ChangePassphrase(p, q)
			ok := nd.And(!open, p == cur, q != "", len(enc.text) > n)
			nd.Assert(nd.Or(refused != nil, ok), "the password changes without being locked and given the old one")
			nd.Assert(nd.Imp(refused != nil, nd.Or(open, p != cur, q == "", len(enc.text) == n)), "a rightful change of password is refused")
			if refused == nil {
				cur = q
			} else {
				nd.Assert(v.EncryptedMnemonic == was.EncryptedMnemonic && nd.DeepEq(v.PassphraseHash, was.PassphraseHash), "a refused change of password changes the vault")
			}
			return v, refused
		})
		nd.Assert((err == nil) == (refused == nil), "the outcome is not passed on")
		switch op {
		case 0:
			open = false
		case 1:
			if !open {
				nd.Assert((refused == nil) == (p == cur), "a locked vault opens with a wrong password or stays shut with the right one")
				open = refused == nil
			} else {
				nd.Assert(refused == nil, "unlocking an unlocked vault is refused")
			}
		}
	}
	v, err := repo.GetOrCreateVault(Ctx, verifkeys.SeedB, "other", &network.Liquid)
	nd.Assert(err == nil && v != nil, "the vault is lost")
	nd.Assert(locked(v) != open, "wrong lock state")
	// reopening with the current password gives the seed back
	v.Lock()
	nd.Assert(locked(v), "a locked vault reveals the seed")
	nd.Assert(v.Unlock(cur) == nil && !locked(v), "the current password does not unlock the vault")
}

// A vault is only created for a valid seed, password and network.
//
//verif:harness prop=C12 time=60
func hVaultCreate() {
	enc := &sealed{flaky: true}
	old := domain.EncrypterManager
	domain.EncrypterManager = enc
	defer func() { domain.EncrypterManager = old }()
	domain.MnemonicStoreManager.Unset()
	var words []string
	ok := true
	switch nd.Choice("seed", 4) {
	case 0:
		words = verifkeys.SeedA
	case 1:
		words = verifkeys.SeedB
	case 2:
		words, ok = []string{"some", "words"}, false
	case 3:
		ok = false
	}
	p := password("password")
	net := &network.Regtest
	if nd.Bool("no network") {
		net = nil
	}
	v, err := domain.NewVault(words, p, net)
	nd.Assert((err == nil) == (ok && p != "" && net != nil && len(enc.text) == 1), "creation is judged wrongly")
	if err != nil {
		nd.Assert(v == nil && !domain.MnemonicStoreManager.IsSet(), "a refused creation reveals a seed")
		return
	}
	m, err := v.GetMnemonicSafe()
	nd.Assert(err == nil && nd.DeepEq(m, words), "a new vault does not have the given seed")
	nd.Assert(v.Network == net && len(v.Accounts) == 0 && len(v.AccountAndKeyByAddress) == 0, "a new vault is not empty")
	v.Lock()
	nd.Assert(v.IsLocked() && v.Unlock(p) == nil && nd.DeepEq(domain.MnemonicStoreManager.Get(), words), "the password does not unlock a new vault")
}

// The same with the wallet's own encryption.
//
//verif:harness prop=C12 time=60 replays=2
//verif:bound passwords of up to 2 arbitrary non-zero bytes
//verif:assume scrypt has no collisions; random nonces do not repeat; AES-GCM opens only what was sealed under the same key and nonce
func hVaultEncryption() {
	password := func(label string) string {
		s := password(label)
		for i := 0; i < len(s); i++ {
			nd.Assume(s[i] != 0) // scrypt ignores trailing NUL bytes
		}
		return s
	}
	domain.MnemonicStoreManager.Unset()
	p := password("password")
	v, err := domain.NewVault(verifkeys.SeedB, p, &network.Regtest)
	nd.Assert((err == nil) == (p != ""), "creation is judged wrongly")
	if err != nil {
		return
	}
	v.Lock()
	q := password("new")
	given := password("given")
	err = v.ChangePassphrase(given, q)
	nd.Assert((err == nil) == (given == p && q != ""), "the password changes without the old one or a rightful change is refused")
	if err == nil {
		p = q
	}
	given = password("opening")
	err = v.Unlock(given)
	nd.Assert((err == nil) == (given == p), "a locked vault opens with a wrong password or stays shut with the right one")
	m, err2 := v.GetMnemonicSafe()
	nd.Assert((err == nil) == (err2 == nil), "wrong lock state")
	nd.Assert(err2 != nil || nd.DeepEq(m, verifkeys.SeedB), "another seed is revealed")
}
