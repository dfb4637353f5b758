//verif:file pkg=internal/interfaces/grpc props=C41
package grpcinterface

import (
	"crypto/rand"
	"encoding/hex"
	"errors"
	"strings"

	"github.com/btcsuite/btcwallet/walletdb"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/verifapp"
	"github.com/tdex-network/tdex-daemon/internal/verifdb"
	"github.com/tdex-network/tdex-daemon/internal/verifkeys"
	"github.com/tdex-network/tdex-daemon/internal/verifkv"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
	"github.com/vulpemventures/go-elements/network"
)

// safe stands in for the seed encryption (checked on its own in pkg/wallet).
type safe struct{ text, pass []string }

func (s *safe) Encrypt(m, p string) (string, error) {
	s.text, s.pass = append(s.text, m), append(s.pass, p)
	return strings.Repeat("c", len(s.text)), nil
}

func (s *safe) Decrypt(c, p string) (string, error) {
	if c == "" || s.pass[len(c)-1] != p {
		return "", errors.New("wrong password")
	}
	return s.text[len(c)-1], nil
}

// empty is an explorer of an empty chain.
type empty struct{ explorer.Service }

func (empty) GetUnspentsForAddresses([]string, [][]byte) ([]explorer.Utxo, error) { return nil, nil }

// eye counts how often it is opened.
type eye struct {
	application.BlockchainListener
	pub  ports.SecurePubSub
	open int
}

func (e *eye) StartObservation()                 { e.open++ }
func (e *eye) PubSubService() ports.SecurePubSub { return e.pub }

// relay passes on the messages of the wallet.
type relay struct {
	application.WalletService
	pass chan application.PassphraseMsg
}

func (r relay) PassphraseChan() chan application.PassphraseMsg { return r.pass }

type house struct {
	*daemon
	repo   ports.RepoManager
	eye    *eye
	wallet application.WalletService
	hooks  bool
}

func (h *house) start() {
	h.eye = &eye{}
	if h.hooks {
		st, err := boltsecurestore.NewSecureStorage(h.opts.Datadir, "hooks.db")
		must(err)
		h.eye.pub, err = webhookpubsub.NewWebhookPubSubService(st, esplora.NewHTTPClient(1))
		must(err)
	}
	var err error
	h.wallet, err = application.NewWalletService(h.repo, empty{}, h.eye, &network.Regtest, 25, network.Regtest.AssetID)
	must(err)
	h.app.Pass = make(chan application.PassphraseMsg)
	h.opts.WalletSvc = relay{h.wallet, h.app.Pass}
	svc, err := NewService(h.opts)
	must(err)
	h.svc, h.operator, h.trade = svc, freePort(), freePort()
	must(svc.Start(h.operator, h.trade, "", ""))
	h.settle()
}

func (h *house) settle() {
	if nd.Symbolic() {
		nd.RunTasks()
	}
}

// served waits until the message of a command is served.
func (h *house) served() {
	h.settle()
	select {
	case m := <-h.wallet.PassphraseChan():
		h.app.Pass <- m
		h.app.Pass <- application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: "?", NewPwd: "?"}
		h.settle()
	default:
	}
}

func (h *house) stop() {
	h.svc.Stop()
	close(h.app.Pass)
	h.settle()
	if h.hooks {
		must(h.eye.pub.Store().Close())
	}
	domain.MnemonicStoreManager.Unset()
}

// A wallet is created, and its password used and changed, also over restarts.
//
//verif:harness prop=C41 time=120 replays=6
//verif:bound a wallet with credentials and webhooks from the beginning, from the first restart, or without, then up to three (thorough four) restarts, unlocks with any of three passwords and changes from any of three to any of two, in any order
//verif:assume a password opens nothing that is sealed with another; a command is served before the next is given or the daemon stops
func hPasswords() {
	nd.FreeGo()
	creds, hooks := verifkv.NewDisk(), verifkv.NewDisk()
	dir, done := place()
	defer func() {
		kvdb.Create = creator
		done()
	}()
	a, b := creds.Open(creator), hooks.Open(creator)
	kvdb.Create = func(kind string, args ...interface{}) (walletdb.DB, error) {
		if strings.HasSuffix(args[0].(string), "hooks.db") {
			return b(kind, args...)
		}
		return a(kind, args...)
	}
	if nd.Symbolic() {
		rand.Reader = &dice{}
	}
	domain.EncrypterManager = &safe{}
	domain.MnemonicStoreManager.Unset()
	h := &house{daemon: &daemon{app: &verifapp.App{Err: errReached}}, repo: verifdb.New(true)}
	defer h.repo.Close()
	withHooks, withCreds := nd.Choice("webhooks", 3), nd.Choice("credentials", 3)
	h.hooks, h.secure = withHooks == 1, withCreds == 1
	h.opts = ServiceOpts{
		NoMacaroons: !h.secure, Datadir: dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		OperatorSvc: h.app, TradeSvc: h.app,
	}
	h.start()
	defer func() { h.stop() }()
	nd.Assert(h.wallet.UnlockWallet(bg, "pw") != nil && h.wallet.ChangePassword(bg, "pw", "new") != nil, "a wallet that does not exist is unlocked")
	replies, errs := make(chan *application.InitWalletReply, 9), make(chan error, 9)
	h.wallet.InitWallet(bg, verifkeys.SeedA, "pw", false, replies, errs)
	nd.Assert(len(errs) == 0, "a wallet is not created")
	h.served()
	cur, open, added := "pw", false, false
	unlock := func(p string) {
		err := h.wallet.UnlockWallet(bg, p)
		h.served()
		nd.Assert((err == nil) == (open || p == cur), "the wallet opens with another password, or not with its own")
		open = open || p == cur
	}
	n := nd.Choice("commands", nd.Bound("commands", 3, 4)+1)
	for i := 0; i < n; i++ {
		switch nd.Choice("command", 3) {
		case 0:
			h.stop()
			h.hooks, h.secure = withHooks > 0, withCreds > 0
			h.opts.NoMacaroons = !h.secure
			h.start()
			open = false
		case 1:
			unlock(nd.Pick("password", "pw", "new", "bad"))
		case 2:
			old, now := nd.Pick("old", "pw", "new", "bad"), nd.Pick("new", "pw", "new")
			err := h.wallet.ChangePassword(bg, old, now)
			h.served()
			nd.Assert((err == nil) == (!open && old == cur), "the password changes of an open wallet, or with a wrong one, or not with the right one")
			if err == nil {
				cur = now
			}
		}
		if open && h.hooks && !added {
			_, err := h.eye.pub.Subscribe("TRADE_SETTLED", "http://a", "")
			nd.Assert(err == nil, "a webhook cannot be added to an open wallet")
			added = true
		}
		nd.Assert(h.eye.open == 0 || open, "a wallet that is locked is observed")
	}
	if !open {
		if h.hooks {
			nd.Assert(h.eye.pub.Store().IsLocked(), "the webhooks are open while the wallet is locked")
		}
		unlock(cur)
	}
	nd.Assert(h.eye.open == 1, "an open wallet is not observed, or twice")
	words := domain.MnemonicStoreManager.Get()
	nd.Assert(strings.Join(words, " ") == strings.Join(verifkeys.SeedA, " "), "the wallet is another one")
	if h.hooks {
		l := h.eye.pub.ListSubscriptionsForTopic("TRADE_SETTLED")
		nd.Assert(len(l) == 1 == added, "the webhooks are lost")
		_, err := h.eye.pub.Subscribe("TRADE_SETTLED", "http://b", "")
		nd.Assert(err == nil, "the webhooks do not open with the password of the wallet")
		nd.Cover("webhooks")
	}
	if h.secure {
		_, reached := h.call("/Operator/ListTrades", []string{hex.EncodeToString(h.credential(AdminMacaroonFile))})
		nd.Assert(reached, "the credentials do not open with the password of the wallet")
		nd.Cover("credentials")
	}
}
