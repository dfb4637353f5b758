//verif:file pkg=internal/interfaces/grpc props=C27,C41
package grpcinterface

import (
	"context"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"io/ioutil"
	"net"
	"path/filepath"

	"github.com/btcsuite/btcwallet/walletdb"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/interfaces"
	"github.com/tdex-network/tdex-daemon/internal/verifapp"
	"github.com/tdex-network/tdex-daemon/internal/verifkv"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/types/known/emptypb"
	"gopkg.in/macaroon-bakery.v2/bakery"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/interceptor"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
)

// What each method needs: nothing, or to read or write something.
var needs = [][2]string{
	{"/Wallet/GenSeed", ""}, {"/Wallet/InitWallet", ""}, {"/Wallet/UnlockWallet", ""}, {"/Wallet/ChangePassword", ""},
	{"/Trade/Markets", ""}, {"/Trade/Balances", ""}, {"/Trade/MarketPrice", ""}, {"/Trade/TradePropose", ""}, {"/Trade/TradeComplete", ""},
	{"/Wallet/WalletAddress", "wallet write"}, {"/Wallet/WalletBalance", "wallet read"}, {"/Wallet/SendToMany", "wallet write"},
	{"/Operator/DepositMarket", "market write"}, {"/Operator/ListDepositMarket", "market read"},
	{"/Operator/DepositFeeAccount", "market write"}, {"/Operator/BalanceFeeAccount", "market read"},
	{"/Operator/ClaimMarketDeposit", "market write"}, {"/Operator/ClaimFeeDeposit", "market write"},
	{"/Operator/OpenMarket", "market write"}, {"/Operator/CloseMarket", "market write"}, {"/Operator/DropMarket", "market write"},
	{"/Operator/ListMarket", "market read"}, {"/Operator/ReportMarketFee", "market read"},
	{"/Operator/UpdateMarketPercentageFee", "market write"}, {"/Operator/UpdateMarketFixedFee", "market write"},
	{"/Operator/UpdateMarketStrategy", "market write"}, {"/Operator/UpdateMarketPrice", "price write"},
	{"/Operator/WithdrawMarket", "operator write"}, {"/Operator/ReloadUtxos", "operator write"},
	{"/Operator/ListTrades", "operator read"}, {"/Operator/ListUtxos", "operator read"},
	{"/Operator/AddWebhook", "webhook write"}, {"/Operator/RemoveWebhook", "webhook write"}, {"/Operator/ListWebhooks", "webhook read"},
}

var (
	rights = []string{
		"operator read", "operator write", "market read", "market write", "price write",
		"webhook read", "webhook write", "wallet read", "wallet write",
	}
	grants = []struct {
		file string
		has  []string
	}{
		{AdminMacaroonFile, rights},
		{ReadOnlyMacaroonFile, []string{"operator read", "market read", "wallet read", "webhook read"}},
		{MarketMacaroonFile, []string{"market read", "market write", "price write"}},
		{PriceMacaroonFile, []string{"price write"}},
		{WalletMacaroonFile, []string{"wallet read", "wallet write"}},
		{WebhookMacaroonFile, []string{"webhook read", "webhook write"}},
	}
	bg      = context.Background()
	creator = kvdb.Create
)

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func op(right string) bakery.Op {
	for i := range right {
		if right[i] == ' ' {
			return bakery.Op{Entity: right[:i], Action: right[i+1:]}
		}
	}
	panic(right)
}

// dice gives numbers never given before.
type dice struct{ n byte }

func (d *dice) Read(b []byte) (int, error) {
	d.n++
	for i := range b {
		b[i] = 0
	}
	b[0] = d.n
	return len(b), nil
}

type daemon struct {
	door
	app  *verifapp.App
	svc  interfaces.Service
	opts ServiceOpts
}

func newDaemon(dir string, noAuth bool) *daemon {
	d := &daemon{app: &verifapp.App{Err: errReached}}
	d.opts = ServiceOpts{
		NoMacaroons: noAuth, Datadir: dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: d.app, OperatorSvc: d.app, TradeSvc: d.app,
	}
	d.secure = !noAuth
	return d
}

func (d *daemon) start() error {
	d.app.Pass = make(chan application.PassphraseMsg)
	svc, err := NewService(d.opts)
	if err != nil {
		return err
	}
	d.svc, d.operator, d.trade = svc, freePort(), freePort()
	must(svc.Start(d.operator, d.trade, "", ""))
	if nd.Symbolic() {
		nd.RunTasks()
	}
	return nil
}

func (d *daemon) stop() {
	d.svc.Stop()
	close(d.app.Pass)
	if nd.Symbolic() {
		nd.RunTasks()
	}
}

// tell passes on a message of the wallet, and waits until it is served.
func (d *daemon) tell(m application.PassphraseMsg) {
	d.app.Pass <- m
	if m.Method == application.ChangePassphrase {
		m = application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: m.NewPwd}
	}
	d.app.Pass <- m
	if nd.Symbolic() {
		nd.RunTasks()
	}
}

func (d *daemon) credential(file string) []byte {
	b, err := ioutil.ReadFile(filepath.Join(d.opts.Datadir, "macaroons", file))
	nd.Assert(err == nil, "a credential is missing")
	return b
}

// Every method and every credential, in any state of the daemon.
//
//verif:harness prop=C27 time=120 replays=10
//verif:bound every method of both interfaces, with no credential, each of the six the daemon makes, one locked to the caller's or another address, one of another daemon, a malformed one and two at once; a daemon that was never unlocked, is initialized, unlocked, with a new password, restarted (unlocked or not), without authentication, or whose credentials database does not open
//verif:assume a credential cannot be forged without its root key
func hAuth() {
	nd.FreeGo()
	disk, other := verifkv.NewDisk(), verifkv.NewDisk()
	dir, done := place()
	defer func() {
		kvdb.Create = creator
		other.Remove()
		done()
	}()
	kvdb.Create = disk.Open(creator)
	if nd.Symbolic() {
		rand.Reader = &dice{}
	}
	state := nd.Choice("state", 8)
	d := newDaemon(dir, state == 0)
	unlocked := false
	made := false
	if state == 7 {
		kvdb.Create = func(string, ...interface{}) (walletdb.DB, error) { return nil, errors.New("locked") }
		if d.start() != nil {
			nd.Cover("not started")
			return
		}
	} else {
		must(d.start())
	}
	defer d.stop()
	msg := application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: "pw"}
	switch state {
	case 2:
		msg.Method = application.InitWallet
		fallthrough
	case 3:
		d.tell(msg)
		unlocked, made = true, true
	case 4, 5, 6:
		d.tell(msg)
		unlocked, made = true, true
		if state >= 5 {
			d.tell(application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: "pw", NewPwd: "new"})
			msg.CurrentPwd = "new"
		}
		d.stop()
		must(d.start())
		unlocked = false
		if state == 6 {
			d.tell(msg)
			unlocked = true
		}
	}
	m := nd.Choice("method", len(needs)+1)
	need := [2]string{"/Operator/Nothing", "nothing"}
	if m < len(needs) {
		need = needs[m]
	}
	var macs []string
	var has []string
	enc := hex.EncodeToString
	cred := nd.Choice("credential", 6+len(grants))
	switch {
	case cred == 0: // none
	case cred == 1:
		macs = []string{"no macaroon"}
	case cred == 2:
		macs = []string{""}
	case !made:
		return
	case cred == 3:
		b := enc(d.credential(AdminMacaroonFile))
		macs = []string{b, b}
	case cred == 4:
		b := d.credential(AdminMacaroonFile)
		if nd.Bool("own address") {
			macs, has = []string{enc(attenuated(b, "127.0.0.1"))}, rights
		} else {
			macs = []string{enc(attenuated(b, "127.0.0.2"))}
		}
	case cred == 5:
		kvdb.Create = other.Open(creator)
		svc, err := macaroons.NewService(other.Dir(), Location, DBFile, false, macaroons.IPLockChecker)
		must(err)
		pw := []byte("pw")
		must(svc.CreateUnlock(&pw))
		mac, err := svc.NewMacaroon(bg, macaroons.DefaultRootKeyID, Macaroons[AdminMacaroonFile]...)
		must(err)
		macs = []string{enc(marshal(mac.M()))}
		must(svc.Close())
	default:
		g := grants[cred-6]
		macs, has = []string{enc(d.credential(g.file))}, g.has
	}
	served, reached := d.call(need[0], macs)
	if m == len(needs) {
		nd.Assert(!reached, "an unknown method is served")
		return
	}
	nd.Assert(served, "a method is not served")
	allowed := need[1] == "" || state == 0 || unlocked && in(need[1], has)
	if allowed {
		nd.Cover("allowed")
	} else {
		nd.Cover("refused")
	}
	nd.Assert(!reached || allowed, "a request without the right permission is served")
	nd.Assert(reached || !allowed, "a request with the right permission is refused")
}

// later is a service added without saying what its methods need.
var later = grpc.ServiceDesc{
	ServiceName: "Later",
	HandlerType: (*interface{})(nil),
	Methods: []grpc.MethodDesc{{MethodName: "Do", Handler: func(srv interface{}, ctx context.Context, dec func(interface{}) error, i grpc.UnaryServerInterceptor) (interface{}, error) {
		if err := dec(&emptypb.Empty{}); err != nil {
			return nil, err
		}
		next := func(context.Context, interface{}) (interface{}, error) { return nil, errReached }
		if i == nil {
			return next(ctx, nil)
		}
		return i(ctx, nil, &grpc.UnaryServerInfo{Server: srv, FullMethod: "/Later/Do"}, next)
	}}},
	Streams: []grpc.StreamDesc{{StreamName: "Watch", ServerStreams: true, Handler: func(interface{}, grpc.ServerStream) error { return errReached }}},
}

// Credentials with any rights.
//
//verif:harness prop=C27 time=60 replays=4
//verif:bound every method and two whose needs are not known, with a credential for one right, all rights but the one needed, that method, or another method; the credential store open, or closed after the credential is made
//verif:assume a credential cannot be forged without its root key
func hRights() {
	nd.FreeGo()
	disk := verifkv.NewDisk()
	dir, done := place()
	defer func() {
		kvdb.Create = creator
		done()
	}()
	kvdb.Create = disk.Open(creator)
	if nd.Symbolic() {
		rand.Reader = &dice{}
	}
	svc, err := macaroons.NewService(filepath.Join(dir, "db"), Location, DBFile, false, macaroons.IPLockChecker)
	must(err)
	pw := []byte("pw")
	must(svc.CreateUnlock(&pw))
	app := &verifapp.App{Err: errReached}
	srv := grpc.NewServer(interceptor.UnaryInterceptor(svc), interceptor.StreamInterceptor(svc))
	pbtrade.RegisterTradeServer(srv, grpchandler.NewTraderHandler(app))
	pboperator.RegisterOperatorServer(srv, grpchandler.NewOperatorHandler(app))
	pbwallet.RegisterWalletServer(srv, grpchandler.NewWalletHandler(app))
	srv.RegisterService(&later, struct{}{})
	d := door{operator: freePort()}
	d.trade = d.operator
	lis, err := net.Listen("tcp", d.operator)
	must(err)
	go srv.Serve(lis)
	if nd.Symbolic() {
		nd.RunTasks()
	}
	defer srv.Stop()

	all := append(append([][2]string{}, needs...), [2]string{"/Later/Do", "unknown"}, [2]string{"/Later/Watch", "unknown"})
	need := all[nd.Choice("method", len(all))]
	var ops []bakery.Op
	allowed := need[1] == ""
	uri := func(method string) bakery.Op {
		return bakery.Op{Entity: macaroons.PermissionEntityCustomURI, Action: method}
	}
	switch kind := nd.Choice("credential", 3+len(rights)); kind {
	case 0:
		for _, r := range rights {
			if r != need[1] {
				ops = append(ops, op(r))
			}
		}
	case 1:
		ops = []bakery.Op{uri(need[0])}
		allowed = need[1] != "unknown"
	case 2:
		for _, n := range needs {
			if n != need {
				ops = append(ops, uri(n[0]))
			}
		}
	default:
		r := rights[kind-3]
		ops = []bakery.Op{op(r)}
		allowed = allowed || r == need[1]
	}
	mac, err := svc.NewMacaroon(bg, []byte("7"), ops...)
	must(err)
	macs := []string{hex.EncodeToString(marshal(mac.M()))}
	switch nd.Choice("then", 3) {
	case 0:
		defer svc.Close()
	case 1: // revoked
		_, err := svc.DeleteMacaroonID(bg, []byte("7"))
		must(err)
		allowed = need[1] == ""
		defer svc.Close()
	case 2: // closed
		must(svc.Close())
		allowed = need[1] == ""
	}
	served, reached := d.call(need[0], macs)
	nd.Assert(served, "a method is not served")
	if allowed {
		nd.Cover("allowed")
	} else {
		nd.Cover("refused")
	}
	nd.Assert(!reached || allowed, "a request without the right permission is served")
	nd.Assert(reached || !allowed, "a request with the right permission is refused")
}
