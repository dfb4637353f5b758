//verif:file pkg=internal/interfaces/grpc props=C27,C41 keep=gopkg.in/macaroon-bakery.v2/bakery,gopkg.in/macaroon-bakery.v2/bakery/checkers,gopkg.in/errgo.v1,google.golang.org/grpc/metadata,google.golang.org/grpc/peer,github.com/grpc-ecosystem/go-grpc-middleware,path/filepath
package grpcinterface

// Stand-ins for the network, the files and the credentials library. A replay
// runs on the real ones: a real server on the loopback network, asked by a
// real client.

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"io/fs"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/improbable-eng/grpc-web/go/grpcweb"
	"github.com/soheilhy/cmux"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/emptypb"
	"gopkg.in/macaroon-bakery.v2/bakery"
	"gopkg.in/macaroon-bakery.v2/bakery/checkers"
	macaroon "gopkg.in/macaroon.v2"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Files.

var (
	errNoFile = errors.New("no such file")
	files     = map[string][]byte{}
)

//verif:model os.Stat
func mStat(name string) (os.FileInfo, error) {
	if _, ok := files[name]; !ok {
		return nil, errNoFile
	}
	return nil, nil
}

//verif:model os.IsNotExist
func mIsNotExist(err error) bool { return err == errNoFile }

//verif:model os.MkdirAll
func mMkdirAll(name string, perm os.FileMode) error {
	files[name] = nil
	return nil
}

//verif:model os.Remove
func mRemove(name string) error {
	delete(files, name)
	return nil
}

//verif:model io/ioutil.WriteFile
func mWriteFile(name string, data []byte, perm fs.FileMode) error {
	files[name] = append([]byte{}, data...)
	return nil
}

//verif:model io/ioutil.ReadFile
func mReadFile(name string) ([]byte, error) {
	b, ok := files[name]
	if !ok {
		return nil, errNoFile
	}
	return b, nil
}

//verif:model runtime.Caller
func mCaller(skip int) (uintptr, string, int, bool) { return 0, "", 0, false }

//verif:model net.ParseIP
func mParseIP(s string) net.IP { return net.IP(s) }

//verif:model (net.IP).Equal
func mIPEqual(a, b net.IP) bool { return bytes.Equal(a, b) }

//verif:model (net.IP).String
func mIPString(a net.IP) string { return string(a) }

//verif:model net.SplitHostPort
func mSplitHostPort(s string) (string, string, error) {
	i := strings.LastIndexByte(s, ':')
	return s[:i], s[i+1:], nil
}

// Credentials.

type minted struct {
	id, key []byte
	ops     []bakery.Op
	conds   []string
}

var (
	baked  = map[*bakery.Macaroon]*macaroon.Macaroon{}
	mints  = map[*macaroon.Macaroon]minted{}
	stores = map[*bakery.Oven]bakery.RootKeyStore{}
)

//verif:model gopkg.in/macaroon-bakery.v2/bakery.NewOven
func mNewOven(p bakery.OvenParams) *bakery.Oven {
	o := &bakery.Oven{}
	if p.RootKeyStoreForOps != nil {
		stores[o] = p.RootKeyStoreForOps(nil)
	}
	return o
}

//verif:model (*gopkg.in/macaroon-bakery.v2/bakery.Oven).NewMacaroon
func mNewMacaroon(o *bakery.Oven, ctx context.Context, version bakery.Version, caveats []checkers.Caveat, ops ...bakery.Op) (*bakery.Macaroon, error) {
	if len(ops) == 0 || len(caveats) > 0 {
		return nil, errors.New("no operations")
	}
	key, id, err := stores[o].RootKey(ctx)
	if err != nil {
		return nil, err
	}
	m, b := &macaroon.Macaroon{}, &bakery.Macaroon{}
	mints[m], baked[b] = minted{id, key, append([]bakery.Op{}, ops...), nil}, m
	return b, nil
}

//verif:model (*gopkg.in/macaroon-bakery.v2/bakery.Macaroon).M
func mM(b *bakery.Macaroon) *macaroon.Macaroon { return baked[b] }

//verif:model (*gopkg.in/macaroon-bakery.v2/bakery.Oven).VerifyMacaroon
func mVerifyMacaroon(o *bakery.Oven, ctx context.Context, ms macaroon.Slice) ([]bakery.Op, []string, error) {
	if len(ms) == 0 {
		return nil, nil, errors.New("no macaroons in slice")
	}
	m, ok := mints[ms[0]]
	if !ok {
		return nil, nil, errors.New("malformed macaroon id")
	}
	key, err := stores[o].Get(ctx, m.id)
	if err != nil {
		return nil, nil, err
	}
	if !bytes.Equal(key, m.key) || len(ms) > 1 {
		return nil, nil, &bakery.VerificationError{Reason: errors.New("signature mismatch")}
	}
	return m.ops, m.conds, nil
}

//verif:model (*gopkg.in/macaroon.v2.Macaroon).MarshalBinary
func mMarshalBinary(m *macaroon.Macaroon) ([]byte, error) {
	return []byte(nd.Blob("macaroon", mints[m])), nil
}

//verif:model (*gopkg.in/macaroon.v2.Macaroon).UnmarshalBinary
func mUnmarshalBinary(m *macaroon.Macaroon, b []byte) error {
	v, ok := nd.Unblob("macaroon", string(b))
	if !ok {
		return errors.New("malformed macaroon")
	}
	mints[m] = v.(minted)
	return nil
}

//verif:model (*gopkg.in/macaroon.v2.Macaroon).Clone
func mClone(m *macaroon.Macaroon) *macaroon.Macaroon {
	c := &macaroon.Macaroon{}
	mints[c] = mints[m]
	return c
}

//verif:model (*gopkg.in/macaroon.v2.Macaroon).AddFirstPartyCaveat
func mAddFirstPartyCaveat(m *macaroon.Macaroon, cond []byte) error {
	c := mints[m]
	c.conds = append(append([]string{}, c.conds...), string(cond))
	mints[m] = c
	return nil
}

//verif:model gopkg.in/macaroon-bakery.v2/bakery/checkers.ContextWithMacaroons
func mContextWithMacaroons(ctx context.Context, ns *checkers.Namespace, ms macaroon.Slice) context.Context {
	return ctx
}

// The server.

type option struct {
	grpc.ServerOption
	unary  []grpc.UnaryServerInterceptor
	stream []grpc.StreamServerInterceptor
}

type served struct {
	option
	methods []string
	streams map[string]bool
	serving bool
}

var (
	servers = map[*grpc.Server]*served{}
	started []*served
)

//verif:model google.golang.org/grpc.UnaryInterceptor
func mUnary(i grpc.UnaryServerInterceptor) grpc.ServerOption {
	return &option{unary: []grpc.UnaryServerInterceptor{i}}
}

//verif:model google.golang.org/grpc.StreamInterceptor
func mStream(i grpc.StreamServerInterceptor) grpc.ServerOption {
	return &option{stream: []grpc.StreamServerInterceptor{i}}
}

//verif:model google.golang.org/grpc.ChainUnaryInterceptor
func mChainUnary(i ...grpc.UnaryServerInterceptor) grpc.ServerOption { return &option{unary: i} }

//verif:model google.golang.org/grpc.ChainStreamInterceptor
func mChainStream(i ...grpc.StreamServerInterceptor) grpc.ServerOption { return &option{stream: i} }

//verif:model google.golang.org/grpc.NewServer
func mNewServer(opts ...grpc.ServerOption) *grpc.Server {
	g, s := &grpc.Server{}, &served{streams: map[string]bool{}}
	for _, o := range opts {
		if o, ok := o.(*option); ok {
			s.unary = append(s.unary, o.unary...)
			s.stream = append(s.stream, o.stream...)
		}
	}
	servers[g] = s
	return g
}

//verif:model (*google.golang.org/grpc.Server).RegisterService
func mRegisterService(g *grpc.Server, sd *grpc.ServiceDesc, ss interface{}) {
	s := servers[g]
	for _, m := range sd.Methods {
		s.methods = append(s.methods, "/"+sd.ServiceName+"/"+m.MethodName)
	}
	for _, m := range sd.Streams {
		n := "/" + sd.ServiceName + "/" + m.StreamName
		s.methods = append(s.methods, n)
		s.streams[n] = true
	}
}

//verif:model (*google.golang.org/grpc.Server).Serve
func mServe(g *grpc.Server, l net.Listener) error {
	s := servers[g]
	if !s.serving {
		s.serving = true
		started = append(started, s)
	}
	return nil
}

//verif:model (*google.golang.org/grpc.Server).GracefulStop
func mGracefulStop(g *grpc.Server) { servers[g].serving = false }

//verif:model (*google.golang.org/grpc.Server).Stop
func mStop(g *grpc.Server) { servers[g].serving = false }

type listener struct{ net.Listener }

//verif:model net.Listen
func mListen(network, address string) (net.Listener, error) { return listener{}, nil }

//verif:model crypto/tls.LoadX509KeyPair
func mLoadX509KeyPair(cert, key string) (tls.Certificate, error) { return tls.Certificate{}, nil }

//verif:model crypto/tls.NewListener
func mNewListener(l net.Listener, c *tls.Config) net.Listener { return l }

type mux struct{ cmux.CMux }

func (mux) Match(...cmux.Matcher) net.Listener                         { return listener{} }
func (mux) MatchWithWriters(matchers ...cmux.MatchWriter) net.Listener { return listener{} }
func (mux) Serve() error                                               { return nil }

//verif:model github.com/soheilhy/cmux.New
func mMux(l net.Listener) cmux.CMux { return mux{} }

//verif:model github.com/soheilhy/cmux.HTTP2MatchHeaderFieldPrefixSendSettings
func mHeader(name, value string) cmux.MatchWriter { return nil }

//verif:model github.com/soheilhy/cmux.HTTP1Fast
func mHTTP1Fast() cmux.Matcher { return nil }

//verif:model github.com/improbable-eng/grpc-web/go/grpcweb.WrapServer
func mWrapServer(g *grpc.Server, opts ...grpcweb.Option) *grpcweb.WrappedGrpcServer { return nil }

//verif:model github.com/improbable-eng/grpc-web/go/grpcweb.WithCorsForRegisteredEndpointsOnly
func mWithCors(only bool) grpcweb.Option { return nil }

//verif:model github.com/improbable-eng/grpc-web/go/grpcweb.WithOriginFunc
func mWithOrigin(f func(string) bool) grpcweb.Option { return nil }

//verif:model net/http.Serve
func mHTTPServe(l net.Listener, h http.Handler) error { return nil }

// The client.

type address struct{}

func (address) Network() string { return "tcp" }
func (address) String() string  { return "127.0.0.1:7" }

type call struct {
	grpc.ServerStream
	ctx context.Context
}

func (c call) Context() context.Context { return c.ctx }

func (s *served) call(ctx context.Context, method string) (reached bool) {
	if s.streams[method] {
		next := func(srv interface{}, ss grpc.ServerStream) error {
			reached = true
			return nil
		}
		for i := len(s.stream) - 1; i >= 0; i-- {
			f, n := s.stream[i], next
			next = func(srv interface{}, ss grpc.ServerStream) error {
				return f(srv, ss, &grpc.StreamServerInfo{FullMethod: method}, n)
			}
		}
		err := next(nil, call{ctx: ctx})
		nd.Assert(reached == (err == nil), "a refused request is answered or the other way round")
		return
	}
	next := grpc.UnaryHandler(func(ctx context.Context, req interface{}) (interface{}, error) {
		reached = true
		return nil, nil
	})
	for i := len(s.unary) - 1; i >= 0; i-- {
		f, n := s.unary[i], next
		next = func(ctx context.Context, req interface{}) (interface{}, error) {
			return f(ctx, req, &grpc.UnaryServerInfo{FullMethod: method}, n)
		}
	}
	_, err := next(ctx, nil)
	nd.Assert(reached == (err == nil), "a refused request is answered or the other way round")
	return
}

// door is where a daemon is reached.
type door struct {
	operator, trade string
	secure          bool
}

func freePort() string {
	if nd.Symbolic() {
		return "addr"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// call tells whether the method is served there and whether a request reaches it.
func (d *door) call(method string, macs []string) (served, reached bool) {
	md := metadata.MD{}
	if len(macs) > 0 {
		md["macaroon"] = macs
	}
	if nd.Symbolic() {
		ctx := metadata.NewIncomingContext(context.Background(), md)
		ctx = peer.NewContext(ctx, &peer.Peer{Addr: address{}})
		for _, s := range started {
			for _, m := range s.methods {
				if m == method && s.serving {
					return true, s.call(ctx, method)
				}
			}
		}
		return false, false
	}
	addr, opt := d.operator, grpc.WithInsecure()
	if strings.HasPrefix(method, "/Trade/") {
		addr = d.trade
	} else if d.secure {
		opt = grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true}))
	}
	conn, err := grpc.Dial(addr, opt)
	must(err)
	defer conn.Close()
	ctx, cancel := context.WithCancel(metadata.NewOutgoingContext(context.Background(), md))
	defer cancel()
	st, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, method, grpc.WaitForReady(true))
	must(err)
	if err := st.SendMsg(&emptypb.Empty{}); err != nil && err != io.EOF {
		panic(err)
	}
	must(st.CloseSend())
	err = st.RecvMsg(&emptypb.Empty{})
	code := status.Code(err)
	if err == io.EOF {
		code = codes.OK
	}
	if code == codes.Unimplemented {
		return false, false
	}
	return true, code == codes.OK || code == codes.InvalidArgument || strings.Contains(err.Error(), errReached.Error())
}

var errReached = errors.New("handler reached")

// place is where the files of a daemon are.
func place() (string, func()) {
	if nd.Symbolic() {
		files["data"] = nil
		files[filepath.Join("data", "tls")] = nil
		files[filepath.Join("data", "tls", OperatorTLSKeyFile)] = nil
		files[filepath.Join("data", "tls", OperatorTLSCertFile)] = nil
		return "data", func() {}
	}
	d, err := ioutil.TempDir("", "verifgrpc")
	must(err)
	return d, func() { os.RemoveAll(d) }
}

func unmarshal(b []byte) *macaroon.Macaroon {
	m := &macaroon.Macaroon{}
	must(m.UnmarshalBinary(b))
	return m
}

func marshal(m *macaroon.Macaroon) []byte {
	b, err := m.MarshalBinary()
	must(err)
	return b
}

func attenuated(b []byte, ip string) []byte {
	m, err := macaroons.AddConstraints(unmarshal(b), macaroons.IPLockConstraint(ip))
	must(err)
	return marshal(m)
}
