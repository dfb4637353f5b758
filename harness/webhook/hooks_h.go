//verif:file pkg=internal/infrastructure/pubsub/webhook props=C29,C41 keep=golang.org/x/sync/errgroup
package webhookpubsub

import (
	"encoding/json"
	"errors"
	"io/ioutil"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/dgrijalva/jwt-go"
	"github.com/sony/gobreaker"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// box is a store of two-level entries (the real one is checked on its own).
type box struct {
	b       map[string]map[string][]byte
	locked  bool
	trouble func() error // before any access
}

func (s *box) at(bucket []byte) (map[string][]byte, error) {
	if s.locked {
		return nil, errors.New("locked")
	}
	if err := s.trouble(); err != nil {
		return nil, err
	}
	m, ok := s.b[string(bucket)]
	if !ok {
		return nil, errors.New("no bucket")
	}
	return m, nil
}

func (s *box) Lock()                                { s.locked = true }
func (s *box) Close() error                         { return nil }
func (s *box) IsLocked() bool                       { return s.locked }
func (s *box) CreateUnlock(p *[]byte) error         { s.locked = false; return nil }
func (s *box) ChangePassword(old, new []byte) error { return nil }
func (s *box) CreateBucket(k []byte) error {
	if s.b[string(k)] == nil {
		s.b[string(k)] = map[string][]byte{}
	}
	return nil
}
func (s *box) AddToBucket(bucket, k, v []byte) error {
	m, err := s.at(bucket)
	if err == nil {
		m[string(k)] = append([]byte{}, v...)
	}
	return err
}
func (s *box) GetFromBucket(bucket, k []byte) ([]byte, error) {
	m, err := s.at(bucket)
	return m[string(k)], err
}
func (s *box) GetAllFromBucket(bucket []byte) (map[string][]byte, error) {
	m, err := s.at(bucket)
	c := map[string][]byte{}
	for k, v := range m {
		c[k] = v
	}
	return c, err
}
func (s *box) ListBuckets() (l [][]byte, err error) {
	for k := range s.b {
		l = append(l, []byte(k))
	}
	return
}
func (s *box) RemoveFromBucket(bucket, k []byte) error {
	m, err := s.at(bucket)
	delete(m, string(k))
	return err
}
func (s *box) RemoveBucket(k []byte) error { delete(s.b, string(k)); return nil }

// post is a message that arrived at an endpoint.
type post struct{ to, body, auth string }

// wire carries messages to endpoints, some of which refuse them.
type wire struct {
	posts []post
	bad   map[string]bool
	code  int // the answer of a bad endpoint
	mu    sync.Mutex
}

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	b, err := ioutil.ReadAll(r.Body)
	must(err)
	nd.Assert(r.Method == "POST", "a message is not posted")
	w.mu.Lock()
	defer w.mu.Unlock()
	res := &http.Response{StatusCode: w.arrived(r.URL.String(), string(b), r.Header.Get("Authorization")), Body: ioutil.NopCloser(strings.NewReader("%d"))}
	return res, nil
}

func (w *wire) arrived(to, body, auth string) int {
	w.posts = append(w.posts, post{to, body, auth})
	if w.bad[to] {
		return w.code
	}
	return 200
}

//verif:model (*github.com/tdex-network/tdex-daemon/pkg/explorer/esplora.Client).NewHTTPRequest
func mRequest(c *esplora.Client, method, url, body string, header map[string]string) (int, string, error) {
	nd.Assert(method == "POST", "a message is not posted")
	return c.Client.Transport.(*wire).arrived(url, body, header["Authorization"]), "%d", nil
}

//verif:model github.com/sony/gobreaker.NewCircuitBreaker
func mBreaker(s gobreaker.Settings) *gobreaker.CircuitBreaker { return &gobreaker.CircuitBreaker{} }

// The breaker is closed.
//
//verif:model (*github.com/sony/gobreaker.CircuitBreaker).Execute
func mExecute(b *gobreaker.CircuitBreaker, f func() (interface{}, error)) (interface{}, error) {
	return f()
}

//verif:model github.com/dgrijalva/jwt-go.New
func mNew(m jwt.SigningMethod) *jwt.Token { return &jwt.Token{} }

//verif:model (*github.com/dgrijalva/jwt-go.Token).SignedString
func mSigned(t *jwt.Token, key interface{}) (string, error) {
	return "signed with " + string(key.([]byte)), nil
}

//verif:model github.com/dgrijalva/jwt-go.Parse
func mParse(s string, f jwt.Keyfunc) (*jwt.Token, error) {
	k, err := f(nil)
	return &jwt.Token{Valid: s == "signed with "+string(k.([]byte))}, err
}

var texts []interface{}

//verif:model encoding/json.Marshal
func mMarshal(v interface{}) ([]byte, error) {
	texts = append(texts, nd.GobCopy(v))
	return []byte("{text " + string([]byte{byte('0' + len(texts)/10), byte('0' + len(texts)%10)}) + "}"), nil
}

//verif:model encoding/json.Unmarshal
func mUnmarshal(b []byte, to interface{}) error {
	s := string(b)
	if len(s) != 9 || s[:6] != "{text " {
		return errors.New("no JSON")
	}
	nd.GobInto(to, texts[int(s[6]-'0')*10+int(s[7]-'0')-1])
	return nil
}

//verif:model net/url.ParseRequestURI
func mURI(s string) (*url.URL, error) {
	if !strings.HasPrefix(s, "http://") {
		return nil, &url.Error{Op: "parse", URL: s, Err: errors.New("invalid URI for request")}
	}
	return &url.URL{}, nil
}

var _ = json.Marshal

// hook is a registration; once it failed half way it may or may not be in force.
type hook struct {
	topic, endpoint, secret, id string
	gone                        bool
}

// desk serves registrations and messages.
type desk struct {
	svc   ports.SecurePubSub
	box   *box
	wire  *wire
	hooks []*hook
	same  bool // the next registration has the endpoint of the first
}

var topics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}
var endpoints = []string{"http://a.example/x", "http://b.example/", "http://c.example/", "http://d.example/"}

func openDesk() *desk {
	d := &desk{box: &box{b: map[string]map[string][]byte{}, trouble: func() error { return nil }}, wire: &wire{bad: map[string]bool{}, code: 500}}
	d.open()
	must(d.svc.Store().Init("pass"))
	nd.Assert(d.svc.Store().IsLocked(), "the store is left open")
	must(d.svc.Store().Unlock("pass"))
	return d
}

func (d *desk) open() {
	svc, err := NewWebhookPubSubService(d.box, &esplora.Client{Client: &http.Client{Transport: d.wire}})
	must(err)
	d.svc = svc
}

// register adds a valid registration.
func (d *desk) register(topic string, secured bool) (*hook, error) {
	h := &hook{topic: topic, endpoint: endpoints[len(d.hooks)%len(endpoints)]}
	if d.same {
		h.endpoint = d.hooks[0].endpoint
	}
	if secured {
		h.secret = "secret" + h.endpoint[7:8]
	}
	d.hooks = append(d.hooks, h)
	id, err := d.svc.Subscribe(topic, h.endpoint, h.secret)
	h.id, h.gone = id, err != nil
	nd.Assert((id == "") == (err != nil), "a registration has an id and an error, or neither")
	return h, err
}

// check lists and notifies everybody.
func (d *desk) check(topic string) {
	var want []*hook
	for _, h := range d.hooks {
		if !h.gone && (h.topic == topic || h.topic == "*") {
			want = append(want, h)
		}
	}
	list := d.svc.ListSubscriptionsForTopic(topic)
	nd.Assert(len(list) == len(want), "others than those registered are listed")
	for _, h := range want {
		n := 0
		for _, s := range list {
			if s.Id() == h.id {
				n++
				nd.Assert(s.NotifyAt() == h.endpoint && s.Topic().Label() == h.topic && s.IsSecured() == (h.secret != ""), "a registration is listed with other data")
			}
		}
		nd.Assert(n == 1, "a registration is not listed once")
	}
	d.wire.posts = nil
	bad := false
	for _, h := range want {
		bad = bad || d.wire.bad[h.endpoint]
	}
	err := d.svc.Publish(topic, "message")
	nd.Assert((err != nil) == bad, "an endpoint that failed is not reported or another is")
	nd.Assert(len(d.wire.posts) == len(want), "others than those registered are notified")
	for _, p := range d.wire.posts {
		nd.Assert(p.body == "message", "another message arrives")
	}
	for _, h := range want {
		n := 0
		for _, p := range d.wire.posts {
			if p.to == h.endpoint && h.signed(p.auth) {
				n++
			}
		}
		for _, o := range want {
			if o.endpoint == h.endpoint && o.secret == h.secret {
				n--
			}
		}
		nd.Assert(n == 0, "a registered endpoint is not notified once for each registration with the proof of its secret")
		nd.Cover("notified")
	}
}

func (h *hook) signed(auth string) bool {
	if h.secret == "" {
		return auth == ""
	}
	if !strings.HasPrefix(auth, "Bearer ") {
		return false
	}
	t, err := jwt.Parse(auth[7:], func(*jwt.Token) (interface{}, error) { return []byte(h.secret), nil })
	return err == nil && t.Valid
}

func (d *desk) checkAll() {
	for _, t := range topics {
		d.check(t)
	}
}

// Any history of registrations.
//
//verif:harness prop=C29 time=150
//verif:bound up to four (thorough five) requests: registrations for any event with and without a secret, of different endpoints, or the second of the same as the first, with unknown events and malformed endpoints, removals of known and unknown ids, restarts; then all events, to endpoints that answer or fail
func hHooks() {
	d := openDesk()
	n := nd.Choice("requests", nd.Bound("requests", 5, 6))
	for i := 0; i < n; i++ {
		switch nd.Choice("request", 4) {
		case 0:
			topic := topics[nd.Choice("topic", 4)]
			d.same = len(d.hooks) == 1 && nd.Bool("the same endpoint")
			_, err := d.register(topic, i%2 == 1)
			d.same = false
			nd.Assert(err == nil, "a registration is refused")
		case 1:
			bad := [][]interface{}{
				{"TRADES", "http://a.example", ""}, {"", "http://a.example", ""}, {"*", "not an address", ""}, {"*", "", "secret"}, {"*", "http://a.example"}, {"*", "http://a.example", 3},
			}[nd.Choice("malformed", 6)]
			_, err := d.svc.Subscribe(bad[0].(string), bad[1:]...)
			nd.Assert(err != nil, "a malformed registration is accepted")
		case 2:
			if k := nd.Choice("removed", len(d.hooks)+1); k < len(d.hooks) {
				must(d.svc.Unsubscribe("", d.hooks[k].id))
				d.hooks[k].gone = true
			} else {
				must(d.svc.Unsubscribe("", "no id"))
			}
		case 3:
			d.open()
		}
	}
	if nd.Bool("an endpoint fails") {
		d.wire.bad[endpoints[0]], d.wire.code = true, []int{500, 404}[n%2]
	}
	d.checkAll()
	nd.Assert(d.svc.ListSubscriptionsForTopic("TRADES") == nil, "an unknown event has registrations")
	d.wire.posts = nil
	nd.Assert(d.svc.Publish("TRADES", "x") != nil && len(d.wire.posts) == 0, "an unknown event is published")
	d.svc.Store().Lock()
	for _, t := range topics {
		nd.Assert(len(d.svc.ListSubscriptionsForTopic(t)) == 0, "a locked store lists registrations")
		d.svc.Publish(t, "x")
	}
	nd.Assert(len(d.wire.posts) == 0, "messages are sent while the store is locked")
	_, err := d.svc.Subscribe("*", endpoints[0], "")
	nd.Assert(err != nil, "a locked store takes a registration")
}

// Storage fails at any time.
//
//verif:harness prop=C29 time=90
//verif:bound two registrations of any two events, then a registration or removal (thorough two of them) with any of its storage accesses failing or the daemon stopping there, then its repetition without failure
func hHooksTrouble() {
	d := openDesk()
	second := topics[nd.Choice("second", 2)]
	for _, t := range []string{topics[0], second} {
		_, err := d.register(t, false)
		must(err)
	}
	for i := 0; i < nd.Bound("requests", 1, 2); i++ {
		stopped := false
		d.box.trouble = func() error {
			switch nd.Choice("trouble", 3) {
			case 1:
				return errors.New("storage failure")
			case 2:
				stopped = true
				panic("stopped")
			}
			return nil
		}
		done := func(err error) bool { return err == nil && !stopped }
		if nd.Bool("removal") {
			h := d.hooks[nd.Choice("removed", 2)]
			var err error
			nd.Panics(func() { err = d.svc.Unsubscribe("", h.id) })
			d.box.trouble = func() error { return nil }
			d.open()
			if !done(err) {
				nd.Cover("failed to remove")
				must(d.svc.Unsubscribe("", h.id))
			}
			h.gone = true
		} else {
			h := &hook{topic: topics[0], endpoint: endpoints[2+i]}
			var err error
			nd.Panics(func() { h.id, err = d.svc.Subscribe(h.topic, h.endpoint, "") })
			d.box.trouble = func() error { return nil }
			d.open()
			if !done(err) {
				nd.Cover("failed to register")
				// it may have been done just before
				for _, s := range d.svc.ListSubscriptionsForTopic(h.topic) {
					if s.NotifyAt() == h.endpoint {
						nd.Assert(stopped, "a registration is refused and in force")
						must(d.svc.Unsubscribe("", s.Id()))
					}
				}
			} else {
				d.hooks = append(d.hooks, h)
			}
		}
		d.checkAll()
	}
}

// Registrations at the same time.
//
//verif:harness prop=C29 time=90
//verif:bound two requests (registration or removal) at a time on two registrations, every order of their storage accesses with up to two (thorough four) switches
func hHooksRace() {
	d := openDesk()
	for i := 0; i < 2; i++ {
		_, err := d.register(topics[0], false)
		must(err)
	}
	d.box.trouble = func() error { nd.Yield(); return nil }
	nd.Schedule(nd.Bound("switches", 2, 4))
	for i := 0; i < 2; i++ {
		h := d.hooks[i]
		if nd.Bool("removal") {
			h.gone = true
			nd.Go(func() { must(d.svc.Unsubscribe("", h.id)) })
		} else {
			h := &hook{topic: topics[0], endpoint: endpoints[2+i]}
			d.hooks = append(d.hooks, h)
			nd.Go(func() {
				id, err := d.svc.Subscribe(h.topic, h.endpoint, "")
				must(err)
				h.id = id
			})
		}
	}
	nd.RunTasks()
	d.box.trouble = func() error { return nil }
	nd.Schedule(0)
	d.checkAll()
}
