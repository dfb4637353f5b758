//verif:file pkg=pkg/crawler props=C30
package crawler

import (
	"context"
	"errors"
	"strconv"
	"sync"
	"time"

	"github.com/sony/gobreaker"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/circuitbreaker"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"golang.org/x/time/rate"
)

//verif:model github.com/sony/gobreaker.NewCircuitBreaker
func mBreaker(s gobreaker.Settings) *gobreaker.CircuitBreaker { return &gobreaker.CircuitBreaker{} }

// The breaker is closed.
//
//verif:model (*github.com/sony/gobreaker.CircuitBreaker).Execute
func mExecute(b *gobreaker.CircuitBreaker, f func() (interface{}, error)) (interface{}, error) {
	return f()
}

//verif:model golang.org/x/time/rate.Every
func mEvery(d time.Duration) rate.Limit { return 1 }

//verif:model golang.org/x/time/rate.NewLimiter
func mLimiter(l rate.Limit, b int) *rate.Limiter { return &rate.Limiter{} }

// Requests are within the limit.
//
//verif:model (*golang.org/x/time/rate.Limiter).Wait
func mWait(l *rate.Limiter, ctx context.Context) error { return nil }

// clock is a running ticker.
type clock struct {
	t *time.Ticker
	c chan time.Time
}

var clocks []*clock

//verif:model time.NewTicker
func mTicker(d time.Duration) *time.Ticker {
	c := &clock{&time.Ticker{}, make(chan time.Time, 1)}
	c.t.C = c.c
	clocks = append(clocks, c)
	return c.t
}

//verif:model (*time.Ticker).Stop
func mStopTicker(t *time.Ticker) {
	for i, c := range clocks {
		if c.t == t {
			clocks = append(clocks[:i:i], clocks[i+1:]...)
			return
		}
	}
}

const (
	interval = 4 * time.Millisecond
	periods  = 10
)

// chain is the explorer.
type chain struct {
	explorer.Service
	lock    sync.Mutex
	coins   map[string][]explorer.Utxo
	status  map[string]map[string]interface{}
	hex     map[string]string
	fails   map[string]int // number of calls about it yet to fail
	before  func(item string)
	answers int
}

var errDown = errors.New("explorer is down")

func (c *chain) call(item string) error {
	if c.before != nil {
		c.before(item)
	}
	c.lock.Lock()
	defer c.lock.Unlock()
	c.answers++
	if c.fails[item] > 0 {
		c.fails[item]--
		return errDown
	}
	return nil
}

func (c *chain) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := c.call(addr); err != nil {
		return nil, err
	}
	nd.Assert(len(keys) == 1 && string(keys[0]) == "key of "+addr, "an address is looked up with another key")
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.coins[addr], nil
}

func (c *chain) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	if err := c.call(txid); err != nil {
		return nil, err
	}
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.status[txid], nil
}

func (c *chain) GetTransactionHex(txid string) (string, error) {
	if err := c.call("hex of " + txid); err != nil {
		return "", err
	}
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.hex[txid], nil
}

// coin is what the explorer knows of an output.
type coin struct {
	explorer.Utxo
	id string
}

func (c coin) Hash() string { return c.id }

// tower is a crawler being listened to.
type tower struct {
	svc    Service
	chain  *chain
	lock   sync.Mutex
	errs   int
	closed bool
	done   chan bool
}

func newTower() *tower {
	clocks = nil
	circuitbreaker.MaxNumOfFailingRequests = 1 << 30
	t := &tower{
		chain: &chain{coins: map[string][]explorer.Utxo{}, status: map[string]map[string]interface{}{}, hex: map[string]string{}, fails: map[string]int{}},
		done:  make(chan bool, 1),
	}
	t.svc = NewService(Opts{
		ExplorerSvc: t.chain, CrawlerInterval: interval, ExplorerLimit: 1000, ExplorerTokenBurst: 1000,
		ErrorHandler: func(err error) {
			nd.Assert(err == errDown, "another error is reported")
			t.lock.Lock()
			defer t.lock.Unlock()
			t.errs++
		},
	})
	nd.Go(func() {
		t.svc.Start()
		t.done <- true
	})
	return t
}

// rest lets everything that was started come to a rest.
func (t *tower) rest() {
	if nd.Symbolic() {
		nd.RunTasks()
		return
	}
	time.Sleep(interval)
}

// tick lets the time of one observation (natively of some) go by and returns
// the events emitted.
func (t *tower) tick() []Event {
	if nd.Symbolic() {
		ring()
		nd.RunTasks()
	} else {
		time.Sleep(periods * interval)
	}
	return t.events()
}

func (t *tower) events() (l []Event) {
	for {
		select {
		case e := <-t.svc.GetEventChannel():
			l = append(l, e)
		default:
			return
		}
	}
}

func (t *tower) isDone() bool {
	t.rest()
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

// item is something to watch.
type item struct {
	id      string
	address bool
	account int
}

func (i item) observable() Observable {
	if i.address {
		return NewAddressObservable(i.account, i.id, []byte("key of "+i.id))
	}
	return NewTransactionObservable(i.id)
}

var items = []item{{"address of fees", true, 0}, {"address of a market", true, 5}, {"tx", false, 0}, {"another tx", false, 0}}

// state sets what the explorer knows of an item.
func (t *tower) state(i item, n int) {
	t.chain.lock.Lock()
	defer t.chain.lock.Unlock()
	if i.address {
		t.chain.coins[i.id] = nil
		for k := 0; k < n; k++ {
			t.chain.coins[i.id] = append(t.chain.coins[i.id], coin{id: "coin of " + i.id + strconv.Itoa(k)})
		}
		return
	}
	t.chain.hex[i.id] = "hex of " + i.id
	t.chain.status[i.id] = []map[string]interface{}{
		{"confirmed": false},
		{"confirmed": true, "block_hash": "hash " + i.id, "block_time": 1600000000.0, "block_height": 7.0},
		{"confirmed": "yes", "block_hash": 3.0},
		nil,
	}[n]
}

// settle lets everything go that was emitted under a former state.
func (t *tower) settle() {
	t.rest()
	t.events()
}

// matches checks one event of an item.
func (t *tower) matches(i item, e Event) {
	if i.address {
		a, ok := e.(AddressEvent)
		want := t.chain.coins[i.id]
		nd.Assert(ok && a.Address == i.id && a.AccountIndex == i.account, "an address is reported with another account")
		kind := MarketAccountDeposit
		if i.account == 0 {
			kind = FeeAccountDeposit
		}
		nd.Assert(a.Type() == kind, "a deposit is reported for another kind of account")
		nd.Assert(len(a.Utxos) == len(want), "other coins than those of the address are reported")
		for n := range want {
			nd.Assert(a.Utxos[n] == want[n], "other coins than those of the address are reported")
		}
		return
	}
	x, ok := e.(TransactionEvent)
	s := t.chain.status[i.id]
	nd.Assert(ok && x.TxID == i.id, "a transaction is reported under another id")
	confirmed, _ := s["confirmed"].(bool)
	nd.Assert((x.Type() == TransactionConfirmed) == confirmed && (x.Type() == TransactionUnConfirmed) == !confirmed, "a transaction is reported in another state")
	if confirmed {
		nd.Cover("confirmed")
		nd.Assert(x.TxHex == t.chain.hex[i.id], "a confirmed transaction is reported without its hex")
		nd.Assert(x.BlockHash == "hash "+i.id && x.BlockTime == 1600000000.0, "a transaction is reported in another block")
	} else {
		nd.Assert(x.TxHex == "" || x.TxHex == t.chain.hex[i.id], "a transaction is reported with another hex")
	}
}

func keyOf(e Event) string {
	switch x := e.(type) {
	case AddressEvent:
		return x.Address
	case TransactionEvent:
		return x.TxID
	}
	return ""
}

// watched checks that exactly the given items are watched.
func (t *tower) watched(want map[string]bool) {
	for n, i := range items {
		nd.Assert(t.svc.IsObservingAddresses([]string{i.id}) == want[i.id], "an item is not reported as watched exactly while it is")
		for _, j := range items[:n] {
			nd.Assert(t.svc.IsObservingAddresses([]string{i.id, j.id}) == (want[i.id] && want[j.id]), "two items are not reported as watched exactly while both are")
		}
	}
	nd.Assert(!t.svc.IsObservingAddresses(nil), "nothing is reported as watched")
}

// sees lets time go by and checks the events.
func (t *tower) sees(want map[string]bool) {
	start := time.Time{}
	if !nd.Symbolic() {
		start = time.Now()
	}
	n := map[string]int{}
	for _, e := range t.tick() {
		n[keyOf(e)]++
		nd.Assert(want[keyOf(e)], "an event is emitted for an item that is not watched")
		for _, i := range items {
			if i.id == keyOf(e) {
				t.matches(i, e)
			}
		}
	}
	most := 1
	if !nd.Symbolic() {
		most = int(time.Since(start)/interval) + 3
	}
	for _, i := range items {
		if want[i.id] {
			nd.Assert(n[i.id] > 0, "a watched item is not observed")
			nd.Assert(n[i.id] <= most, "an item is observed more than once at a time")
			nd.Cover("observed")
		}
	}
}

// Any history of watching and forgetting.
//
//verif:harness prop=C30 time=90
//verif:bound up to four (thorough five) requests to watch or forget (fresh values of) one of an address of fees, an address of a market and two transactions, one right after the other or with the watching getting started in between, then two observations of each
//verif:assume the rate of requests is within its limit and the circuit breaker of an item is closed
func hWatch() {
	nd.FreeGo()
	t := newTower()
	want := map[string]bool{}
	for _, i := range items {
		t.state(i, 1)
	}
	wait := nd.Bool("wait")
	n := nd.Choice("requests", nd.Bound("requests", 5, 6))
	for k := 0; k < n; k++ {
		i := items[nd.Choice("item", len(items))]
		if nd.Bool("watch") {
			t.svc.AddObservable(i.observable())
			want[i.id] = true
		} else {
			t.svc.RemoveObservable(i.observable())
			want[i.id] = false
		}
		if wait {
			t.rest()
		}
	}
	t.watched(want)
	t.settle()
	t.sees(want)
	t.sees(want)
	t.watched(want)
	nd.Assert(t.errs == 0, "an error is reported though nothing failed")
}

// Everything the explorer may answer over time.
//
//verif:harness prop=C30 time=90
//verif:bound an address of fees, an address of a market or a transaction next to another watched item, two (thorough three) observations, each with any state of the item and with any call of the explorer about it failing, then one without failure
//verif:assume the rate of requests is within its limit and the circuit breaker of an item is closed
func hReport() {
	nd.FreeGo()
	t := newTower()
	i, other := items[nd.Choice("item", 3)], items[3]
	t.state(other, 1)
	want := map[string]bool{i.id: true, other.id: true}
	t.svc.AddObservable(other.observable())
	t.state(i, nd.Choice("state", 3))
	first := true
	for n := 0; n < nd.Bound("observations", 2, 3); n++ {
		fails, hex := nd.Bool("fails"), false
		if !i.address {
			hex = nd.Bool("hex fails")
		}
		t.chain.lock.Lock()
		t.chain.fails[i.id], t.chain.fails["hex of "+i.id] = 0, 0
		if fails {
			t.chain.fails[i.id] = 1000
		}
		if hex {
			t.chain.fails["hex of "+i.id] = 1000
		}
		t.chain.lock.Unlock()
		if first {
			t.svc.AddObservable(i.observable())
			first = false
		}
		t.settle()
		t.errs = 0
		seen := 0
		for _, e := range t.tick() {
			nd.Assert(want[keyOf(e)], "an event is emitted for an item that is not watched")
			if keyOf(e) == i.id {
				seen++
				t.matches(i, e)
			} else {
				t.matches(other, e)
			}
		}
		if fails {
			nd.Assert(seen == 0, "an item is reported though the explorer failed")
			nd.Assert(t.errs > 0, "a failure of the explorer is not reported")
			nd.Cover("failed")
		}
		if !hex && !fails {
			nd.Assert(seen > 0, "a watched item is not observed")
		}
		t.state(i, nd.Choice("state", 3))
	}
	t.chain.lock.Lock()
	t.chain.fails = map[string]int{}
	t.chain.lock.Unlock()
	t.settle()
	t.sees(want)
	t.watched(want)
}

// together runs what comes at the same time, natively for a while.
func together(switches int, f ...func()) {
	if !nd.Symbolic() {
		for _, g := range f {
			nd.Go(g)
			time.Sleep(interval / 2)
		}
		time.Sleep(periods * interval)
		return
	}
	nd.Delays(switches)
	for _, g := range f {
		nd.Go(g)
	}
	nd.RunTasks()
	nd.Schedule(-1)
}

// Stopping while an observation is under way.
//
//verif:harness prop=C30 time=60
//verif:bound up to two watched items, the first of them possibly forgotten, the crawler stopped once or twice while the explorer is being asked about them, which then answers or fails; every order of the steps that deviates up to three (thorough four) times from letting each goroutine run as long as it can; then requests to watch and forget
//verif:assume the rate of requests is within its limit and the circuit breaker of an item is closed
func hStop() {
	nd.FreeGo()
	t := newTower()
	asked, answer := make(chan bool, 100), make(chan bool)
	t.chain.before = func(string) { asked <- true; <-answer }
	n := nd.Choice("watched", 3)
	if n > 0 && nd.Bool("fails") {
		t.chain.fails[items[0].id] = 1
	}
	for _, i := range items[:n] {
		t.state(i, 1)
		t.svc.AddObservable(i.observable())
	}
	if nd.Bool("observing") {
		ring()
		t.rest()
		if n > 0 && !nd.Symbolic() {
			<-asked
		}
	}
	forget := n > 0 && nd.Bool("forget")
	if forget {
		t.svc.RemoveObservable(items[0].observable())
		nd.Assert(!t.svc.IsObservingAddresses([]string{items[0].id}), "a forgotten item is reported as watched")
	}
	stopped := make(chan bool, 2)
	stop := func() { t.svc.Stop(); stopped <- true }
	stops := 1
	if nd.Bool("twice") {
		stops = 2
		together(nd.Bound("delays", 3, 4), stop, stop, func() { close(answer) })
	} else {
		together(nd.Bound("delays", 3, 4), stop, func() { close(answer) })
	}
	nd.Assert(len(stopped) == stops, "stopping hangs")
	nd.Assert(t.isDone(), "the handling of errors is left running")
	closing := 0
	for _, e := range t.events() {
		if e.Type() == CloseSignal {
			closing++
		}
	}
	nd.Assert(closing == 1, "the listener is not told once that the crawler stopped")
	t.svc.RemoveObservable(items[0].observable())
	t.svc.AddObservable(items[1].observable())
	t.svc.AddObservable(items[2].observable())
	t.svc.RemoveObservable(items[2].observable())
	nd.Assert(len(t.tick()) == 0, "items are observed after the crawler stopped")
	t.svc.Stop()
}

// ring lets the time of an observation come.
func ring() {
	for _, c := range clocks {
		select {
		case c.c <- time.Time{}:
		default:
		}
	}
}

// slow is an item whose key takes time to tell, so that other requests may come
// in between.
type slow struct{ Observable }

func (s slow) Key() string {
	k := s.Observable.Key()
	if nd.Symbolic() {
		nd.Yield()
	} else {
		time.Sleep(interval)
	}
	return k
}

// Watching and forgetting at the same time.
//
//verif:harness prop=C30 time=60
//verif:bound a transaction watched or not, then two (thorough three) requests to watch or forget it or to ask whether it is watched at the same time, also between looking up an item and changing the list, in every order of the steps that deviates up to three times from letting each goroutine run as long as it can; then two observations
//verif:assume the rate of requests is within its limit and the circuit breaker of an item is closed
func hWatchRace() {
	nd.FreeGo()
	t := newTower()
	i := items[2]
	t.state(i, 1)
	if nd.Bool("watched") {
		t.svc.AddObservable(i.observable())
		if nd.Bool("wait") {
			t.rest()
		}
	}
	observable := i.observable
	if nd.Bool("slow") {
		observable = func() Observable { return slow{i.observable()} }
	}
	var f []func()
	add, remove := false, false
	for n := 0; n < nd.Bound("requests", 2, 3); n++ {
		switch nd.Choice("request", 3) {
		case 0:
			add = true
			f = append(f, func() { t.svc.AddObservable(observable()) })
		case 1:
			remove = true
			f = append(f, func() { t.svc.RemoveObservable(observable()) })
		case 2:
			f = append(f, func() { t.svc.IsObservingAddresses([]string{i.id}) })
		}
	}
	together(3, f...)
	is := t.svc.IsObservingAddresses([]string{i.id})
	if !remove && add {
		nd.Assert(is, "an item is not watched though it was to be")
	}
	if remove && !add {
		nd.Assert(!is, "an item is watched though it was to be forgotten")
	}
	t.settle()
	t.sees(map[string]bool{i.id: is})
	t.sees(map[string]bool{i.id: is})
}

// Stopping while the listener is busy.
//
//verif:harness prop=C30 time=60
//verif:bound a watched transaction with the queue of events being full to the last or last but one place, a listener that forgets the item on an event, as the daemon does, and a stop at the same time; every order of the steps that deviates up to two (thorough three) times from letting each goroutine run as long as it can
//verif:assume the rate of requests is within its limit and the circuit breaker of an item is closed
func hStopFull() {
	nd.FreeGo()
	t := newTower()
	t.state(items[2], 1)
	t.svc.AddObservable(items[2].observable())
	for c, places := t.svc.GetEventChannel(), nd.Choice("places", 2); len(c) < cap(c)-places; {
		c <- TransactionEvent{TxID: items[2].id, EventType: TransactionConfirmed}
	}
	if nd.Bool("observing") {
		ring()
		t.rest()
	}
	stopped, closed := make(chan bool, 1), make(chan bool, 1)
	together(nd.Bound("delays", 2, 3), func() { t.svc.Stop(); stopped <- true }, func() {
		for n := 0; ; n++ {
			e := <-t.svc.GetEventChannel()
			if e.Type() == CloseSignal {
				closed <- true
				return
			}
			if n == 0 || !nd.Symbolic() {
				t.svc.RemoveObservable(items[2].observable())
			}
		}
	})
	nd.Assert(len(stopped) == 1, "stopping hangs")
	nd.Assert(len(closed) == 1, "the listener is not told that the crawler stopped")
}
