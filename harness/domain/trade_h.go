//verif:file pkg=internal/core/domain props=C01,C02
package domain

import (
	"errors"

	"github.com/google/uuid"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// vSwapParser answers every serialisation with an arbitrary outcome.
type vSwapParser struct{}

func (vSwapParser) SerializeRequest(r SwapRequest) ([]byte, *SwapError) {
	if nd.Bool("serialize request fails") {
		return nil, &SwapError{errors.New("bad request"), 1}
	}
	return []byte("request message"), nil
}
func (vSwapParser) SerializeAccept(args AcceptArgs) (string, []byte, *SwapError) {
	if nd.Bool("serialize accept fails") {
		return "", nil, &SwapError{errors.New("bad accept"), 2}
	}
	return "new accept id", []byte("accept message"), nil
}
func (vSwapParser) SerializeComplete(accMsg []byte, tx string) (string, []byte, *SwapError) {
	if nd.Bool("serialize complete fails") {
		return "", nil, &SwapError{errors.New("bad complete"), 3}
	}
	return "new complete id", []byte("complete message"), nil
}
func (vSwapParser) SerializeFail(id string, code int, msg string) (string, []byte) {
	return "new fail id", []byte("fail message for " + id)
}
func (vSwapParser) DeserializeRequest(msg []byte) (SwapRequest, error)   { return nil, nil }
func (vSwapParser) DeserializeAccept(msg []byte) (SwapAccept, error)     { return nil, nil }
func (vSwapParser) DeserializeComplete(msg []byte) (SwapComplete, error) { return nil, nil }
func (vSwapParser) DeserializeFail(msg []byte) (SwapFail, error)         { return nil, nil }

type vPsetParser struct{}

func (vPsetParser) GetTxID(p string) (string, error)  { return "txid of " + p, nil }
func (vPsetParser) GetTxHex(p string) (string, error) { return "txhex of " + p, nil }

type vSwapRequest struct {
	p, r   uint64
	ap, ar string
}

func (s vSwapRequest) GetId() string                           { return "new request id" }
func (s vSwapRequest) GetAssetP() string                       { return s.ap }
func (s vSwapRequest) GetAmountP() uint64                      { return s.p }
func (s vSwapRequest) GetAssetR() string                       { return s.ar }
func (s vSwapRequest) GetAmountR() uint64                      { return s.r }
func (s vSwapRequest) GetTransaction() string                  { return "request pset" }
func (s vSwapRequest) GetInputBlindingKey() map[string][]byte  { return nil }
func (s vSwapRequest) GetOutputBlindingKey() map[string][]byte { return nil }

// vTrade is a trade in any stage, with whatever that stage has recorded.
func vTrade(label string) *Trade {
	code := Empty
	switch nd.Choice(label+" stage", 6) {
	case 1:
		code = Proposal
	case 2:
		code = Accepted
	case 3:
		code = Completed
	case 4:
		code = Settled
	case 5:
		code = Expired
	}
	failed := nd.Bool(label + " failed")
	expiry := nd.Uint64(label+" deadline", 0, 1<<40)
	settled := nd.Uint64(label+" settlement time", 0, 1<<40)
	t := &Trade{ID: uuid.UUID{7}, Status: Status{Code: code, Failed: failed}, ExpiryTime: expiry, SettlementTime: settled}
	switch code {
	case Empty:
		nd.Assume(nd.And(!failed, expiry == 0, settled == 0))
	case Proposal:
		nd.Assume(nd.And(expiry == 0, settled == 0))
	case Accepted, Completed:
		nd.Assume(nd.And(expiry > 0, settled == 0))
	case Settled:
		nd.Assume(nd.And(!failed, expiry == 0))
	case Expired:
		nd.Assume(nd.And(failed, expiry > 0, settled == 0))
	}
	if code >= Proposal {
		t.MarketQuoteAsset = "quote"
		t.TraderPubkey = []byte{1, 2}
		t.MarketFee = 25
		t.PsetBase64 = "request pset"
		t.SwapRequest = Swap{ID: "request id", Message: []byte("rm"), Timestamp: 11}
	}
	if code >= Accepted {
		t.PsetBase64 = "accept pset"
		t.TxID = "txid"
		t.SwapAccept = Swap{ID: "accept id", Message: []byte("am"), Timestamp: 12}
	}
	if code == Completed || (code > Completed && nd.Bool(label+" was completed")) {
		t.TxHex = "txhex"
		t.SwapComplete = Swap{ID: "complete id", Message: []byte("cm"), Timestamp: 13}
	}
	if failed && code != Expired {
		t.SwapFail = Swap{ID: "fail id", Message: []byte("fm")}
	}
	return t
}

func vCopy(t *Trade) *Trade {
	c := *t
	return &c
}

// One request of any kind on a trade in any stage.
//
//verif:harness prop=C01 time=100
//verif:bound one step (propose, accept, complete, settle, fail or expire) from an arbitrary trade of each of the six stages, failed or not; deadlines, settlement times, clock and durations arbitrary below 2^40 s; amounts 1..2^62; the serialiser succeeds or fails arbitrarily
func hTradeStep() {
	SwapParserManager = vSwapParser{}
	PsetParserManager = vPsetParser{}
	t := vTrade("trade")
	now := nd.Int64("clock", 1, 1<<40)
	nd.FixClock(now)
	pre := vCopy(t)
	op := nd.Choice("request", 6)
	refused := false
	switch op {
	case 0:
		req := vSwapRequest{p: nd.Uint64("amountP", 1, 1<<62), r: nd.Uint64("amountR", 1, 1<<62), ap: "quote", ar: "base"}
		_, err := t.Propose(req, "quote", 25, 0, 0, []byte{3})
		refused = err != nil
	case 1:
		_, err := t.Accept("accept pset 2", nil, nil, nd.Uint64("duration", 0, 1<<40))
		refused = err != nil
	case 2:
		tx := nd.Pick("tx", "00ff", "pset")
		res, err := t.Complete(tx)
		refused = err != nil
		nd.Assert(nd.Imp(res != nil && res.OK, nd.Or(t.Status.Code == Completed, t.Status.Code == Settled)), "a completion is acknowledged only for a completed trade")
	case 3:
		ok, err := t.Settle(nd.Uint64("block time", 0, 1<<40))
		refused = err != nil
		nd.Assert(nd.Imp(ok, t.Status.Code == Settled), "settling acknowledged without settling")
	case 4:
		t.Fail("some id", 9, "failed")
		nd.Assert(t.Status.Failed || pre.Status.Code == Settled, "fail did not mark the trade failed")
	case 5:
		ok, err := t.Expire()
		refused = err != nil
		nd.Assert(nd.Imp(ok, t.Status.Code == Expired), "expiry acknowledged without expiring")
	}
	a, b := pre.Status, t.Status
	// forward only, from the right stage, by the right request
	allowed := nd.Or(
		a.Code == b.Code,
		nd.And(op == 0, a.Code == Empty, b.Code == Proposal),
		nd.And(op == 1, a.Code == Proposal, !a.Failed, b.Code == Accepted, !b.Failed),
		nd.And(op == 2, a.Code == Accepted, !a.Failed, b.Code == Completed, !b.Failed),
		nd.And(op == 3, nd.Or(a.Code == Accepted, a.Code == Completed, a.Failed), b.Code == Settled, !b.Failed),
		nd.And(op == 5, nd.Or(a.Code == Accepted, a.Code == Completed), b.Code == Expired, b.Failed),
	)
	nd.Assert(allowed, "stage moved in a way the life cycle forbids")
	nd.Assert(nd.Imp(a.Failed && !b.Failed, op == 3 && b.Code == Settled), "failure mark cleared")
	if a.Code == b.Code {
		if a.Failed == b.Failed {
			nd.Assert(nd.DeepEq(*pre, *t), "a request that changed nothing in the stage changed recorded data")
		} else {
			// newly failed: only the failure is recorded
			x := vCopy(t)
			x.Status.Failed = false
			x.SwapFail = pre.SwapFail
			nd.Assert(nd.DeepEq(*pre, *x), "failing a trade changed other recorded data")
		}
	} else {
		nd.Assert(!refused, "a refused request moved the stage")
		nd.Cover("moved to " + []string{"empty", "undefined", "proposal", "accepted", "completed", "settled", "expired"}[b.Code+1])
		if op != 0 {
			nd.Assert(nd.DeepEq(pre.SwapRequest, t.SwapRequest), "request record changed by a later request")
		}
		if op > 1 {
			nd.Assert(nd.DeepEq(pre.SwapAccept, t.SwapAccept) && pre.TxID == t.TxID, "accept record changed by a later request")
		}
		if op > 2 {
			nd.Assert(nd.DeepEq(pre.SwapComplete, t.SwapComplete) && pre.TxHex == t.TxHex, "complete record changed by a later request")
		}
		if op == 1 {
			nd.Assert(t.SwapAccept.ID == "new accept id" && string(t.SwapAccept.Message) == "accept message" && t.SwapAccept.Timestamp == uint64(now) && t.PsetBase64 == "accept pset 2" && t.TxID == "txid of accept pset 2", "accept not recorded")
		}
		if op == 2 {
			nd.Assert(t.SwapComplete.ID == "new complete id" && string(t.SwapComplete.Message) == "complete message" && t.SwapComplete.Timestamp == uint64(now), "complete not recorded")
		}
		if op == 0 && !b.Failed {
			nd.Assert(t.SwapRequest.ID == "new request id" && string(t.SwapRequest.Message) == "request message" && t.SwapRequest.Timestamp == uint64(now) && t.PsetBase64 == "request pset", "request not recorded")
		}
	}
	nd.Assert(t.ID == pre.ID, "identity of the trade changed")
	nd.Observe("status", b.Code)
	nd.Observe("failed", b.Failed)
}

// Accept, then complete, settle or expire at any later times.
//
//verif:harness prop=C02 time=100
//verif:bound a proposal accepted at any time with any duration (below 2^40 s), then up to three further requests (complete, settle, expire, fail) at arbitrary non-decreasing times
func hDeadline() {
	SwapParserManager = vSwapParser{}
	PsetParserManager = vPsetParser{}
	t := &Trade{Status: ProposalStatus, SwapRequest: Swap{ID: "request id", Message: []byte("rm")}, PsetBase64: "request pset"}
	nd.FixClock(nd.Int64("first expiry request", 1, 1<<40))
	ok, err := t.Expire()
	nd.Assert(!ok && err != nil && t.Status == ProposalStatus, "a trade without a deadline was marked expired")
	now := nd.Int64("accept time", 1, 1<<40)
	dur := nd.Uint64("duration", 0, 1<<40)
	nd.FixClock(now)
	ok, err = t.Accept("accept pset 2", nil, nil, dur)
	if !ok || err != nil {
		nd.Assert(t.ExpiryTime == 0 && t.Status.Code == Proposal, "a deadline was set without acceptance")
		return
	}
	deadline := uint64(now) + dur
	nd.Assert(t.ExpiryTime == deadline, "deadline is not acceptance time plus duration")
	settled := false
	for i := 0; i < nd.Bound("requests", 3, 4); i++ {
		now += nd.Int64("wait", 0, 1<<40)
		nd.FixClock(now)
		late := uint64(now) >= deadline
		pre := t.Status
		preTrade := vCopy(t)
		switch nd.Choice("request", 4) {
		case 0:
			res, err := t.Complete(nd.Pick("tx", "00ff", "pset"))
			acc := res != nil && res.OK && err == nil
			if pre.Code == Accepted {
				nd.Assert(nd.Imp(late, nd.And(!acc, t.Status.Code == Accepted)), "completed at or after the deadline")
				nd.Assert(nd.Imp(nd.And(!late, !pre.Failed), err == nil), "completion before the deadline refused")
				nd.Assert(nd.Imp(nd.And(!late, !pre.Failed, !t.Status.Failed), nd.And(acc, t.Status.Code == Completed)), "completion before the deadline not recorded")
				if acc {
					nd.Cover("completed in time")
				}
			}
			if pre.Code == Expired {
				nd.Assert(!acc, "expired trade acknowledged as completed")
				nd.Cover("complete after expiry")
			}
		case 1:
			ok, err := t.Settle(nd.Uint64("block time", 0, 1<<40))
			settled = settled || (ok && err == nil)
		case 2:
			ok, err := t.Expire()
			done := ok && err == nil
			nd.Assert(nd.Imp(done, late), "expired before the deadline")
			nd.Assert(nd.Imp(settled, nd.And(!done, t.Status.Code == Settled)), "settled trade marked expired")
			nd.Assert(nd.Imp(nd.And(!settled, late), nd.And(done, t.Status.Code == Expired)), "trade past its deadline could not be marked expired")
			if !done {
				nd.Assert(nd.DeepEq(*preTrade, *t), "refused expiry changed the trade")
			} else {
				nd.Cover("expired")
			}
		case 3:
			t.Fail("x", 1, "y")
		}
		nd.Assert(nd.Or(settled, t.ExpiryTime == deadline), "deadline moved")
		nd.Assert(nd.Imp(!settled, nd.Iff(t.IsExpired(), nd.Or(late, t.Status.Code == Expired))), "expiry state does not follow the deadline")
	}
	nd.Observe("status", t.Status.Code)
}
