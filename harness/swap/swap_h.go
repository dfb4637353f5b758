//verif:file pkg=pkg/swap props=C19
package swap

import (
	"encoding/hex"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"google.golang.org/protobuf/proto"
)

func anyEntry(label string, in bool) entry {
	e := entry{asset: nd.Choice(label+" asset", 2), value: nd.Uint64(label+" amount", 1, maxValue), script: true}
	switch nd.Choice(label+" kind", 4) {
	case 1:
		e.hidden = true
	case 2:
		e.hidden, e.key = true, 1+nd.Choice(label+" key", 2)
	case 3:
		if in {
			e.legacy = true
			e.lost = nd.Bool(label + " lost")
		} else {
			e.asset = 2
		}
	}
	return e
}

type build struct {
	ins, outs       []entry
	tx              *pset.Pset
	inKeys, outKeys map[string][]byte
}

func anyTx(label string, base, nIn, nOut int) build {
	b := build{tx: emptyPset(nIn, nOut), inKeys: map[string][]byte{}, outKeys: map[string][]byte{}}
	for i := 0; i < nIn; i++ {
		e := anyEntry(label+" input", true)
		spend(b.tx, i, e, base+i)
		give(b.inKeys, e, base+i)
		b.ins = append(b.ins, e)
	}
	for i := 0; i < nOut; i++ {
		e := anyEntry(label+" output", false)
		b.tx.UnsignedTx.Outputs = append(b.tx.UnsignedTx.Outputs, out(e, base+10+i))
		give(b.outKeys, e, base+10+i)
		b.outs = append(b.outs, e)
	}
	return b
}

// readable tells whether every coin and output can be read with the given keys.
func (b build) readable() bool {
	ok := true
	for _, e := range append(append([]entry{}, b.ins...), b.outs...) {
		ok = nd.And(ok, e.seen(), !e.lost)
	}
	return ok
}

func (b build) supplies(asset int, v uint64) bool {
	s := uint64(0)
	for _, e := range b.ins {
		if e.asset == asset && e.seen() && !e.lost {
			s += e.value
		}
	}
	return s >= v
}

func (b build) pays(asset int, v uint64) bool {
	r := false
	for _, e := range b.outs {
		if e.asset == asset && e.seen() {
			r = nd.Or(r, e.value == v)
		}
	}
	return r
}

// The final transaction of a swap.
//
//verif:harness prop=C19 time=120
//verif:bound amounts 1..2.1e15 over two assets plus a foreign one; every input witness or legacy, explicit or confidential, with the right, a wrong or no key, or without its previous output
func hFinal() {
	nIn := 1 + nd.Choice("inputs", 2)
	nOut := nd.Bound("outputs", 2, 2)
	b := anyTx("tx", 0, nIn, nOut)
	req := &pb.SwapRequest{
		AssetP: assets[0], AmountP: nd.Uint64("amount p", 1, maxValue),
		AssetR: assets[1], AmountR: nd.Uint64("amount r", 1, maxValue),
	}
	err := ValidateCompletePset(ValidateCompletePsetOpts{
		PsetBase64: b64(b.tx), InputBlindingKeys: b.inKeys, OutputBlindingKeys: b.outKeys, SwapRequest: req,
	})
	good := nd.And(b.supplies(0, req.AmountP), b.supplies(1, req.AmountR), b.pays(0, req.AmountP), b.pays(1, req.AmountR))
	if err == nil {
		nd.Assert(good, "a transaction that does not pay what was agreed matches")
	} else {
		nd.Assert(nd.Or(!good, !b.readable()), "a transaction paying what was agreed does not match")
	}
}

// Request and accept messages against their transactions.
//
//verif:harness prop=C19 time=120
func hMessages() {
	r := anyTx("request", 0, 1, 1)
	req := &pb.SwapRequest{
		Id:     "request",
		AssetP: assets[0], AmountP: nd.Uint64("amount p", 1, maxValue),
		AssetR: assets[1], AmountR: nd.Uint64("amount r", 1, maxValue),
		Transaction: b64(r.tx), InputBlindingKey: r.inKeys, OutputBlindingKey: r.outKeys,
	}
	good := nd.And(r.supplies(0, req.AmountP), r.pays(1, req.AmountR))
	read := r.readable()
	var acc *pb.SwapAccept
	if nd.Bool("accepted") {
		a := anyTx("accept", 3, 1, 1)
		acc = &pb.SwapAccept{Id: "accept", RequestId: "request", Transaction: b64(a.tx), InputBlindingKey: a.inKeys, OutputBlindingKey: a.outKeys}
		if nd.Bool("foreign") {
			acc.RequestId = "other"
		}
		good = nd.And(good, a.supplies(1, req.AmountR), a.pays(0, req.AmountP), acc.RequestId == req.Id)
		read = nd.And(read, a.readable())
	}
	err := compareMessagesAndTransaction(req, acc)
	if err == nil {
		nd.Assert(good, "messages that do not match their transactions are accepted")
	} else {
		nd.Assert(nd.Or(!good, !read), "matching messages are refused")
	}
}

// msgTx is a transaction of 1-2 inputs and outputs with key maps that may lack entries.
func msgTx() (string, map[string][]byte, map[string][]byte, bool) {
	if nd.Bool("garbled") {
		return "garbage", nil, nil, false
	}
	nIn, nOut := 1+nd.Choice("inputs", 2), nd.Choice("outputs", 3)
	p := emptyPset(nIn, nOut)
	inKeys, outKeys := map[string][]byte{}, map[string][]byte{}
	needIn, needOut := nd.Bool("input keys"), nd.Bool("output keys")
	ok := true
	for i := 0; i < nIn; i++ {
		e := entry{value: 5, script: true, key: nd.Choice("input key", 2) * 2}
		switch nd.Choice("input kind", 4) {
		case 1:
			e.legacy = true
		case 2:
			e.legacy, e.lost = true, true
		case 3:
			e.lost = true
		}
		spend(p, i, e, i)
		give(inKeys, e, i)
		ok = ok && !e.lost && (e.key == 0 || !needIn)
	}
	for i := 0; i < nOut; i++ {
		e := entry{value: 6, script: true}
		switch nd.Choice("output kind", 3) {
		case 1:
			e.key = 2
		case 2:
			e.script = false
		}
		p.UnsignedTx.Outputs = append(p.UnsignedTx.Outputs, out(e, 10+i))
		if e.script {
			give(outKeys, e, 10+i)
			ok = ok && (e.key == 0 || !needOut)
		}
	}
	if !needIn {
		inKeys = nil
	}
	if !needOut {
		outKeys = nil
	}
	return b64(p), inKeys, outKeys, ok
}

func sameKeys(a, b map[string][]byte) bool {
	return len(a) == len(b) && (len(a) == 0 || nd.DeepEq(a, b))
}

// A request carries what it was given.
//
//verif:harness prop=C19 time=100
func hRequest() {
	tx, in, out, ok := msgTx()
	o := RequestOpts{
		AssetToSend: assets[0], AmountToSend: nd.Uint64("amount p", 0, 1<<64-1),
		AssetToReceive: assets[1], AmountToReceive: nd.Uint64("amount r", 0, 1<<64-1),
		PsetBase64: tx, InputBlindingKeys: in, OutputBlindingKeys: out,
	}
	if nd.Bool("named") {
		o.Id = "mine"
	}
	b, err := Request(o)
	nd.Assert((err == nil) == ok, "a request is judged wrongly")
	if err != nil {
		nd.Assert(b == nil, "a refused request has a message")
		return
	}
	var m pb.SwapRequest
	nd.Assert(proto.Unmarshal(b, &m) == nil, "a request cannot be read")
	nd.Assert(m.GetId() != "" && (o.Id == "" || m.GetId() == o.Id), "a request has another id")
	nd.Assert(nd.And(m.GetAmountP() == o.AmountToSend, m.GetAmountR() == o.AmountToReceive), "a request carries other amounts")
	nd.Assert(m.GetAssetP() == o.AssetToSend && m.GetAssetR() == o.AssetToReceive, "a request carries other assets")
	nd.Assert(m.GetTransaction() == tx, "a request carries another transaction")
	nd.Assert(sameKeys(m.GetInputBlindingKey(), in), "a request carries other input keys")
	nd.Known("request-output-keys", sameKeys(m.GetOutputBlindingKey(), in))
	nd.Assert(sameKeys(m.GetOutputBlindingKey(), out), "a request carries other output keys")
}

// An accept carries what it was given and refers to its request.
//
//verif:harness prop=C19 time=100
func hAccept() {
	tx, in, out, ok := msgTx()
	msg, err := proto.Marshal(&pb.SwapRequest{Id: "the request", AmountP: 1})
	nd.Assert(err == nil, "cannot encode")
	if nd.Bool("unreadable request") {
		msg, ok = []byte{255, 255, 255}, false
	}
	id, b, err := Accept(AcceptOpts{Message: msg, PsetBase64: tx, InputBlindingKeys: in, OutputBlindingKeys: out})
	nd.Assert((err == nil) == ok, "an accept is judged wrongly")
	if err != nil {
		nd.Assert(id == "" && b == nil, "a refused accept has a message")
		return
	}
	var m pb.SwapAccept
	nd.Assert(proto.Unmarshal(b, &m) == nil, "an accept cannot be read")
	nd.Assert(id != "" && m.GetId() == id, "an accept has another id than told")
	nd.Assert(m.GetRequestId() == "the request", "an accept refers to another request")
	nd.Assert(m.GetTransaction() == tx, "an accept carries another transaction")
	nd.Assert(sameKeys(m.GetInputBlindingKey(), in), "an accept carries other input keys")
	nd.Assert(sameKeys(m.GetOutputBlindingKey(), out), "an accept carries other output keys")
}

// A completion needs a fully signed transaction and refers to its accept.
//
//verif:harness prop=C19 time=100
func hComplete() {
	msg, err := proto.Marshal(&pb.SwapAccept{Id: "the accept", RequestId: "the request"})
	nd.Assert(err == nil, "cannot encode")
	ok := true
	if nd.Bool("unreadable accept") {
		msg, ok = []byte{255, 255, 255}, false
	}
	tx := ""
	switch nd.Choice("transaction", 5) {
	case 0:
		n := 1 + nd.Choice("inputs", 3)
		p := emptyPset(n, 1)
		p.UnsignedTx.Outputs = append(p.UnsignedTx.Outputs, plain(assets[0], 4, 10))
		for i := 0; i < n; i++ {
			spend(p, i, entry{value: 5, script: true}, i)
			switch nd.Choice("signature", 3) {
			case 0:
				sign(p, i, i, true)
			case 1:
				sign(p, i, i, false)
				ok = false
			default:
				ok = false
			}
		}
		tx = b64(p)
	case 1:
		tx, ok = "garbage", false
	case 2:
		tx, ok = "00ff", false
	case 3:
		tx = hex.EncodeToString(rawTx())
	case 4:
		tx, ok = "", false
	}
	id, b, err := Complete(CompleteOpts{Message: msg, Transaction: tx})
	nd.Assert((err == nil) == ok, "a completion is judged wrongly")
	if err != nil {
		nd.Assert(id == "" && b == nil, "a refused completion has a message")
		return
	}
	var m pb.SwapComplete
	nd.Assert(proto.Unmarshal(b, &m) == nil, "a completion cannot be read")
	nd.Assert(id != "" && m.GetId() == id, "a completion has another id than told")
	nd.Assert(m.GetAcceptId() == "the accept", "a completion refers to another accept")
	nd.Assert(m.GetTransaction() == tx, "a completion carries another transaction")
}

// rawTx is a small serialized transaction (no input, one explicit output).
func rawTx() []byte {
	b := []byte{2, 0, 0, 0, 0, 1}
	b = append(b, make([]byte, 32)...)
	b = append(b, 0, 0, 0, 0, 0, 255, 255, 255, 255, 1)
	o := plain(assets[0], 4, 10)
	b = append(b, o.Asset...)
	b = append(b, o.Value...)
	b = append(b, 0, 22)
	b = append(b, o.Script...)
	return append(b, 0, 0, 0, 0)
}

// A failure names the message it is about.
//
//verif:harness prop=C19 time=60
func hFail() {
	code := nd.Int("code", 0, 2)
	id, b, err := Fail(FailOpts{MessageID: "some message", ErrCode: ErrCode(code), ErrMessage: "why"})
	nd.Assert(err == nil, "a failure cannot be told")
	var m pb.SwapFail
	nd.Assert(proto.Unmarshal(b, &m) == nil, "a failure cannot be read")
	nd.Assert(id != "" && m.GetId() == id, "a failure has another id than told")
	nd.Assert(m.GetMessageId() == "some message", "a failure is about another message")
	nd.Assert(m.GetFailureCode() == uint32(code), "a failure has another code")
	nd.Assert(len(m.GetFailureMessage()) > 3, "a failure does not tell why")
}
