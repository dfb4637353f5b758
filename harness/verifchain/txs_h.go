//verif:file pkg=internal/verifchain props=C42
package verifchain

import (
	"bytes"
	"encoding/hex"
	"strings"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/vulpemventures/go-elements/transaction"
)

func hexOf(n byte) string { return hex.EncodeToString(bytes.Repeat([]byte{n}, 20)) }

// The transactions of an address are asked for.
//
//verif:harness prop=C42 time=90 replays=10
//verif:bound up to two transactions of an address, each with up to two inputs and two outputs, plain or hidden, with any amounts (also above 2^53), indexes below 2^30, sequences, lock times and versions, confirmed or not; one of them possibly with garbled fields; the list refused, garbled or cut
func hHistory() {
	nd.FreeGo()
	n, svc, stop := start()
	defer stop()
	fails := false
	type input struct {
		id, script string
		vout, seq  uint32
		wit        []string
		pegin      bool
	}
	type output struct {
		script, asset string
		value         uint64
		hidden        bool
	}
	type entry struct {
		id                          string
		version, lock, size, weight int
		confirmed                   bool
		ins                         []input
		outs                        []output
	}
	var all []entry
	list := []interface{}{}
	m := nd.Choice("transactions", 3)
	for i := 0; i < m; i++ {
		e := entry{id: strings.Repeat([]string{"0a", "0b"}[i], 32), version: 2, size: 250 + i, weight: 1000 + i}
		e.lock = nd.Int("lock time", 0, 1<<32-1)
		e.confirmed = nd.Bool("confirmed")
		vin, vout := []interface{}{}, []interface{}{}
		kind := 0
		if i == 0 {
			kind = nd.Choice("form", 9)
		}
		nin, nout := 1, 1
		if i == 0 {
			nin, nout = nd.Choice("inputs", 3), nd.Choice("outputs", 3)
		}
		for j := 0; j < nin; j++ {
			in := input{id: strings.Repeat([]string{"1c", "2d"}[j], 31) + "77", script: []string{"", "0151"}[j], vout: uint32(nd.Uint64("vout", 0, 1<<30-1)), seq: uint32(nd.Uint64("sequence", 0, 1<<32-1)), pegin: j == 1}
			o := object{"txid": in.id, "vout": in.vout, "scriptsig": in.script, "sequence": in.seq, "is_pegin": in.pegin, "prevout": object{"value": 5}}
			if j == 1 {
				in.wit = []string{"aa", "", "bbcc"}
				o["witness"] = []interface{}{"aa", "", "bbcc"}
			}
			switch kind {
			case 1:
				o["txid"], fails = "xyz", true
			case 2:
				o["scriptsig"], fails = "0", true
			case 3:
				o["vout"], fails = "7", true
			}
			e.ins = append(e.ins, in)
			vin = append(vin, o)
		}
		for j := 0; j < nout; j++ {
			out := output{script: hexOf(byte(10*i + j)), asset: []string{base, quote}[j], value: nd.Uint64("value", 0, 1<<62)}
			out.hidden = nd.Bool("hidden")
			o := object{"scriptpubkey": out.script, "scriptpubkey_type": "v0_p2wpkh"}
			if out.hidden {
				o["assetcommitment"], o["valuecommitment"] = "0a"+strings.Repeat("91", 32), "08"+strings.Repeat("92", 32)
			} else {
				o["asset"], o["value"] = out.asset, out.value
			}
			switch kind {
			case 4:
				o["scriptpubkey"], fails = "q", true
			case 5:
				o["value"], fails = "many", true
			case 6:
				delete(o, "assetcommitment")
				o["asset"], fails = "q", true
			case 7:
				delete(o, "value")
				o["valuecommitment"], fails = "q", true
			}
			e.outs = append(e.outs, out)
			vout = append(vout, o)
		}
		var o interface{} = object{"txid": e.id, "version": e.version, "locktime": e.lock, "size": e.size, "weight": e.weight, "vin": vin, "vout": vout, "fee": 33, "status": object{"confirmed": e.confirmed, "block_height": 8}}
		if kind == 8 {
			o, fails = []interface{}{"a transaction"}, true
		}
		all, list = append(all, e), append(list, o)
	}
	n.answers["/address/addr1/txs"] = text(list)
	if m == 0 {
		switch nd.Choice("list", 4) {
		case 1:
			delete(n.answers, "/address/addr1/txs")
			n.refuse("[]")
			fails = true
		case 2:
			n.answers["/address/addr1/txs"] = "garbled"
			fails = true
		case 3:
			n.cut, fails = true, true
		}
	}
	got, err := svc.GetTransactionsForAddress("addr1", nil)
	nd.Assert((err != nil) == fails, "transactions are not told although they can be, or told although they cannot")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("told")
	nd.Assert(len(got) == len(all), "another number of transactions is told")
	for _, e := range all {
		found := false
		for _, t := range got {
			if t.Hash() != e.id {
				continue
			}
			nd.Assert(!found, "a transaction is told twice")
			found = true
			nd.Assert(nd.And(t.Version() == e.version, t.Locktime() == e.lock), "another version or lock time is told")
			nd.Assert(t.Size() == e.size && t.Weight() == e.weight, "another size is told")
			nd.Assert(t.Confirmed() == e.confirmed, "the status of a transaction is another one")
			nd.Assert(len(t.Inputs()) == len(e.ins) && len(t.Outputs()) == len(e.outs), "a transaction with other inputs or outputs is told")
			for j, in := range e.ins {
				x := t.Inputs()[j]
				nd.Assert(nd.And(bufferutil.TxIDFromBytes(x.Hash) == in.id, x.Index == in.vout, x.Sequence == in.seq), "an input of a transaction is another one")
				nd.Assert(hex.EncodeToString(x.Script) == in.script && x.IsPegin == in.pegin && len(x.Witness) == len(in.wit), "the unlocking of an input is another one")
				for k, w := range in.wit {
					nd.Assert(hex.EncodeToString(x.Witness[k]) == w, "the witness of an input is another one")
				}
			}
			for j, out := range e.outs {
				x := t.Outputs()[j]
				nd.Assert(hex.EncodeToString(x.Script) == out.script, "the script of an output is another one")
				if out.hidden {
					nd.Assert(bufferutil.CommitmentFromBytes(x.Asset) == "0a"+strings.Repeat("91", 32) && bufferutil.CommitmentFromBytes(x.Value) == "08"+strings.Repeat("92", 32), "the commitments of an output are others")
				} else {
					nd.Assert(bufferutil.AssetHashFromBytes(x.Asset) == out.asset, "the asset of an output is another one")
					nd.Assert(bufferutil.ValueFromBytes(x.Value) == out.value, "the amount of an output is another one")
				}
			}
		}
		nd.Assert(found, "a transaction is not told")
	}
}

// Single transactions, their status, the height of the chain and the
// acceptance of a transaction are asked for.
//
//verif:harness prop=C42 time=60 replays=10
//verif:bound each of the requests for one transaction (whole, in hex, its status, whether it is confirmed), the height and a broadcast; answered, answered with garbage or an incomplete object, refused, or the connection cut
func hSingle() {
	nd.FreeGo()
	n, svc, stop := start()
	defer stop()
	t := paid(1, base, nd.Uint64("amount", 1, 1<<50), bytes.Repeat([]byte{41}, 32))
	id, full := veriftx.ID(t), veriftx.Hex(t)
	statuses := []string{
		text(object{"confirmed": true, "block_height": 12, "block_hash": "beef"}),
		text(object{"confirmed": false}),
		text(object{"confirmed": "yes"}),
		text(object{}),
		"garbled",
	}
	h, s := nd.Choice("hex", 3), nd.Choice("status", 6)
	if h < 2 {
		n.answers["/tx/"+id+"/hex"] = []string{full, "zz"}[h]
	}
	if s < 5 {
		n.answers["/tx/"+id+"/status"] = statuses[s]
	}
	n.cut = nd.Bool("connection lost")
	if !n.cut && (h == 2 || s == 5) {
		n.refuse(nd.Pick("refused with", "status", "hex"))
		switch n.refusal {
		case "status":
			n.refusal = statuses[0]
		case "hex":
			n.refusal = full
		}
	}
	up := !n.cut
	switch nd.Choice("request", 6) {
	case 0:
		got, err := svc.GetTransaction(id)
		nd.Assert((err == nil) == (up && h == 0 && s < 4), "a transaction is not told although it can be, or told although it cannot")
		if err != nil {
			return
		}
		nd.Cover("transaction")
		nd.Assert(got.Hash() == id && got.Confirmed() == (s == 0), "another transaction or status is told")
		nd.Assert(got.Version() == int(t.Version) && got.Locktime() == int(t.Locktime), "another version or lock time is told")
		nd.Assert(len(got.Inputs()) == len(t.Inputs) && len(got.Outputs()) == len(t.Outputs), "a transaction with other inputs or outputs is told")
		for i, o := range t.Outputs {
			nd.Assert(sameOutput(got.Outputs()[i], o), "an output of a transaction is another one")
		}
		nd.Assert(got.Size() == t.VirtualSize() && got.Weight() == t.Weight(), "another size is told")
	case 1:
		got, err := svc.GetTransactionHex(id)
		nd.Assert((err == nil) == (up && h < 2), "a transaction is not told although it can be, or told although it cannot")
		if err == nil {
			nd.Cover("hex")
			nd.Assert(got == []string{full, "zz"}[h], "another transaction is told")
		}
	case 2:
		got, err := svc.IsTransactionConfirmed(id)
		nd.Assert((err == nil) == (up && s < 4), "a status is not told although it can be, or told although it cannot")
		nd.Assert(got == (up && s == 0), "a transaction is taken for confirmed, or not, against what the node says")
	case 3:
		got, err := svc.GetTransactionStatus(id)
		nd.Assert((err == nil) == (up && s < 4), "a status is not told although it can be, or told although it cannot")
		if err == nil && s == 0 {
			nd.Cover("status")
			nd.Assert(got["confirmed"].(bool) && got["block_height"].(float64) == 12 && got["block_hash"].(string) == "beef", "another status is told")
		}
	case 4:
		ok := nd.Bool("accepted")
		if ok {
			n.posts["/tx"] = id
		}
		got, err := svc.BroadcastTransaction(full)
		nd.Assert((err == nil) == (up && ok), "a broadcast is taken for accepted, or not, against what the node says")
		if up {
			nd.Assert(len(n.sent) == 1 && n.sent[0] == "/tx "+full, "a transaction is not sent once, or another one is")
		}
		if err == nil {
			nd.Cover("broadcast")
			nd.Assert(got == id, "another transaction id is told")
		}
	case 5:
		k := nd.Choice("height", 4)
		n.height = []string{"123", "0", "soon", ""}[k]
		got, err := svc.GetBlockHeight()
		nd.Assert((err == nil) == (up && k < 2), "a height is not told although it can be, or told although it cannot")
		if err == nil {
			nd.Cover("height")
			nd.Assert(got == []int{123, 0}[k], "another height is told")
		}
	}
}

func sameOutput(a, b *transaction.TxOutput) bool {
	return bytes.Equal(a.Script, b.Script) && bytes.Equal(a.Asset, b.Asset) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.Nonce, b.Nonce)
}
