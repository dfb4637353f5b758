//verif:file pkg=internal/verifchain props=C42
package verifchain

import (
	"bytes"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/internal/veriftx"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/transaction"
)

type known struct {
	id, asset string
	vout      int
	value     uint64
	out       *transaction.TxOutput
	hidden    bool
	confirmed bool
	open      bool // whether the keys read it
	key       []byte
}

// The coins of one or two addresses are asked for.
//
//verif:harness prop=C42 time=90 replays=10
//verif:bound up to two coins of one address and one of another, each plain or hidden and readable with either of two keys or none, any amounts; their transactions confirmed, unconfirmed, unknown or garbled; with and without keys
func hCoins() {
	nd.FreeGo()
	n, svc, stop := start()
	defer stop()
	keys := [][]byte{bytes.Repeat([]byte{41}, 32), bytes.Repeat([]byte{42}, 32)}
	stranger := bytes.Repeat([]byte{43}, 32)

	fails, anyFail := false, []bool{false, false}
	lists := [2][]known{}
	number := uint32(0)
	add := func(addr int) {
		number++
		k := known{asset: []string{base, quote}[number%2], value: nd.Uint64("amount", 1, 1<<50), confirmed: true}
		kind := nd.Choice("coin", 4)
		k.hidden, k.open = kind > 0, kind == 1 || kind == 2
		k.key = [][]byte{stranger, keys[0], keys[1], stranger}[kind]
		t := paid(number, k.asset, k.value, k.key)
		if kind > 0 {
			k.vout = 1
		}
		k.id, k.out = veriftx.ID(t), t.Outputs[k.vout]
		told, known := veriftx.Hex(t), true
		status := text(object{"confirmed": true, "block_height": 5})
		if number == 1 {
			switch nd.Choice("transaction", 6) {
			case 1:
				status, k.confirmed = text(object{"confirmed": false}), false
			case 2:
				status, k.confirmed = "", false
			case 3:
				known = false
				n.refuse(veriftx.Hex(t))
			case 4:
				told, known = "zz", false
			case 5:
				known = false
				t.Outputs = t.Outputs[:k.vout]
				told = veriftx.Hex(t)
			}
		}
		if status != "" {
			n.answers["/tx/"+k.id+"/status"] = status
		}
		if known || told == "zz" || len(t.Outputs) < 2 {
			n.answers["/tx/"+k.id+"/hex"] = told
		}
		if !known {
			anyFail[addr] = true
		}
		lists[addr] = append(lists[addr], k)
	}
	m := nd.Choice("coins", 3)
	for i := 0; i < m; i++ {
		add(0)
	}
	two := nd.Bool("two addresses")
	if two {
		add(1)
	}
	for i, name := range []string{"addr1", "addr2"} {
		l := []interface{}{}
		for _, k := range lists[i] {
			l = append(l, coin(k.id, k.vout, k.out, k.asset, k.value, k.hidden))
		}
		n.answers["/address/"+name+"/utxo"] = text(l)
	}
	if m == 0 {
		switch nd.Choice("list", 4) {
		case 1:
			delete(n.answers, "/address/addr1/utxo")
			n.refuse("[]")
			fails = true
		case 2:
			n.answers["/address/addr1/utxo"] = "garbled"
			fails = true
		case 3:
			n.cut, fails = true, true
		}
	}
	with := [][]byte(nil)
	if nd.Bool("with keys") {
		with = keys
	}
	var got []explorer.Utxo
	var err error
	want := lists[0]
	fails = fails || anyFail[0]
	if two {
		fails = fails || anyFail[1]
		want = append(append([]known{}, want...), lists[1]...)
		got, err = svc.GetUnspentsForAddresses([]string{"addr1", "addr2"}, with)
	} else {
		got, err = svc.GetUnspents("addr1", with)
	}
	for _, k := range want {
		fails = fails || k.hidden && !k.open && len(with) > 0
	}
	nd.Assert((err != nil) == fails, "coins are not told although they can be, or told although they cannot")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("told")
	nd.Assert(len(got) == len(want), "another number of coins is told")
	for _, k := range want {
		found := false
		for _, u := range got {
			if u.Hash() != k.id {
				continue
			}
			nd.Assert(!found, "a coin is told twice")
			found = true
			nd.Assert(u.Index() == uint32(k.vout) && u.IsConfidential() == k.hidden && u.IsConfirmed() == k.confirmed, "another coin is told")
			nd.Assert(bytes.Equal(u.Script(), k.out.Script), "the script of a coin is another one")
			read := k.hidden && len(with) > 0
			nd.Assert(u.IsRevealed() == read, "a coin is not revealed, or is without keys")
			if !k.hidden || read {
				nd.Assert(nd.And(u.Value() == k.value, u.Asset() == k.asset), "the amount of a coin is another one")
			} else {
				nd.Assert(u.Value() == 0 && u.Asset() == "", "the amount of a hidden coin is told")
			}
			if read {
				v, a := veriftx.Blinders(k.out, k.key)
				nd.Assert(bytes.Equal(u.ValueBlinder(), v) && bytes.Equal(u.AssetBlinder(), a), "the blinders of a coin are others")
			}
			if k.hidden {
				nd.Assert(u.ValueCommitment() == bufferutil.CommitmentFromBytes(k.out.Value) && u.AssetCommitment() == bufferutil.CommitmentFromBytes(k.out.Asset), "the commitments of a coin are others")
				nd.Assert(bytes.Equal(u.Nonce(), k.out.Nonce) && bytes.Equal(u.RangeProof(), k.out.RangeProof) && bytes.Equal(u.SurjectionProof(), k.out.SurjectionProof), "the proofs of a coin are others")
			}
			in, out, err := u.Parse()
			nd.Assert(err == nil, "a coin cannot be spent")
			nd.Assert(bufferutil.TxIDFromBytes(in.Hash) == k.id && in.Index == uint32(k.vout), "another coin would be spent")
			nd.Assert(bytes.Equal(out.Script, k.out.Script) && bytes.Equal(out.Asset, k.out.Asset) && bytes.Equal(out.Value, k.out.Value), "a coin with another script or amount would be spent")
		}
		nd.Assert(found, "a coin is not told")
	}
}
