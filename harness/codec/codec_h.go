//verif:file pkg=internal/verifcodec props=C18 keep=pkg/bufferutil,pkg/transactionutil
package verifcodec

import (
	"bytes"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
)

func lowerHex(s []byte) {
	for _, c := range s {
		nd.Assume(nd.Or(nd.And(c >= '0', c <= '9'), nd.And(c >= 'a', c <= 'f')))
	}
}

func hexVal(c byte) byte {
	return byte(nd.Ite64(c <= '9', int64(c)-'0', int64(c)-'a'+10))
}

// Bytes to text and back, for asset ids, transaction ids and commitments.
//
//verif:harness prop=C18 time=60
func hBytesToText() {
	id := nd.Bytes("id", 32)
	asset := append([]byte{1}, id...)
	keep := append([]byte(nil), asset...)
	s := bufferutil.AssetHashFromBytes(asset)
	nd.Assert(len(s) == 64, "asset id text has another length")
	b, err := bufferutil.AssetHashToBytes(s)
	nd.Assert(err == nil && bytes.Equal(b, keep), "asset id changes on the way")
	nd.Assert(bytes.Equal(asset, keep), "encoding changes its argument")
	t := bufferutil.TxIDFromBytes(id)
	b, err = bufferutil.TxIDToBytes(t)
	nd.Assert(err == nil && bytes.Equal(b, keep[1:]), "transaction id changes on the way")
	nd.Assert(t == s, "asset id and transaction id are ordered differently")
	cm := append([]byte{nd.Bytes("prefix", 1)[0]}, id...)
	b, err = bufferutil.CommitmentToBytes(bufferutil.CommitmentFromBytes(cm))
	nd.Assert(err == nil && bytes.Equal(b, cm), "commitment changes on the way")
	nd.Assert(bytes.Equal(id, keep[1:]), "encoding changes its argument")
}

// Text to bytes and back; the text is read from its end.
//
//verif:harness prop=C18 time=60
func hTextToBytes() {
	s := nd.Bytes("text", 64)
	lowerHex(s)
	a, err := bufferutil.AssetHashToBytes(string(s))
	nd.Assert(err == nil && len(a) == 33 && a[0] == 1, "a valid asset id is refused or changes its length")
	nd.Assert(bufferutil.AssetHashFromBytes(a) == string(s), "asset id text changes on the way")
	x, err := bufferutil.TxIDToBytes(string(s))
	nd.Assert(err == nil && len(x) == 32, "a valid transaction id is refused or changes its length")
	nd.Assert(bufferutil.TxIDFromBytes(x) == string(s), "transaction id text changes on the way")
	c, err := bufferutil.CommitmentToBytes(string(s))
	nd.Assert(err == nil && len(c) == 32, "a valid commitment is refused or changes its length")
	nd.Assert(bufferutil.CommitmentFromBytes(c) == string(s), "commitment text changes on the way")
	for i := 0; i < 32; i++ {
		v := hexVal(s[2*i])*16 + hexVal(s[2*i+1])
		nd.Assert(c[i] == v, "commitment byte is not the one written")
		nd.Assert(x[31-i] == v, "transaction id byte is not the one written")
		nd.Assert(a[32-i] == v, "asset id byte is not the one written")
	}
}

// Texts of any short length with any characters.
//
//verif:harness prop=C18 time=60
func hTextRefused() {
	n := nd.Choice("length", nd.Bound("characters", 5, 8))
	s := nd.Bytes("text", n)
	good := n%2 == 0
	for _, c := range s {
		good = nd.And(good, nd.Or(nd.And(c >= '0', c <= '9'), nd.And(c >= 'a', c <= 'f'), nd.And(c >= 'A', c <= 'F')))
	}
	_, e1 := bufferutil.AssetHashToBytes(string(s))
	_, e2 := bufferutil.TxIDToBytes(string(s))
	_, e3 := bufferutil.CommitmentToBytes(string(s))
	nd.Assert((e1 == nil) == good, "asset id text is judged wrongly")
	nd.Assert((e2 == nil) == good, "transaction id text is judged wrongly")
	nd.Assert((e3 == nil) == good, "commitment text is judged wrongly")
}

// Amounts.
//
//verif:harness prop=C18 time=60
func hAmount() {
	v := nd.Uint64("amount", 0, 1<<64-1)
	b, err := bufferutil.ValueToBytes(v)
	nd.Assert(err == nil && len(b) == 9 && b[0] == 1, "an amount is refused or has another width")
	nd.Assert(bufferutil.ValueFromBytes(b) == v, "an amount changes on the way")
	x := uint64(0)
	for _, c := range b[1:] {
		x = x*256 + uint64(c)
	}
	nd.Assert(x == v, "an amount is not written most significant byte first")
	raw := append([]byte{1}, nd.Bytes("raw", 8)...)
	back, err := bufferutil.ValueToBytes(bufferutil.ValueFromBytes(raw))
	nd.Assert(err == nil && bytes.Equal(back, raw), "amount bytes change on the way")
}

// Explicit outputs and fee outputs show what was put in.
//
//verif:harness prop=C18 time=60
func hOutputs() {
	v := nd.Uint64("amount", 0, 1<<64-1)
	id := nd.Bytes("asset", 32)
	asset := append([]byte{1}, id...)
	val, err := bufferutil.ValueToBytes(v)
	nd.Assert(err == nil, "an amount is refused")
	out := transaction.NewTxOutput(asset, val, nd.Bytes("script", 2))
	r, ok := transactionutil.UnblindOutput(out, nil)
	nd.Assert(ok && r != nil, "an explicit output cannot be read")
	nd.Assert(r.Value == v, "an explicit output shows another amount")
	nd.Assert(r.AssetHash == bufferutil.AssetHashFromBytes(asset), "an explicit output shows another asset")
	nd.Assert(bytes.Equal(r.AssetBlinder, make([]byte, 32)) && bytes.Equal(r.ValueBlinder, make([]byte, 32)), "an explicit output is blinded")
	net := network.Liquid
	if nd.Bool("regtest") {
		net = network.Regtest
	}
	outs := transactionutil.NewFeeOutput(v, &net)
	nd.Assert(len(outs) == 1 && len(outs[0].Script) == 0, "a fee output is not one unspendable output")
	f, ok := transactionutil.UnblindOutput(outs[0], nil)
	nd.Assert(ok && f.Value == v && f.AssetHash == net.AssetID, "a fee output shows another amount or asset")
}
