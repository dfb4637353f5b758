//verif:file pkg=pkg/wallet props=C16
package wallet

import (
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

const (
	sigLen   = 72   // the longest signature, with its hash type
	proofLen = 4174 // the longest range proof
)

var (
	auxIn  = []int{23, 105, 300}
	signed = []int{1, 2, 3}
)

// realIn is the biggest input of a kind; scripts of witnesses and bare multisigs
// are of the given length, with as many signatures.
func realIn(kind, script, sigs int) *transaction.TxInput {
	in := &transaction.TxInput{Hash: make([]byte, 32), Sequence: 0xffffffff}
	multi := transaction.TxWitness{{}}
	for i := 0; i < sigs; i++ {
		multi = append(multi, make([]byte, sigLen))
	}
	multi = append(multi, make([]byte, script))
	switch kind {
	case P2PK:
		in.Script = make([]byte, 1+sigLen)
	case P2PKH:
		in.Script = make([]byte, 1+sigLen+1+33)
	case P2MS:
		in.Script = make([]byte, script)
	case P2SH_P2WPKH:
		in.Script = make([]byte, 23)
	case P2SH_P2WSH:
		in.Script = make([]byte, 35)
	}
	switch kind {
	case P2SH_P2WPKH, P2WPKH:
		in.Witness = transaction.TxWitness{make([]byte, sigLen), make([]byte, 33)}
	case P2SH_P2WSH, P2WSH:
		in.Witness = multi
	}
	return in
}

var outScript = []int{67, 25, 0, 23, 23, 22, 34}

// realOut is the biggest output of a kind in a transaction of n inputs; that of a
// bare multisig has a script of the given length.
func realOut(kind, script, n int) *transaction.TxOutput {
	if kind != P2MS {
		script = outScript[kind]
	}
	return &transaction.TxOutput{
		Asset: commitment(10), Value: commitment(9), Nonce: commitment(2), Script: make([]byte, script),
		RangeProof: make([]byte, proofLen), SurjectionProof: make([]byte, 2+(n+7)/8+4*32),
	}
}

func commitment(b byte) []byte {
	c := make([]byte, 33)
	c[0] = b
	return c
}

func feeOut() *transaction.TxOutput {
	a, v := make([]byte, 33), make([]byte, 9)
	a[0], v[0] = 1, 1
	return &transaction.TxOutput{Asset: a, Value: v, Nonce: []byte{0}}
}

func varint(n int) int {
	if n < 253 {
		return 1
	}
	return 3
}

type shape struct {
	ins, insRedeem, insWitness, outs, outsRedeem []int
	tx                                           *transaction.Transaction
}

func (s *shape) in(kind, script, sigs int) {
	in := realIn(kind, script, sigs)
	s.tx.Inputs = append(s.tx.Inputs, in)
	s.ins = append(s.ins, kind)
	switch kind {
	case P2MS:
		s.insRedeem = append(s.insRedeem, varint(script)+script)
	case P2SH_P2WSH, P2WSH:
		s.insWitness = append(s.insWitness, in.Witness.SerializeSize())
	}
}

func (s *shape) out(kind, script, n int) {
	s.tx.Outputs = append(s.tx.Outputs, realOut(kind, script, n))
	s.outs = append(s.outs, kind)
	if kind == P2MS {
		s.outsRedeem = append(s.outsRedeem, varint(script)+script)
	}
}

func (s *shape) estimate() int {
	return EstimateTxSize(s.ins, s.insRedeem, s.insWitness, s.outs, s.outsRedeem)
}

// The estimated size is that of the biggest transaction of its shape, measured
// by the transaction library.
//
//verif:harness prop=C16 time=60
//verif:bound up to 2 (thorough 3) inputs and 2 outputs of any kind; multisig scripts of 23, 105 and 300 bytes with as many as 3 signatures
//verif:assume signatures of 72 bytes, range proofs of 4174 bytes
func hSize() {
	s := &shape{tx: &transaction.Transaction{}}
	nIn := nd.Choice("inputs", nd.Bound("inputs", 2, 3)+1)
	exact := nIn > 0
	for i := 0; i < nIn; i++ {
		k, v := nd.Choice("input", 7), 0
		if k == P2MS || k == P2SH_P2WSH || k == P2WSH {
			v = nd.Choice("script", 3)
		}
		s.in(k, auxIn[v], signed[v])
		exact = exact && (k == P2WPKH || k == P2WSH)
	}
	for i, n := 0, nd.Choice("outputs", 3); i < n; i++ {
		k, v := nd.Choice("output", 7), 0
		if k == P2MS {
			v = nd.Choice("output script", 3)
		}
		s.out(k, auxIn[v], nIn)
		exact = exact && (k == P2WPKH || k == P2WSH)
	}
	s.tx.Outputs = append(s.tx.Outputs, feeOut())
	got, want := s.estimate(), s.tx.VirtualSize()
	nd.Assert(got >= want, "the estimate undershoots the transaction")
	nd.Assert(!exact || got == want, "the estimate of native segwit inputs and outputs is not exact")
}

// The same for many inputs or outputs, where the counts need longer prefixes.
//
//verif:harness prop=C16 time=60
//verif:bound up to 260 inputs or outputs of native segwit kind
//verif:assume signatures of 72 bytes, range proofs of 4174 bytes
func hManySize() {
	counts := []int{1, 7, 8, 9, 251, 252, 253, 260}
	s := &shape{tx: &transaction.Transaction{}}
	nIn, nOut := 2, 2
	if nd.Bool("many inputs") {
		nIn = counts[nd.Choice("count", len(counts))]
	} else {
		nOut = counts[nd.Choice("count", len(counts))]
	}
	in, out := realIn(P2WPKH, 0, 0), realOut(P2WPKH, 0, nIn)
	for i := 0; i < nIn; i++ {
		s.tx.Inputs, s.ins = append(s.tx.Inputs, in), append(s.ins, P2WPKH)
	}
	for i := 0; i < nOut; i++ {
		s.tx.Outputs, s.outs = append(s.tx.Outputs, out), append(s.outs, P2WPKH)
	}
	s.tx.Outputs = append(s.tx.Outputs, feeOut())
	nd.Assert(s.estimate() == s.tx.VirtualSize(), "the estimate of many inputs or outputs is not exact")
}

// Whatever is added makes the estimate grow by no less than it weighs.
//
//verif:harness prop=C16 time=60
//verif:bound a transaction of one input and one output of any kind, and one of any kind added; scripts and witnesses of any size up to 10000
func hGrow() {
	size := func(n string) int { return nd.Int(n, 1, 10000) }
	s := &shape{tx: &transaction.Transaction{}}
	add := func(in bool, name string) int {
		k := nd.Choice(name, 7)
		if !in {
			s.outs = append(s.outs, k)
			if k != P2MS {
				return 4*(99+1+outScript[k]) + 3 + proofLen + 1 + 2 + 128
			}
			v := size("script")
			s.outsRedeem = append(s.outsRedeem, v)
			return 4*(99+v) + 3 + proofLen + 1 + 2 + 128
		}
		s.ins = append(s.ins, k)
		switch k {
		case P2MS:
			v := size("script")
			s.insRedeem = append(s.insRedeem, v)
			return 4*(40+v) + 4
		case P2SH_P2WSH:
			v := size("witness")
			s.insWitness = append(s.insWitness, v)
			return 4*(40+36) + 3 + v
		case P2WSH:
			v := size("witness")
			s.insWitness = append(s.insWitness, v)
			return 4*(40+1) + 3 + v
		}
		real := realIn(k, 0, 0)
		return 4*(40+1+len(real.Script)) + 3 + real.Witness.SerializeSize()
	}
	add(true, "input")
	add(false, "output")
	before := s.estimate()
	w := add(nd.Bool("add input"), "added")
	after := s.estimate()
	nd.Assert(4*(after-before) >= w-3, "the estimate does not grow by what is added")
}

// The fee is the size times the rate.
//
//verif:harness prop=C16 time=60
//verif:bound a transaction of up to 2 (thorough 3) inputs and 2 outputs with scripts of all standard types and without any, up to 3 inputs and 3 outputs to be added, rates of 0.1 to 1000 per byte
//verif:assume signatures of 72 bytes, range proofs of 4174 bytes
func hFeeAmount() {
	scripts := [][]byte{
		append([]byte{0, 20}, make([]byte, 20)...),
		append([]byte{0, 32}, make([]byte, 32)...),
		append([]byte{0x76, 0xa9, 20}, make([]byte, 22)...),
		append([]byte{0xa9, 20}, make([]byte, 21)...),
		{}, // that of a fee output
		{0x6a},
	}
	kinds := []int{P2WPKH, P2WSH, P2PKH, P2SH_P2WPKH, P2MS, P2MS}
	p := &pset.Pset{UnsignedTx: &transaction.Transaction{}}
	s := &shape{tx: &transaction.Transaction{}}
	nIn, nOut := nd.Choice("inputs", nd.Bound("inputs", 2, 3)+1), nd.Choice("outputs", 3)
	more := nd.Choice("to add", 4)
	moreIn, moreOut := []int{0, 1, 3, 2}[more], []int{0, 2, 1, 0}[more]
	under := 0 // weight of what is no input of a wallet
	exact := nIn+moreIn > 0
	for i := 0; i < nIn; i++ {
		k := nd.Choice("input", 5)
		prev := &transaction.TxOutput{Script: scripts[k], Asset: make([]byte, 33), Value: make([]byte, 9)}
		in := pset.PInput{}
		if kinds[k] == P2PKH || nd.Bool("whole transaction") {
			in.NonWitnessUtxo = &transaction.Transaction{Outputs: []*transaction.TxOutput{{}, prev}}
		} else {
			in.WitnessUtxo = prev
		}
		script := 0
		exact = exact && k == 0
		switch k {
		case 1: // 1 of 2
			script = 71
			in.WitnessScript = oneOfTwo()
		case 3:
			in.RedeemScript = make([]byte, 22)
		}
		p.Inputs = append(p.Inputs, in)
		p.UnsignedTx.Inputs = append(p.UnsignedTx.Inputs, &transaction.TxInput{Hash: make([]byte, 32), Index: 1})
		if k == 4 {
			under += 4 * 41
			continue
		}
		s.in(kinds[k], script, 1)
	}
	n := len(p.Inputs) + moreIn
	for i := 0; i < nOut; i++ {
		k := nd.Choice("output", 6)
		p.Outputs = append(p.Outputs, pset.POutput{})
		p.UnsignedTx.Outputs = append(p.UnsignedTx.Outputs, &transaction.TxOutput{Script: scripts[k], Asset: make([]byte, 33), Value: make([]byte, 9)})
		s.out(kinds[k], len(scripts[k]), n)
		exact = exact && k < 3
	}
	for i := 0; i < moreIn; i++ {
		s.in(P2WPKH, 0, 0)
	}
	for i := 0; i < moreOut; i++ {
		s.out(P2WPKH, 0, n)
	}
	s.tx.Outputs = append(s.tx.Outputs, feeOut())
	rate := nd.Int("rate", 100, 1000000)
	got := calcFeeAmount(p, moreIn, moreOut, rate)
	size := uint64(s.tx.VirtualSize()) + uint64(under/4)
	nd.Assert(got > 0, "the fee is nothing")
	nd.Assert(got*1000+999 >= size*uint64(rate), "the fee pays less than its rate")
	nd.Assert(!exact || got*1000 <= size*uint64(rate), "the fee of coins of a wallet is more than its rate")
}

func oneOfTwo() []byte {
	s := append([]byte{0x51, 33, 2}, make([]byte, 32)...)
	s = append(s, 33, 2)
	s = append(s, make([]byte, 32)...)
	return append(s, 0x52, 0xae)
}
