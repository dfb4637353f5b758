//verif:file pkg=pkg/marketmaking/formula props=C06
package formula

import (
	"math/big"

	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

const vMax = 2100000000000000

func vOpts() BalancedReservesOpts {
	return BalancedReservesOpts{
		BalanceIn:           nd.Uint64("reserve in", 0, vMax),
		BalanceOut:          nd.Uint64("reserve out", 0, vMax),
		Fee:                 nd.Uint64("fee", 0, 9999),
		ChargeFeeOnTheWayIn: nd.Bool("fee on the way in"),
	}
}

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
func mul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
	}
	return r
}
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

// Amount given out for an amount paid.
//
//verif:harness prop=C06 time=160
//verif:bound every reserve up to 21e14 units, every uint64 amount and every fee 0..9999; quotes agree with the constant product up to the 8 decimal digits the service computes with
func hOutGivenIn() {
	o := vOpts()
	in := nd.Uint64("amount in", 0, 1<<64-1)
	out, err := BalancedReserves{}.OutGivenIn(o, in)
	if in == 0 || o.BalanceIn == 0 || o.BalanceOut == 0 {
		nd.Assert(err != nil, "zero amount or empty reserve quoted")
		return
	}
	if err != nil {
		nd.Cover("refused")
		nd.Assert(out == 0, "refusal with an amount")
		return
	}
	nd.Cover("quoted")
	nd.Assert(out > 0, "zero amount quoted")
	nd.Assert(out <= o.BalanceOut, "more than the reserve given out")
	net := bi(in)
	if o.ChargeFeeOnTheWayIn {
		// net of the percentage fee
		net = mul(net, bi(10000-o.Fee))
		net.Div(net, big.NewInt(10000))
	}
	// out <= R*net/(B+net) + R*0.5e-8
	total := add(bi(o.BalanceIn), net)
	lhs := mul(bi(out), total, big.NewInt(200000000))
	rhs := add(mul(bi(o.BalanceOut), net, big.NewInt(200000000)), mul(bi(o.BalanceOut), total))
	nd.Assert(lhs.Cmp(rhs) <= 0, "more given out than the constant product allows")
	if o.ChargeFeeOnTheWayIn {
		// out > R*net/(B+net) - R*0.5e-8 - 1
		l2 := add(mul(add(bi(out), big.NewInt(1)), total, big.NewInt(200000000)), mul(bi(o.BalanceOut), total))
		r2 := mul(bi(o.BalanceOut), net, big.NewInt(200000000))
		nd.Assert(l2.Cmp(r2) >= 0, "less given out than the constant product gives")
	}
	nd.Observe("out", out)
}

// Amount to pay for an amount taken out.
//
//verif:harness prop=C06 time=160
//verif:bound every reserve up to 21e14 units, every uint64 amount and every fee 0..9999; quotes agree with the constant product up to the 8 decimal digits the service computes with
func hInGivenOut() {
	o := vOpts()
	want := nd.Uint64("amount out", 0, 1<<64-1)
	in, err := BalancedReserves{}.InGivenOut(o, want)
	if want == 0 || o.BalanceIn == 0 || o.BalanceOut == 0 || want >= o.BalanceOut {
		nd.Assert(err != nil, "zero amount, empty or exhausted reserve quoted")
		return
	}
	if err != nil {
		nd.Cover("refused")
		nd.Assert(in == 0, "refusal with an amount")
		return
	}
	nd.Cover("quoted")
	gross := bi(want)
	if !o.ChargeFeeOnTheWayIn {
		gross = mul(gross, bi(10000+o.Fee))
		gross.Div(gross, big.NewInt(10000))
	}
	rest := new(big.Int).Sub(bi(o.BalanceOut), gross)
	nd.Assert(rest.Sign() > 0, "the whole reserve quoted")
	// price before fee, from the 8-digit ratio: in0 > B*gross/rest - B*0.5e-8 - 1
	in0 := bi(in)
	lhs := add(mul(add(in0, big.NewInt(1)), rest, big.NewInt(200000000)), mul(bi(o.BalanceIn), rest))
	rhs := mul(bi(o.BalanceIn), gross, big.NewInt(200000000))
	nd.Assert(lhs.Cmp(rhs) >= 0, "less charged than the constant product asks")
	nd.Observe("in", in)
}

// Paying more never yields less.
//
//verif:harness prop=C06 time=60
//verif:bound every pair of amounts up to 21e14 units, reserve and fee from a list of 4 pairs and 4 fees
func hMonotone() {
	r := [][2]uint64{{100000000, 650000000000}, {650000000000, 100000000}, {1, 2100000000000000}, {12345678, 87654321}}[nd.Choice("reserves", 4)]
	o := BalancedReservesOpts{
		BalanceIn: r[0], BalanceOut: r[1],
		Fee:                 []uint64{0, 25, 100, 9999}[nd.Choice("fee", 4)],
		ChargeFeeOnTheWayIn: nd.Bool("fee on the way in"),
	}
	a := nd.Uint64("amount", 1, vMax)
	b := nd.Uint64("larger amount", 1, vMax)
	nd.Assume(a <= b)
	oa, ea := BalancedReserves{}.OutGivenIn(o, a)
	ob, eb := BalancedReserves{}.OutGivenIn(o, b)
	if ea == nil && eb == nil {
		nd.Assert(oa <= ob, "paying more yields less")
	}
	nd.Assert(nd.Imp(ea == nil, eb == nil), "a larger payment was refused for being too low")
}

// The fee never turns into a discount.
//
//verif:harness prop=C06 time=160
//verif:bound every amount and reserve up to 21e14 units, every fee
func hFeeNoDiscount() {
	o := vOpts()
	free := o
	free.Fee = 0
	a := nd.Uint64("amount", 1, vMax)
	if nd.Bool("given in") {
		x, e := BalancedReserves{}.OutGivenIn(o, a)
		y, e2 := BalancedReserves{}.OutGivenIn(free, a)
		if e == nil {
			nd.Assert(e2 == nil && x <= y, "fee increases what is given out")
			net := mul(bi(a), bi(10000-o.Fee))
			z, e3 := BalancedReserves{}.OutGivenIn(free, net.Div(net, big.NewInt(10000)).Uint64())
			nd.Assert(nd.Imp(o.ChargeFeeOnTheWayIn, nd.And(e3 == nil, x == z)), "another fee than the percentage is taken from what is paid")
		}
	} else {
		x, e := BalancedReserves{}.InGivenOut(o, a)
		y, e2 := BalancedReserves{}.InGivenOut(free, a)
		if e == nil && e2 == nil {
			nd.Assert(x >= y, "fee decreases what is charged")
			fee := mul(bi(y), bi(o.Fee))
			fee.Div(fee, big.NewInt(10000))
			nd.Assert(nd.Imp(o.ChargeFeeOnTheWayIn, add(bi(y), fee).Cmp(bi(x)) == 0), "another fee than the percentage is added to what is paid")
		}
	}
}
