//verif:file pkg=pkg/mathutil props=C04
package mathutil

import (
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// Adding and deducting a percentage fee is exact.
//
//verif:harness prop=C04 time=120
//verif:bound every amount in [0, 2^60), every fee in 0..9999 basis points; exact integer arithmetic over the decimal library's own code
func hFeeExact() {
	a := nd.Uint64("amount", 0, 1<<60-1)
	f := nd.Uint64("fee", 0, 9999)
	pct := a / 10000 * f
	rest := a % 10000 * f / 10000
	fl := pct + rest // floor(a*f/10000) without overflow
	with, fee := PlusFee(a, f)
	nd.Assert(fee == fl, "added fee is not the rounded percentage")
	nd.Assert(with == a+fl, "amount with fee is not amount plus fee")
	less, fee2 := LessFee(a, f)
	g := 10000 - f
	lo := a/10000*g + a%10000*g/10000
	nd.Assert(fee2 == fl, "deducted fee is not the rounded percentage")
	nd.Assert(less == lo, "amount without fee is not the truncated rest")
	nd.Assert(nd.And(less <= a, a <= with), "fee turned into a discount or a charge into a gift")
	nd.Assert(nd.And(a-less >= fee2, a-less <= fee2+1), "deducted and reported fee differ by more than the rounding unit")
	nd.Observe("with", with)
	nd.Observe("less", less)
	nd.Cover("fee computed")
}

// The charged and the discounted amount grow with the amount.
//
//verif:harness prop=C04 time=120
//verif:bound every pair of amounts in [0, 2^60) and every fee in 0..9999
func hFeeMonotone() {
	a := nd.Uint64("amount", 0, 1<<60-1)
	b := nd.Uint64("larger amount", 0, 1<<60-1)
	nd.Assume(a <= b)
	f := nd.Uint64("fee", 0, 9999)
	wa, fa := PlusFee(a, f)
	wb, fb := PlusFee(b, f)
	nd.Assert(nd.And(wa <= wb, fa <= fb), "charge not monotone in the amount")
	la, _ := LessFee(a, f)
	lb, _ := LessFee(b, f)
	nd.Assert(la <= lb, "discounted amount not monotone in the amount")
}

// The charge grows and the discounted amount shrinks with the rate.
//
//verif:harness prop=C04 time=120
//verif:bound every amount in [0, 2^60) and every pair of fees in 0..9999
func hFeeRateMonotone() {
	a := nd.Uint64("amount", 0, 1<<60-1)
	f := nd.Uint64("fee", 0, 9999)
	g := nd.Uint64("higher fee", 0, 9999)
	nd.Assume(f <= g)
	wa, _ := PlusFee(a, f)
	wb, _ := PlusFee(a, g)
	nd.Assert(wa <= wb, "charge not monotone in the rate")
	la, _ := LessFee(a, f)
	lb, _ := LessFee(a, g)
	nd.Assert(la >= lb, "discounted amount not monotone in the rate")
}
