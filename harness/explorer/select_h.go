//verif:file pkg=pkg/explorer props=C14
package explorer

import (
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// coin is an offered coin; the methods coin selection does not need are absent.
type coin struct {
	Utxo
	value            uint64
	asset            string
	hidden, revealed bool
}

func (c *coin) Value() uint64        { return c.value }
func (c *coin) Asset() string        { return c.asset }
func (c *coin) IsConfidential() bool { return c.hidden }
func (c *coin) IsRevealed() bool     { return c.revealed }

const supply = 21_000_000_00_000_000

func offer(n int) ([]*coin, []Utxo) {
	cs := make([]*coin, n)
	us := make([]Utxo, n)
	for i := range cs {
		cs[i] = &coin{
			value:    nd.Uint64("value", 0, supply),
			asset:    nd.Pick("asset", "lbtc", "usdt"),
			hidden:   nd.Bool("confidential"),
			revealed: nd.Bool("unblinded"),
		}
		us[i] = cs[i]
	}
	return cs, us
}

func covers(cs []*coin, us []Utxo, target uint64) {
	have := uint64(0)
	hidden := false
	for _, c := range cs {
		have += uint64(nd.Ite64(c.asset == "lbtc", int64(c.value), 0))
		hidden = nd.Or(hidden, nd.And(c.hidden, !c.revealed))
	}
	got, change, err := SelectUnspents(us, target, "lbtc")
	if err != nil {
		nd.Assert(nd.Or(hidden, have < target), "a coverable target is refused")
		return
	}
	nd.Assert(!hidden, "a coin of unknown value is accepted")
	nd.Assert(have >= target, "an uncovered target is accepted")
	nd.Assert(len(got) > 0, "no coin is returned")
	sum := uint64(0)
	used := make([]bool, len(cs))
	for _, u := range got {
		found := false
		for i, c := range cs {
			if u == Utxo(c) {
				nd.Assert(!used[i], "a coin is chosen twice")
				used[i], found = true, true
				nd.Assert(c.asset == "lbtc", "a coin of another asset is chosen")
				sum += c.value
			}
		}
		nd.Assert(found, "a coin that was not offered is chosen")
	}
	nd.Assert(sum >= target, "the chosen coins do not cover the target")
	nd.Assert(change == sum-target, "the change is not the excess")
}

// Every list of coins and every target.
//
//verif:harness prop=C14 time=100
//verif:bound coin values and the target are at most the total supply (2.1e15)
func hSelect() {
	cs, us := offer(nd.Choice("coins", nd.Bound("coins", 4, 5)+1))
	covers(cs, us, nd.Uint64("target", 1, supply))
}

// Longer lists of plain coins of one asset.
//
//verif:harness prop=C14 time=120
func hSelectMany() {
	n := nd.Choice("coins", nd.Bound("coins of one asset", 5, 6)) + 1
	cs := make([]*coin, n)
	us := make([]Utxo, n)
	for i := range cs {
		cs[i] = &coin{value: nd.Uint64("value", 0, supply), asset: "lbtc"}
		us[i] = cs[i]
	}
	target := nd.Uint64("target", 1, supply)
	covers(cs, us, target)
}

// A selection does not depend on the ones before it.
//
//verif:harness prop=C14 time=100
func hSelectTwice() {
	n := nd.Choice("coins", nd.Bound("coins per selection", 3, 4)) + 1
	cs := make([]*coin, n)
	us := make([]Utxo, n)
	for i := range cs {
		cs[i] = &coin{value: nd.Uint64("value", 0, supply), asset: "lbtc"}
		us[i] = cs[i]
	}
	covers(cs, us, nd.Uint64("target", 1, supply))
	covers(cs, us, nd.Uint64("next target", 1, supply))
}
