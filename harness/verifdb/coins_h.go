//verif:file pkg=internal/verifdb props=C08,C09 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

import (
	"context"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

type coin struct {
	known, spent, confirmed, locked bool
	val                             uint64
	by                              int
}

type coins struct {
	repo domain.UnspentRepository
	m    []coin
	n    int
}

func (c *coins) check() {
	for i := 0; i < 4; i++ {
		u, err := c.repo.GetUnspentWithKey(Ctx, key(i))
		nd.Assert(err == nil, "lookup failed")
		if !c.m[i].known {
			nd.Assert(u == nil, "an unknown coin appeared")
			continue
		}
		nd.Assert(u != nil, "a stored coin was lost")
		if u == nil {
			continue
		}
		nd.Assert(u.TxID == key(i).TxID && u.VOut == key(i).VOut && u.Value == c.m[i].val, "a stored coin was altered")
		nd.Assert(u.Spent == c.m[i].spent, "wrong spent state")
		nd.Assert(u.Confirmed == c.m[i].confirmed, "wrong confirmed state")
		if !c.m[i].spent {
			nd.Assert(u.Locked == c.m[i].locked, "wrong lock state")
			if c.m[i].locked && u.Locked {
				nd.Assert(u.LockedBy != nil && *u.LockedBy == trades[c.m[i].by], "coin locked by another trade")
			}
		}
	}
}

func (c *coins) request() {
	op := nd.Choice("request", 5)
	var ks []domain.UnspentKey
	var ids []int
	for i := 0; i < 4; i++ {
		if (i < c.n || i == 3 && op != 0) && nd.Bool("coin") {
			ks = append(ks, key(i))
			ids = append(ids, i)
		}
	}
	if len(ks) == 0 {
		nd.Assume(false)
	}
	m := c.m
	want, got := 0, 0
	var err error
	switch op {
	case 0:
		var us []domain.Unspent
		conf := nd.Bool("confirmed")
		for _, i := range ids {
			val := nd.Uint64("value", 0, 1<<63)
			us = append(us, domain.Unspent{TxID: key(i).TxID, VOut: key(i).VOut, Value: val, Confirmed: conf})
			if !m[i].known {
				m[i] = coin{known: true, confirmed: conf, val: val}
				want++
			}
		}
		err, got = c.repo.AddUnspents(Ctx, us), want
	case 1:
		for _, i := range ids {
			if m[i].known && !m[i].spent {
				m[i].spent, m[i].locked = true, false
				want++
			}
		}
		got, err = c.repo.SpendUnspents(Ctx, ks)
	case 2:
		for _, i := range ids {
			if m[i].known && !m[i].confirmed {
				m[i].confirmed = true
				want++
			}
		}
		got, err = c.repo.ConfirmUnspents(Ctx, ks)
	case 3:
		by := nd.Choice("trade", 2)
		for _, i := range ids {
			// only unspent coins are ever offered to a trade
			nd.Assume(!m[i].spent)
			if m[i].known && !m[i].locked {
				m[i].locked, m[i].by = true, by
				want++
			}
		}
		got, err = c.repo.LockUnspents(Ctx, ks, trades[by])
	case 4:
		for _, i := range ids {
			nd.Assume(!m[i].spent)
			if m[i].known && m[i].locked {
				m[i].locked = false
				want++
			}
		}
		got, err = c.repo.UnlockUnspents(Ctx, ks)
	}
	nd.Assert(err == nil, "request failed")
	nd.Assert(got == want, "wrong number of changed coins reported")
}

// One request on coins in any state.
//
//verif:harness prop=C08 time=100
func hCoinRequest() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	c := &coins{repo: rm.UnspentRepository(), n: nd.Bound("coins", 3, 3), m: make([]coin, 4)}
	for i := 0; i < c.n; i++ {
		if !nd.Bool("known") {
			continue
		}
		m := coin{known: true, confirmed: nd.Bool("confirmed"), spent: nd.Bool("spent"), val: nd.Uint64("value", 0, 1<<63)}
		if !m.spent && nd.Bool("locked") {
			m.locked, m.by = true, nd.Choice("lockedby", 2)
		}
		u := domain.Unspent{TxID: key(i).TxID, VOut: key(i).VOut, Value: m.val, Confirmed: m.confirmed, Spent: m.spent}
		c.m[i] = m
		nd.Assert(c.repo.AddUnspents(Ctx, []domain.Unspent{u}) == nil, "storing a coin failed")
		if m.locked {
			_, err := c.repo.LockUnspents(Ctx, []domain.UnspentKey{key(i)}, trades[m.by])
			nd.Assert(err == nil, "locking failed")
		}
	}
	c.check()
	c.request()
	c.check()
}

// Any sequence of requests.
//
//verif:harness prop=C08 time=100
func hCoinHistory() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	c := &coins{repo: rm.UnspentRepository(), n: 1, m: make([]coin, 4)}
	steps := nd.Bound("requests", 3, 4)
	for s := 0; s < steps; s++ {
		c.request()
		c.check()
	}
}

// A context under which every storage step of the disk-backed store is a
// point where the other request may run.
type yieldCtx struct{ context.Context }

func (c yieldCtx) Value(k interface{}) interface{} {
	nd.Yield()
	return c.Context.Value(k)
}

// Two trades asking for the same coins at the same time.
//
//verif:harness prop=C08 time=60
//verif:bound two requests, every order of their storage steps
func hLockRace() {
	rm := New(nd.Bool("badger"))
	defer rm.Close()
	repo := rm.UnspentRepository()
	for i := 0; i < 2; i++ {
		nd.Assert(repo.AddUnspents(Ctx, []domain.Unspent{{TxID: key(i).TxID, VOut: key(i).VOut, Value: 1, Confirmed: true}}) == nil, "storing a coin failed")
	}
	nd.Schedule(8)
	got := make([]int, 2)
	errs := make([]error, 2)
	for t := 0; t < 2; t++ {
		t := t
		nd.Go(func() {
			ks := []domain.UnspentKey{key(0)}
			if t == 1 {
				ks = []domain.UnspentKey{key(1), key(0)}
			}
			got[t], errs[t] = repo.LockUnspents(yieldCtx{Ctx}, ks, trades[t])
		})
	}
	nd.RunTasks()
	u, err := repo.GetUnspentWithKey(Ctx, key(0))
	nd.Assert(err == nil && u != nil && u.Locked && u.LockedBy != nil, "a requested coin is not locked")
	full := 0
	for t := 0; t < 2; t++ {
		if errs[t] == nil && got[t] == t+1 {
			full++
			nd.Assert(u.LockedBy != nil && *u.LockedBy == trades[t], "coin promised to one trade is locked for another")
		}
	}
	nd.Assert(full <= 1, "a coin is reserved for two trades")
}
