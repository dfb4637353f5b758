//verif:file pkg=pkg/macaroons props=C34
package macaroons

import (
	"bytes"
	"context"
	"crypto/rand"

	"github.com/tdex-network/tdex-daemon/internal/verifkv"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// dice gives numbers never given before.
type dice struct{ n byte }

func (d *dice) Read(b []byte) (int, error) {
	d.n++
	for i := range b {
		b[i] = 0
	}
	b[0] = d.n
	return len(b), nil
}

// ring is a key store and what it should hold.
type ring struct {
	*RootKeyStorage
	disk   *verifkv.Disk
	pw     []byte
	set    bool // it was opened once
	has    map[string][]byte
	opened bool
	seen   [][]byte
}

var (
	creator = kvdb.Create
	reader  = rand.Reader
)

func newRing(disk *verifkv.Disk, pw []byte) *ring {
	rand.Reader = &dice{}
	r := &ring{disk: disk, pw: pw, has: map[string][]byte{}}
	r.open()
	return r
}

func (r *ring) open() {
	kvdb.Create = r.disk.Open(creator)
	dir := r.disk.Dir()
	db, err := kvdb.Create(kvdb.BoltBackendName, dir, true, kvdb.DefaultDBTimeout)
	must(err)
	st, err := NewRootKeyStorage(db)
	must(err)
	r.RootKeyStorage, r.opened = st, false
}

func copied(b []byte) *[]byte {
	c := append([]byte{}, b...)
	return &c
}

func (r *ring) unlock() error {
	err := r.CreateUnlock(copied(r.pw))
	if err == nil {
		r.opened = true
	}
	return err
}

func (r *ring) done() {
	r.Close()
	r.disk.Remove()
	kvdb.Create, rand.Reader = creator, reader
}

var (
	bg    = context.Background()
	names = []string{"0", "1", "0_", "enckey"}
)

func with(id string) context.Context { return ContextWithRootKeyID(bg, []byte(id)) }

// made records the key of an id that had none.
func (r *ring) made(id string, key []byte) {
	fresh := len(key) == RootKeyLen
	for _, k := range r.seen {
		fresh = fresh && !bytes.Equal(k, key)
	}
	nd.Assert(fresh, "a new root key is missing or used before")
	r.seen = append(r.seen, key)
	r.has[id] = append([]byte{}, key...)
}

// holds tells whether the unlocked store holds what it should.
func (r *ring) holds() bool {
	list, err := r.ListMacaroonIDs(bg)
	ok := err == nil && len(list) == len(r.has)
	for _, l := range list {
		_, in := r.has[string(l)]
		ok = ok && in
	}
	for _, id := range names {
		k, err := r.Get(bg, []byte(id))
		want, in := r.has[id]
		ok = ok && (err == nil) == in && bytes.Equal(k, want)
	}
	return ok
}

// shut checks that the locked store gives nothing and changes nothing.
func (r *ring) shut() {
	before := r.disk.Steps
	k, e1 := r.Get(bg, []byte("0"))
	k2, _, e2 := r.RootKey(with("0"))
	list, e3 := r.ListMacaroonIDs(bg)
	_, e4 := r.DeleteMacaroonID(bg, []byte("1"))
	e5 := r.ChangePassword(r.pw, []byte("x"))
	e6 := r.GenerateNewRootKey()
	nd.Assert(e1 != nil && e2 != nil && e3 != nil && len(k)+len(k2)+len(list) == 0, "a locked store gives a key")
	nd.Assert(e4 != nil && e5 != nil && e6 != nil && r.disk.Steps == before, "a locked store is changed")
}

func word(name string) []byte {
	w := nd.Bytes(name, 1)
	nd.Assume(nd.And(w[0] >= 'a', w[0] <= 'c'))
	return w
}

func (r *ring) rootKey(id string) {
	key, got, err := r.RootKey(with(id))
	if id == "enckey" || id == "" {
		nd.Assert(err != nil && len(key) == 0, "a reserved entry is given as a root key")
		return
	}
	nd.Assert(err == nil && string(got) == id, "no root key")
	if want, is := r.has[id]; is {
		nd.Assert(bytes.Equal(key, want), "a root key is changed")
	} else {
		r.made(id, key)
	}
}

func (r *ring) generate() {
	must(r.GenerateNewRootKey())
	key, err := r.Get(bg, []byte("0"))
	nd.Assert(err == nil, "no root key after generating one")
	r.made("0", key)
}

func (r *ring) change(old, now []byte) {
	err := r.ChangePassword(*copied(old), *copied(now))
	right := bytes.Equal(old, r.pw)
	if _, is := r.has["0"]; is {
		nd.Assert((err == nil) == right, "the password is changed or not wrongly")
	} else {
		nd.Assert(right || err != nil, "the password is changed without the old one")
	}
	if err == nil {
		nd.Cover("password changed")
		r.pw = now
	}
}

// Any history of the root keys.
//
//verif:harness prop=C34 time=170 replays=6
//verif:bound up to 3 (thorough 4) operations, ids "0", "1", "0_", "enckey" and none, passwords of one of three letters
//verif:assume what is encrypted with one key opens only with it; random numbers differ
func hKeyHistory() {
	r := newRing(verifkv.NewDisk(), word("password"))
	defer r.done()
	nd.Assert(r.CreateUnlock(nil) != nil, "a store is opened without a password")
	r.shut()
	must(r.unlock())
	for i, n := 0, nd.Bound("operations", 3, 4); i < n; i++ {
		switch nd.Choice("operation", 5) {
		case 0:
			r.rootKey(append(names, "")[nd.Choice("id", 5)])
		case 1:
			id := append(names, "")[nd.Choice("id", 5)]
			got, err := r.DeleteMacaroonID(bg, []byte(id))
			_, is := r.has[id]
			if id == "0" || id == "enckey" || id == "" {
				nd.Assert(err != nil, "a reserved entry is deleted")
			} else if is {
				nd.Assert(err == nil && string(got) == id, "a root key is not deleted")
				delete(r.has, id)
			} else {
				nd.Assert(err == nil && len(got) == 0, "a missing root key is deleted")
			}
		case 2:
			r.generate()
		case 3:
			r.change(word("old"), word("new"))
		case 4:
			nd.Assert(r.CreateUnlock(copied(r.pw)) != nil, "an open store is opened again")
			must(r.Close())
			r.open()
			if nd.Bool("looked into") {
				r.shut()
			}
			try := word("try")
			err := r.CreateUnlock(copied(try))
			nd.Assert((err == nil) == bytes.Equal(try, r.pw), "the store opens with another password or not with its own")
			if err != nil {
				nd.Cover("wrong password")
				r.shut()
				must(r.unlock())
			}
		}
	}
	nd.Assert(r.holds(), "a root key is lost, made up or changed")
	must(r.Close())
	r.open()
	nd.Assert(r.unlock() == nil, "the store does not open with its password")
	nd.Assert(r.holds(), "a root key is lost, made up or changed when the store is closed")
	nd.Cover("end")
}

// A failure at any step of writing.
//
//verif:harness prop=C34 time=100 replays=4
//verif:bound a store with up to three root keys; one operation (first opening, new root key, generating, deleting, new password) fails at any of its steps, and works again after it or the process stops there
//verif:assume a database transaction is stored as a whole when it is committed, or not at all
func hKeyFailure() {
	const never = 1 << 30
	disk := verifkv.NewDisk()
	disk.Fail = never
	r := newRing(disk, []byte("old"))
	defer r.done()
	op := nd.Choice("operation", 5)
	if op > 0 {
		must(r.unlock())
		for i, n := 0, nd.Choice("keys", 4); i < n; i++ {
			r.rootKey([]string{"0", "1", "0_"}[i])
		}
	}
	if _, is := r.has["0"]; op == 4 && !is {
		return
	}
	disk.Fail = disk.Steps + nd.Choice("failing step", 8)
	disk.Stops = nd.Bool("stops")
	var err error
	var key, got []byte
	switch op {
	case 0:
		err = r.unlock()
	case 1:
		key, _, err = r.RootKey(with("1"))
	case 2:
		err = r.GenerateNewRootKey()
	case 3:
		got, err = r.DeleteMacaroonID(bg, []byte("1"))
	case 4:
		err = r.ChangePassword([]byte("old"), []byte("new"))
	}
	failed := disk.Steps > disk.Fail
	disk.Fail = never
	nd.Assert((err != nil) == failed, "a failure is hidden or made up")
	if err != nil {
		nd.Cover("failed")
		nd.Assert(len(key)+len(got) == 0, "a failed operation gives a result")
		if op == 0 {
			r.shut()
		}
	} else {
		switch op {
		case 1:
			if want, is := r.has["1"]; is {
				nd.Assert(bytes.Equal(key, want), "a root key is changed")
			} else {
				r.made("1", key)
			}
		case 2:
			key, err := r.Get(bg, []byte("0"))
			nd.Assert(err == nil, "no root key after generating one")
			r.made("0", key)
		case 3:
			delete(r.has, "1")
		case 4:
			r.pw = []byte("new")
		}
	}
	if !disk.Dead && nd.Bool("goes on") {
		if op == 0 && err != nil {
			must(r.unlock())
		}
		nd.Assert(r.holds(), "a root key is lost while the store is open")
		r.rootKey("0")
		nd.Assert(r.holds(), "a root key is lost while the store is open")
	}
	disk.Dead = false
	must(r.Close())
	r.open()
	nd.Assert(r.unlock() == nil, "the store does not open with its password")
	nd.Assert(r.holds(), "a root key is lost")
	nd.Cover("end")
}
