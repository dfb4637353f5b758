//verif:file pkg=pkg/securestore/bolt props=C28
package boltsecurestore

import (
	"bytes"
	"os"

	"github.com/tdex-network/tdex-daemon/internal/verifkv"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

//verif:model os.Stat
func mStat(name string) (os.FileInfo, error) { return nil, nil }

//verif:model os.IsNotExist
func mIsNotExist(err error) bool { return false }

// shelf is a store and what it should hold.
type shelf struct {
	securestore.SecureStorage
	disk *verifkv.Disk
	pw   []byte
	has  map[string]map[string][]byte // by bucket; the root one is ""
}

var creator = kvdb.Create

func newShelf(pw []byte) *shelf { return newShelfOn(verifkv.NewDisk(), pw) }

func newShelfOn(disk *verifkv.Disk, pw []byte) *shelf {
	s := &shelf{disk: disk, pw: pw, has: map[string]map[string][]byte{"": {}}}
	s.open()
	return s
}

func (s *shelf) open() {
	kvdb.Create = s.disk.Open(creator)
	st, err := NewSecureStorage(s.disk.Dir(), "store.db")
	must(err)
	s.SecureStorage = st
}

func copied(b []byte) *[]byte {
	c := append([]byte{}, b...)
	return &c
}

func (s *shelf) unlock() error { return s.CreateUnlock(copied(s.pw)) }

func (s *shelf) done() {
	s.Close()
	s.disk.Remove()
	kvdb.Create = creator
}

func bkt(name string) []byte {
	if name == "" {
		return nil
	}
	return []byte(name)
}

// holds tells whether the unlocked store holds what it should.
func (s *shelf) holds(buckets, keys []string) bool {
	ok := true
	list, err := s.ListBuckets()
	ok = ok && err == nil && len(list) == len(s.has)-1
	for _, l := range list {
		_, in := s.has[string(l)]
		ok = ok && in
	}
	for _, b := range buckets {
		want, in := s.has[b]
		all, err := s.GetAllFromBucket(bkt(b))
		ok = ok && (err == nil) == in && len(all) == len(want)
		for _, k := range keys {
			v, err := s.GetFromBucket(bkt(b), []byte(k))
			ok = ok && (err == nil) == in && bytes.Equal(v, want[k]) && bytes.Equal(all[k], want[k])
		}
	}
	return ok
}

// shut checks that the locked store gives nothing and changes nothing.
func (s *shelf) shut() {
	nd.Assert(s.IsLocked(), "a store is open without its password")
	_, e1 := s.ListBuckets()
	all, e2 := s.GetAllFromBucket(nil)
	v, e3 := s.GetFromBucket(nil, []byte("k"))
	nd.Assert(e1 != nil && e2 != nil && e3 != nil && len(all) == 0 && len(v) == 0, "a locked store is read")
	before := s.disk.Steps
	for _, err := range []error{
		s.CreateBucket([]byte("x")), s.RemoveBucket([]byte("b")),
		s.AddToBucket(nil, []byte("k"), []byte{1}), s.RemoveFromBucket(nil, []byte("k")),
		s.ChangePassword(s.pw, s.pw),
	} {
		nd.Assert(err != nil, "a locked store is changed")
	}
	nd.Assert(s.disk.Steps == before, "a locked store is written")
}

var (
	bucketNames = []string{"", "b", "b_", "_"}
	keyNames    = []string{"k", "_k", "k_", "b"}
)

func word(name string) []byte {
	w := nd.Bytes(name, 1)
	nd.Assume(w[0] >= 'a' && w[0] <= 'd')
	return w
}

// Any history of the store.
//
//verif:harness prop=C28 time=170 replays=6
//verif:bound a store with two buckets and an entry; up to 2 (thorough 3) operations on four buckets (with and without a separator in their names) and four keys, any values of one byte; passwords of one of four letters
//verif:assume what is encrypted with one key opens only with it
func hStoreHistory() {
	s := newShelf(word("password"))
	defer s.done()
	must(s.unlock())
	for _, b := range []string{"b", "b_"} {
		must(s.CreateBucket([]byte(b)))
		s.has[b] = map[string][]byte{}
	}
	must(s.AddToBucket([]byte("b"), []byte("_k"), []byte("v")))
	s.has["b"]["_k"] = []byte("v")
	for i, n := 0, nd.Bound("operations", 2, 3); i < n; i++ {
		op := nd.Choice("operation", 7)
		switch op {
		case 0: // add
			b, k, v := bucketNames[nd.Choice("bucket", 4)], keyNames[nd.Choice("key", 4)], nd.Bytes("value", 1)
			err := s.AddToBucket(bkt(b), []byte(k), v)
			_, is := s.has[b]
			_, isBucket := s.has[k]
			nd.Assert((err == nil) == (is && !(b == "" && isBucket)), "adding fails or not wrongly")
			if err == nil {
				s.has[b][k] = v
			}
		case 1: // remove
			b, k := bucketNames[nd.Choice("bucket", 4)], keyNames[nd.Choice("key", 4)]
			err := s.RemoveFromBucket(bkt(b), []byte(k))
			_, is := s.has[b]
			_, isBucket := s.has[k]
			nd.Assert((err == nil) == (is && !(b == "" && isBucket)), "removing fails or not wrongly")
			if err == nil {
				delete(s.has[b], k)
			}
		case 2: // new bucket
			b := []string{"_", "b", "k"}[nd.Choice("bucket", 3)]
			err := s.CreateBucket([]byte(b))
			_, isKey := s.has[""][b]
			nd.Assert((err == nil) == !isKey, "a bucket is created or not wrongly")
			if _, is := s.has[b]; err == nil && !is {
				s.has[b] = map[string][]byte{}
			}
		case 3: // remove bucket
			b := bucketNames[1+nd.Choice("bucket", 3)]
			err := s.RemoveBucket([]byte(b))
			_, is := s.has[b]
			nd.Assert((err == nil) == is, "a bucket is removed or not wrongly")
			delete(s.has, b)
		case 4: // password
			old, now := word("old"), word("new")
			err := s.ChangePassword(*copied(old), *copied(now))
			nd.Assert((err == nil) == bytes.Equal(old, s.pw), "the password is changed or not wrongly")
			if err == nil {
				nd.Cover("password changed")
				s.pw = now
			}
		case 5, 6: // lock and unlock, or restart
			if op == 5 {
				s.Lock()
			} else {
				must(s.Close())
				s.open()
			}
			if nd.Bool("looked into") {
				s.shut()
			}
			try := word("try")
			err := s.CreateUnlock(copied(try))
			right := bytes.Equal(try, s.pw)
			nd.Assert((err == nil) == right && s.IsLocked() == !right, "the store opens with another password or not with its own")
			if !right {
				nd.Cover("wrong password")
				must(s.unlock())
			}
		}
	}
	nd.Assert(s.holds(append(bucketNames, "k"), keyNames), "an entry is lost, made up or changed")
	s.Lock()
	must(s.unlock())
	nd.Assert(s.holds(append(bucketNames, "k"), keyNames), "an entry is lost, made up or changed after locking")
	nd.Cover("end")
}

// Requests that are never served.
//
//verif:harness prop=C28 time=30 replays=4
//verif:bound every reserved, missing or empty name, value or password
func hReserved() {
	s := newShelf([]byte("pw"))
	defer s.done()
	nd.Assert(s.CreateUnlock(nil) != nil, "a store is opened without a password")
	s.shut()
	must(s.unlock())
	reserved := []byte("enckey")
	for _, err := range []error{
		s.CreateBucket(reserved), s.CreateBucket(nil), s.RemoveBucket(reserved), s.RemoveBucket(nil),
		s.AddToBucket(nil, reserved, []byte{1}), s.AddToBucket(nil, nil, []byte{1}), s.AddToBucket(nil, []byte("k"), nil), s.AddToBucket(nil, []byte("k"), []byte{}),
		s.RemoveFromBucket(nil, reserved), s.RemoveFromBucket(nil, nil),
		s.ChangePassword(nil, []byte("new")), s.ChangePassword([]byte("pw"), nil),
	} {
		nd.Assert(err != nil, "a reserved or missing name is taken")
	}
	_, e1 := s.GetFromBucket(nil, reserved)
	all, e2 := s.GetAllFromBucket(nil)
	nd.Assert(e1 != nil && e2 == nil && len(all) == 0, "a reserved entry is read")
	must(s.Close())
	s.open()
	nd.Assert(s.unlock() == nil, "a reserved entry is changed")
	nd.Cover("end")
}

// A failure at any step of writing.
//
//verif:harness prop=C28 time=100 replays=4
//verif:bound a store of two buckets and up to three entries; one operation (first opening, adding, removing, new password) fails at any of its steps, and works again after it or the process stops there
//verif:assume a database transaction is stored as a whole when it is committed, or not at all
func hStoreFailure() {
	const never = 1 << 30
	disk := verifkv.NewDisk()
	disk.Fail = never
	s := newShelfOn(disk, []byte("old"))
	defer s.done()
	op := nd.Choice("operation", 5)
	if op > 0 {
		must(s.unlock())
		must(s.CreateBucket([]byte("b")))
		must(s.CreateBucket([]byte("c_")))
		s.has["b"], s.has["c_"] = map[string][]byte{}, map[string][]byte{}
		for i, n := 0, nd.Choice("entries", 4); i < n; i++ {
			b, k := []string{"", "b", "c_"}[i], []string{"k", "_k", "k_"}[i]
			v := nd.Bytes("value", 1)
			must(s.AddToBucket(bkt(b), []byte(k), v))
			s.has[b][k] = v
		}
	}
	s.disk.Fail = s.disk.Steps + nd.Choice("failing step", 11)
	s.disk.Stops = nd.Bool("stops")
	var err error
	apply := func() {}
	switch op {
	case 0:
		err = s.unlock()
	case 1:
		err = s.ChangePassword([]byte("old"), []byte("new"))
		apply = func() { s.pw = []byte("new") }
	case 2:
		err = s.AddToBucket([]byte("b"), []byte("_k"), []byte("w"))
		apply = func() { s.has["b"]["_k"] = []byte("w") }
	case 3:
		err = s.RemoveFromBucket(nil, []byte("k"))
		apply = func() { delete(s.has[""], "k") }
	case 4:
		err = s.RemoveBucket([]byte("c_"))
		apply = func() { delete(s.has, "c_") }
	}
	failed := s.disk.Steps > s.disk.Fail
	s.disk.Fail = never
	nd.Assert((err != nil) == failed, "a failure is hidden or made up")
	if err == nil {
		apply()
	} else {
		nd.Cover("failed")
		nd.Assert(op > 0 || s.IsLocked(), "a store is open with a key that is not stored")
	}
	if !s.disk.Dead && nd.Bool("goes on") {
		must(s.unlock())
		nd.Assert(s.holds(bucketNames, keyNames), "an entry is lost while the store is open")
	}
	s.disk.Dead = false
	must(s.Close())
	s.open()
	nd.Assert(s.unlock() == nil, "the store does not open with its password")
	nd.Assert(s.holds(bucketNames, keyNames), "an entry is lost")
	nd.Cover("end")
}
