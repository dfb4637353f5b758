//verif:file pkg=internal/verifdb props=C07,C08,C09,C10,C11,C12,C13,C20,C21,C22,C23,C24,C25,C26,C32,C35,C36,C37,C38,C39,C40,C41 keep=internal/infrastructure/storage/db/badger,internal/infrastructure/storage/db/inmemory
package verifdb

// A stand-in for badgerhold on in-memory badger: tables of (key, value) records
// per type, snapshot transactions with read-conflict detection at commit.
// The replay runs on the real library, which checks the stand-in against it.

import (
	"context"
	"errors"

	"github.com/dgraph-io/badger/v2"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/timshannon/badgerhold/v2"
)

var Ctx = context.Background()

// New opens an empty repository of the kind chosen.
func New(badger bool) ports.RepoManager {
	if badger {
		r, err := dbbadger.NewRepoManager("", nil)
		if err != nil {
			panic(err)
		}
		return r
	}
	return inmemory.NewRepoManager()
}

// Fixed identifiers used by the harnesses.
var trades = []uuid.UUID{{1}, {2}}

func key(i int) domain.UnspentKey {
	return domain.UnspentKey{TxID: []string{"a", "a", "b", "none"}[i], VOut: uint32([]int{0, 1, 0, 7}[i])}
}

var ids = []uuid.UUID{{1}, {2}, {3}}

const first = domain.MarketAccountStart

func quote(i int) string { return []string{"q0", "q1", "q2"}[i] }

type vRec struct {
	typ string
	key interface{}
	val interface{} // nil: deleted
	ver int
}

type vDB struct {
	recs []*vRec
	ver  int
	hold *badgerhold.Store
	db   *badger.DB
	shut bool
}

type vTx struct {
	db      *vDB
	start   int
	snap    []vRec
	writes  []*vRec
	reads   []*vRec
	discard bool
}

var (
	vDBs     []*vDB
	vTxs     = map[*badger.Txn]*vTx{}
	vQueries = map[*badgerhold.Query]*vQuery{}
	vCrits   = map[*badgerhold.Criterion]*vCrit{}
)

type vCrit struct {
	q     *badgerhold.Query
	field string
	op    string
	vals  []interface{}
}

type vQuery struct {
	crits []*vCrit
	sort  []string
	rev   bool
	limit int
	skip  int
	ors   []*badgerhold.Query
}

func vdb(s *badgerhold.Store) *vDB {
	for _, d := range vDBs {
		if d.hold == s {
			return d
		}
	}
	panic("store not opened")
}

//verif:model github.com/dgraph-io/badger/v2.DefaultOptions
func mDefaultOptions(path string) badger.Options { return badger.Options{Dir: path, ValueDir: path} }

//verif:model github.com/timshannon/badgerhold/v2.Open
func mOpen(o badgerhold.Options) (*badgerhold.Store, error) {
	d := &vDB{hold: &badgerhold.Store{}, db: &badger.DB{}}
	vDBs = append(vDBs, d)
	return d.hold, nil
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Badger
func mBadger(s *badgerhold.Store) *badger.DB { return vdb(s).db }

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Close
func mClose(s *badgerhold.Store) error {
	vdb(s).shut = true
	return nil
}

func begin(d *vDB) *vTx {
	t := &vTx{db: d, start: d.ver}
	for _, r := range d.recs {
		t.snap = append(t.snap, *r)
	}
	return t
}

//verif:model (*github.com/dgraph-io/badger/v2.DB).NewTransaction
func mNewTransaction(db *badger.DB, update bool) *badger.Txn {
	for _, d := range vDBs {
		if d.db == db {
			p := &badger.Txn{}
			vTxs[p] = begin(d)
			return p
		}
	}
	panic("database not opened")
}

func (t *vTx) find(typ string, key interface{}) *vRec {
	for i := len(t.writes) - 1; i >= 0; i-- {
		w := t.writes[i]
		if w.typ == typ && nd.DeepEq(w.key, key) {
			return w
		}
	}
	t.reads = append(t.reads, &vRec{typ: typ, key: key})
	for i := range t.snap {
		r := &t.snap[i]
		if r.typ == typ && nd.DeepEq(r.key, key) {
			return r
		}
	}
	return nil
}

func (t *vTx) get(typ string, key interface{}) interface{} {
	r := t.find(typ, key)
	if r == nil {
		return nil
	}
	return r.val
}

func (t *vTx) set(typ string, key, val interface{}) {
	for _, w := range t.writes {
		if w.typ == typ && nd.DeepEq(w.key, key) {
			w.val = val
			return
		}
	}
	t.writes = append(t.writes, &vRec{typ: typ, key: key, val: val})
}

func (t *vTx) commit() error {
	if t.discard {
		return errors.New("Trying to commit a discarded txn")
	}
	t.discard = true
	if len(t.writes) == 0 {
		return nil
	}
	if t.db.shut {
		return badger.ErrBlockedWrites
	}
	for _, k := range t.reads {
		for _, r := range t.db.recs {
			if r.ver > t.start && r.typ == k.typ && nd.DeepEq(r.key, k.key) {
				return badger.ErrConflict
			}
		}
	}
	t.db.ver++
	for _, w := range t.writes {
		var rec *vRec
		for _, r := range t.db.recs {
			if r.typ == w.typ && nd.DeepEq(r.key, w.key) {
				rec = r
			}
		}
		if rec == nil {
			rec = &vRec{typ: w.typ, key: w.key}
			t.db.recs = append(t.db.recs, rec)
		}
		rec.val, rec.ver = w.val, t.db.ver
	}
	return nil
}

func vtx(tx *badger.Txn) *vTx {
	t, ok := vTxs[tx]
	if !ok {
		panic("unknown transaction")
	}
	return t
}

//verif:model (*github.com/dgraph-io/badger/v2.Txn).Commit
func mCommit(tx *badger.Txn) error { return vtx(tx).commit() }

//verif:model (*github.com/dgraph-io/badger/v2.Txn).Discard
func mDiscard(tx *badger.Txn) { vtx(tx).discard = true }

func (t *vTx) Get(key, result interface{}) error {
	if t.discard {
		return badger.ErrDiscardedTxn
	}
	v := t.get(nd.TypeName(result), key)
	if v == nil {
		return badgerhold.ErrNotFound
	}
	nd.GobInto(result, v)
	return nil
}

func (t *vTx) Insert(key, data interface{}) error {
	typ := nd.TypeName(data)
	if t.discard {
		return badgerhold.ErrKeyExists
	}
	if t.get(typ, key) != nil {
		return badgerhold.ErrKeyExists
	}
	t.set(typ, nd.GobCopy(key), nd.GobCopy(data))
	return nil
}

func (t *vTx) Update(key, data interface{}) error {
	if t.discard {
		return badger.ErrDiscardedTxn
	}
	typ := nd.TypeName(data)
	if t.get(typ, key) == nil {
		return badgerhold.ErrNotFound
	}
	t.set(typ, nd.GobCopy(key), nd.GobCopy(data))
	return nil
}

func (t *vTx) Upsert(key, data interface{}) error {
	if t.discard {
		return badger.ErrDiscardedTxn
	}
	typ := nd.TypeName(data)
	t.get(typ, key)
	t.set(typ, nd.GobCopy(key), nd.GobCopy(data))
	return nil
}

func (t *vTx) Delete(key, data interface{}) error {
	if t.discard {
		return badger.ErrDiscardedTxn
	}
	typ := nd.TypeName(data)
	if t.get(typ, key) == nil {
		return badgerhold.ErrNotFound
	}
	t.set(typ, nd.GobCopy(key), nil)
	return nil
}

func (c *vCrit) match(v interface{}) bool {
	f := nd.Field(v, c.field)
	switch c.op {
	case "eq":
		return nd.DeepEq(f, c.vals[0])
	case "ne":
		return !nd.DeepEq(f, c.vals[0])
	case "in":
		for _, x := range c.vals {
			if nd.DeepEq(f, x) {
				return true
			}
		}
		return false
	case "lt":
		return nd.Less(f, c.vals[0])
	case "gt":
		return nd.Less(c.vals[0], f)
	case "le":
		return !nd.Less(c.vals[0], f)
	case "ge":
		return !nd.Less(f, c.vals[0])
	}
	panic("criterion without comparison")
}

func matches(q *badgerhold.Query, v interface{}) bool {
	if q == nil {
		return true
	}
	vq := vQueries[q]
	ok := true
	for _, c := range vq.crits {
		if !c.match(v) {
			ok = false
			break
		}
	}
	if ok {
		return true
	}
	for _, o := range vq.ors {
		if matches(o, v) {
			return true
		}
	}
	return false
}

func (t *vTx) Find(result interface{}, q *badgerhold.Query) error {
	if t.discard {
		return badger.ErrDiscardedTxn
	}
	typ := nd.TypeName(result)
	var out []interface{}
	seen := func(r *vRec) {
		if r.val != nil && matches(q, r.val) {
			out = append(out, r.val)
		}
	}
	for i := range t.snap {
		r := &t.snap[i]
		if r.typ != typ {
			continue
		}
		if r.val != nil {
			t.reads = append(t.reads, &vRec{typ: typ, key: r.key})
		}
		over := false
		for _, w := range t.writes {
			if w.typ == typ && nd.DeepEq(w.key, r.key) {
				over = true
			}
		}
		if !over {
			seen(r)
		}
	}
	for _, w := range t.writes {
		if w.typ == typ {
			seen(w)
		}
	}
	if q != nil {
		vq := vQueries[q]
		if len(vq.sort) > 1 {
			panic("sorting on several fields is not modelled")
		}
		if len(vq.sort) == 1 {
			for i := 1; i < len(out); i++ {
				for j := i; j > 0 && nd.Less(nd.Field(out[j], vq.sort[0]), nd.Field(out[j-1], vq.sort[0])); j-- {
					out[j], out[j-1] = out[j-1], out[j]
				}
			}
		}
		if vq.rev {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
		if vq.skip > 0 {
			if vq.skip > len(out) {
				out = nil
			} else {
				out = out[vq.skip:]
			}
		}
		if vq.limit > 0 && vq.limit < len(out) {
			out = out[:vq.limit]
		}
	}
	for _, v := range out {
		nd.Append(result, v)
	}
	return nil
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxGet
func mTxGet(s *badgerhold.Store, tx *badger.Txn, key, result interface{}) error {
	return vtx(tx).Get(key, result)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxInsert
func mTxInsert(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vtx(tx).Insert(key, data)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxUpdate
func mTxUpdate(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vtx(tx).Update(key, data)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxUpsert
func mTxUpsert(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vtx(tx).Upsert(key, data)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxDelete
func mTxDelete(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vtx(tx).Delete(key, data)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).TxFind
func mTxFind(s *badgerhold.Store, tx *badger.Txn, result interface{}, q *badgerhold.Query) error {
	return vtx(tx).Find(result, q)
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Get
func mGet(s *badgerhold.Store, key, result interface{}) error { return begin(vdb(s)).Get(key, result) }

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Find
func mFind(s *badgerhold.Store, result interface{}, q *badgerhold.Query) error {
	return begin(vdb(s)).Find(result, q)
}

func auto(s *badgerhold.Store, f func(t *vTx) error) error {
	t := begin(vdb(s))
	if err := f(t); err != nil {
		return err
	}
	return t.commit()
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Insert
func mInsert(s *badgerhold.Store, key, data interface{}) error {
	return auto(s, func(t *vTx) error { return t.Insert(key, data) })
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Update
func mUpdate(s *badgerhold.Store, key, data interface{}) error {
	return auto(s, func(t *vTx) error { return t.Update(key, data) })
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Upsert
func mUpsert(s *badgerhold.Store, key, data interface{}) error {
	return auto(s, func(t *vTx) error { return t.Upsert(key, data) })
}

//verif:model (*github.com/timshannon/badgerhold/v2.Store).Delete
func mDelete(s *badgerhold.Store, key, data interface{}) error {
	return auto(s, func(t *vTx) error { return t.Delete(key, data) })
}

// ---- queries

//verif:model github.com/timshannon/badgerhold/v2.Where
func mWhere(field string) *badgerhold.Criterion {
	q := &badgerhold.Query{}
	vQueries[q] = &vQuery{}
	return crit(q, field)
}

func crit(q *badgerhold.Query, field string) *badgerhold.Criterion {
	c := &badgerhold.Criterion{}
	vCrits[c] = &vCrit{q: q, field: field}
	return c
}

//verif:model (*github.com/timshannon/badgerhold/v2.Query).And
func mAnd(q *badgerhold.Query, field string) *badgerhold.Criterion { return crit(q, field) }

//verif:model (*github.com/timshannon/badgerhold/v2.Query).Or
func mOr(q, o *badgerhold.Query) *badgerhold.Query {
	vQueries[q].ors = append(vQueries[q].ors, o)
	return q
}

//verif:model (*github.com/timshannon/badgerhold/v2.Query).SortBy
func mSortBy(q *badgerhold.Query, f ...string) *badgerhold.Query {
	vQueries[q].sort = append(vQueries[q].sort, f...)
	return q
}

//verif:model (*github.com/timshannon/badgerhold/v2.Query).Reverse
func mReverse(q *badgerhold.Query) *badgerhold.Query { vQueries[q].rev = !vQueries[q].rev; return q }

//verif:model (*github.com/timshannon/badgerhold/v2.Query).Limit
func mLimit(q *badgerhold.Query, n int) *badgerhold.Query { vQueries[q].limit = n; return q }

//verif:model (*github.com/timshannon/badgerhold/v2.Query).Skip
func mSkip(q *badgerhold.Query, n int) *badgerhold.Query { vQueries[q].skip = n; return q }

func op(c *badgerhold.Criterion, op string, v ...interface{}) *badgerhold.Query {
	k := vCrits[c]
	k.op, k.vals = op, v
	vQueries[k.q].crits = append(vQueries[k.q].crits, k)
	return k.q
}

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Eq
func mEq(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "eq", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Ne
func mNe(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "ne", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Gt
func mGt(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "gt", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Lt
func mLt(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "lt", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Ge
func mGe(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "ge", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).Le
func mLe(c *badgerhold.Criterion, v interface{}) *badgerhold.Query { return op(c, "le", v) }

//verif:model (*github.com/timshannon/badgerhold/v2.Criterion).In
func mIn(c *badgerhold.Criterion, v ...interface{}) *badgerhold.Query { return op(c, "in", v...) }

//verif:model github.com/timshannon/badgerhold/v2.DefaultEncode
func mDefaultEncode(v interface{}) ([]byte, error) { return []byte(nd.Blob("gob", nd.GobCopy(v))), nil }
