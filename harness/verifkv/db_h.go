//verif:file pkg=internal/verifkv props=C27,C41,C28,C34 keep=github.com/btcsuite/btcwallet/walletdb
package verifkv

// A database of nested buckets that behaves like bbolt, on a disk in memory,
// where any writing step can fail.

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/btcsuite/btcwallet/walletdb"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

type entry struct {
	key, val []byte
	sub      *node
}

type node struct{ es []entry }

func (n *node) find(k []byte) (int, bool) {
	for i := range n.es {
		if c := bytes.Compare(n.es[i].key, k); c == 0 {
			return i, true
		} else if c > 0 {
			return i, false
		}
	}
	return len(n.es), false
}

func (n *node) put(i int, e entry) {
	n.es = append(n.es, entry{})
	copy(n.es[i+1:], n.es[i:])
	n.es[i] = e
}

func (n *node) clone() *node {
	c := &node{}
	for _, e := range n.es {
		if e.sub != nil {
			e.sub = e.sub.clone()
		}
		c.es = append(c.es, e)
	}
	return c
}

// Disk is what remains when the database is closed.
type Disk struct {
	root  *node
	Steps int // writing steps so far
	Fail  int // the step that fails (-1: none)
	Dead  bool
	Stops bool // no step works after the failing one
	dir   string
}

var errDisk = errors.New("disk failure")

func NewDisk() *Disk { return &Disk{root: &node{}, Fail: -1} }

// Real tells a real database to use: a replay without failures runs on it.
func (d *Disk) Real() bool { return !nd.Symbolic() && d.Fail < 0 }

// Open stands for the creation of the database.
func (d *Disk) Open(create func(string, ...interface{}) (walletdb.DB, error)) func(string, ...interface{}) (walletdb.DB, error) {
	return func(kind string, args ...interface{}) (walletdb.DB, error) {
		if d.Real() {
			return create(kind, args...)
		}
		return &db{d}, nil
	}
}

// Dir is a directory for a real database.
func (d *Disk) Dir() string {
	if nd.Symbolic() {
		return "data"
	}
	if d.dir == "" {
		t, err := ioutil.TempDir("", "verifkv")
		if err != nil {
			panic(err)
		}
		d.dir = filepath.Join(t, "db")
	}
	return d.dir
}

// Remove removes it.
func (d *Disk) Remove() {
	if !nd.Symbolic() && d.dir != "" {
		os.RemoveAll(filepath.Dir(d.dir))
	}
}

func (d *Disk) step() error {
	if d.Dead {
		return errDisk
	}
	d.Steps++
	if d.Fail == d.Steps-1 {
		d.Dead = d.Stops
		return errDisk
	}
	return nil
}

type db struct{ d *Disk }

func (b *db) BeginReadTx() (walletdb.ReadTx, error) { return &tx{d: b.d, root: b.d.root}, nil }

func (b *db) BeginReadWriteTx() (walletdb.ReadWriteTx, error) {
	if err := b.d.step(); err != nil {
		return nil, err
	}
	return &tx{d: b.d, root: b.d.root.clone(), writes: true}, nil
}
func (b *db) Copy(w io.Writer) error { return nil }
func (b *db) Close() error           { return nil }
func (b *db) Batch(f func(tx walletdb.ReadWriteTx) error) error {
	return walletdb.Update(b, f)
}

type tx struct {
	d              *Disk
	root           *node
	writes, closed bool
	lent           [][]byte
}

// lend gives bytes that are valid only as long as the transaction.
func (t *tx) lend(b []byte) []byte {
	b = append([]byte{}, b...)
	t.lent = append(t.lent, b)
	return b
}

func (t *tx) end() {
	t.closed = true
	for _, b := range t.lent {
		for i := range b {
			b[i] = 0xee
		}
	}
}

func (t *tx) ReadBucket(k []byte) walletdb.ReadBucket {
	if b := t.bucket(t.root, k); b != nil {
		return b
	}
	return nil
}
func (t *tx) ReadWriteBucket(k []byte) walletdb.ReadWriteBucket {
	if b := t.bucket(t.root, k); b != nil {
		return b
	}
	return nil
}

func (t *tx) bucket(n *node, k []byte) *bucket {
	if i, ok := n.find(k); ok && n.es[i].sub != nil {
		return &bucket{t, n.es[i].sub}
	}
	return nil
}
func (t *tx) ForEachBucket(f func([]byte) error) error {
	for _, e := range t.root.es {
		if err := f(t.lend(e.key)); err != nil {
			return err
		}
	}
	return nil
}
func (t *tx) Rollback() error {
	if t.closed {
		return walletdb.ErrTxClosed
	}
	t.end()
	return nil
}
func (t *tx) CreateTopLevelBucket(k []byte) (walletdb.ReadWriteBucket, error) {
	return (&bucket{t, t.root}).CreateBucketIfNotExists(k)
}
func (t *tx) DeleteTopLevelBucket(k []byte) error {
	return (&bucket{t, t.root}).DeleteNestedBucket(k)
}
func (t *tx) Commit() error {
	if t.closed {
		return walletdb.ErrTxClosed
	}
	t.end()
	if !t.writes {
		return walletdb.ErrTxNotWritable
	}
	if err := t.d.step(); err != nil {
		return err
	}
	t.d.root = t.root
	return nil
}
func (t *tx) OnCommit(f func()) { panic("not supported") }

type bucket struct {
	t *tx
	n *node
}

func (b *bucket) NestedReadBucket(k []byte) walletdb.ReadBucket {
	if s := b.t.bucket(b.n, k); s != nil {
		return s
	}
	return nil
}
func (b *bucket) NestedReadWriteBucket(k []byte) walletdb.ReadWriteBucket {
	if s := b.t.bucket(b.n, k); s != nil {
		return s
	}
	return nil
}
func (b *bucket) ForEach(f func(k, v []byte) error) error {
	for _, e := range append([]entry{}, b.n.es...) {
		if err := f(b.t.lend(e.key), e.val); err != nil {
			return err
		}
	}
	return nil
}
func (b *bucket) Get(k []byte) []byte {
	if i, ok := b.n.find(k); ok {
		return b.n.es[i].val
	}
	return nil
}
func (b *bucket) CreateBucket(k []byte) (walletdb.ReadWriteBucket, error) {
	if !b.t.writes {
		return nil, walletdb.ErrTxNotWritable
	}
	if len(k) == 0 {
		return nil, walletdb.ErrBucketNameRequired
	}
	if err := b.t.d.step(); err != nil {
		return nil, err
	}
	i, ok := b.n.find(k)
	if ok && b.n.es[i].sub != nil {
		return nil, walletdb.ErrBucketExists
	}
	if ok {
		return nil, walletdb.ErrIncompatibleValue
	}
	s := &node{}
	b.n.put(i, entry{append([]byte{}, k...), nil, s})
	return &bucket{b.t, s}, nil
}
func (b *bucket) CreateBucketIfNotExists(k []byte) (walletdb.ReadWriteBucket, error) {
	c, err := b.CreateBucket(k)
	if err == walletdb.ErrBucketExists {
		return b.t.bucket(b.n, k), nil
	}
	return c, err
}
func (b *bucket) DeleteNestedBucket(k []byte) error {
	if !b.t.writes {
		return walletdb.ErrTxNotWritable
	}
	if err := b.t.d.step(); err != nil {
		return err
	}
	i, ok := b.n.find(k)
	if !ok {
		return walletdb.ErrBucketNotFound
	}
	if b.n.es[i].sub == nil {
		return walletdb.ErrIncompatibleValue
	}
	b.n.es = append(b.n.es[:i:i], b.n.es[i+1:]...)
	return nil
}
func (b *bucket) Put(k, v []byte) error {
	if !b.t.writes {
		return walletdb.ErrTxNotWritable
	}
	if len(k) == 0 {
		return walletdb.ErrKeyRequired
	}
	if err := b.t.d.step(); err != nil {
		return err
	}
	i, ok := b.n.find(k)
	if ok && b.n.es[i].sub != nil {
		return walletdb.ErrIncompatibleValue
	}
	v = append([]byte{}, v...)
	if ok {
		b.n.es[i].val = v
		return nil
	}
	b.n.put(i, entry{append([]byte{}, k...), v, nil})
	return nil
}
func (b *bucket) Delete(k []byte) error {
	if !b.t.writes {
		return walletdb.ErrTxNotWritable
	}
	if err := b.t.d.step(); err != nil {
		return err
	}
	i, ok := b.n.find(k)
	if !ok {
		return nil
	}
	if b.n.es[i].sub != nil {
		return walletdb.ErrIncompatibleValue
	}
	b.n.es = append(b.n.es[:i:i], b.n.es[i+1:]...)
	return nil
}

func (b *bucket) ReadCursor() walletdb.ReadCursor           { return &cursor{b: b} }
func (b *bucket) ReadWriteCursor() walletdb.ReadWriteCursor { return &cursor{b: b} }
func (b *bucket) Tx() walletdb.ReadWriteTx                  { return b.t }
func (b *bucket) NextSequence() (uint64, error)             { panic("not supported") }
func (b *bucket) SetSequence(v uint64) error                { panic("not supported") }
func (b *bucket) Sequence() uint64                          { panic("not supported") }

type cursor struct {
	b *bucket
	i int
}

func (c *cursor) at(i int) ([]byte, []byte) {
	c.i = i
	if i < 0 || i >= len(c.b.n.es) {
		return nil, nil
	}
	return c.b.t.lend(c.b.n.es[i].key), c.b.n.es[i].val
}
func (c *cursor) First() ([]byte, []byte) { return c.at(0) }
func (c *cursor) Last() ([]byte, []byte)  { return c.at(len(c.b.n.es) - 1) }
func (c *cursor) Next() ([]byte, []byte)  { return c.at(c.i + 1) }
func (c *cursor) Prev() ([]byte, []byte)  { return c.at(c.i - 1) }
func (c *cursor) Seek(k []byte) ([]byte, []byte) {
	i, _ := c.b.n.find(k)
	return c.at(i)
}
func (c *cursor) Delete() error {
	k, _ := c.at(c.i)
	return c.b.Delete(k)
}
