// Package boltm stands in for github.com/boltdb/bolt while the code under test
// is executed symbolically: function Bucket_Put replaces (*bolt.Bucket).Put, and
// so on. It keeps a tree of buckets per database file, with bolt's transaction
// semantics, and the corners of its behaviour that a caller can notice:
//   - a value or key handed out is the database's memory, gone when the
//     transaction ends;
//   - a value handed in is kept by reference until the commit;
//   - deleting a key that does not exist fails if the next key is a bucket;
//   - a cursor walks the page as it was if the bucket had not been changed in
//     this transaction when the cursor was placed, otherwise the changing node.
//
// One leaf page per bucket: trees of several pages are outside its bounds.
// boltm_test.go compares it with the real thing.
package boltm

import (
	"errors"
	"os"
	"sync"
	"time"

	"github.com/boltdb/bolt"
)

type ent struct {
	k   string
	v   []byte
	own bool // v is in the database's memory
	sub *buck
}

type buck struct {
	ents []*ent
	seq  uint64
	tx   *txState // whose private copy this is; nil: shared
	node bool     // changed in this transaction
	dead bool
}

type file struct {
	root   *buck
	locked bool
}

type dbState struct {
	f        *file
	open     bool
	readOnly bool
	rw, meta sync.Mutex
	txid     int
}

type txState struct {
	p       *bolt.Tx
	dbp     *bolt.DB
	db      *dbState
	w       bool
	managed bool
	done    bool
	root    *buck
	lent    [][]byte
	onc     []func()
	id      int
}

type bkState struct {
	tx *txState
	b  *buck
}

type curState struct {
	b    *bkState
	p    *bolt.Bucket
	snap []*ent
	live bool
	idx  int
	set  bool
}

var (
	files = map[string]*file{}
	dbs   = map[*bolt.DB]*dbState{}
	txs   = map[*bolt.Tx]*txState{}
	bks   = map[*bolt.Bucket]*bkState{}
	curs  = map[*bolt.Cursor]*curState{}
)

// Fault is asked before every commit: 0 carry on, 1 the commit fails, 2 the
// process stops before the commit, 3 it stops right after.
var Fault func() int

// ErrFault is the error of a failed commit.
var ErrFault = errors.New("no space left on device")

// Stopped is the panic value that stands for the end of the process.
type Stopped struct{}

// Native says that the real library runs.
var Native bool

// point marks a scheduling point; the executor intercepts it.
func point() {}

// poison takes memory away; the executor intercepts it.
func poison(b []byte, what string) {}

// Open replaces bolt.Open.
func Open(path string, mode os.FileMode, options *bolt.Options) (*bolt.DB, error) {
	if options == nil {
		options = &bolt.Options{}
	}
	f := files[path]
	if f == nil {
		f = &file{root: &buck{}}
		files[path] = f
	}
	if !options.ReadOnly {
		var waited time.Duration
		for f.locked {
			if options.Timeout > 0 && waited > options.Timeout {
				return nil, bolt.ErrTimeout
			}
			d := 50 * time.Millisecond
			if options.Timeout > d {
				d = options.Timeout + 1
			}
			time.Sleep(d)
			waited += d
		}
		f.locked = true
	}
	db := &bolt.DB{MaxBatchSize: bolt.DefaultMaxBatchSize, MaxBatchDelay: bolt.DefaultMaxBatchDelay, AllocSize: bolt.DefaultAllocSize}
	dbs[db] = &dbState{f: f, open: true, readOnly: options.ReadOnly}
	return db, nil
}

// DB_Close replaces (*bolt.DB).Close.
func DB_Close(db *bolt.DB) error {
	point()
	s := dbs[db]
	s.rw.Lock()
	s.meta.Lock()
	if s.open {
		s.open = false
		if !s.readOnly {
			s.f.locked = false
		}
	}
	s.meta.Unlock()
	s.rw.Unlock()
	return nil
}

// DB_Path replaces (*bolt.DB).Path.
func DB_Path(db *bolt.DB) string {
	for n, f := range files {
		if f == dbs[db].f && dbs[db].open {
			return n
		}
	}
	return ""
}

// DB_Sync replaces (*bolt.DB).Sync.
func DB_Sync(db *bolt.DB) error { return nil }

// DB_IsReadOnly replaces (*bolt.DB).IsReadOnly.
func DB_IsReadOnly(db *bolt.DB) bool { return dbs[db].readOnly }

func begin(db *bolt.DB, w bool) (*txState, error) {
	s := dbs[db]
	if w {
		if s.readOnly {
			return nil, bolt.ErrDatabaseReadOnly
		}
		s.rw.Lock()
	}
	s.meta.Lock()
	if !s.open {
		s.meta.Unlock()
		if w {
			s.rw.Unlock()
		}
		return nil, bolt.ErrDatabaseNotOpen
	}
	t := &txState{p: &bolt.Tx{}, dbp: db, db: s, w: w, root: s.f.root, id: s.txid}
	if w {
		t.id++
		t.root = t.private(s.f.root)
	}
	s.meta.Unlock()
	txs[t.p] = t
	return t, nil
}

func (t *txState) private(b *buck) *buck {
	n := &buck{seq: b.seq, tx: t}
	n.ents = append(n.ents, b.ents...)
	return n
}

func (t *txState) end() {
	t.done = true
	for _, b := range t.lent {
		poison(b, "bolt page memory after the transaction ended")
	}
	t.lent = nil
	if t.w {
		t.db.rw.Unlock()
	} else {
		t.db.meta.Lock()
		t.db.meta.Unlock()
	}
}

func (t *txState) rollback() {
	if !t.done {
		t.end()
	}
}

func (b *buck) settle() {
	for i, e := range b.ents {
		if e.sub != nil {
			if e.sub.tx != nil {
				e.sub.settle()
			}
		} else if !e.own {
			v := make([]byte, len(e.v))
			copy(v, e.v)
			b.ents[i] = &ent{k: e.k, v: v, own: true}
		}
	}
	b.tx, b.node = nil, false
}

func (t *txState) commit() error {
	if t.done {
		return bolt.ErrTxClosed
	} else if !t.w {
		return bolt.ErrTxNotWritable
	}
	k := 0
	if Fault != nil {
		k = Fault()
	}
	if k == 1 {
		t.end()
		return ErrFault
	}
	if k == 2 {
		panic(Stopped{})
	}
	t.root.settle()
	t.db.f.root = t.root
	t.db.txid = t.id
	t.end()
	if k == 3 {
		panic(Stopped{})
	}
	for _, f := range t.onc {
		f()
	}
	return nil
}

// DB_Begin replaces (*bolt.DB).Begin.
func DB_Begin(db *bolt.DB, writable bool) (*bolt.Tx, error) {
	point()
	t, e := begin(db, writable)
	if e != nil {
		return nil, e
	}
	return t.p, nil
}

// DB_Update replaces (*bolt.DB).Update.
func DB_Update(db *bolt.DB, fn func(*bolt.Tx) error) error {
	point()
	return update(db, fn)
}

func update(db *bolt.DB, fn func(*bolt.Tx) error) error {
	t, e := begin(db, true)
	if e != nil {
		return e
	}
	defer t.rollback()
	t.managed = true
	e = fn(t.p)
	t.managed = false
	if e != nil {
		t.rollback()
		return e
	}
	return t.commit()
}

// DB_View replaces (*bolt.DB).View.
func DB_View(db *bolt.DB, fn func(*bolt.Tx) error) error {
	point()
	t, e := begin(db, false)
	if e != nil {
		return e
	}
	defer t.rollback()
	t.managed = true
	e = fn(t.p)
	t.managed = false
	t.rollback()
	return e
}

// DB_Batch replaces (*bolt.DB).Batch: one caller at a time.
func DB_Batch(db *bolt.DB, fn func(*bolt.Tx) error) error {
	point()
	time.Sleep(db.MaxBatchDelay)
	e := update(db, fn)
	if e != nil {
		e = update(db, fn)
	}
	return e
}

// Tx_Commit replaces (*bolt.Tx).Commit.
func Tx_Commit(tx *bolt.Tx) error {
	t := txs[tx]
	if t.managed {
		panic("assertion failed: managed tx commit not allowed")
	}
	return t.commit()
}

// Tx_Rollback replaces (*bolt.Tx).Rollback.
func Tx_Rollback(tx *bolt.Tx) error {
	t := txs[tx]
	if t.managed {
		panic("assertion failed: managed tx rollback not allowed")
	}
	if t.done {
		return bolt.ErrTxClosed
	}
	t.end()
	return nil
}

// Tx_Writable replaces (*bolt.Tx).Writable.
func Tx_Writable(tx *bolt.Tx) bool { return txs[tx].w }

// Tx_ID replaces (*bolt.Tx).ID.
func Tx_ID(tx *bolt.Tx) int { return txs[tx].id }

// Tx_DB replaces (*bolt.Tx).DB.
func Tx_DB(tx *bolt.Tx) *bolt.DB {
	if txs[tx].done {
		return nil
	}
	return txs[tx].dbp
}

// Tx_OnCommit replaces (*bolt.Tx).OnCommit.
func Tx_OnCommit(tx *bolt.Tx, fn func()) { t := txs[tx]; t.onc = append(t.onc, fn) }

func (t *txState) top() *bkState { return &bkState{tx: t, b: t.root} }

// Tx_Bucket replaces (*bolt.Tx).Bucket.
func Tx_Bucket(tx *bolt.Tx, name []byte) *bolt.Bucket { return txs[tx].top().bucket(name) }

// Tx_CreateBucket replaces (*bolt.Tx).CreateBucket.
func Tx_CreateBucket(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	return txs[tx].top().create(name)
}

// Tx_CreateBucketIfNotExists replaces (*bolt.Tx).CreateBucketIfNotExists.
func Tx_CreateBucketIfNotExists(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	return txs[tx].top().createIf(name)
}

// Tx_DeleteBucket replaces (*bolt.Tx).DeleteBucket.
func Tx_DeleteBucket(tx *bolt.Tx, name []byte) error { return txs[tx].top().deleteBucket(name) }

// Tx_Cursor replaces (*bolt.Tx).Cursor.
func Tx_Cursor(tx *bolt.Tx) *bolt.Cursor { return newCursor(txs[tx].top(), nil) }

// Tx_ForEach replaces (*bolt.Tx).ForEach.
func Tx_ForEach(tx *bolt.Tx, fn func(name []byte, b *bolt.Bucket) error) error {
	s := txs[tx].top()
	return s.forEach(func(k, v []byte) error { return fn(k, s.bucket(k)) })
}

func (s *bkState) ok() {
	if s.tx.done {
		panic("assertion failed: tx closed")
	}
	if s.b.dead {
		panic("bolt: use of a deleted bucket")
	}
}

func (s *bkState) find(k []byte) int {
	s.ok()
	for i, e := range s.b.ents {
		if len(e.k) == len(k) && e.k == string(k) {
			return i
		}
	}
	return -1
}

func (s *bkState) handle(b *buck) *bolt.Bucket {
	p := &bolt.Bucket{}
	bks[p] = &bkState{tx: s.tx, b: b}
	return p
}

func (s *bkState) bucket(name []byte) *bolt.Bucket {
	i := s.find(name)
	if i < 0 || s.b.ents[i].sub == nil {
		return nil
	}
	b := s.b.ents[i].sub
	if s.tx.w && b.tx != s.tx {
		b = s.tx.private(b)
		s.b.ents[i] = &ent{k: s.b.ents[i].k, sub: b}
	}
	return s.handle(b)
}

func (s *bkState) writable() error {
	if s.tx.done {
		return bolt.ErrTxClosed
	} else if !s.tx.w {
		return bolt.ErrTxNotWritable
	}
	return nil
}

func (s *bkState) create(key []byte) (*bolt.Bucket, error) {
	if e := s.writable(); e != nil {
		return nil, e
	}
	if len(key) == 0 {
		return nil, bolt.ErrBucketNameRequired
	}
	if i := s.find(key); i >= 0 {
		if s.b.ents[i].sub != nil {
			return nil, bolt.ErrBucketExists
		}
		return nil, bolt.ErrIncompatibleValue
	}
	b := &buck{tx: s.tx}
	s.b.ents = append(s.b.ents, &ent{k: string(key), sub: b})
	s.b.node = true
	return s.handle(b), nil
}

func (s *bkState) createIf(key []byte) (*bolt.Bucket, error) {
	b, e := s.create(key)
	if e == bolt.ErrBucketExists {
		return s.bucket(key), nil
	}
	return b, e
}

func (s *bkState) removeAt(i int) {
	n := make([]*ent, 0, len(s.b.ents))
	n = append(n, s.b.ents[:i]...)
	s.b.ents = append(n, s.b.ents[i+1:]...)
}

func (s *bkState) deleteBucket(key []byte) error {
	if e := s.writable(); e != nil {
		return e
	}
	i := s.find(key)
	if i < 0 {
		return bolt.ErrBucketNotFound
	}
	b := s.b.ents[i].sub
	if b == nil {
		return bolt.ErrIncompatibleValue
	}
	if b.tx != s.tx {
		b = s.tx.private(b)
		s.b.ents[i] = &ent{k: s.b.ents[i].k, sub: b}
	}
	// bolt takes a nil value written in this transaction for a bucket
	child := &bkState{tx: s.tx, b: b}
	err := child.forEach(func(k, v []byte) error {
		if v == nil {
			if e := child.deleteBucket(k); e != nil {
				return errors.New("delete bucket: " + e.Error())
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	i = s.find(key)
	kill(b, s.tx)
	s.removeAt(i)
	s.b.node = true
	return nil
}

func kill(b *buck, t *txState) {
	if b.tx == t {
		b.dead = true
		for _, e := range b.ents {
			if e.sub != nil {
				kill(e.sub, t)
			}
		}
	}
}

func (t *txState) lend(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	t.lent = append(t.lent, c)
	return c
}

func (t *txState) val(e *ent) []byte {
	if e.sub != nil {
		return nil
	}
	if e.own {
		return t.lend(e.v)
	}
	return e.v
}

// Bucket_Tx replaces (*bolt.Bucket).Tx.
func Bucket_Tx(p *bolt.Bucket) *bolt.Tx { return bks[p].tx.p }

// Bucket_Writable replaces (*bolt.Bucket).Writable.
func Bucket_Writable(p *bolt.Bucket) bool { return bks[p].tx.w }

// Bucket_Bucket replaces (*bolt.Bucket).Bucket.
func Bucket_Bucket(p *bolt.Bucket, name []byte) *bolt.Bucket { return bks[p].bucket(name) }

// Bucket_CreateBucket replaces (*bolt.Bucket).CreateBucket.
func Bucket_CreateBucket(p *bolt.Bucket, key []byte) (*bolt.Bucket, error) {
	return bks[p].create(key)
}

// Bucket_CreateBucketIfNotExists replaces (*bolt.Bucket).CreateBucketIfNotExists.
func Bucket_CreateBucketIfNotExists(p *bolt.Bucket, key []byte) (*bolt.Bucket, error) {
	return bks[p].createIf(key)
}

// Bucket_DeleteBucket replaces (*bolt.Bucket).DeleteBucket.
func Bucket_DeleteBucket(p *bolt.Bucket, key []byte) error { return bks[p].deleteBucket(key) }

// Bucket_Get replaces (*bolt.Bucket).Get.
func Bucket_Get(p *bolt.Bucket, key []byte) []byte {
	s := bks[p]
	i := s.find(key)
	if i < 0 {
		return nil
	}
	return s.tx.val(s.b.ents[i])
}

// Bucket_Put replaces (*bolt.Bucket).Put.
func Bucket_Put(p *bolt.Bucket, key []byte, value []byte) error {
	s := bks[p]
	if e := s.writable(); e != nil {
		return e
	}
	if len(key) == 0 {
		return bolt.ErrKeyRequired
	} else if len(key) > bolt.MaxKeySize {
		return bolt.ErrKeyTooLarge
	}
	n := &ent{k: string(key), v: value}
	if i := s.find(key); i >= 0 {
		if s.b.ents[i].sub != nil {
			return bolt.ErrIncompatibleValue
		}
		s.b.ents[i] = n
	} else {
		s.b.ents = append(s.b.ents, n)
	}
	s.b.node = true
	return nil
}

// Bucket_Delete replaces (*bolt.Bucket).Delete.
func Bucket_Delete(p *bolt.Bucket, key []byte) error {
	s := bks[p]
	if e := s.writable(); e != nil {
		return e
	}
	if i := s.find(key); i >= 0 {
		if s.b.ents[i].sub != nil {
			return bolt.ErrIncompatibleValue
		}
		s.removeAt(i)
	} else {
		var next *ent
		mixed := false
		for _, e := range s.b.ents {
			mixed = mixed || e.sub != nil
		}
		if mixed {
			for _, e := range s.b.ents {
				if e.k > string(key) && (next == nil || e.k < next.k) {
					next = e
				}
			}
		}
		if next != nil && next.sub != nil {
			return bolt.ErrIncompatibleValue
		}
	}
	s.b.node = true
	return nil
}

// Bucket_Sequence replaces (*bolt.Bucket).Sequence.
func Bucket_Sequence(p *bolt.Bucket) uint64 { return bks[p].b.seq }

// Bucket_SetSequence replaces (*bolt.Bucket).SetSequence.
func Bucket_SetSequence(p *bolt.Bucket, v uint64) error {
	s := bks[p]
	if e := s.writable(); e != nil {
		return e
	}
	s.ok()
	s.b.node = true
	s.b.seq = v
	return nil
}

// Bucket_NextSequence replaces (*bolt.Bucket).NextSequence.
func Bucket_NextSequence(p *bolt.Bucket) (uint64, error) {
	s := bks[p]
	if e := s.writable(); e != nil {
		return 0, e
	}
	s.ok()
	s.b.node = true
	s.b.seq++
	return s.b.seq, nil
}

func (s *bkState) forEach(fn func(k, v []byte) error) error {
	if s.tx.done {
		return bolt.ErrTxClosed
	}
	c := &curState{b: s}
	for k, v := c.first(); k != nil; k, v = c.next() {
		if e := fn(k, v); e != nil {
			return e
		}
	}
	return nil
}

// Bucket_ForEach replaces (*bolt.Bucket).ForEach.
func Bucket_ForEach(p *bolt.Bucket, fn func(k, v []byte) error) error { return bks[p].forEach(fn) }

// Bucket_Cursor replaces (*bolt.Bucket).Cursor.
func Bucket_Cursor(p *bolt.Bucket) *bolt.Cursor { return newCursor(bks[p], p) }

func newCursor(s *bkState, p *bolt.Bucket) *bolt.Cursor {
	c := &bolt.Cursor{}
	curs[c] = &curState{b: s, p: p}
	return c
}

func sorted(in []*ent) []*ent {
	var out []*ent
	for _, e := range in {
		i := len(out)
		out = append(out, e)
		for i > 0 && out[i-1].k > e.k {
			out[i] = out[i-1]
			i--
		}
		out[i] = e
	}
	return out
}

func (c *curState) place() {
	c.b.ok()
	c.set = true
	c.live = c.b.b.node
	if !c.live {
		c.snap = sorted(c.b.b.ents)
	}
}

func (c *curState) list() []*ent {
	if c.live {
		c.b.b.ents = sorted(c.b.b.ents)
		return c.b.b.ents
	}
	return c.snap
}

func (c *curState) kv() ([]byte, []byte) {
	l := c.list()
	if c.idx < 0 || c.idx >= len(l) {
		return nil, nil
	}
	e := l[c.idx]
	return c.b.tx.lend([]byte(e.k)), c.b.tx.val(e)
}

func (c *curState) first() ([]byte, []byte) {
	c.place()
	c.idx = 0
	return c.kv()
}

func (c *curState) next() ([]byte, []byte) {
	c.b.ok()
	if !c.set || c.idx >= len(c.list())-1 {
		return nil, nil
	}
	c.idx++
	return c.kv()
}

// Cursor_Bucket replaces (*bolt.Cursor).Bucket.
func Cursor_Bucket(p *bolt.Cursor) *bolt.Bucket { return curs[p].p }

// Cursor_First replaces (*bolt.Cursor).First.
func Cursor_First(p *bolt.Cursor) ([]byte, []byte) { return curs[p].first() }

// Cursor_Next replaces (*bolt.Cursor).Next.
func Cursor_Next(p *bolt.Cursor) ([]byte, []byte) { return curs[p].next() }

// Cursor_Last replaces (*bolt.Cursor).Last.
func Cursor_Last(p *bolt.Cursor) ([]byte, []byte) {
	c := curs[p]
	c.place()
	c.idx = len(c.list()) - 1
	return c.kv()
}

// Cursor_Prev replaces (*bolt.Cursor).Prev.
func Cursor_Prev(p *bolt.Cursor) ([]byte, []byte) {
	c := curs[p]
	c.b.ok()
	if !c.set || c.idx <= 0 {
		c.set = false
		return nil, nil
	}
	c.idx--
	return c.kv()
}

// Cursor_Seek replaces (*bolt.Cursor).Seek.
func Cursor_Seek(p *bolt.Cursor, seek []byte) ([]byte, []byte) {
	c := curs[p]
	c.place()
	l := c.list()
	c.idx = 0
	for c.idx < len(l) && l[c.idx].k < string(seek) {
		c.idx++
	}
	return c.kv()
}

// Cursor_Delete replaces (*bolt.Cursor).Delete.
func Cursor_Delete(p *bolt.Cursor) error {
	c := curs[p]
	if e := c.b.writable(); e != nil {
		return e
	}
	l := c.list()
	if !c.set || c.idx < 0 || c.idx >= len(l) {
		c.b.b.node = true
		return nil
	}
	e := l[c.idx]
	if e.sub != nil {
		return bolt.ErrIncompatibleValue
	}
	if i := c.b.find([]byte(e.k)); i >= 0 {
		c.b.removeAt(i)
	}
	c.b.b.node = true
	return nil
}

// Snapshot gives a copy of a database file another name: what a process that
// stops now leaves behind.
func Snapshot(from, to string) {
	if Native {
		b, e := os.ReadFile(from)
		if e == nil {
			e = os.WriteFile(to, b, 0o600)
		}
		if e != nil {
			panic(e)
		}
		return
	}
	files[to] = &file{root: files[from].root}
}
