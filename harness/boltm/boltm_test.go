package boltm

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"testing"

	"github.com/boltdb/bolt"
)

type api struct {
	update    func(*bolt.DB, func(*bolt.Tx) error) error
	view      func(*bolt.DB, func(*bolt.Tx) error) error
	tbucket   func(*bolt.Tx, []byte) *bolt.Bucket
	tcreate   func(*bolt.Tx, []byte) (*bolt.Bucket, error)
	bucket    func(*bolt.Bucket, []byte) *bolt.Bucket
	create    func(*bolt.Bucket, []byte) (*bolt.Bucket, error)
	createIf  func(*bolt.Bucket, []byte) (*bolt.Bucket, error)
	delBucket func(*bolt.Bucket, []byte) error
	get       func(*bolt.Bucket, []byte) []byte
	put       func(*bolt.Bucket, []byte, []byte) error
	del       func(*bolt.Bucket, []byte) error
	seq       func(*bolt.Bucket) (uint64, error)
	cursor    func(*bolt.Bucket) *bolt.Cursor
	first     func(*bolt.Cursor) ([]byte, []byte)
	next      func(*bolt.Cursor) ([]byte, []byte)
	last      func(*bolt.Cursor) ([]byte, []byte)
	prev      func(*bolt.Cursor) ([]byte, []byte)
	seek      func(*bolt.Cursor, []byte) ([]byte, []byte)
	cdel      func(*bolt.Cursor) error
}

var reals = api{(*bolt.DB).Update, (*bolt.DB).View, (*bolt.Tx).Bucket, (*bolt.Tx).CreateBucketIfNotExists, (*bolt.Bucket).Bucket, (*bolt.Bucket).CreateBucket, (*bolt.Bucket).CreateBucketIfNotExists,
	(*bolt.Bucket).DeleteBucket, (*bolt.Bucket).Get, (*bolt.Bucket).Put, (*bolt.Bucket).Delete, (*bolt.Bucket).NextSequence, (*bolt.Bucket).Cursor, (*bolt.Cursor).First, (*bolt.Cursor).Next, (*bolt.Cursor).Last, (*bolt.Cursor).Prev, (*bolt.Cursor).Seek, (*bolt.Cursor).Delete}
var models = api{DB_Update, DB_View, Tx_Bucket, Tx_CreateBucketIfNotExists, Bucket_Bucket, Bucket_CreateBucket, Bucket_CreateBucketIfNotExists,
	Bucket_DeleteBucket, Bucket_Get, Bucket_Put, Bucket_Delete, Bucket_NextSequence, Bucket_Cursor, Cursor_First, Cursor_Next, Cursor_Last, Cursor_Prev, Cursor_Seek, Cursor_Delete}

func b(s string) []byte { return []byte(s) }
func show(x []byte) string {
	if x == nil {
		return "nil"
	}
	return fmt.Sprintf("%q", x)
}

// script runs the operations a seed stands for and logs what they return.
func script(a api, db *bolt.DB, seed int64) (log []string) {
	r := rand.New(rand.NewSource(seed))
	say := func(f string, x ...interface{}) { log = append(log, fmt.Sprintf(f, x...)) }
	key := func() []byte { return b([]string{"a", "b", "c", "cc", "d", "e"}[r.Intn(6)]) }
	for t := 0; t < 6; t++ {
		fail := r.Intn(4) == 0
		n := 1 + r.Intn(8)
		w := r.Intn(4) != 0
		run := a.update
		if !w {
			run = a.view
		}
		e := run(db, func(tx *bolt.Tx) error {
			var root *bolt.Bucket
			if w {
				root, _ = a.tcreate(tx, b("root"))
			} else if root = a.tbucket(tx, b("root")); root == nil {
				return nil
			}
			cur := root
			var c *bolt.Cursor
			for i := 0; i < n; i++ {
				switch r.Intn(15) {
				case 0, 1:
					if x := a.bucket(root, key()); x != nil {
						cur, c = x, nil
					}
				case 2:
					cur, c = root, nil
				case 3:
					x, e := a.createIf(root, key())
					say("createIf %v", e)
					if e == nil && x != nil {
						cur, c = x, nil
					}
				case 4:
					_, e := a.create(cur, key())
					say("create %v", e)
				case 5:
					e := a.delBucket(root, key())
					say("delBucket %v", e)
					cur, c = root, nil
				case 6:
					say("get %s", show(a.get(cur, key())))
				case 7, 8:
					var v []byte
					if r.Intn(3) > 0 {
						v = make([]byte, r.Intn(3))
						r.Read(v)
					}
					say("put %v", a.put(cur, key(), v))
				case 9, 10:
					say("del %v", a.del(cur, key()))
				case 11:
					q, e := a.seq(cur)
					say("seq %v %v", q, e)
				case 12:
					c = a.cursor(cur)
					var k, v []byte
					switch r.Intn(3) {
					case 0:
						k, v = a.first(c)
					case 1:
						k, v = a.last(c)
					case 2:
						k, v = a.seek(c, key())
					}
					say("place %s %s", show(k), show(v))
					if k == nil {
						c = nil
					}
				case 13, 14:
					if c != nil {
						switch r.Intn(4) {
						case 0, 1, 2:
							k, v := a.next(c)
							say("next %s %s", show(k), show(v))
						case 3:
							say("cdel %v", a.cdel(c))
						}
					}
				}
			}
			if fail {
				return fmt.Errorf("fail")
			}
			return nil
		})
		say("tx %v", e)
	}
	a.view(db, func(tx *bolt.Tx) error {
		root := a.tbucket(tx, b("root"))
		if root == nil {
			return nil
		}
		var walk func(x *bolt.Bucket, d string)
		walk = func(x *bolt.Bucket, d string) {
			c := a.cursor(x)
			for k, v := a.first(c); k != nil; k, v = a.next(c) {
				say("%s%s=%s", d, show(k), show(v))
				if v == nil {
					walk(a.bucket(x, k), d+" ")
				}
			}
		}
		walk(root, "")
		return nil
	})
	return
}

// TestAgainstBolt compares the model with the real library.
func TestAgainstBolt(t *testing.T) {
	dir := t.TempDir()
	for seed := int64(0); seed < 400; seed++ {
		real, e := bolt.Open(filepath.Join(dir, fmt.Sprint(seed)), 0o600, nil)
		if e != nil {
			t.Fatal(e)
		}
		real.NoSync = true
		l1 := script(reals, real, seed)
		real.Close()
		m, _ := Open(fmt.Sprint(seed), 0o600, nil)
		l2 := script(models, m, seed)
		for i := range l1 {
			if i >= len(l2) || l1[i] != l2[i] {
				t.Fatalf("seed %d step %d: bolt %s, model %v\n%v", seed, i, l1[i], l2[min(i, len(l2)-1)], l1[:i])
			}
		}
	}
}
