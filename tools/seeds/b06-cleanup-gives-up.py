PROP = "B06"
PKG = "./provider/bolt"
NEEDS = "a commit of the background cleanup that the database refuses once, and dead sessions afterwards"
BREAKS = "the goroutine removing dead sessions ends for good when one of its transactions fails"
EDITS = [("provider/bolt/provider.go", """	p.db.Update(func(t *bolt.Tx) (e error) {
		var (
			store                  = p.store(t)
			bMD, bData, bIDS, bLRU = p.buckets(store)
			md                     *_Metadata
		)
		for token := range m {
			md, e = p.getMetadata(bMD, []byte(token))
			if e != nil {
				return
			} else if md == nil {
				continue
			} else if md.IsDeleted() {
				e = p.delete(store, bMD, bData, bIDS, bLRU, token, []byte(md.ID), md.LRU)
				if e != nil {
					return
				}
			}
		}
		return
	})
	return
}""", """	e := p.db.Update(func(t *bolt.Tx) (e error) {
		var (
			store                  = p.store(t)
			bMD, bData, bIDS, bLRU = p.buckets(store)
			md                     *_Metadata
		)
		for token := range m {
			md, e = p.getMetadata(bMD, []byte(token))
			if e != nil {
				return
			} else if md == nil {
				continue
			} else if md.IsDeleted() {
				e = p.delete(store, bMD, bData, bIDS, bLRU, token, []byte(md.ID), md.LRU)
				if e != nil {
					return
				}
			}
		}
		return
	})
	// a database that cannot be written to is as good as closed
	closed = e != nil
	return
}""")]
DEMO = '''
package bolt

import (
	"context"
	"path/filepath"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"github.com/boltdb/bolt"
)

func TestDemo(t *testing.T) {
	db, e := bolt.Open(filepath.Join(t.TempDir(), "s.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	defer db.Close()
	p, e := New(WithDB(db), WithAccess(20*time.Millisecond), WithRefresh(20*time.Millisecond), WithClear(0))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	bg := context.Background()
	for _, s := range []string{"u.0.s", "u.1.s"} {
		if e = p.Create(bg, s, "u.r.s", nil); e != nil {
			t.Fatal(e)
		}
	}
	time.Sleep(50 * time.Millisecond)
	// the disk fails once
	ops := reflect.ValueOf(db).Elem().FieldByName("ops").Field(0)
	write := (*func([]byte, int64) (int, error))(unsafe.Pointer(ops.UnsafeAddr()))
	real := *write
	failed := make(chan bool)
	var done bool
	*write = func(b []byte, off int64) (int, error) {
		if !done {
			done = true
			close(failed)
			return 0, bolt.ErrTimeout
		}
		return real(b, off)
	}
	p.Check(bg, "u.0.s")
	<-failed
	time.Sleep(50 * time.Millisecond)
	for n := 0; n < 20; n++ {
		p.Check(bg, "u.0.s")
		p.Check(bg, "u.1.s")
		time.Sleep(10 * time.Millisecond)
	}
	db.View(func(tx *bolt.Tx) error {
		md := tx.Bucket(p.opts.bucket).Bucket(bucketMetadata)
		for _, s := range []string{"u.0.s", "u.1.s"} {
			if md.Get([]byte(s)) != nil {
				t.Error("demo: still stored:", s)
			}
		}
		return nil
	})
}
'''
