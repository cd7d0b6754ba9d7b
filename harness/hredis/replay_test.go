package hredis

import (
	"os"
	"testing"
	"testing/synctest"

	"verif/harness/sym"
	"verif/harness/vrt"
)

// TestReplay runs one harness natively on the assignment in SYM_VECTOR.
func TestReplay(t *testing.T) {
	f := os.Getenv("SYM_VECTOR")
	if f == "" {
		t.Skip()
	}
	if e := sym.Load(f); e != nil {
		t.Fatal(e)
	}
	h := All[sym.Harness()]
	if h == nil {
		t.Fatal("no such harness")
	}
	vrt.Init()
	synctest.Test(t, func(t *testing.T) { sym.Run(h) })
}
