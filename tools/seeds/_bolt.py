HEAD = '''package bolt

import (
	"context"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"
)

var (
	_ = time.Second
	_ sync.Mutex
	_ = bolt.Open
	_ = sessionid.ErrTokenNotExists
	c = context.Background()
)

func file(name string) string { return filepath.Join(os.Getenv("DEMO_DIR"), name) }
'''
