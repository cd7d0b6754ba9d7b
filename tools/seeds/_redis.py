import os
IMPORTS = '''package redis

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
)

var _ = sessionid.ErrTokenNotExists
'''
def demo(body):
    return IMPORTS + body + open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fakeredis.go.txt")).read()
