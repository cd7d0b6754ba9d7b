// Package redism is a redis server in memory, behind a connection that answers
// in the goroutine that writes. It speaks the protocol, so the real client
// library runs against it, under the executor and natively alike. It has the
// commands listed in run, server-side expiry with millisecond granularity,
// transactions and WATCH; a command it does not know ends the exploration of
// that path without a verdict.
package redism

import (
	"context"
	"errors"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/go-redis/redis/v8"
	"verif/harness/vrt"
)

// Field is one entry of a hash.
type Field struct{ K, V string }

// Entry is one key.
type Entry struct {
	Key    string
	Hash   []Field
	Set    []string
	Str    string
	Kind   byte  // 'h', 's' string, 'e' set
	Expire int64 // ms, -1 never
}

// Server is one database.
type Server struct {
	Keys  []*Entry
	ver   int
	touch map[string]int
	// Fault is asked before every command or transaction: 0 carry on, 1 the
	// connection breaks before it, 2 right after it took effect, 3 After is
	// called then.
	Fault func(cmd string) int
	After func()
	// Retries is how often clients made later try again (-1 never).
	Retries int
	// Log lists the commands run.
	Log []string
}

// New makes an empty database.
func New() *Server { return &Server{touch: map[string]int{}, Retries: -1} }

// Client makes a client of the real library.
func (s *Server) Client() *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr: "mem:1", Dialer: func(context.Context, string, string) (net.Conn, error) { return s.dial(), nil },
		IdleCheckFrequency: -1, IdleTimeout: -1, ReadTimeout: -1, PoolSize: 8, MaxRetries: s.Retries, MinRetryBackoff: -1, MaxRetryBackoff: -1, PoolTimeout: time.Hour,
	})
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem:1" }

type conn struct {
	s      *Server
	in     []byte
	out    []byte
	closed bool
	multi  bool
	bad    bool
	queue  [][]string
	watch  []watched
}

type watched struct {
	key string
	ver int
	had bool
}

func (s *Server) dial() net.Conn { return &conn{s: s} }

var errGone = errors.New("connection reset by peer")

func (c *conn) Read(b []byte) (int, error) {
	if len(c.out) == 0 {
		if c.closed {
			return 0, net.ErrClosed
		}
		return 0, io.EOF
	}
	n := copy(b, c.out)
	c.out = c.out[n:]
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	c.in = append(c.in, b...)
	for {
		args, n := parse(c.in)
		if n == 0 {
			return len(b), nil
		}
		c.in = c.in[n:]
		if !c.command(args) {
			c.closed = true
			c.out = nil
			return 0, errGone
		}
	}
}

func (c *conn) Close() error {
	c.closed = true
	return nil
}
func (c *conn) LocalAddr() net.Addr                { return addr{} }
func (c *conn) RemoteAddr() net.Addr               { return addr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// parse takes one command off b; n is 0 if it is not complete.
func parse(b []byte) (args []string, n int) {
	line := func() (string, bool) {
		for i := n; i+1 < len(b); i++ {
			if b[i] == '\r' && b[i+1] == '\n' {
				s := string(b[n:i])
				n = i + 2
				return s, true
			}
		}
		return "", false
	}
	l, ok := line()
	if !ok {
		return nil, 0
	}
	k, _ := strconv.Atoi(l[1:])
	for i := 0; i < k; i++ {
		l, ok := line()
		if !ok {
			return nil, 0
		}
		size, _ := strconv.Atoi(l[1:])
		if n+size+2 > len(b) {
			return nil, 0
		}
		args = append(args, string(b[n:n+size]))
		n += size + 2
	}
	return args, n
}

func (c *conn) put(s string) { c.out = append(c.out, s...) }
func (c *conn) status(s string) {
	c.put("+")
	c.put(s)
	c.put("\r\n")
}
func (c *conn) fail(s string) {
	c.put("-")
	c.put(s)
	c.put("\r\n")
}
func (c *conn) num(n int) {
	c.put(":")
	c.put(strconv.Itoa(n))
	c.put("\r\n")
}
func (c *conn) bulk(s string) {
	c.put("$")
	c.put(strconv.Itoa(len(s)))
	c.put("\r\n")
	c.put(s)
	c.put("\r\n")
}
func (c *conn) null() { c.put("$-1\r\n") }
func (c *conn) arr(n int) {
	c.put("*")
	c.put(strconv.Itoa(n))
	c.put("\r\n")
}
func (c *conn) list(l []string) {
	c.arr(len(l))
	for _, s := range l {
		c.bulk(s)
	}
}

// point marks the moment a command takes effect: a scheduling point.
func point() { vrt.Point() }

// number reads a decimal number.
func number(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// unknown ends the path without a verdict; the executor intercepts it.
func unknown(what string) { panic("redism: unsupported: " + what) }

func (c *conn) command(args []string) bool {
	name := strings.ToLower(args[0])
	if c.multi && name != "exec" && name != "discard" && name != "multi" && name != "watch" {
		c.queue = append(c.queue, args)
		c.status("QUEUED")
		return true
	}
	if name == "multi" {
		if c.multi {
			c.fail("ERR MULTI calls can not be nested")
			return true
		}
		c.multi, c.queue = true, nil
		c.status("OK")
		return true
	}
	if name == "ping" {
		c.status("PONG")
		return true
	}
	if name == "unwatch" {
		c.watch = nil
		c.status("OK")
		return true
	}
	point()
	fault := 0
	if c.s.Fault != nil {
		fault = c.s.Fault(name)
	}
	if fault == 1 {
		return false
	}
	switch name {
	case "discard":
		c.multi, c.queue, c.watch = false, nil, nil
		c.status("OK")
	case "exec":
		c.exec()
	case "watch":
		if c.multi {
			c.fail("ERR WATCH inside MULTI is not allowed")
			break
		}
		for _, k := range args[1:] {
			c.watch = append(c.watch, watched{k, c.s.touch[k], c.s.get(k) != nil})
		}
		c.status("OK")
	default:
		c.s.Log = append(c.s.Log, name)
		c.run(name, args[1:])
	}
	if fault == 3 {
		c.s.After()
	}
	return fault != 2
}

func (c *conn) exec() {
	if !c.multi {
		c.fail("ERR EXEC without MULTI")
		return
	}
	q, w := c.queue, c.watch
	c.multi, c.queue, c.watch = false, nil, nil
	for _, k := range w {
		if c.s.touch[k.key] != k.ver || k.had && c.s.get(k.key) == nil {
			c.put("*-1\r\n")
			return
		}
	}
	c.arr(len(q))
	for _, a := range q {
		n := strings.ToLower(a[0])
		c.s.Log = append(c.s.Log, n)
		c.run(n, a[1:])
	}
}

func now() int64 { return time.Now().UnixNano() / int64(time.Millisecond) }

// get looks a key up; an expired one is removed.
func (s *Server) get(k string) *Entry {
	for i, e := range s.Keys {
		if e.Key == k {
			if e.Expire >= 0 && now() > e.Expire {
				s.drop(i)
				return nil
			}
			return e
		}
	}
	return nil
}

func (s *Server) drop(i int) {
	n := make([]*Entry, 0, len(s.Keys))
	n = append(n, s.Keys[:i]...)
	s.Keys = append(n, s.Keys[i+1:]...)
}

func (s *Server) mod(k string) {
	s.ver++
	s.touch[k] = s.ver
}

func (s *Server) del(k string) bool {
	if s.get(k) == nil {
		return false
	}
	for i, e := range s.Keys {
		if e.Key == k {
			s.drop(i)
			break
		}
	}
	s.mod(k)
	return true
}

// make finds a key or adds it.
func (s *Server) make(k string, kind byte) *Entry {
	e := s.get(k)
	if e == nil {
		e = &Entry{Key: k, Kind: kind, Expire: -1}
		s.Keys = append(s.Keys, e)
	}
	return e
}

// Live lists the keys that exist now.
func (s *Server) Live() []*Entry {
	var out []*Entry
	for _, e := range s.Keys {
		if e.Expire < 0 || now() <= e.Expire {
			out = append(out, e)
		}
	}
	return out
}

// Set puts a key of another program into the database.
func (s *Server) Set(k, v string) { *s.make(k, 's') = Entry{Key: k, Kind: 's', Str: v, Expire: -1} }

// Has tells whether a key exists.
func (s *Server) Has(k string) bool { return s.get(k) != nil }

func (e *Entry) find(k string) int {
	for i := range e.Hash {
		if e.Hash[i].K == k {
			return i
		}
	}
	return -1
}

func (e *Entry) cut(i int) {
	n := make([]Field, 0, len(e.Hash))
	n = append(n, e.Hash[:i]...)
	e.Hash = append(n, e.Hash[i+1:]...)
}

// in tells whether a string is in the set.
func (e *Entry) in(m string) int {
	for i, x := range e.Set {
		if x == m {
			return i
		}
	}
	return -1
}

const wrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

// run executes one command.
func (c *conn) run(name string, a []string) {
	s := c.s
	arity := func(n int) bool {
		if len(a) < n {
			c.fail("ERR wrong number of arguments for '" + name + "' command")
			return false
		}
		return true
	}
	hash := func() (*Entry, bool) {
		e := s.get(a[0])
		if e != nil && e.Kind != 'h' {
			c.fail(wrongType)
			return nil, false
		}
		return e, true
	}
	switch name {
	case "hset", "hmset":
		if !arity(3) {
			return
		}
		if len(a)%2 == 0 {
			c.fail("ERR wrong number of arguments for '" + name + "' command")
			return
		}
		if _, ok := hash(); !ok {
			return
		}
		e := s.make(a[0], 'h')
		n := 0
		for i := 1; i < len(a); i += 2 {
			if j := e.find(a[i]); j >= 0 {
				e.Hash[j].V = a[i+1]
			} else {
				e.Hash = append(e.Hash, Field{a[i], a[i+1]})
				n++
			}
		}
		s.mod(a[0])
		if name == "hmset" {
			c.status("OK")
		} else {
			c.num(n)
		}
	case "hsetnx":
		if !arity(3) {
			return
		}
		if _, ok := hash(); !ok {
			return
		}
		e := s.make(a[0], 'h')
		if e.find(a[1]) >= 0 {
			c.num(0)
			return
		}
		e.Hash = append(e.Hash, Field{a[1], a[2]})
		s.mod(a[0])
		c.num(1)
	case "hget":
		if !arity(2) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		if e != nil {
			if i := e.find(a[1]); i >= 0 {
				c.bulk(e.Hash[i].V)
				return
			}
		}
		c.null()
	case "hmget":
		if !arity(2) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		c.arr(len(a) - 1)
		for _, f := range a[1:] {
			i := -1
			if e != nil {
				i = e.find(f)
			}
			if i >= 0 {
				c.bulk(e.Hash[i].V)
			} else {
				c.null()
			}
		}
	case "hexists":
		if !arity(2) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		if e != nil && e.find(a[1]) >= 0 {
			c.num(1)
		} else {
			c.num(0)
		}
	case "hlen":
		if !arity(1) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		if e == nil {
			c.num(0)
		} else {
			c.num(len(e.Hash))
		}
	case "hkeys", "hvals", "hgetall":
		if !arity(1) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		var out []string
		if e != nil {
			for _, f := range e.Hash {
				if name != "hvals" {
					out = append(out, f.K)
				}
				if name != "hkeys" {
					out = append(out, f.V)
				}
			}
		}
		c.list(out)
	case "hdel":
		if !arity(2) {
			return
		}
		e, ok := hash()
		if !ok {
			return
		}
		n := 0
		if e != nil {
			for _, f := range a[1:] {
				if i := e.find(f); i >= 0 {
					e.cut(i)
					n++
				}
			}
			if n > 0 {
				s.mod(a[0])
			}
			if len(e.Hash) == 0 {
				s.del(a[0])
			}
		}
		c.num(n)
	case "del", "unlink":
		if !arity(1) {
			return
		}
		n := 0
		for _, k := range a {
			if s.del(k) {
				n++
			}
		}
		c.num(n)
	case "exists":
		n := 0
		for _, k := range a {
			if s.get(k) != nil {
				n++
			}
		}
		c.num(n)
	case "keys":
		if !arity(1) {
			return
		}
		var out []string
		for _, e := range s.Live() {
			if Match(a[0], e.Key) {
				out = append(out, e.Key)
			}
		}
		c.list(out)
	case "scan":
		c.scan(a)
	case "expire", "pexpire", "expireat", "pexpireat":
		if !arity(2) {
			return
		}
		n, ok := number(a[1])
		if !ok {
			c.fail("ERR value is not an integer or out of range")
			return
		}
		if name == "expire" || name == "expireat" {
			n *= 1000
		}
		if name == "expire" || name == "pexpire" {
			n += now()
		}
		e := s.get(a[0])
		if e == nil {
			c.num(0)
			return
		}
		if n <= now() {
			s.del(a[0])
		} else {
			e.Expire = n
			s.mod(a[0])
		}
		c.num(1)
	case "persist":
		e := s.get(a[0])
		if e == nil || e.Expire < 0 {
			c.num(0)
			return
		}
		e.Expire = -1
		s.mod(a[0])
		c.num(1)
	case "ttl", "pttl":
		e := s.get(a[0])
		switch {
		case e == nil:
			c.num(-2)
		case e.Expire < 0:
			c.num(-1)
		default:
			d := e.Expire - now()
			if name == "ttl" {
				d = (d + 500) / 1000
			}
			c.num(int(d))
		}
	case "type":
		e := s.get(a[0])
		switch {
		case e == nil:
			c.status("none")
		case e.Kind == 'h':
			c.status("hash")
		case e.Kind == 'e':
			c.status("set")
		default:
			c.status("string")
		}
	case "rename", "renamenx":
		if !arity(2) {
			return
		}
		e := s.get(a[0])
		if e == nil {
			c.fail("ERR no such key")
			return
		}
		if name == "renamenx" && s.get(a[1]) != nil {
			c.num(0)
			return
		}
		if a[0] != a[1] {
			s.del(a[1])
			e.Key = a[1]
			s.mod(a[0])
			s.mod(a[1])
		}
		if name == "renamenx" {
			c.num(1)
		} else {
			c.status("OK")
		}
	case "copy":
		e := s.get(a[0])
		if e == nil || a[0] == a[1] || len(a) == 2 && s.get(a[1]) != nil {
			c.num(0)
			return
		}
		s.del(a[1])
		n := *e
		n.Key = a[1]
		n.Hash = append([]Field(nil), e.Hash...)
		n.Set = append([]string(nil), e.Set...)
		s.Keys = append(s.Keys, &n)
		s.mod(a[1])
		c.num(1)
	case "get":
		e := s.get(a[0])
		switch {
		case e == nil:
			c.null()
		case e.Kind != 's':
			c.fail(wrongType)
		default:
			c.bulk(e.Str)
		}
	case "set":
		if len(a) != 2 {
			unknown("set with options")
		}
		*s.make(a[0], 's') = Entry{Key: a[0], Kind: 's', Str: a[1], Expire: -1}
		s.mod(a[0])
		c.status("OK")
	case "sadd", "srem", "sismember":
		e := s.get(a[0])
		if e != nil && e.Kind != 'e' {
			c.fail(wrongType)
			return
		}
		n := 0
		for _, m := range a[1:] {
			i := -1
			if e != nil {
				i = e.in(m)
			}
			switch name {
			case "sadd":
				if i < 0 {
					e = s.make(a[0], 'e')
					e.Set = append(e.Set, m)
					n++
				}
			case "srem":
				if i >= 0 {
					e.Set = append(append([]string(nil), e.Set[:i]...), e.Set[i+1:]...)
					n++
				}
			case "sismember":
				if i >= 0 {
					n++
				}
			}
		}
		if n > 0 && name != "sismember" {
			s.mod(a[0])
			if len(e.Set) == 0 {
				s.del(a[0])
			}
		}
		c.num(n)
	case "smembers":
		e := s.get(a[0])
		if e == nil {
			c.list(nil)
		} else if e.Kind != 'e' {
			c.fail(wrongType)
		} else {
			c.list(e.Set)
		}
	default:
		unknown(name)
	}
}

func (c *conn) scan(a []string) {
	pat, typ := "", ""
	for i := 1; i+1 < len(a); i += 2 {
		switch strings.ToLower(a[i]) {
		case "match":
			pat = a[i+1]
		case "type":
			typ = a[i+1]
		}
	}
	var out []string
	for _, e := range c.s.Live() {
		if typ != "" && (typ == "hash") != (e.Kind == 'h') {
			continue
		}
		if pat == "" || Match(pat, e.Key) {
			out = append(out, e.Key)
		}
	}
	// everything in one go
	c.arr(2)
	c.bulk("0")
	c.list(out)
}

// Match is redis' glob matching (stringmatchlen).
func Match(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Match(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) > 0 && p[0] == ']' {
					break
				} else if len(p) == 0 {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
		if len(s) == 0 {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return len(p) == 0 && len(s) == 0
}
