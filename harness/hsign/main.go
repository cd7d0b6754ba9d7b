// Command hsign holds the harnesses about built-in signing methods. It is a
// program that imports nothing but the library's signing package (and the
// harness interface, which registers no hash): what works here works anywhere.
package main

import (
	"crypto"
	"os"

	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"verif/harness/sym"
	"verif/harness/vrt"
)

var all = map[string]func(){"S05Hash": S05Hash, "S05Wrong": S05Wrong, "S05Names": S05Names, "S05Race": S05Race, "S05Custom": S05Custom}

func main() {
	if e := sym.Load(os.Getenv("SYM_VECTOR")); e != nil {
		panic(e)
	}
	vrt.Init()
	sym.Run(all[sym.Harness()])
}

func builtin(k int) (cryptoer.SigningMethod, string, int) {
	switch k {
	case 0:
		return cryptoer.SigningMethodHMD5, "HMD5", 16
	case 1:
		return cryptoer.SigningMethodHS1, "HS1", 20
	case 2:
		return cryptoer.SigningMethodHS256, "HS256", 32
	case 3:
		return cryptoer.SigningMethodHS384, "HS384", 48
	}
	return cryptoer.SigningMethodHS512, "HS512", 64
}

// S05Hash: every built-in method signs and verifies, with a MAC of its length.
func S05Hash() {
	m, name, size := builtin(sym.Choice("method", 5))
	key, msg := sym.Bytes("key", sym.Choice("keylen", 3)), sym.Str("msg", 2)
	if sym.Bool("byname") {
		m = cryptoer.GetSigningMethod(name)
		sym.Assert(m != nil, "S05 a built-in method is found by its name")
	}
	sym.Assert(m.Alg() == name, "S05 a built-in method knows its name")
	sig, e := m.Sign(msg, key)
	sym.Assert(e == nil, "S05 a built-in method signs in a program importing only the library")
	sym.Assert(m.Verify(msg, sig, key) == nil, "S05 a built-in method verifies what it signed")
	b, e := cryptoer.DecodeSegment(sig)
	sym.Assert(e == nil && len(b) == size, "S05 a signature is the method's MAC")
	other := sym.Str("other", 2)
	if other != msg {
		sym.Assert(m.Verify(other, sig, key) != nil, "S05 a signature verifies for nothing else")
	}
	m2, name2, _ := builtin(sym.Choice("method2", 5))
	if name2 != name {
		sym.Assert(m2.Verify(msg, sig, key) != nil, "S05 a signature verifies under no other method")
	}
	sym.Reach("end")
}

// S05Wrong: key material of the wrong type is refused in both directions.
func S05Wrong() {
	m, _, _ := builtin(sym.Choice("method", 5))
	key := sym.Bytes("key", 1)
	msg := sym.Str("msg", 1)
	sig, _ := m.Sign(msg, key)
	var k interface{}
	switch sym.Choice("kind", 5) {
	case 0:
		k = nil
	case 1:
		k = string(key)
	case 2:
		k = int(key[0])
	case 3:
		k = &key
	case 4:
		k = [1]byte{key[0]}
	}
	s, e := m.Sign(msg, k)
	sym.Assert(e != nil && s == "", "S05 signing refuses a key of the wrong type")
	sym.Assert(m.Verify(msg, sig, k) != nil, "S05 verifying refuses a key of the wrong type")
	sym.Assert(m.Verify(msg, "", k) != nil, "S05 verifying refuses a key of the wrong type")
	sym.Reach("end")
}

// S05Custom: a method made from a hash works with every hash the library links in, and reports
// one that is not linked in instead of panicking.
func S05Custom() {
	key, msg := sym.Bytes("key", sym.Choice("keylen", 3)), sym.Str("msg", 2)
	name := sym.Str("name", 2)
	hs := []crypto.Hash{crypto.SHA224, crypto.MD5, crypto.SHA512, 0, crypto.MD4, crypto.RIPEMD160, crypto.BLAKE2s_256, 99}
	i := sym.Choice("hash", len(hs))
	var m cryptoer.SigningMethod = &cryptoer.SigningMethodHMAC{Name: name, Hash: hs[i]}
	sym.Assert(m.Alg() == name, "S05 a method knows its name")
	sig, e := m.Sign(msg, key)
	if i < 3 {
		sym.Assert(e == nil && m.Verify(msg, sig, key) == nil, "S05 a method over a linked hash signs and verifies")
		other := sym.Str("other", 2)
		if other != msg {
			sym.Assert(m.Verify(other, sig, key) != nil, "S05 a signature verifies for nothing else")
		}
	} else {
		sym.Assert(e != nil && sig == "", "S05 a method whose hash is not available says so when signing")
		sym.Assert(m.Verify(msg, sig, key) != nil, "S05 a method whose hash is not available verifies nothing")
		sym.Assert(m.Verify(msg, sym.Str("sig", 2), key) != nil, "S05 a method whose hash is not available verifies nothing")
	}
	sym.Reach("end")
}

type fake struct {
	name string
	n    int
}

func (f *fake) Verify(s, sig string, key interface{}) error    { return nil }
func (f *fake) Sign(s string, key interface{}) (string, error) { return "", nil }
func (f *fake) Alg() string                                    { return f.name }

// S05Names: lookups give the method registered last under exactly that name.
func S05Names() {
	ref := map[string]int{}
	names := []string{sym.Str("n0", 2), sym.Str("n1", 2)}
	builtins := []string{"HMD5", "HS1", "HS256", "HS384", "HS512"}
	over := -1
	n := sym.Bound("registrations", 3, 4)
	for i := 0; i < n; i++ {
		f := &fake{"x", i}
		name := ""
		switch k := sym.Choice("name", 3); k {
		case 2:
			over = sym.Choice("builtin", 5)
			name = builtins[over]
		default:
			name = names[k]
		}
		cryptoer.RegisterSigningMethod(name, func() cryptoer.SigningMethod { return f })
		ref[name] = i
	}
	q := sym.Str("q", 2)
	got := cryptoer.GetSigningMethod(q)
	if want, ok := ref[q]; ok {
		f, is := got.(*fake)
		sym.Assert(is && f.n == want, "S05 a lookup gives the method registered last")
	} else {
		sym.Assert(got == nil, "S05 an unknown name gives no method")
	}
	for i, b := range builtins {
		got := cryptoer.GetSigningMethod(b)
		if want, ok := ref[b]; ok {
			f, is := got.(*fake)
			sym.Assert(is && f.n == want, "S05 a built-in name can be replaced")
		} else {
			m, _, _ := builtin(i)
			sym.Assert(got == m, "S05 a built-in method is found by its name")
		}
	}
	sym.Reach("end")
}

// S05Race: lookups and registrations at the same time.
func S05Race() {
	a, b := &fake{"n", 1}, &fake{"n", 2}
	cryptoer.RegisterSigningMethod("n", func() cryptoer.SigningMethod { return a })
	var got, hs cryptoer.SigningMethod
	sym.Explore(sym.Bound("preemptions", 2, 3))
	sym.Go(func() {
		cryptoer.RegisterSigningMethod("n", func() cryptoer.SigningMethod { return b })
		cryptoer.RegisterSigningMethod("m", func() cryptoer.SigningMethod { return b })
	})
	sym.Go(func() { got = cryptoer.GetSigningMethod("n") })
	sym.Go(func() { hs = cryptoer.GetSigningMethod("HS1") })
	sym.Join()
	sym.NoExplore()
	sym.Assert(got == cryptoer.SigningMethod(a) || got == cryptoer.SigningMethod(b), "S05 a lookup during a registration gives the old or the new method")
	sym.Assert(hs == cryptoer.SigningMethod(cryptoer.SigningMethodHS1), "S05 a lookup during a registration of another name is unaffected")
	sym.Assert(cryptoer.GetSigningMethod("n") == cryptoer.SigningMethod(b), "S05 a registration is visible afterwards")
	sym.Assert(cryptoer.GetSigningMethod("m") == cryptoer.SigningMethod(b), "S05 a registration is visible afterwards")
	sym.Reach("end")
}
