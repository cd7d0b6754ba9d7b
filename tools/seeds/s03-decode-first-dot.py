PROP = "S03"
NEEDS = "a user id that contains a dot"
BREAKS = "decoding cuts the user id at its first dot"
PKG = "cryptoer"
EDITS = [("cryptoer/encode.go", """	i := strings.LastIndex(value, `.`)""", """	i := strings.Index(value, `.`)""")]
DEMO = '''
package cryptoer

import "testing"

func TestDemo(t *testing.T) {
	token, e := Encode(SigningMethodHS256, []byte("k"), "a.b", "s")
	if e != nil {
		t.Fatal(e)
	}
	id, s, e := Decode(SigningMethodHS256, []byte("k"), token)
	if e != nil || id != "a.b" || s != "s" {
		t.Fatal("demo: decoded", id, s, e)
	}
}
'''
