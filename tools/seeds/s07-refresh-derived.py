PROP = "S07"
NEEDS = "a token pair whose refresh token is compared with, or presented as, its access token"
BREAKS = "the refresh token's session part extends the access token's after a separator, so it splits into more parts than a token has"
EDITS = [("token.go", """	refresh, e = createToken(method, key, id)
	if e != nil {
		return
	}
	return
}""", """	// the access token's session id and one more
	_, sessionid, _, e := Split(access)
	if e != nil {
		return
	}
	refresh, e = createToken(method, key, Join(id, sessionid))
	if e != nil {
		return
	}
	return
}""")]
DEMO = '''
package sessionid

import (
	"strings"
	"testing"

	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

func TestDemo(t *testing.T) {
	_, refresh, e := CreateToken(cryptoer.SigningMethodHMD5, []byte("k"), "u")
	if e != nil {
		t.Fatal(e)
	}
	id, session, _, e := Split(refresh)
	if e != nil || id != "u" || strings.Contains(session, ".") {
		t.Fatal("demo: the refresh token splits into", id, session)
	}
}
'''
