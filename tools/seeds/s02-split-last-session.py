PROP = "S02"
NEEDS = "a token with three or more dots"
BREAKS = "the user part is cut at the second last dot instead of the first"
EDITS = [("token.go", """	index = strings.Index(signingString, sep)""", """	index = strings.LastIndex(signingString, sep)""")]
DEMO = '''
package sessionid

import "testing"

func TestDemo(t *testing.T) {
	id, s, g, e := Split("a.b.c.d")
	if e != nil || id != "a" || s != "b.c" || g != "d" {
		t.Fatal("demo: wrong parts:", id, s, g, e)
	}
}
'''
