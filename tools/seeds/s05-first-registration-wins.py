PROP = "S05"
NEEDS = "a method registered under a name already in use"
BREAKS = "a later registration under the same name is ignored"
PKG = "cryptoer"
EDITS = [("cryptoer/signing_method.go", """	signingMethods[alg] = f
""", """	if _, ok := signingMethods[alg]; !ok || f == nil {
		signingMethods[alg] = f
	}
""")]
DEMO = '''
package cryptoer

import "testing"

func TestDemo(t *testing.T) {
	RegisterSigningMethod("HS256", func() SigningMethod { return SigningMethodHS512 })
	if GetSigningMethod("HS256") != SigningMethod(SigningMethodHS512) {
		t.Fatal("demo: the method registered last is not the one found")
	}
}
'''
