ID="p10-key-unescaped"; PROPERTY="P10"
NEEDS="a nested call parameter whose name contains an escape character such as '.'"
BREAKS="dictionary keys containing only separators of lists/dicts are no longer escaped, so two different transactions share one serialisation (one signature fits both)"
EDITS=[("chain/icon/client/serialize.go","""		buf.Write(serializeString(k))
		buf.WriteByte('.')""","""		if v == nil {
			buf.WriteString(k)
		} else {
			buf.Write(serializeString(k))
		}
		buf.WriteByte('.')""")]
PKG="chain/icon/client"
TEST='''package client
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	a := map[string]interface{}{"a": "b", "c": nil}
	b := map[string]interface{}{"a.b.c": nil}
	x, err := serializeDict(a, nil, nil)
	if err != nil { t.Fatal(err) }
	y, err := serializeDict(b, nil, nil)
	if err != nil { t.Fatal(err) }
	if bytes.Equal(x, y) { t.Fatalf("two transactions share %q", x) }
}
'''
