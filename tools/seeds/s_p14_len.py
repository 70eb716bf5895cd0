ID="p14-list-size-boundary"; PROPERTY="P14"
NEEDS="a list whose payload is exactly 56 bytes long"
BREAKS="the list header of a 56-byte payload uses the short form, which collides with the long form"
EDITS=[("common/codec/rlp.go","""		return w.writeAll([]byte{0xc0})
	case l <= 55:""","""		return w.writeAll([]byte{0xc0})
	case l <= 56:""")]
PKG="common/codec"
TEST='''package codec
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	for n := 40; n < 70; n++ {
		in := [][]byte{bytes.Repeat([]byte{7}, n)}
		bs, err := RLP.MarshalToBytes(&in)
		if err != nil { t.Fatal(err) }
		var out [][]byte
		if _, err := RLP.UnmarshalFromBytes(bs, &out); err != nil { t.Fatalf("%d: %v", n, err) }
		if len(out) != 1 || !bytes.Equal(out[0], in[0]) { t.Fatalf("%d: %v", n, out) }
	}
}
'''
