ID="p15-long-list-header"; PROPERTY="P15"
NEEDS="a list whose header gives its size in eight bytes"
BREAKS="decoding such a byte string crashes instead of giving an error"
EDITS=[("common/codec/rlp.go","""func (r *rlpReader) readList() (Reader, error) {
	var header [9]byte""","""func (r *rlpReader) readList() (Reader, error) {
	var header [8]byte""")]
PKG="common/codec"
TEST='''package codec
import "testing"
func TestDemo(t *testing.T) {
	for tag := 0xc0; tag <= 0xff; tag++ { for n := 0; n < 12; n++ {
		b := make([]byte, n+1); b[0] = byte(tag); if n > 0 { b[n] = 1 }
		var v []int; RLP.UnmarshalFromBytes(b, &v)
		var s struct{ A, B int }; RLP.UnmarshalFromBytes(b, &s)
	} }
}
'''
