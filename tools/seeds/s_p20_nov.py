ID="p20-vrs-recovery-bits"; PROPERTY="P20"
NEEDS="a signature whose V is 2 or 3 (R beyond the group order), written in the [V|R|S] form"
BREAKS="the [V|R|S] form drops the second recovery bit, so such a signature comes back as another one"
EDITS=[("common/crypto/signature.go","""	s[0] = sig.bytes[64]
""","""	s[0] = sig.bytes[64] & 1
""")]
PKG="common/crypto"
TEST='''package crypto
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	for v := byte(0); v < 4; v++ {
		raw := append(bytes.Repeat([]byte{3}, 64), v)
		s, err := ParseSignature(raw)
		if err != nil { t.Fatal(err) }
		b, err := s.SerializeVRS()
		if err != nil { t.Fatal(err) }
		q, err := ParseSignatureVRS(b)
		if err != nil { t.Fatal(err) }
		o, _ := q.SerializeRSV()
		if !bytes.Equal(o, raw) { t.Fatalf("V=%d: %x", v, o) }
	}
}
'''
