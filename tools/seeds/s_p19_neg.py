ID="p19-negative-boundary"; PROPERTY="P19"
NEEDS="a negative big integer with a power-of-two magnitude at a byte boundary beyond -0x80, e.g. -0x8000"
BREAKS="negative powers of 256/2 get one superfluous leading byte, so the byte form is not minimal"
EDITS=[("common/intconv/bytes.go","""		bl := ti.BitLen()
		nb.SetBit""","""		bl := ti.BitLen()
		if bl > 8 {
			bl = i.BitLen()
		}
		nb.SetBit""")]
PKG="common/intconv"
TEST='''package intconv
import ("testing";"math/big")
func TestDemo(t *testing.T) {
	for k := uint(7); k < 300; k += 8 {
		i := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), k))
		if n := len(BigIntToBytes(i)); n != int(k+1)/8 { t.Fatalf("-2^%d takes %d bytes", k, n) }
	}
}
'''
