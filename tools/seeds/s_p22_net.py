ID="p22-network-split"; PROPERTY="P22"
NEEDS="a BTP address whose account part contains a '.'"
BREAKS="the network id and blockchain are split from the whole rest of the address, so a '.' in the account changes them"
EDITS=[("common/types/btpaddress.go","""		ss := strings.Split(s, ".")
		if len(ss) > 1 {""","""		ss := strings.Split(string(a)[len(a.Protocol())+3:], ".")
		if len(ss) > 1 && strings.Contains(string(a), ".") {
			if i := strings.Index(ss[1], "/"); i >= 0 {
				ss[1] = ss[1][:i]
			}""")]
PKG="common/types"
TEST='''package types
import "testing"
func TestDemo(t *testing.T) {
	a := BtpAddress("btp://icon/cx.12")
	if a.BlockChain() != "icon" || a.NetworkID() != "" { t.Fatal(a.BlockChain(), a.NetworkID()) }
	b := BtpAddress("btp://0x1.icon/cx.12")
	if b.BlockChain() != "icon" || b.NetworkID() != "0x1" { t.Fatal(b.BlockChain(), b.NetworkID()) }
}
'''
