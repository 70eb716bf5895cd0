ID="p28-mode-of-peer"; PROPERTY="P28"
NEEDS="a link from an ICON chain in BTP block mode to an ICON chain configured in bridge mode"
BREAKS="the bridge mode of the destination is taken for the source's, so the relay sends what the destination's verifier does not understand"
EDITS=[("cmd/relay/linkfatory.go","""		if cfg.Src.BridgeMode {
""","""		if cfg.Src.BridgeMode || (cfg.Dst.BridgeMode && cfg.Dst.Address.BlockChain() == ICON) {
""")]
PKG="cmd/relay"
TEST='''package main
import ("fmt";"testing";"github.com/icon-project/btp/chain";"github.com/icon-project/btp/common/log")
func TestDemo(t *testing.T) {
	cfg := chain.Config{}
	cfg.Src.Address, cfg.Dst.Address = "btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.icon/cx0000000000000000000000000000000000000002"
	cfg.Src.Endpoint = "http://127.0.0.1:1"
	cfg.Dst.BridgeMode = true
	if k := fmt.Sprintf("%T", newReceiver(ICON, cfg, log.New())); k != "*btp2.btp2" { t.Fatal(k) }
}
'''
