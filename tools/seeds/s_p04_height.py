import sys; sys.path.insert(0,"/verif/tools/seeds"); from icondemo import *
ID="p04-resume-after-block"; PROPERTY="P04"
NEEDS="a relay started when the destination already has some, but not all, messages of a source block"
BREAKS="the monitor is asked for the blocks after the verified one only, so the remaining messages of that block are lost"
EDITS=[("chain/icon/bridge/bridge.go","""		Height:    client.NewHexInt(bs.Verifier.Height),
""","""		Height:    client.NewHexInt(bs.Verifier.Height + 1),
""")]
PKG="chain/icon/bridge"
TEST="package bridge\n"+IMPORTS+NODE+'''
func TestDemo(t *testing.T) {
	n := &dnode{heights: []int64{10, 11}, upd: []int64{0, 6}, msgs: map[string]string{"0xa": `["YQ==","Yg==","Yw=="]`, "0xb": `["ZA=="]`}}
	s := n.serve()
	b := NewBridge("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.icon/cx0000000000000000000000000000000000000002", s.URL, log.New())
	bs := &types.BMCLinkStatus{RxSeq: 1}
	bs.Verifier.Height = 10
	c, err := b.Start(bs)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		select {
		case <-c:
		case <-time.After(2 * time.Second): t.Fatal("block not received")
		}
	}
	mp, err := b.BuildMessageProof(bs, 1000)
	if err != nil || mp == nil { t.Fatal("messages after 1 are missing ", err) }
	if mp.StartSeqNum() > 2 || mp.LastSeqNum() != 3 { t.Fatal(mp.StartSeqNum(), mp.LastSeqNum()) }
}
'''
