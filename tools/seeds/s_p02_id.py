import sys,os; sys.path.insert(0,"/verif/tools/seeds"); from linkdemo import HEAD
ID="p02-id-position"; PROPERTY="P02"
NEEDS="a status report that confirms the first of two unconfirmed relay messages, then another relay message, then an already verified result for the last one, then a not verifiable result"
BREAKS="ids of relay messages repeat, so a result is applied to another message; messages that are not delivered are not sent again"
EDITS=[("common/link/link.go","""			id:       rand.Int(),
""","""			id:       len(l.rms) + len(rms) + 1,
"""),("common/link/link.go","""	"math/rand"
""","")]
PKG="common/link"
TEST=HEAD+'''
func TestDemo(t *testing.T) {
	r, s, e := dstart(1000)
	send := func(h, q int64, n int) { r.add(h, q); dwait(t, e, func() bool { return s.count() == n }) }
	send(2, 1, 1)
	send(3, 2, 2)
	st := types.BMCLinkStatus{RxSeq: 1}
	st.Verifier.Height = 2
	s.mu.Lock(); s.st = st; s.mu.Unlock()
	s.c <- &st
	s.c <- &st
	send(4, 3, 3)
	ids := map[int]bool{}
	for _, m := range s.sent { if ids[m.Id()] { t.Fatal("id repeats") }; ids[m.Id()] = true }
}
'''
