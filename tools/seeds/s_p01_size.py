import sys,os; sys.path.insert(0,"/verif/tools/seeds"); from linkdemo import HEAD
ID="p01-size-carried"; PROPERTY="P01"
NEEDS="a long run of relay messages: the size of earlier ones is never given back, so that after the limit is used up blocks are no longer relayed"
BREAKS="the relay stops relaying when the sum of all relay messages passes the size limit of one"
EDITS=[("common/link/link.go","""	l.rmi.rmis = append(l.rmi.rmis, make([]RelayMessageItem, 0))
	l.rmi.size = 0
""","""	l.rmi.rmis = append(l.rmi.rmis, make([]RelayMessageItem, 0))
	if l.rmi.size > l.limitSize*2 {
		l.rmi.size = 0
	}
""")]
PKG="common/link"
TEST=HEAD+'''
func TestDemo(t *testing.T) {
	r, s, e := dstart(100)
	for i := int64(1); i <= 40; i++ { n := int(i); r.add(i+1, i); dwait(t, e, func() bool { return s.count() == n }) }
}
'''
