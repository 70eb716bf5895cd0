ID="p12-last-of-older-witness"; PROPERTY="P12"
NEEDS="a witness made at a smaller length, checked against an accumulator that has grown since, with its last hash altered"
BREAKS="an altered witness is accepted: the last hash of an older witness is replaced by the accumulator's own"
EDITS=[("common/mta/accumulator.go","""		for i, w := range ws {
			nws[i] = w
		}
		return a.Verify(nws, h)""","""		if len(ws) == len(nws) {
			return a.Verify(ws, h)
		}
		// the upper part is ours, from the peak of the older tree
		for i := 0; i+1 < len(ws); i++ {
			nws[i] = ws[i]
		}
		return a.Verify(nws, h)""")]
PKG="common/mta"
TEST='''package mta
import ("fmt"; "testing"; "github.com/icon-project/btp/common/db"; "github.com/icon-project/btp/common/crypto")
func TestDemo(t *testing.T) {
	mk := func(n int) *Accumulator {
		bk, err := db.NewMapDB().GetBucket("x"); if err != nil { t.Fatal(err) }
		a := &Accumulator{KeyForState: []byte("k"), Bucket: bk}
		for i := 0; i < n; i++ { a.AddData([]byte(fmt.Sprint("d", i))) }
		return a
	}
	for n := 1; n <= 9; n++ { for m := n; m <= 9; m++ { for i := 0; i < n; i++ {
		w, err := mk(n).WitnessFor(int64(i)); if err != nil { t.Fatal(err) }
		h := crypto.SHA3Sum256([]byte(fmt.Sprint("d", i))); a := mk(m)
		if err := a.VerifyWithAccLength(append([]Witness(nil), w...), h, int64(n)); err != nil { t.Fatal(n, m, i, err) }
		for j := range w {
			x := append([]Witness(nil), w...); x[j].HashValue = crypto.SHA3Sum256([]byte("other"))
			if a.VerifyWithAccLength(x, h, int64(n)) == nil { t.Fatalf("altered hash %d of %d accepted: item %d, length %d against %d", j, len(w), i, n, m) }
		}
	} } }
}
'''
