ID="p13-flush-early-state"; PROPERTY="P13"
NEEDS="a write failure (or crash) after the left half of a branch node was written; the flush is then repeated and the accumulator reopened"
BREAKS="a failed flush marks branch nodes as written before they are, so a later successful flush leaves a header whose nodes are missing"
EDITS=[("common/mta/accumulator.go","""	hv := n.Hash()
	if err := n.bucket.Set(hv, n.serialized); err != nil {
		return err
	}
	n.state = stateFlushed
	return nil
}

func (n *branchNode) WitnessFor""","""	hv := n.Hash()
	n.state = stateFlushed
	return n.bucket.Set(hv, n.serialized)
}

func (n *branchNode) WitnessFor""")]
PKG="common/mta"
TEST='''package mta
import ("testing";"errors";"github.com/icon-project/btp/common/db")
type failing struct{ db.Bucket; at, n int }
func (f *failing) Set(k, v []byte) error { f.n++; if f.n == f.at { return errors.New("disk full") }; return f.Bucket.Set(k, v) }
func TestDemo(t *testing.T) {
	for at := 1; at < 12; at++ {
		m := db.NewMapDB(); bk, _ := m.GetBucket("x")
		f := &failing{Bucket: bk, at: at}
		a := &Accumulator{KeyForState: []byte("s"), Bucket: f}
		for i := 0; i < 5; i++ { a.AddData([]byte{byte(i), 1}) }
		if a.Flush() != nil { if err := a.Flush(); err != nil { t.Fatal(err) } }
		b := &Accumulator{KeyForState: []byte("s"), Bucket: bk}
		if err := b.Recover(); err != nil { t.Fatal(err) }
		for i := int64(0); i < 5; i++ { if _, err := b.WitnessFor(i); err != nil { t.Fatalf("failure at write %d: witness %d: %v", at, i, err) } }
	}
}
'''
