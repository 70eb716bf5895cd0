ID="p18-commit-loses-pending"; PROPERTY="P18"
NEEDS="the base database fails on one write during a commit, and the commit is retried"
BREAKS="entries are dropped from the layer before the base accepted them, so a retried commit misses the entry that failed"
EDITS=[("common/db/layer_db.go","""		for k, v := range bk.data {
			if v == nil {""","""		for k, v := range bk.data {
			delete(bk.data, k)
			if v == nil {""")]
PKG="common/db"
TEST='''package db
import ("testing";"errors")
type fdb struct{ Database; b *fbk }
func (f *fdb) GetBucket(id BucketID) (Bucket, error) { b, err := f.Database.GetBucket(id); f.b.Bucket = b; return f.b, err }
type fbk struct{ Bucket; fail bool }
func (f *fbk) Set(k, v []byte) error { if f.fail { f.fail = false; return errors.New("full") }; return f.Bucket.Set(k, v) }
func TestDemo(t *testing.T) {
	base := &fdb{NewMapDB(), &fbk{}}
	l := NewLayerDB(base)
	bk, _ := l.GetBucket("x")
	bk.Set([]byte("a"), []byte("1"))
	base.b.fail = true
	if l.Flush(true) == nil { t.Fatal("no error") }
	if err := l.Flush(true); err != nil { t.Fatal(err) }
	if v, _ := base.b.Get([]byte("a")); string(v) != "1" { t.Fatalf("lost: %q", v) }
}
'''
