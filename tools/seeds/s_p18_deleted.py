ID="p18-empty-value-deleted"; PROPERTY="P18"
NEEDS="an empty (zero length) value written through the layer and committed"
BREAKS="committing an empty value deletes the key from the base"
EDITS=[("common/db/layer_db.go","""		for k, v := range bk.data {
			if v == nil {""","""		for k, v := range bk.data {
			if len(v) == 0 {""")]
PKG="common/db"
TEST='''package db
import "testing"
func TestDemo(t *testing.T) {
	m := NewMapDB(); l := NewLayerDB(m)
	bk, _ := l.GetBucket("x"); rb, _ := m.GetBucket("x")
	bk.Set([]byte("a"), []byte{})
	l.Flush(true)
	if !rb.Has([]byte("a")) { t.Fatal("empty value lost") }
}
'''
