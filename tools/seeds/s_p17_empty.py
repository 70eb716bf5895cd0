ID="p17-badger-empty-value"; PROPERTY="P17"
NEEDS="an empty value stored in the badger backend over an existing key"
BREAKS="a key with an empty value is missing in one backend"
EDITS=[("common/db/badger_db.go","""		err := txn.Set(ikey, value)
		return err""","""		if len(value) == 0 {
			return txn.Delete(ikey)
		}
		return txn.Set(ikey, value)""")]
PKG="common/db"
TEST='''package db
import ("testing";"os")
func TestDemo(t *testing.T) {
	for _, be := range []BackendType{BadgerDBBackend, GoLevelDBBackend, MapDBBackend} {
		dir, err := os.MkdirTemp("", "demo"); if err != nil { t.Fatal(err) }; defer os.RemoveAll(dir)
		d, err := openDatabase(be, "x", dir); if err != nil { t.Fatal(err) }
		bk, _ := d.GetBucket("b")
		if err := bk.Set([]byte("k"), []byte("v")); err != nil { t.Fatal(err) }
		if err := bk.Set([]byte("k"), []byte{}); err != nil { t.Fatal(err) }
		if !bk.Has([]byte("k")) { t.Fatalf("%s: key with an empty value is missing", be) }
		d.Close()
	}
}
'''
