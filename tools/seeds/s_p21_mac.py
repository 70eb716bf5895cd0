ID="p21-mac-prefix"; PROPERTY="P21"
NEEDS="an altered key store whose mac field is cut short, opened with another password"
BREAKS="a key store with a shortened MAC is accepted, so a wrong password gives a wrong key or an unclear failure"
EDITS=[("common/wallet/keystore.go","""	if !bytes.Equal(mac, ksData.Crypto.MAC.Bytes()) {""","""	if !bytes.HasPrefix(mac, ksData.Crypto.MAC.Bytes()) {"""),
("common/wallet/keystore.go","""	if !address.Equal(&ksData.Address) {""","""	if len(ksData.Crypto.MAC.Bytes()) > 0 && !address.Equal(&ksData.Address) {""")]
PKG="common/wallet"
TEST='''package wallet
import ("testing";"encoding/json";"github.com/icon-project/btp/common/crypto";"bytes")
func TestDemo(t *testing.T) {
	sk, _ := crypto.GenerateKeyPair()
	ks, err := EncryptKeyAsKeyStore(sk, []byte("pw"))
	if err != nil { t.Fatal(err) }
	var m map[string]interface{}
	json.Unmarshal(ks, &m)
	m["crypto"].(map[string]interface{})["mac"] = ""
	b, _ := json.Marshal(m)
	d, err := NewKeyStoreData(b)
	if err != nil { return }
	k, err := DecryptICONKeyStore(d, []byte("other"))
	if err == nil && !bytes.Equal(k.Bytes(), sk.Bytes()) { t.Fatal("wrong key accepted") }
}
'''
