ID="p39-secret-of-other-side"; PROPERTY="P39"
NEEDS="one side with a secret file and the other with a password only"
BREAKS="a side with a password only is opened with the other side's secret file"
EDITS=[("cmd/relay/main.go","""	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
	if err != nil {
		return err
	}
	if len(c.Src""","""	dstPw := srcPw
	if c.Dst.KeySecret != c.Src.KeySecret && c.Dst.KeySecret != "" || c.Dst.KeyStorePass != c.Src.KeyStorePass {
		if dstPw, err = c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass); err != nil {
			return err
		}
	}
	if len(c.Src""")]
PKG="cmd/relay"
TEST='''package main
import ("testing"; "os"; "path/filepath"; "github.com/icon-project/btp/common/crypto"; "github.com/icon-project/btp/common/wallet")
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "secret"); os.WriteFile(f, []byte("one"), 0600)
	mk := func(pw string) []byte { k, _ := crypto.GenerateKeyPair(); b, err := wallet.EncryptKeyAsKeyStore(k, []byte(pw)); if err != nil { t.Fatal(err) }; return b }
	for _, second := range []string{"pw", "one", "other"} {
		c := &Config{}
		c.Src.KeyStoreData, c.Src.KeySecret, c.Src.KeyStorePass = mk("one"), f, "pw"
		c.Dst.KeyStoreData, c.Dst.KeyStorePass = mk(second), "pw"
		if err := c.EnsureWallet(); (err == nil) != (second == "pw") { t.Fatalf("%s: %v", second, err) }
	}
}
'''
