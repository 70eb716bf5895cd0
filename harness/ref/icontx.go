package ref

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

func iconEsc(s string) string {
	return strings.NewReplacer("\\", "\\\\", ".", "\\.", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]").Replace(s)
}

func iconSer(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "\\0"
	case string:
		return iconEsc(t)
	case map[string]interface{}:
		return "{" + iconDict(t) + "}"
	}
	panic(fmt.Sprintf("harness: %T in a transaction", v))
}

func iconDict(t map[string]interface{}) string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = iconEsc(k) + "." + iconSer(t[k])
	}
	return strings.Join(ks, ".")
}

// IconTxHash is the hash of an ICON transaction by the JSON-RPC v3 specification.
func IconTxHash(tx map[string]interface{}) []byte {
	m := map[string]interface{}{}
	for k, v := range tx {
		if k != "signature" {
			m[k] = v
		}
	}
	return Sha3([]byte("icx_sendTransaction." + iconDict(m)))
}

// IconTxSigner recovers the address that signed the transaction.
func IconTxSigner(tx map[string]interface{}) (addr string, err error) {
	s, _ := tx["signature"].(string)
	sig, err := base64.StdEncoding.DecodeString(s)
	if err != nil || len(sig) != 65 {
		return "", fmt.Errorf("signature %q", s)
	}
	p, err := Recover(IconTxHash(tx), sig)
	if err != nil {
		return "", err
	}
	return "hx" + hex.EncodeToString(Sha3(p.Uncompressed()[1:])[12:]), nil
}
