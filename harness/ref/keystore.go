package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"encoding/json"
	"math/big"

	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"
)

// KeyStore builds a version 3 key store from its definition. kind: "icx" or "evm".
// The result is a tree, so that a check can change any part of it.
func KeyStore(kind string, key, pw, salt, iv []byte, n, r, p int) map[string]interface{} {
	dk, err := scrypt.Key(pw, salt, n, r, p, 32)
	if err != nil {
		panic(err)
	}
	b, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, len(key))
	cipher.NewCTR(b, iv).XORKeyStream(ct, key)
	h := sha3.NewLegacyKeccak256()
	h.Write(dk[16:32])
	h.Write(ct)
	m := map[string]interface{}{
		"id": "01234567-89ab-4cde-8f01-23456789abcd", "version": 3,
		"crypto": map[string]interface{}{
			"cipher":       "aes-128-ctr",
			"cipherparams": map[string]interface{}{"iv": hex.EncodeToString(iv)},
			"ciphertext":   hex.EncodeToString(ct),
			"kdf":          "scrypt",
			"kdfparams":    map[string]interface{}{"dklen": 32, "n": n, "r": r, "p": p, "salt": hex.EncodeToString(salt)},
			"mac":          hex.EncodeToString(h.Sum(nil)),
		},
	}
	if kind == "icx" {
		m["address"] = IconAddress(key)
		m["coinType"] = "icx"
	} else {
		m["address"] = EvmAddress(key)
	}
	return m
}

func IconAddress(key []byte) string {
	h := sha3.Sum256(G.Mul(new(big.Int).SetBytes(key)).Uncompressed()[1:])
	return "hx" + hex.EncodeToString(h[12:])
}

func EvmAddress(key []byte) string {
	h := sha3.NewLegacyKeccak256()
	h.Write(G.Mul(new(big.Int).SetBytes(key)).Uncompressed()[1:])
	return hex.EncodeToString(h.Sum(nil)[12:])
}

// OpenKeyStore decrypts a key store of either kind without judging anything.
func OpenKeyStore(data, pw []byte) (key []byte, n int, ok bool) {
	var ks struct {
		Crypto struct {
			CipherParams struct{ IV string }
			CipherText   string
			KDFParams    struct {
				DKLen, N, R, P int
				Salt           string
			}
			MAC string
		}
	}
	if json.Unmarshal(data, &ks) != nil {
		return nil, 0, false
	}
	hx := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
	k := ks.Crypto.KDFParams
	dk, err := scrypt.Key(pw, hx(k.Salt), k.N, k.R, k.P, k.DKLen)
	if err != nil {
		return nil, k.N, false
	}
	ct := hx(ks.Crypto.CipherText)
	h := sha3.NewLegacyKeccak256()
	h.Write(dk[16:32])
	h.Write(ct)
	if hex.EncodeToString(h.Sum(nil)) != ks.Crypto.MAC {
		return nil, k.N, false
	}
	b, _ := aes.NewCipher(dk[:16])
	out := make([]byte, len(ct))
	cipher.NewCTR(b, hx(ks.Crypto.CipherParams.IV)).XORKeyStream(out, ct)
	return out, k.N, true
}
