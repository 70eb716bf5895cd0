// P21: key stores.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	gcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P21", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: boundary keys (1, n-1, leading zeros, ordinary) x boundary passwords (empty, short, 64/65 bytes, non-UTF-8, unicode); every ordered pair of passwords; every field of the key store removed, retyped (9 shapes), shortened, lengthened; every byte of every binary field altered; relay save / secret files over all combinations of password sources",
			"tampering is explored on key stores made by an independent writer with a cheap scrypt cost; the product's own cost (N=65536) is used for round trips",
			"password pairs that are equal under HMAC key padding (trailing zero bytes; a password longer than 64 bytes and its SHA-256) are inherent to scrypt and left out",
			"scrypt parameters that only ask for excessive time or memory are left out",
			"the envelope format carries no integrity: only its round trip and its errors are judged",
		}}, body)
}

var order = ref.N

func keys(n int) [][]byte {
	ks := [][]byte{ref.Pad32(big.NewInt(1)), ref.Pad32(new(big.Int).Sub(order, big.NewInt(1))), ref.Pad32(new(big.Int).Lsh(big.NewInt(3), 200))}
	for i := byte(0); len(ks) < n; i++ {
		ks = append(ks, crypto.SHA3Sum256([]byte{i, 1}))
	}
	return ks[:n]
}

func passwords() [][]byte {
	return [][]byte{{}, []byte("a"), []byte("A"), []byte("a "), []byte("a\n"), []byte("b"), []byte("ab"), []byte("pässwörd"), {0xff, 0xfe}, {0xef, 0xbf, 0xbd, 0xef, 0xbf, 0xbd}, bytes.Repeat([]byte("x"), 64), bytes.Repeat([]byte("x"), 65), bytes.Repeat([]byte("x"), 63)}
}

func clone(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, x := range t {
			m[k] = clone(x)
		}
		return m
	}
	return v
}

func set(m map[string]interface{}, path []string, v interface{}, del bool) {
	for _, p := range path[:len(path)-1] {
		m = m[p].(map[string]interface{})
	}
	if del {
		delete(m, path[len(path)-1])
	} else {
		m[path[len(path)-1]] = v
	}
}

func get(m map[string]interface{}, path []string) interface{} {
	var v interface{} = m
	for _, p := range path {
		v = v.(map[string]interface{})[p]
	}
	return v
}

func paths(m map[string]interface{}, pre []string) (out [][]string) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := append(append([]string{}, pre...), k)
		out = append(out, p)
		if c, ok := m[k].(map[string]interface{}); ok {
			out = append(out, paths(c, p)...)
		}
	}
	return
}

func js(v interface{}) []byte { b, _ := json.Marshal(v); return b }

// open opens data and returns the key (nil: refused).
func open(c *mc.C, what string, data, pw []byte) ([]byte, string) {
	var w wallet.Wallet
	var err error
	if site, p := mc.Try(func() { w, err = wallet.DecryptKeyStore(data, pw) }); p != nil {
		c.Fail("crash:"+site, "%s: opening crashes: %v\n%s", what, p, data)
	}
	c.R.Trans(1)
	c.R.Exec(1)
	if err != nil {
		return nil, ""
	}
	if w == nil {
		c.Fail("nil-wallet", "%s: no wallet and no error", what)
	}
	switch t := w.(type) {
	case *wallet.EvmWallet:
		return gcrypto.FromECDSA(t.Skey), strings.ToLower(strings.TrimPrefix(t.Address(), "0x"))
	}
	// an ICON wallet does not hand out its key: the public key identifies it
	return w.PublicKey(), w.Address()
}

func expectKey(kind string, key []byte) ([]byte, string) {
	if kind == "evm" {
		return key, ref.EvmAddress(key)
	}
	return ref.G.Mul(new(big.Int).SetBytes(key)).Compressed(), ref.IconAddress(key)
}

func body(r *mc.R) {
	log.SetOutput(io.Discard)
	nk := 4
	if r.Thorough() {
		nk = 10
	}
	pws := passwords()
	salt, iv := []byte{0xab, 2, 3, 4, 5, 6, 7, 8}, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	for _, kind := range []string{"icx", "evm"} {
		for ki, key := range keys(nk) {
			kind, ki, key := kind, ki, key
			want, waddr := expectKey(kind, key)
			good := func(c *mc.C, what string, data, pw []byte) {
				k, a := open(c, what, data, pw)
				if !bytes.Equal(k, want) || a != waddr {
					c.Fail("wrong-key", "%s: key %x address %s, expected %x %s", what, k, a, want, waddr)
				}
				c.R.Validated(1)
			}
			r.Case(fmt.Sprintf("%s key %d passwords", kind, ki), func(c *mc.C) {
				for i, p := range pws {
					ks := js(ref.KeyStore(kind, key, p, salt, iv, 2, 1, 1))
					for j, q := range pws {
						if i == j {
							good(c, fmt.Sprintf("password %q", p), ks, q)
						} else if k, _ := open(c, "other password", ks, q); k != nil {
							c.Fail("other-password", "key store of password %q opens with %q", p, q)
						}
						c.R.Validated(1)
						c.R.State(kind, ki, i, j)
					}
				}
			})
			tamper := func(c *mc.C, what string, m map[string]interface{}, pw []byte) {
				k, a := open(c, what, js(m), pw)
				if k != nil && !bytes.Equal(k, want) {
					// the other coin type shows the same key in another form
					ow, oa := expectKey(map[string]string{"icx": "evm", "evm": "icx"}[kind], key)
					if !bytes.Equal(k, ow) || oa != a {
						c.Fail("tampered-opens", "%s: opens as another key %x (expected %x)\n%s", what, k, want, js(m))
					}
				}
				c.R.Validated(1)
				c.R.State(what)
			}
			orig := ref.KeyStore(kind, key, []byte("a"), salt, iv, 2, 1, 1)
			for _, p := range paths(orig, nil) {
				p := p
				r.Case(fmt.Sprintf("%s key %d field %s", kind, ki, strings.Join(p, ".")), func(c *mc.C) {
					name := strings.Join(p, ".")
					try := func(what string, v interface{}, del bool) {
						m := clone(orig).(map[string]interface{})
						set(m, p, v, del)
						tamper(c, fmt.Sprintf("%s %s %s", kind, name, what), m, []byte("a"))
						m2 := clone(orig).(map[string]interface{})
						set(m2, p, v, del)
						if k, _ := open(c, what, js(m2), []byte("b")); k != nil {
							c.Fail("tampered-other-password", "%s %s opens with another password", name, what)
						}
					}
					try("removed", nil, true)
					for i, v := range []interface{}{nil, 0, -1, 1.5, "", "zz", "0", "00", true, []interface{}{}, map[string]interface{}{}, []interface{}{1, "a"}} {
						try(fmt.Sprintf("shape %d", i), v, false)
					}
					v := get(orig, p)
					if n, ok := v.(int); ok {
						for _, x := range []int{n + 1, n - 1, n * 2, n / 2, 15, 16, 17, 31, 33, 64, 3, 4} {
							if p[len(p)-1] == "n" || p[len(p)-1] == "r" || p[len(p)-1] == "p" {
								if x > 64 {
									continue
								}
							}
							try(fmt.Sprintf("value %d", x), x, false)
						}
					}
					s, ok := v.(string)
					if !ok {
						return
					}
					for l := 0; l < len(s); l++ {
						try(fmt.Sprintf("cut to %d", l), s[:l], false)
						try(fmt.Sprintf("from %d", l), s[l+1:], false)
					}
					for _, x := range []string{"0", "00", "zz", s} {
						try("longer", s+x, false)
						try("longer at front", x+s, false)
					}
					try("upper case", strings.ToUpper(s), false)
					try("0x", "0x"+s, false)
					for i := range s {
						for _, x := range []string{"0", "1", "8", "f", "x", "\u00e9"} {
							if s[i:i+1] != x {
								try(fmt.Sprintf("char %d=%s", i, x), s[:i]+x+s[i+1:], false)
							}
						}
					}
				})
			}
			if kind == "icx" {
				r.Case(fmt.Sprintf("round trip %d", ki), func(c *mc.C) {
					sk, err := crypto.ParsePrivateKey(key)
					if err != nil {
						c.Fail("key", "%v", err)
					}
					seen := map[string]bool{}
					for pi, p := range [][]byte{[]byte("a"), {}, bytes.Repeat([]byte("x"), 65), {0xff}} {
						var data []byte
						if pi%2 == 0 {
							data, err = wallet.EncryptKeyAsKeyStore(sk, p)
						} else {
							w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
							data, err = wallet.KeyStoreFromWallet(w, p)
						}
						if err != nil {
							c.Fail("encrypt", "%v", err)
						}
						good(c, "round trip", data, p)
						k, n, ok := ref.OpenKeyStore(data, p)
						if !ok || !bytes.Equal(k, key) {
							c.Fail("encrypt-form", "written key store does not open with the independent reader: %s", data)
						}
						if n < 1<<14 {
							c.Fail("encrypt-cost", "key store written with scrypt N=%d", n)
						}
						if k, _ := open(c, "wrong password", data, append(p, 'z')); k != nil {
							c.Fail("other-password", "opens with another password")
						}
						if bytes.Contains(bytes.ToLower(data), []byte(hex.EncodeToString(key))) {
							c.Fail("clear", "the key is in the key store in clear text")
						}
						var t map[string]interface{}
						json.Unmarshal(data, &t)
						for _, f := range [][]string{{"crypto", "kdfparams", "salt"}, {"crypto", "cipherparams", "iv"}, {"crypto", "ciphertext"}, {"crypto", "mac"}} {
							v := fmt.Sprint(get(t, f))
							if seen[v] {
								c.Fail("repeat", "%v of two key stores is the same: %s", f, v)
							}
							seen[v] = true
						}
						ad, err := wallet.ReadAddressFromKeyStore(data)
						if err != nil || ad.String() != waddr {
							c.Fail("read-address", "address read as %v %v", ad, err)
						}
						c.R.State("round", ki, pi)
					}
				})
			}
		}
	}
	r.Case("not a key store", func(c *mc.C) {
		for _, s := range []string{"", "null", "{}", "[]", "1", "\"x\"", "{", "{\"crypto\":null}", "{\"coinType\":\"icx\"}", "{\"coinType\":\"btc\"}", "{\"version\":3}", "{\"version\":\"1\",\"crypto\":{}}", "{\"version\":1,\"crypto\":{}}", "{\"Version\":3,\"crypto\":{\"kdf\":\"pbkdf2\"}}", "{\"coinType\":\"icx\",\"crypto\":{\"cipher\":\"aes-128-ctr\",\"kdf\":\"scrypt\",\"cipherparams\":{},\"kdfparams\":{}}}", "{\"coinType\":\"icx\",\"crypto\":{\"cipher\":\"aes-128-ctr\",\"kdf\":\"scrypt\",\"cipherparams\":null,\"kdfparams\":null}}"} {
			for _, pw := range pws {
				if k, _ := open(c, s, []byte(s), pw); k != nil {
					c.Fail("opens-nothing", "%q opens", s)
				}
			}
			if site, p := mc.Try(func() { wallet.ReadAddressFromKeyStore([]byte(s)) }); p != nil {
				c.Fail("crash:"+site, "%q: %v", s, p)
			}
		}
	})
	envelope(r)
	relay(r)
}

func envelope(r *mc.R) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			i, j := i, j
			r.Case(fmt.Sprintf("envelope %d %d", i, j), func(c *mc.C) {
				ks := keys(4)
				mk := func(k []byte) wallet.Wallet {
					sk, _ := crypto.ParsePrivateKey(k)
					w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
					return w
				}
				a, b, o := mk(ks[i]), mk(ks[(j+1)%4]), mk(crypto.SHA3Sum256([]byte("other")))
				seen := map[string]bool{}
				for n := 0; n <= 40; n++ {
					msg := bytes.Repeat([]byte{0x5a}, n)
					e, err := wallet.NewEncrypted(a, b.PublicKey(), msg)
					if err != nil {
						c.Fail("envelope", "%v", err)
					}
					js, _ := json.Marshal(e)
					var e2 wallet.Encrypted
					if err := json.Unmarshal(js, &e2); err != nil {
						c.Fail("envelope-json", "%v", err)
					}
					for _, x := range []*wallet.Encrypted{e, &e2} {
						before := append([]byte{}, x.CipherText...)
						d, err := x.Decrypt(b)
						if err != nil || !bytes.Equal(d, msg) {
							c.Fail("envelope-roundtrip", "message of %d bytes comes back as %x %v", n, d, err)
						}
						if !bytes.Equal(before, x.CipherText) {
							c.Fail("envelope-mutated", "decryption changes the cipher text")
						}
						if n >= 16 {
							if d, err := x.Decrypt(o); err == nil && bytes.Equal(d, msg) {
								c.Fail("envelope-other", "another wallet reads the message")
							}
							if bytes.Equal(x.CipherText, msg) {
								c.Fail("envelope-clear", "message in clear text")
							}
						}
						// reply on the same envelope
						y := &wallet.Encrypted{Param: append([]byte{}, x.Param...)}
						if err := y.Encrypt(b, msg); err != nil {
							c.Fail("envelope-encrypt", "%v", err)
						}
						if d, err := y.Decrypt(b); err != nil || !bytes.Equal(d, msg) {
							c.Fail("envelope-encrypt", "message of %d bytes encrypted into an envelope comes back as %x %v", n, d, err)
						}
						for cut := 0; cut < len(x.Param); cut++ {
							z := &wallet.Encrypted{Param: x.Param[:cut], CipherText: x.CipherText}
							var err error
							if site, p := mc.Try(func() { _, err = z.Decrypt(b) }); p != nil {
								c.Fail("envelope-crash:"+site, "param cut to %d: %v", cut, p)
							}
							if err == nil {
								c.Fail("envelope-cut", "param cut to %d is accepted", cut)
							}
						}
						c.R.Trans(4)
						c.R.Validated(4)
					}
					if n >= 16 {
						if seen[string(e.CipherText[:16])] {
							c.Fail("envelope-repeat", "two envelopes use the same key stream")
						}
						seen[string(e.CipherText[:16])] = true
					}
					c.R.Exec(1)
					c.R.State("env", i, j, n)
				}
			})
		}
	}
	r.Case("envelope evm", func(c *mc.C) {
		sk, _ := gcrypto.ToECDSA(keys(4)[3])
		w, _ := wallet.NewEvmWalletFromPrivateKey(sk)
		for n := 0; n < 70; n++ {
			e := &wallet.Encrypted{Param: make([]byte, n), CipherText: []byte{1}}
			if site, p := mc.Try(func() {
				if d, err := e.Decrypt(w); err == nil {
					c.Report("envelope-evm", "opens as %x with a key agreement the wallet does not have", d)
				}
			}); p != nil {
				c.Fail("envelope-crash:"+site, "%v", p)
			}
		}
	})
}

// relay explores the program's handling of passwords and secret files.
func relay(r *mc.R) {
	bin := os.Getenv("VERIF_RELAY")
	if bin == "" {
		r.Note("relay binary not built")
		return
	}
	type side struct{ secret, pass, store string }
	var sides []side
	for _, s := range []string{"", "ok", "other", "missing"} {
		for _, p := range []string{"", "pw", "wrong"} {
			for _, k := range []string{"", "pw", "empty"} {
				if s != "" && p == "wrong" && k != "pw" {
					continue
				}
				sides = append(sides, side{s, p, k})
			}
		}
	}
	key := keys(4)[3]
	salt, iv := bytes.Repeat([]byte{7}, 8), bytes.Repeat([]byte{9}, 16)
	one := side{"", "pw", "pw"}
	run := func(c *mc.C, src, dst side) {
		dir, _ := os.MkdirTemp(mc.Scratch(), "relay")
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "secret-ok"), []byte("pw"), 0600)
		os.WriteFile(filepath.Join(dir, "secret-other"), []byte("wrong"), 0600)
		os.WriteFile(filepath.Join(dir, "ks-pw"), js(ref.KeyStore("icx", key, []byte("pw"), salt, iv, 2, 1, 1)), 0600)
		os.WriteFile(filepath.Join(dir, "ks-empty"), js(ref.KeyStore("icx", key, nil, salt, iv, 2, 1, 1)), 0600)
		args := []string{"save", "--src.address", "btp://0x1.icon/cx01", "--dst.address", "btp://0x2.icon/cx02", "--src.endpoint", "http://x", "--dst.endpoint", "http://y"}
		expect := true
		eff := func(s side) (string, bool) {
			switch s.secret {
			case "ok":
				return "pw", true
			case "other":
				return "wrong", true
			case "missing":
				return "", false
			}
			return s.pass, true
		}
		for i, s := range []side{src, dst} {
			pre := []string{"--src.", "--dst."}[i]
			if s.secret != "" {
				args = append(args, pre+"key_secret", filepath.Join(dir, "secret-"+s.secret))
			}
			if s.pass != "" {
				args = append(args, pre+"key_password", s.pass)
			}
			if s.store != "" {
				args = append(args, pre+"key_store", filepath.Join(dir, "ks-"+s.store))
			}
			p, ok := eff(s)
			expect = expect && ok && (s.store == "" || s.store == "pw" && p == "pw" || s.store == "empty" && p == "")
		}
		conf := filepath.Join(dir, "conf.json")
		cmd := exec.Command(bin, append(args, conf)...)
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if (err == nil) != expect {
			c.Fail("relay-save", "relay %v: err %v, expected success=%v\n%s", args, err, expect, out)
		}
		data, rerr := os.ReadFile(conf)
		if err != nil {
			if rerr == nil {
				c.Fail("relay-save-file", "relay save failed but wrote %s", data)
			}
			return
		}
		var cf map[string]map[string]json.RawMessage
		var raw map[string]json.RawMessage
		json.Unmarshal(data, &raw)
		cf = map[string]map[string]json.RawMessage{}
		for i, s := range []side{src, dst} {
			nm := []string{"src", "dst"}[i]
			m := map[string]json.RawMessage{}
			if err := json.Unmarshal(raw[nm], &m); err != nil {
				c.Fail("relay-conf", "%v in %s", err, data)
			}
			cf[nm] = m
			p, _ := eff(s)
			k, a := open(c, "relay "+nm, m["key_store"], []byte(p))
			if k == nil {
				c.Fail("relay-keystore", "%s key store of the saved configuration does not open with its password %q", nm, p)
			}
			if s.store != "" && a != ref.IconAddress(key) {
				c.Fail("relay-keystore", "%s key store of the saved configuration is another key", nm)
			}
			if k2, _ := open(c, "relay "+nm, m["key_store"], []byte(p+"z")); k2 != nil {
				c.Fail("relay-keystore-any", "%s key store opens with another password", nm)
			}
			if v := m["key_password"]; len(v) > 0 {
				c.Fail("relay-password", "saved configuration contains the password %s", v)
			}
		}
		r.Exec(1)
		r.Validated(1)
		r.Trans(1)
		r.State(src, dst)
	}
	for _, s := range sides {
		s := s
		r.Case(fmt.Sprintf("relay src %+v", s), func(c *mc.C) { run(c, s, one) })
		r.Case(fmt.Sprintf("relay dst %+v", s), func(c *mc.C) { run(c, one, s) })
		if r.Thorough() {
			r.Case(fmt.Sprintf("relay both %+v", s), func(c *mc.C) {
				for _, o := range sides {
					run(c, s, o)
				}
			})
		}
	}
}
