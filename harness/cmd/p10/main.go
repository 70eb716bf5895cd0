// P10: serialisation and signing of ICON transactions.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/wallet"
	"golang.org/x/crypto/sha3"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P10", mc.Options{Exhaustive: true, QuickBudget: 500 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: all trees of strings, null, lists and dictionaries up to depth 3 over an alphabet containing every character the escaping treats specially, sizes as in the code; all transactions differing in one field over boundary values",
			"numbers and booleans do not occur in ICON transactions and are left out of injectivity",
			"oracle: independent serialiser written from the ICON JSON-RPC v3 specification; recovery by the independent curve arithmetic",
			"known finding: leading empty strings of a list leave no trace (as in the ICON node, which must compute the same bytes)",
		}}, body)
}

func esc(s string) string {
	return strings.NewReplacer("\\", "\\\\", ".", "\\.", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]").Replace(s)
}

// spec is the serialisation by the specification, with the node's treatment of lists.
func spec(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "\\0"
	case string:
		return esc(t)
	case []interface{}:
		var b strings.Builder
		for _, x := range t {
			if b.Len() > 0 {
				b.WriteByte('.')
			}
			b.WriteString(spec(x))
		}
		return "[" + b.String() + "]"
	case map[string]interface{}:
		return "{" + specDict(t, nil) + "}"
	}
	panic("type")
}

func specDict(t map[string]interface{}, ex map[string]bool) string {
	var ks []string
	for k := range t {
		if !ex[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = esc(k) + "." + spec(t[k])
	}
	return strings.Join(ks, ".")
}

func norm(v interface{}) interface{} { // drops leading empty strings of lists
	switch t := v.(type) {
	case []interface{}:
		o := []interface{}{}
		for _, x := range t {
			if s, ok := x.(string); ok && s == "" && len(o) == 0 {
				continue
			}
			o = append(o, norm(x))
		}
		return o
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, x := range t {
			o[k] = norm(x)
		}
		return o
	}
	return v
}

func cj(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

type dict = map[string]interface{}
type list = []interface{}

func words(alpha string, n int) []interface{} {
	out := []interface{}{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+string(a))
			}
		}
		for _, w := range next {
			out = append(out, w)
		}
		last = next
	}
	return out
}

// grow: all lists of <= nl and dictionaries of <= nd entries over vals / keys.
func grow(vals []interface{}, keys []interface{}, nl, nd int) []interface{} {
	var out []interface{}
	var rec func(cur list, n int)
	rec = func(cur list, n int) {
		out = append(out, append(list{}, cur...))
		if n == 0 {
			return
		}
		for _, v := range vals {
			rec(append(cur[:len(cur):len(cur)], v), n-1)
		}
	}
	rec(list{}, nl)
	var recd func(cur dict, from, n int)
	recd = func(cur dict, from, n int) {
		cp := dict{}
		for k, v := range cur {
			cp[k] = v
		}
		out = append(out, cp)
		if n == 0 {
			return
		}
		for i := from; i < len(keys); i++ {
			for _, v := range vals {
				cur[keys[i].(string)] = v
				recd(cur, i+1, n-1)
				delete(cur, keys[i].(string))
			}
		}
	}
	recd(dict{}, 0, nd)
	return out
}

func body(r *mc.R) {
	t := r.Thorough()
	pick := func(q, f int) int {
		if t {
			return f
		}
		return q
	}
	universe(r, "strings", func() []interface{} { return words("a.\\{}[]0\"\n", pick(4, 5)) })
	universe(r, "flat wide alphabet", func() []interface{} {
		v := append(words("a.\\{}[]0", pick(2, 2)), nil)
		return append(v, grow(v, words("a.\\{[]}0", 1), 2, pick(1, 2))...)
	})
	universe(r, "flat long", func() []interface{} {
		v := list{"", "a", ".", "\\", nil, "0"}
		return grow(v, list{"", "a", "b", ".", "\\0", "a.b"}, pick(5, 7), pick(3, 4))
	})
	universe(r, "nested 2", func() []interface{} {
		v := list{"", "a", "\\", "[", "]", "{", "}", ".", nil}
		k := list{"", "a", ".", "\\"}
		l1 := grow(v, k, 2, 1)
		return grow(append(append(list{}, v...), l1...), list{"", "a", "["}, pick(2, 2), pick(1, 2))
	})
	universe(r, "nested 3", func() []interface{} {
		v := list{"", "a", nil, "]"}
		k := list{"", "a"}
		l1 := grow(v, k, 1, 1)
		l2 := grow(append(append(list{}, v...), l1...), k, 2, 1)
		return grow(append(append(list{}, v...), l2...), list{"a", ""}, pick(2, 2), pick(1, 2))
	})
	filters(r)
	signing(r)
}

func universe(r *mc.R, name string, gen func() []interface{}) {
	const parts = 4
	for p := 0; p < parts; p++ {
		p := p
		r.Case(fmt.Sprintf("%s %d", name, p), func(c *mc.C) {
			seen := map[[2]uint64]interface{}{}
			all := gen()
			for i, v := range all {
				w := spec(v)
				// the part is chosen by the specified bytes, so that colliding values meet
				h := sha3.Sum256([]byte(w))
				if int(h[0])%parts != p {
					continue
				}
				if i%4096 == 0 && r.Expired(name) {
					return
				}
				got, err := client.SerializeMap(dict{"v": v}, nil, nil)
				if err != nil {
					c.Fail("error", "%s: %v", cj(v), err)
				}
				if string(got) != "v."+w {
					c.Fail("bytes", "%s serialises to %q, specified %q", cj(v), got, "v."+w)
				}
				k := [2]uint64{le(h[8:]), le(h[16:])}
				if o, ok := seen[k]; ok && !reflect.DeepEqual(o, v) {
					if reflect.DeepEqual(norm(o), norm(v)) {
						c.Report("list-leading-empty", "%s and %s serialise to the same bytes %q", cj(o), cj(v), w)
					} else {
						c.Fail("collision", "%s and %s serialise to the same bytes %q", cj(o), cj(v), w)
					}
				} else if !ok {
					seen[k] = v
				}
				if i%7 == 0 { // through JSON text
					if got, err := client.SerializeJSON([]byte(cj(dict{"v": v})), nil, nil); err != nil || string(got) != "v."+w {
						c.Fail("json", "%s serialises to %q %v, specified %q", cj(v), got, err, "v."+w)
					}
				}
				r.Trans(1)
				r.Exec(1)
				r.Validated(1)
				r.StateBytes(h[:8])
			}
		})
	}
}

func le(b []byte) (v uint64) {
	for i := 0; i < 8; i++ {
		v = v<<8 | uint64(b[i])
	}
	return
}

func filters(r *mc.R) {
	r.Case("filters", func(c *mc.C) {
		keys := []string{"a", "b", "signature", "z"}
		for m := 0; m < 16; m++ {
			d := dict{}
			for i, k := range keys {
				if m>>i&1 == 1 {
					d[k] = dict{"signature": k, "x": list{k, dict{"signature": "y"}}}
				}
			}
			for in := -1; in < 16; in++ {
				for ex := -1; ex < 16; ex++ {
					set := func(b int) map[string]bool {
						if b < 0 {
							return nil
						}
						s := map[string]bool{}
						for i, k := range keys {
							if b>>i&1 == 1 {
								s[k] = true
							}
						}
						return s
					}
					got, err := client.SerializeMap(d, set(in), set(ex))
					f := dict{}
					for k, v := range d {
						if (in < 0 || set(in)[k]) && !set(ex)[k] {
							f[k] = v
						}
					}
					if err != nil || string(got) != specDict(f, nil) {
						c.Fail("filter", "%s include %v exclude %v: %q %v", cj(d), set(in), set(ex), got, err)
					}
					r.Trans(1)
					r.Exec(1)
					r.Validated(1)
				}
			}
		}
		for _, v := range []interface{}{true, false, []string{"a"}, struct{}{}, int(1)} {
			for _, w := range []interface{}{v, list{v}, dict{"a": v}, list{"a", dict{"b": list{v}}}} {
				var err error
				if site, p := mc.Try(func() { _, err = client.SerializeMap(dict{"v": w}, nil, nil) }); p != nil {
					c.Fail("panic:"+site, "%v: %v", w, p)
				}
				if err == nil {
					c.Fail("unknown-type", "%T is accepted", v)
				}
				if err.Error() == "" {
					c.Fail("unknown-type", "no message")
				}
			}
		}
		for _, s := range []string{"", "null x", "[]", "1", "\"a\"", "{", "{\"a\":}", "{\"a\":true}"} {
			if _, err := client.SerializeJSON([]byte(s), nil, nil); err == nil {
				c.Fail("bad-json", "%q is accepted", s)
			}
		}
	})
}

type failing struct{ wallet.Wallet }

func (failing) Sign([]byte) ([]byte, error) { return nil, errors.New("no") }

func signing(r *mc.R) {
	kb := crypto.SHA3Sum256([]byte("p10"))
	sk, _ := crypto.ParsePrivateKey(kb)
	w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
	pk := sk.PublicKey().SerializeUncompressed()
	cl := client.NewClient("http://127.0.0.1:1", log.New())
	hi := []client.HexInt{"", "0x0", "0x1", "-0x1", "0xffffffffffffffffffff", "x.y"}
	ad := []client.Address{"", "hx0000000000000000000000000000000000000001", "cx00000000000000000000000000000000000000ff"}
	datas := []interface{}{nil, "0x", "a.b\\{}[]", dict{}, list{}, list{"x", ""}, dict{"": ""}, dict{"signature": "nested", "a": nil},
		&client.CallData{Method: "m"}, &client.CallData{Method: "m", Params: dict{"_prev": "btp://a/b", "_msg": "-_AB=="}}, client.CallData{Method: "m", Params: &client.BMCRelayMethodParams{Prev: "p.q", Messages: "x<>&\u2028"}},
		dict{"method": "m", "params": dict{"signature": "s", "l": list{list{}, dict{}, nil, "\u00e9\U0001F600"}}}, "\xff\xfe"}
	muts := []func(p *client.TransactionParam, v int) bool{
		func(p *client.TransactionParam, v int) bool { p.Version = hi[v%6]; return v < 6 },
		func(p *client.TransactionParam, v int) bool { p.FromAddress = ad[v%3]; return v < 3 },
		func(p *client.TransactionParam, v int) bool { p.ToAddress = ad[v%3]; return v < 3 },
		func(p *client.TransactionParam, v int) bool { p.Value = hi[v%6]; return v < 6 },
		func(p *client.TransactionParam, v int) bool { p.StepLimit = hi[v%6]; return v < 6 },
		func(p *client.TransactionParam, v int) bool { p.NetworkID = hi[v%6]; return v < 6 },
		func(p *client.TransactionParam, v int) bool { p.Nonce = hi[v%6]; return v < 6 },
		func(p *client.TransactionParam, v int) bool {
			p.DataType = []string{"", "call", "message", "de.ploy"}[v%4]
			return v < 4
		},
		func(p *client.TransactionParam, v int) bool { p.Data = datas[v%len(datas)]; return v < len(datas) },
		func(p *client.TransactionParam, v int) bool {
			p.Timestamp = hi[v%6]
			return v < 6
		},
		func(p *client.TransactionParam, v int) bool {
			p.Signature = []string{"", "old"}[v%2]
			p.TxHash = []client.HexBytes{"", "0x12"}[v%2]
			return v < 2
		},
	}
	base := func() *client.TransactionParam {
		return &client.TransactionParam{Version: "0x3", FromAddress: client.Address(w.Address()), ToAddress: ad[2], Value: "0x5", StepLimit: "0x64", NetworkID: "0x53", Nonce: "0x9", DataType: "call", Data: &client.CallData{Method: "m", Params: dict{"a": "b"}}}
	}
	fields := func(p *client.TransactionParam) dict {
		b, err := json.Marshal(p)
		if err != nil {
			panic(err)
		}
		var m dict
		json.Unmarshal(b, &m)
		return m
	}
	for i := range muts {
		for j := i; j < len(muts); j++ {
			i, j := i, j
			r.Case(fmt.Sprintf("sign %d %d", i, j), func(c *mc.C) {
				hashes := map[string]string{}
				for a := 0; ; a++ {
					if !muts[i](base(), a) {
						break
					}
					for b := 0; ; b++ {
						p := base()
						muts[i](p, a)
						if !muts[j](p, b) {
							break
						}
						before := fields(p)
						dataBefore := p.Data
						t0 := time.Now().UnixNano() / 1000
						err := cl.SignTransaction(w, p)
						t1 := time.Now().UnixNano() / 1000
						if err != nil {
							c.Fail("sign", "%v: %v", before, err)
						}
						after := fields(p)
						ts, terr := p.Timestamp.BigInt()
						if terr != nil || ts.Int64() < t0 || ts.Int64() > t1 {
							c.Fail("timestamp", "timestamp %s outside [%d,%d]", p.Timestamp, t0, t1)
						}
						serial := "icx_sendTransaction." + specDict(after, map[string]bool{"signature": true})
						h := sha3.Sum256([]byte(serial))
						if string(p.TxHash) != fmt.Sprintf("0x%x", h) {
							c.Fail("hash", "hash of %s is %s, expected %x", serial, p.TxHash, h)
						}
						sig, err := base64.StdEncoding.DecodeString(p.Signature)
						if err != nil || len(sig) != 65 {
							c.Fail("signature-form", "%s", p.Signature)
						}
						if q, err := ref.Recover(h[:], sig); err != nil || !bytes.Equal(q.Uncompressed(), pk) {
							c.Fail("signature", "signature over %s is not by the wallet's key", serial)
						}
						for _, k := range []string{"timestamp", "signature"} {
							delete(before, k)
							delete(after, k)
						}
						if !reflect.DeepEqual(before, after) || !reflect.DeepEqual(dataBefore, p.Data) {
							c.Fail("changed", "signing changed %v into %v", before, after)
						}
						// binding: different fields, different bytes
						k := specDict(after, nil)
						if o, ok := hashes[k]; ok && o != cj(after) {
							c.Fail("binding", "%s and %s are signed alike", o, cj(after))
						}
						hashes[k] = cj(after)
						r.Trans(1)
						r.Exec(1)
						r.Validated(2)
						r.State(k)
						if err := cl.SignTransaction(failing{w}, p); err == nil {
							c.Fail("sign-error", "a wallet that cannot sign gives no error")
						}
					}
				}
			})
		}
	}
	r.Case("sign unserialisable", func(c *mc.C) {
		for _, d := range []interface{}{true, dict{"a": true}, make(chan int), list{false}} {
			p := base()
			p.Data = d
			if cl.SignTransaction(w, p) == nil {
				c.Fail("sign-unserialisable", "%v is signed", d)
			}
		}
	})
}
