// P22: addresses.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/types"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P22", mc.Options{Exhaustive: true, QuickBudget: 300 * time.Second, FullBudget: 1800 * time.Second,
		Assumptions: []string{
			"bounds: all byte forms of length 0..25 over boundary first bytes and fills; all texts prefix x digits with every prefix of {hx,cx,0x,none,xx,HX} and every digit count 0..46 over fills incl. upper case and one bad digit at every position; every prior content of the target; all cross-chain addresses assembled from the component alphabets (protocol, network id, chain, contract, extra path)",
			"a text with fewer than 40 digits denotes the zero-extended identifier (the repository's own convention)",
		}}, body)
}

func fresh() []*common.Address {
	a := new(common.Address)
	b := new(common.Address)
	for i := range b {
		b[i] = 0xee
	}
	b[0] = 1
	return []*common.Address{a, b}
}

func verify(c *mc.C, what string, a *common.Address, contract bool, id []byte) {
	pre := "hx"
	if contract {
		pre = "cx"
	}
	txt := pre + hex.EncodeToString(id)
	bad := func(key string, got interface{}) {
		c.Report(key, "%s: %v, expected address %s", what, got, txt)
	}
	if a.String() != txt {
		bad("String", a.String())
	}
	if a.IsContract() != contract {
		bad("IsContract", a.IsContract())
	}
	if !bytes.Equal(a.ID(), id) {
		bad("ID", fmt.Sprintf("%x", a.ID()))
	}
	raw := append([]byte{0}, id...)
	if contract {
		raw[0] = 1
	}
	if !bytes.Equal(a.Bytes(), raw) {
		bad("Bytes", fmt.Sprintf("%x", a.Bytes()))
	}
	if js, err := json.Marshal(a); err != nil || string(js) != "\""+txt+"\"" {
		bad("JSON", string(js))
	}
	if js, err := json.Marshal(*a); err != nil || string(js) != "\""+txt+"\"" {
		bad("JSON", string(js))
	}
	e, err := codec.RLP.MarshalToBytes(a)
	if err != nil || !bytes.Equal(e, ref.S(raw).Enc()) {
		bad("RLP", fmt.Sprintf("%x %v", e, err))
	}
	for _, f := range fresh() {
		if _, err := codec.RLP.UnmarshalFromBytes(e, f); err != nil || !f.Equal(a) {
			bad("RLP-decode", fmt.Sprint(f, err))
		}
	}
	for _, f := range fresh() {
		if err := json.Unmarshal([]byte("\""+txt+"\""), f); err != nil || !f.Equal(a) {
			bad("JSON-decode", fmt.Sprint(f, err))
		}
	}
	for _, f := range fresh() {
		if err := f.SetBytes(raw); err != nil || !f.Equal(a) || !a.Equal(f) {
			bad("SetBytes", fmt.Sprint(f, err))
		}
	}
	ca := client.NewAddress(raw)
	if string(ca) != txt {
		bad("client.NewAddress", ca)
	}
	if v, err := client.Address(txt).Value(); err != nil || !bytes.Equal(v, raw) {
		bad("client.Address.Value", fmt.Sprintf("%x %v", v, err))
	}
	if b := common.NewAddress(raw); !b.Equal(a) {
		bad("NewAddress", b)
	}
	var other *common.Address
	if contract {
		other = common.NewAccountAddress(id)
		if !common.NewContractAddress(id).Equal(a) {
			bad("NewContractAddress", "")
		}
	} else {
		other = common.NewContractAddress(id)
		if !common.NewAccountAddress(id).Equal(a) {
			bad("NewAccountAddress", "")
		}
	}
	if other.Equal(a) || a.Equal(other) || a.Equal(nil) || (*common.Address)(nil).Equal(a) {
		bad("Equal", "differs in kind only")
	}
	for i := 0; i < 20; i++ {
		m := append([]byte{}, raw...)
		m[1+i] ^= 0x10
		if common.NewAddress(m).Equal(a) {
			bad("Equal", "differs in identifier")
		}
	}
	if !common.NewAddressFromString(txt).Equal(a) {
		bad("NewAddressFromString", "")
	}
	c.R.Validated(1)
	c.R.Exec(1)
	c.R.Trans(20)
	c.R.State(txt)
}

func body(r *mc.R) {
	if !(*common.Address)(nil).Equal(nil) {
		r.Fail(mc.Violation{Key: "Equal", Msg: "nil addresses differ"})
	}
	for n := 0; n <= 25; n++ {
		n := n
		r.Case(fmt.Sprintf("bytes %d", n), func(c *mc.C) {
			for _, f := range []byte{0, 1, 2, 0x80, 0xff} {
				for _, fill := range []byte{0, 1, 0x7f, 0x80, 0xff} {
					b := bytes.Repeat([]byte{fill}, n)
					if n > 0 {
						b[0] = f
					}
					if n > 1 {
						b[1] = 0x12
						b[n-1] = 0x34
					}
					for _, a := range fresh() {
						err := a.SetBytes(b)
						want := n == 21 && f <= 1
						if (err == nil) != want {
							c.Report("SetBytes-accepts", "%d bytes starting %x: err %v", n, f, err)
						} else if want {
							verify(c, "SetBytes", a, f == 1, b[1:])
						}
					}
					if n == 21 && f <= 1 {
						continue
					}
					if v := client.NewAddress(b); v != "" {
						c.Report("client.NewAddress-accepts", "%x gives %s", b, v)
					}
					for _, a := range fresh() {
						if _, err := codec.RLP.UnmarshalFromBytes(ref.S(b).Enc(), a); err == nil {
							c.Report("RLP-accepts", "%x gives %s", b, a)
						}
					}
				}
			}
			// typed setter
			for _, ic := range []bool{false, true} {
				id := bytes.Repeat([]byte{0x5a}, n)
				for _, a := range fresh() {
					err := a.SetTypeAndID(ic, id)
					if n > 20 {
						if err == nil {
							c.Report("SetTypeAndID-accepts", "identifier of %d bytes accepted", n)
						}
						continue
					}
					if err != nil {
						c.Report("SetTypeAndID-refuses", "identifier of %d bytes: %v", n, err)
						continue
					}
					verify(c, "SetTypeAndID", a, ic, append(make([]byte, 20-n), id...))
				}
			}
		})
	}
	for n := 0; n <= 46; n++ {
		n := n
		r.Case(fmt.Sprintf("text %d", n), func(c *mc.C) {
			for _, pre := range []string{"hx", "cx", "0x", "", "xx", "HX", "h", "CX"} {
				for _, fill := range []string{"0", "1", "a", "F", "9"} {
					d := strings.Repeat(fill, n)
					if n > 2 {
						d = "b" + d[1:n-1] + "3"
					}
					check := func(digits string, good bool) {
						s := pre + digits
						pre, digits := "", s
						if len(s) >= 2 && (s[:2] == "hx" || s[:2] == "cx" || s[:2] == "0x") {
							pre, digits = s[:2], s[2:]
						}
						n := len(digits)
						good = strings.Trim(digits, "0123456789abcdefABCDEF") == ""
						want := good && n <= 40
						// an empty identifier is the zero address by zero extension
						for _, a := range fresh() {
							err := a.SetString(s)
							if (err == nil) != want {
								c.Report("SetString", "%q: err %v", s, err)
							} else if want {
								h := digits
								if len(h)%2 == 1 {
									h = "0" + h
								}
								id, _ := hex.DecodeString(h)
								verify(c, fmt.Sprintf("SetString %q", s), a, pre == "cx", append(make([]byte, 20-len(id)), id...))
							}
						}
						v, err := client.Address(s).Value()
						cw := good && (pre == "hx" || pre == "cx") && n == 40
						if (err == nil) != cw {
							c.Report("client.Address", "%q gives %x err %v", s, v, err)
						}
						r.Trans(3)
					}
					check(d, true)
					for i := 0; i < n; i++ {
						for _, x := range []string{"g", "x", " ", "-"} {
							check(d[:i]+x+d[i+1:], false)
						}
					}
				}
			}
		})
	}
	r.Case("json shapes", func(c *mc.C) {
		for _, s := range []string{"1", "null", "{}", "[]", "true", "\"hx\\u0030\"", "\"", ""} {
			for _, a := range fresh() {
				var err error
				if site, p := mc.Try(func() { err = a.UnmarshalJSON([]byte(s)) }); p != nil {
					c.Report("json-panic:"+site, "%s: %v", s, p)
				}
				if (s == "1" || s == "{}" || s == "[]" || s == "true" || s == "" || s == "\"") && err == nil {
					c.Report("json-accepts", "%s gives %s", s, a)
				}
			}
		}
	})
	btp(r)
}

func btp(r *mc.R) {
	protos := []string{"", "btp", "b", "http", "BTP"}
	nids := []string{"", "0x1", "0x3.x", "1"}
	chains := []string{"", "icon", "iconee", "bsc", "ICON"}
	accs := []string{"", "cx01", "a.b", "0xAbc:1", "?q"}
	exts := []string{"", "/", "/x", "//"}
	for _, p := range protos {
		for _, n := range nids {
			p, n := p, n
			r.Case(fmt.Sprintf("btp %s %s", p, n), func(c *mc.C) {
				for _, ch := range chains {
					for _, ac := range accs {
						for _, ex := range exts {
							for sep := 0; sep < 3; sep++ {
								net := ch
								if sep == 1 {
									net = n + "." + ch
								}
								if n != "" && sep == 0 {
									continue
								}
								if sep == 2 {
									net = n + ch
								}
								s := p + "://" + net
								hasAcc := ac != "" || ex != ""
								if hasAcc {
									s += "/" + ac + ex
								}
								a := types.BtpAddress(s)
								wp := p
								var wn, wi, wc, wa string
								if p != "" {
									wn = net
									if net != "" {
										parts := strings.Split(net, ".")
										if len(parts) > 1 {
											wi, wc = parts[0], parts[1]
										} else {
											wc = parts[0]
										}
									}
									if hasAcc {
										wa = ac
									}
								}
								if a.Protocol() != wp || a.NetworkAddress() != wn || a.NetworkID() != wi || a.BlockChain() != wc || a.Account() != wa || a.ContractAddress() != wa || a.String() != s {
									c.Report("btp-address", "%q: protocol %q net %q id %q chain %q account %q/%q, expected %q %q %q %q %q", s, a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account(), a.ContractAddress(), wp, wn, wi, wc, wa)
								}
								err := types.ValidateBtpAddress(a)
								want := wp == "btp" && (wc == "icon" || wc == "iconee") && wa != ""
								if (err == nil) != want {
									c.Report("btp-validate", "%q: err %v", s, err)
								}
								var b types.BtpAddress
								if b.Set(s); b != a {
									c.Report("btp-set", "%q", s)
								}
								r.Validated(1)
								r.Exec(1)
								r.Trans(8)
								r.State(s)
							}
						}
					}
				}
			})
		}
	}
	r.Case("btp malformed", func(c *mc.C) {
		for _, s := range []string{"", ":", "/", "//", "://", "btp", "btp:", "btp:/", "btp:/x/y", "btp//x/y", "icon/cx", "0x1.icon/cx"} {
			a := types.BtpAddress(s)
			if a.Protocol() != "" || a.NetworkAddress() != "" || a.BlockChain() != "" || a.NetworkID() != "" || a.Account() != "" || a.ContractAddress() != "" {
				c.Report("btp-malformed", "%q: %q %q %q %q %q", s, a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account())
			}
			if types.ValidateBtpAddress(a) == nil {
				c.Report("btp-validate", "%q is accepted", s)
			}
		}
	})
}
