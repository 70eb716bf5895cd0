// P19: integer and hex conversions.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/intconv"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P19", mc.Options{Exhaustive: true, QuickBudget: 300 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: all integers within 2^17 (quick) / 2^21 (thorough) of zero and within 3 of every +-2^k, k<=72; all byte strings up to length 2 (quick) / 3 (thorough) and boundary strings up to 9 bytes; all texts up to length 5 (quick) / 6 (thorough) over {0,1,7,8,9,a,f,F,x,-,_,+} and boundary texts of every width",
			"texts without a digit (\"\", \"-\"), with underscores, leading zeros (octal or hexadecimal fallback), 0b/0o prefixes or a plus sign are not judged: the repository does not define them",
		}}, body)
}

func hexText(v *big.Int) string {
	if v.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(v).Text(16)
	}
	return "0x" + v.Text(16)
}

func in(v *big.Int, bits uint, signed bool) bool {
	if !signed {
		return v.Sign() >= 0 && v.BitLen() <= int(bits)
	}
	lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return v.Cmp(lim) < 0 && new(big.Int).Neg(lim).Cmp(v) <= 0
}

func one(c *mc.C, v *big.Int) {
	r := c.R
	want := ref.TwosComp(v)
	bad := func(key, f string, a ...interface{}) { c.Report(key, "%s: %s", v, fmt.Sprintf(f, a...)) }
	b := intconv.BigIntToBytes(new(big.Int).Set(v))
	if !bytes.Equal(b, want) {
		bad("BigIntToBytes", "%x, minimal two's complement is %x", b, want)
	}
	for _, init := range []int64{0, -1, 1 << 40} {
		x := big.NewInt(init)
		if y := intconv.BigIntSetBytes(x, want); y.Cmp(v) != 0 || x.Cmp(v) != 0 {
			bad("BigIntSetBytes", "%x gives %s", want, y)
		}
	}
	txt := intconv.FormatBigInt(v)
	if txt != hexText(v) {
		bad("FormatBigInt", "%s, expected %s", txt, hexText(v))
	}
	x := big.NewInt(77)
	if err := intconv.ParseBigInt(x, hexText(v)); err != nil || x.Cmp(v) != 0 {
		bad("ParseBigInt", "%s gives %s err %v", hexText(v), x, err)
	}
	up := strings.Replace(strings.ToUpper(hexText(v)), "X", "x", 1)
	if err := intconv.ParseBigInt(x, up); err != nil || x.Cmp(v) != 0 {
		bad("ParseBigInt", "%s gives %s err %v", up, x, err)
	}
	if v.IsInt64() {
		i := v.Int64()
		if b := intconv.Int64ToBytes(i); !bytes.Equal(b, want) {
			bad("Int64ToBytes", "%x, expected %x", b, want)
		}
		if g := intconv.BytesToInt64(want); g != i {
			bad("BytesToInt64", "%x gives %d", want, g)
		}
		if t := intconv.FormatInt(i); t != hexText(v) {
			bad("FormatInt", "%s, expected %s", t, hexText(v))
		}
		h := client.NewHexInt(i)
		if string(h) != hexText(v) {
			bad("client.NewHexInt", "%s", h)
		}
		if common.NewHexInt(i).Int.Cmp(v) != 0 {
			bad("NewHexInt", "wrong value")
		}
	}
	if v.IsUint64() {
		u := v.Uint64()
		if b := intconv.Uint64ToBytes(u); !bytes.Equal(b, want) {
			bad("Uint64ToBytes", "%x, expected %x", b, want)
		}
		if g := intconv.BytesToUint64(want); g != u {
			bad("BytesToUint64", "%x gives %d", want, g)
		}
		ws := v.Bytes()
		if len(ws) == 0 {
			ws = []byte{0}
		}
		if b := intconv.SizeToBytes(u); !bytes.Equal(b, ws) {
			bad("SizeToBytes", "%x, expected %x", b, ws)
		}
		if g := intconv.BytesToSize(ws); g != u {
			bad("BytesToSize", "%x gives %d", ws, g)
		}
		if t := intconv.FormatUint(u); t != hexText(v) {
			bad("FormatUint", "%s, expected %s", t, hexText(v))
		}
	}
	for _, t := range []string{hexText(v), up, v.String()} {
		parse(c, t, v)
	}
	// JSON of the hex types
	js := fmt.Sprintf("%q", hexText(v))
	var hi common.HexInt
	hi.Set(v)
	if o, err := json.Marshal(hi); err != nil || string(o) != js {
		bad("HexInt.MarshalJSON", "%s err %v", o, err)
	}
	if o, err := json.Marshal(&hi); err != nil || string(o) != js {
		bad("HexInt.MarshalJSON", "%s err %v", o, err)
	}
	if hi.String() != hexText(v) || !bytes.Equal(hi.Bytes(), want) {
		bad("HexInt", "String %s Bytes %x", hi.String(), hi.Bytes())
	}
	if b, err := hi.MarshalBinary(); err != nil || !bytes.Equal(b, want) {
		bad("HexInt.MarshalBinary", "%x err %v", b, err)
	}
	h3 := common.HexInt{}
	h3.SetInt64(-5)
	if err := h3.UnmarshalBinary(want); err != nil || h3.Cmp(v) != 0 {
		bad("HexInt.UnmarshalBinary", "%x gives %s err %v", want, h3.Int.String(), err)
	}
	cl := hi.Clone()
	if cl.Cmp(v) != 0 {
		bad("HexInt.Clone", "the clone is %s", cl.Int.String())
	}
	cl.Add(&cl.Int, big.NewInt(1))
	if hi.Cmp(v) != 0 {
		bad("HexInt.Clone", "changing the clone changes the original")
	}
	for _, src := range []string{js, v.String()} {
		h2 := common.HexInt{}
		h2.SetInt64(-5)
		if err := json.Unmarshal([]byte(src), &h2); err != nil || h2.Cmp(v) != 0 {
			bad("HexInt.UnmarshalJSON", "%s gives %s err %v", src, h2.Int.String(), err)
		}
		for _, w := range []struct {
			bits   uint
			signed bool
		}{{16, true}, {16, false}, {32, true}, {32, false}, {64, true}, {64, false}} {
			var got *big.Int
			var str string
			var err error
			var out []byte
			var h, h9 interface{} // the value, and another to decode its encoding into
			switch {
			case w.bits == 16 && w.signed:
				x := common.HexInt16{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexInt16{Value: 9}
				got, str = big.NewInt(int64(x.Value)), x.String()
				out, _ = json.Marshal(x)
				if err == nil && !bytes.Equal(x.Bytes(), want) {
					bad("HexInt16.Bytes", "%x", x.Bytes())
				}
			case w.bits == 16:
				x := common.HexUint16{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexUint16{Value: 9}
				got, str = big.NewInt(int64(x.Value)), x.String()
				out, _ = json.Marshal(x)
				if err == nil && !bytes.Equal(x.Bytes(), want) {
					bad("HexUint16.Bytes", "%x", x.Bytes())
				}
			case w.bits == 32 && w.signed:
				x := common.HexInt32{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexInt32{Value: 9}
				got, str = big.NewInt(int64(x.Value)), x.String()
				out, _ = json.Marshal(x)
			case w.bits == 32:
				x := common.HexUint32{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexUint32{Value: 9}
				got, str = big.NewInt(int64(x.Value)), x.String()
				out, _ = json.Marshal(x)
			case w.signed:
				x := common.HexInt64{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexInt64{Value: 9}
				got, str = big.NewInt(x.Value), x.String()
				out, _ = json.Marshal(x)
			default:
				x := common.HexUint64{Value: 7}
				err = json.Unmarshal([]byte(src), &x)
				h, h9 = &x, &common.HexUint64{Value: 9}
				got, str = new(big.Int).SetUint64(x.Value), x.String()
				out, _ = json.Marshal(x)
			}
			name := fmt.Sprintf("Hex%d signed=%v", w.bits, w.signed)
			if in(v, w.bits, w.signed) {
				if err != nil || got.Cmp(v) != 0 || str != hexText(v) || string(out) != js {
					bad(name, "from JSON %s: value %s text %s json %s err %v", src, got, str, out, err)
				}
				enc, err := codec.RLP.MarshalToBytes(h)
				if err == nil {
					_, err = codec.RLP.UnmarshalFromBytes(enc, h9)
				}
				if err != nil || !reflect.DeepEqual(h, h9) {
					bad(name, "%s as %x decodes to %v err %v", v, enc, h9, err)
				}
			} else if err == nil {
				bad(name+" wraps", "JSON %s does not fit but gives %s", src, got)
			}
			r.Trans(1)
		}
	}
	r.Exec(1)
	r.Validated(1)
	r.State(v.String())
	r.Trans(20)
}

// parse checks the fixed width parsers on a text denoting v.
func parse(c *mc.C, t string, v *big.Int) {
	for _, bits := range []int{8, 16, 32, 64} {
		g, err := intconv.ParseInt(t, bits)
		if in(v, uint(bits), true) {
			if err != nil || big.NewInt(g).Cmp(v) != 0 {
				c.Report(fmt.Sprintf("ParseInt%d", bits), "%q (%s) gives %d err %v", t, v, g, err)
			}
		} else if err == nil {
			c.Report(fmt.Sprintf("ParseInt%d wraps", bits), "%q (%s) does not fit but gives %d", t, v, g)
		}
		u, err := intconv.ParseUint(t, bits)
		if in(v, uint(bits), false) {
			if v.Sign() == 0 && strings.HasPrefix(t, "-") {
				continue
			}
			if err != nil || new(big.Int).SetUint64(u).Cmp(v) != 0 {
				c.Report(fmt.Sprintf("ParseUint%d", bits), "%q (%s) gives %d err %v", t, v, u, err)
			}
		} else if err == nil {
			c.Report(fmt.Sprintf("ParseUint%d wraps", bits), "%q (%s) does not fit but gives %d", t, v, u)
		}
		c.R.Trans(2)
	}
	g, err := client.HexInt(t).Value()
	if in(v, 64, true) != (err == nil) || err == nil && big.NewInt(g).Cmp(v) != 0 {
		c.Report("client.HexInt.Value", "%q (%s) gives %d err %v", t, v, g, err)
	}
	n, err := client.HexInt(t).Int()
	if in(v, 32, true) != (err == nil) || err == nil && big.NewInt(int64(n)).Cmp(v) != 0 {
		c.Report("client.HexInt.Int", "%q (%s) gives %d err %v", t, v, n, err)
	}
	if strings.Contains(t, "0x") {
		b, err := client.HexInt(t).BigInt()
		if err != nil || b.Cmp(v) != 0 {
			c.Report("client.HexInt.BigInt", "%q (%s) gives %s err %v", t, v, b, err)
		}
	}
}

var reHex = regexp.MustCompile(`^-?0x[0-9a-fA-F]+$`)
var reDec = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var reBare = regexp.MustCompile(`^-?[1-9a-fA-F][0-9a-fA-F]*$`) // hexadecimal without prefix
var reJunk = regexp.MustCompile(`^-?[0-9a-fA-FxX]+$`)

func body(r *mc.R) {
	lim := 1 << 17
	if r.Thorough() {
		lim = 1 << 21
	}
	const block = 1 << 12
	for s := -lim; s < lim; s += block {
		s := s
		r.Case(fmt.Sprintf("ints %d", s), func(c *mc.C) {
			for v := s; v < s+block; v++ {
				one(c, big.NewInt(int64(v)))
			}
		})
	}
	for k := uint(0); k <= 72; k++ {
		k := k
		r.Case(fmt.Sprintf("pow %d", k), func(c *mc.C) {
			for d := int64(-3); d <= 3; d++ {
				v := new(big.Int).Lsh(big.NewInt(1), k)
				v.Add(v, big.NewInt(d))
				one(c, v)
				one(c, new(big.Int).Neg(v))
				// mixtures of two powers
				for j := uint(0); j < k; j += 7 {
					w := new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), j))
					one(c, w)
					one(c, new(big.Int).Neg(w))
				}
			}
		})
	}
	// byte strings
	for a := 0; a < 256; a++ {
		a := a
		r.Case(fmt.Sprintf("bytes %02x", a), func(c *mc.C) {
			var do func(b []byte, left int)
			do = func(b []byte, left int) {
				v := ref.FromTwosComp(b)
				x := big.NewInt(3)
				if intconv.BigIntSetBytes(x, b); x.Cmp(v) != 0 {
					c.Report("BigIntSetBytes", "%x gives %s, denotes %s", b, x, v)
				}
				if g := intconv.BytesToInt64(b); g != v.Int64() {
					c.Report("BytesToInt64", "%x gives %d, denotes %s", b, g, v)
				}
				if v.Sign() >= 0 {
					if g := intconv.BytesToUint64(b); g != v.Uint64() {
						c.Report("BytesToUint64", "%x gives %d, denotes %s", b, g, v)
					}
				}
				if g := intconv.BytesToSize(b); g != new(big.Int).SetBytes(b).Uint64() {
					c.Report("BytesToSize", "%x gives %d", b, g)
				}
				hb(c, b)
				r.Trans(6)
				r.Validated(1)
				if left > 0 {
					for x := 0; x < 256; x++ {
						do(append(b[:len(b):len(b)], byte(x)), left-1)
					}
				}
			}
			n := 1
			if r.Thorough() {
				n = 2
			}
			do([]byte{byte(a)}, n)
		})
	}
	r.Case("bytes 0", func(c *mc.C) {
		hb(c, []byte{})
		hb(c, nil)
		if intconv.BytesToInt64(nil) != 0 || intconv.BytesToUint64(nil) != 0 || intconv.BytesToSize(nil) != 0 {
			c.Report("empty", "empty bytes are not zero")
		}
		if b := intconv.BigIntToBytes(nil); !bytes.Equal(b, []byte{0}) {
			c.Report("nil", "nil integer gives %x", b)
		}
		for n := 3; n <= 8; n++ {
			for _, f := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				for _, l := range []byte{0, 1, 0x7f, 0x80, 0xff} {
					b := bytes.Repeat([]byte{l}, n)
					b[0] = f
					if g, v := intconv.BytesToInt64(b), ref.FromTwosComp(b); g != v.Int64() {
						c.Report("BytesToInt64", "%x gives %d, denotes %s", b, g, v)
					}
				}
			}
		}
	})
	// texts
	al := "01789afFx-_+"
	max := 5
	if r.Thorough() {
		max = 6
	}
	for _, a := range al {
		for _, b := range al {
			p := string(a) + string(b)
			r.Case("text "+p, func(c *mc.C) {
				text(c, string(a))
				var gen func(s string)
				gen = func(s string) {
					text(c, s)
					if len(s) == max || r.Expired("texts") {
						return
					}
					for _, x := range al {
						gen(s + string(x))
					}
				}
				gen(p)
			})
		}
	}
	r.Case("text others", func(c *mc.C) {
		for b := 0; b < 256; b++ {
			for _, f := range []string{"%s", "0x%s", "1%s", "0x1%s", "-%s", "%s1", "0x%s1", "0x1%s1", " %s", "%s "} {
				text(c, fmt.Sprintf(f, string([]byte{byte(b)})))
			}
		}
	})
}

func text(c *mc.C, t string) {
	r := c.R
	r.Exec(1)
	r.Trans(8)
	var v *big.Int
	switch {
	case reHex.MatchString(t):
		s := strings.Replace(t, "0x", "", 1)
		v, _ = new(big.Int).SetString(s, 16)
	case reDec.MatchString(t):
		v, _ = new(big.Int).SetString(t, 10)
	}
	if v != nil {
		parse(c, t, v)
		if reHex.MatchString(t) {
			x := big.NewInt(9)
			if err := intconv.ParseBigInt(x, t); err != nil || x.Cmp(v) != 0 {
				c.Report("ParseBigInt", "%q (%s) gives %s err %v", t, v, x, err)
			}
			h := common.HexInt{}
			if err := json.Unmarshal([]byte(fmt.Sprintf("%q", t)), &h); err != nil || h.Cmp(v) != 0 {
				c.Report("HexInt.UnmarshalJSON", "%q (%s) gives %s err %v", t, v, h.Int.String(), err)
			}
		}
		r.Validated(1)
		return
	}
	if reBare.MatchString(t) {
		// hexadecimal digits without prefix: only wrapping is judged
		b, _ := new(big.Int).SetString(t, 16)
		for _, bits := range []int{8, 16, 32, 64} {
			if g, err := intconv.ParseInt(t, bits); err == nil && big.NewInt(g).Cmp(b) != 0 {
				c.Report("ParseInt bare", "%q gives %d", t, g)
			}
		}
		return
	}
	// texts with characters that no notation has are refused by all
	if strings.ContainsAny(t, "+_") {
		return
	}
	junk := false
	body := strings.TrimPrefix(t, "-")
	for _, ch := range body {
		if !strings.ContainsRune("0123456789abcdefABCDEFxX_+oO", ch) {
			junk = true
		}
	}
	if i := strings.IndexAny(body, "xX"); i >= 0 && i != 1 || strings.Count(body, "x") > 1 || strings.HasPrefix(body, "-") || body == "0x" {
		junk = true
	}
	if !junk {
		return
	}
	r.Validated(1)
	if g, err := intconv.ParseInt(t, 64); err == nil {
		c.Report("ParseInt accepts", "%q gives %d", t, g)
	}
	if g, err := intconv.ParseUint(t, 64); err == nil {
		c.Report("ParseUint accepts", "%q gives %d", t, g)
	}
	x := new(big.Int)
	if err := intconv.ParseBigInt(x, t); err == nil {
		c.Report("ParseBigInt accepts", "%q gives %s", t, x)
	}
	if g, err := client.HexInt(t).Value(); err == nil {
		c.Report("client.HexInt accepts", "%q gives %d", t, g)
	}
}

func hb(c *mc.C, b []byte) {
	h := common.HexBytes(b)
	rh := common.RawHexBytes(b)
	js, err := json.Marshal(h)
	want := "null"
	raw := "null"
	if b != nil {
		want = "\"0x" + hex.EncodeToString(b) + "\""
		raw = "\"" + hex.EncodeToString(b) + "\""
	}
	if err != nil || string(js) != want {
		c.Report("HexBytes", "%x marshals to %s err %v", b, js, err)
	}
	back := common.HexBytes{1, 2}
	if err := json.Unmarshal([]byte(want), &back); err != nil || !bytes.Equal(back, b) || (back == nil) != (b == nil) {
		c.Report("HexBytes", "%s unmarshals to %x err %v", want, []byte(back), err)
	}
	js, err = json.Marshal(rh)
	if err != nil || string(js) != raw {
		c.Report("RawHexBytes", "%x marshals to %s err %v", b, js, err)
	}
	rb := common.RawHexBytes{1, 2}
	if err := json.Unmarshal([]byte(raw), &rb); err != nil || !bytes.Equal(rb, b) || (rb == nil) != (b == nil) {
		c.Report("RawHexBytes", "%s unmarshals to %x err %v", raw, []byte(rb), err)
	}
	if b != nil {
		if h.String() != "0x"+hex.EncodeToString(b) || rh.String() != hex.EncodeToString(b) || !bytes.Equal(h.Bytes(), b) || !bytes.Equal(rh.Bytes(), b) {
			c.Report("HexBytes", "%x: String %s %s", b, h, rh)
		}
		ch := client.NewHexBytes(b)
		v, err := ch.Value()
		if string(ch) != "0x"+hex.EncodeToString(b) || err != nil || !bytes.Equal(v, b) {
			c.Report("client.HexBytes", "%x: %s, value %x err %v", b, ch, v, err)
		}
		for _, bad := range []string{want[1:len(want)-1] + "0", "0x" + hex.EncodeToString(b) + "g1", "0y" + hex.EncodeToString(b)} {
			if v, err := client.HexBytes(bad).Value(); err == nil {
				c.Report("client.HexBytes accepts", "%s gives %x", bad, v)
			}
			var h2 common.HexBytes
			if err := json.Unmarshal([]byte("\""+bad+"\""), &h2); err == nil {
				c.Report("HexBytes accepts", "%s gives %x", bad, []byte(h2))
			}
		}
	}
}
