// P14: RLP (and msgpack) codec: canonical, lossless, agrees with a reference encoder.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	geth "github.com/ethereum/go-ethereum/rlp"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P14", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: all byte strings up to length 2, every length 0..300 and the length-class boundaries 65534..65538 (thorough: also 2^24-1..2^24+1) with boundary first bytes; all item trees up to 6 (quick) / 7 (thorough) nodes over {empty, 00, 7f, 80, 55-byte, 56-byte string, null}; all 8- and 16-bit integers and +-2^k+{-2..2} for every k<=64 in every integer kind; struct/array/slice/map/pointer shapes listed in the source; all ordered triples of a value set in one stream",
			"oracle: an independent encoder of the yellow-paper definition, cross-checked with go-ethereum's rlp package on every item tree",
			"null (nil slice, pointer, map) is the codec's own F8 00 marker, which Ethereum RLP does not have",
		}}, body)
}

// tree is an item that encodes and decodes itself through the Encoder/Decoder API.
type tree struct {
	it    ref.Item
	shape *ref.Item // expected shape while decoding
	style int
}

func (t *tree) RLPEncodeSelf(e codec.Encoder) error {
	if t.it.Null {
		return e.Encode([]byte(nil))
	}
	if !t.it.List {
		return e.Encode(t.it.B)
	}
	var kids []interface{}
	for _, k := range t.it.L {
		kids = append(kids, &tree{it: k, style: t.style})
	}
	switch t.style {
	case 0:
		return e.EncodeListOf(kids...)
	case 1:
		e2, err := e.EncodeList()
		if err != nil {
			return err
		}
		for _, k := range kids {
			if err := e2.Encode(k); err != nil {
				return err
			}
		}
		return nil
	default:
		e2, err := e.EncodeList()
		if err != nil {
			return err
		}
		return e2.EncodeMulti(kids...)
	}
}

func (t *tree) RLPDecodeSelf(d codec.Decoder) error {
	s := t.shape
	if s.Null || !s.List {
		var b []byte
		if err := d.Decode(&b); err != nil {
			return err
		}
		t.it = ref.Item{B: b, Null: b == nil}
		return nil
	}
	var kids []interface{}
	var ts []*tree
	for i := range s.L {
		k := &tree{shape: &s.L[i], style: t.style}
		ts = append(ts, k)
		kids = append(kids, k)
	}
	switch t.style {
	case 0:
		if err := d.DecodeListOf(kids...); err != nil {
			return err
		}
	case 1:
		d2, err := d.DecodeList()
		if err != nil {
			return err
		}
		for _, k := range kids {
			if err := d2.Decode(k); err != nil {
				return err
			}
		}
	default:
		d2, err := d.DecodeList()
		if err != nil {
			return err
		}
		if n, err := d2.DecodeMulti(kids...); err != nil || n != len(kids) {
			return fmt.Errorf("DecodeMulti n=%d err=%v", n, err)
		}
	}
	t.it = ref.Item{List: true}
	for _, k := range ts {
		t.it.L = append(t.it.L, k.it)
	}
	return nil
}

func gethItem(it ref.Item) interface{} {
	if it.List {
		l := []interface{}{}
		for _, k := range it.L {
			l = append(l, gethItem(k))
		}
		return l
	}
	return it.B
}
func hasNull(it ref.Item) bool {
	if it.Null {
		return true
	}
	for _, k := range it.L {
		if hasNull(k) {
			return true
		}
	}
	return false
}

var leaves = []ref.Item{
	ref.S([]byte{}), ref.S([]byte{0}), ref.S([]byte{0x7f}), ref.S([]byte{0x80}),
	ref.S(bytes.Repeat([]byte{0xc1}, 55)), ref.S(bytes.Repeat([]byte{0x81}, 56)), ref.NullItem(),
}

// trees with exactly n nodes
func trees(n int, small bool, f func(it ref.Item) bool) bool {
	if n == 1 {
		ls := leaves
		if small {
			ls = []ref.Item{leaves[1], leaves[3], leaves[5], leaves[6]}
		}
		for _, l := range ls {
			if !f(l) {
				return false
			}
		}
		return f(ref.L())
	}
	return forests(n-1, small, nil, func(l []ref.Item) bool {
		return f(ref.Item{List: true, L: append([]ref.Item{}, l...)})
	})
}
func forests(n int, small bool, acc []ref.Item, f func(l []ref.Item) bool) bool {
	if n == 0 {
		return f(acc)
	}
	for k := 1; k <= n; k++ {
		if !trees(k, small, func(it ref.Item) bool {
			return forests(n-k, small, append(acc[:len(acc):len(acc)], it), f)
		}) {
			return false
		}
	}
	return true
}

func hx(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func itemEq(a, b ref.Item) bool {
	if a.Null != b.Null || a.List != b.List || len(a.L) != len(b.L) || !bytes.Equal(a.B, b.B) {
		return false
	}
	for i := range a.L {
		if !itemEq(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

func body(r *mc.R) {
	r.Case("self-test", func(c *mc.C) {
		for v := int64(-70000); v < 70000; v++ {
			b := ref.TwosComp(big.NewInt(v))
			if ref.FromTwosComp(b).Int64() != v {
				c.Fail("harness", "reference two's complement is wrong for %d", v)
			}
			if len(b) > 1 && (b[0] == 0 && b[1]&0x80 == 0 || b[0] == 0xff && b[1]&0x80 != 0) {
				c.Fail("harness", "reference two's complement is not minimal for %d", v)
			}
		}
	})
	treeChecks(r)
	stringChecks(r)
	intChecks(r)
	typed(r)
	streams(r)
	wide(r)
}

func treeChecks(r *mc.R) {
	max := 6
	if r.Thorough() {
		max = 7
	}
	i := 0
	for n := 1; n <= max; n++ {
		n := n
		parts := 64
		if n < 4 {
			parts = 1
		}
		for p := 0; p < parts; p++ {
			p := p
			r.Case(fmt.Sprintf("trees n=%d part=%d", n, p), func(c *mc.C) {
				i = 0
				trees(n, n >= 6, func(it ref.Item) bool {
					i++
					if i%parts != p {
						return true
					}
					want := it.Enc()
					if !hasNull(it) {
						g, err := geth.EncodeToBytes(gethItem(it))
						if err != nil || !bytes.Equal(g, want) {
							c.Fail("harness", "reference encoder disagrees with go-ethereum: %x %x", g, want)
						}
					}
					for style := 0; style < 3; style++ {
						got, err := codec.RLP.MarshalToBytes(&tree{it: it, style: style})
						if err != nil {
							c.Fail("encode-error", "tree %x style %d: %v", want, style, err)
						}
						if !bytes.Equal(got, want) {
							c.Fail("encode", "tree encodes to %s, reference %s (style %d)", hx(got), hx(want), style)
						}
						back := &tree{shape: &it, style: style}
						rest, err := codec.RLP.UnmarshalFromBytes(append(append([]byte{}, got...), 0xaa, 0xbb), back)
						if err != nil {
							c.Fail("decode-error", "tree %s style %d does not decode: %v", hx(want), style, err)
						}
						if !itemEq(back.it, it) || !bytes.Equal(rest, []byte{0xaa, 0xbb}) {
							c.Fail("decode", "tree %s style %d decodes to another value (rest %x)", hx(want), style, rest)
						}
						r.Trans(2)
					}
					r.Exec(3)
					r.Validated(3)
					r.StateBytes(want)
					return !r.Expired("item trees")
				})
			})
		}
	}
}

// check encodes v, compares with the reference, decodes and compares.
func check(c *mc.C, v interface{}, what string) []byte {
	rv := reflect.ValueOf(v)
	want := ref.ItemOf(rv).Enc()
	got, err := codec.RLP.MarshalToBytes(v)
	if err != nil {
		c.Fail("encode-error", "%s: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		c.Fail("encode", "%s encodes to %s, reference %s", what, hx(got), hx(want))
	}
	var w bytes.Buffer
	if err := codec.RLP.Marshal(&w, v); err != nil || !bytes.Equal(w.Bytes(), want) {
		c.Fail("encode-stream", "%s through Marshal: %s err %v", what, hx(w.Bytes()), err)
	}
	nb := []byte{1, 2, 3}
	if err := codec.RLP.NewEncoderBytes(&nb).Encode(v); err != nil || !bytes.Equal(nb, want) {
		c.Fail("encode-bytes", "%s through NewEncoderBytes: %s err %v", what, hx(nb), err)
	}
	back(c, codec.RLP, "rlp", v, got, what)
	mp, err := codec.MP.MarshalToBytes(v)
	if err != nil {
		c.Fail("mp-encode-error", "%s: %v", what, err)
	}
	back(c, codec.MP, "msgpack", v, mp, what)
	c.R.Exec(2)
	c.R.Validated(2)
	c.R.Trans(5)
	return got
}

func back(c *mc.C, cd codec.Codec, name string, v interface{}, enc []byte, what string) {
	rv := reflect.ValueOf(v)
	if nilItem(rv) && name == "rlp" && rv.Kind() == reflect.Ptr {
		return
	}
	for _, suffix := range [][]byte{{}, {0}, {0x80, 1}, {0xc2, 1, 2}} {
		t := reflect.New(rv.Type())
		in := append(append([]byte{}, enc...), suffix...)
		if name == "msgpack" && len(suffix) > 0 {
			continue // the msgpack reader buffers ahead; consecutive values share one decoder
		}
		rest, err := cd.UnmarshalFromBytes(in, t.Interface())
		if err == codec.ErrNilValue && nilItem(rv) {
			continue
		}
		if err != nil {
			c.Fail(name+"-decode-error", "%s: %s does not decode: %v", what, hx(enc), err)
		}
		if name == "rlp" && !bytes.Equal(rest, suffix) {
			c.Fail(name+"-rest", "%s: %x left over after decoding, expected %x", what, rest, suffix)
		}
		if !reflect.DeepEqual(t.Elem().Interface(), v) {
			c.Fail(name+"-decode", "%s: %s decodes to %+v instead of %+v", what, hx(enc), t.Elem().Interface(), v)
		}
		for i := range in {
			in[i] = 0xee
		}
		if !reflect.DeepEqual(t.Elem().Interface(), v) {
			c.Fail(name+"-alias", "%s: the decoded value shares memory with the input", what)
		}
	}
}

func nilItem(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

func stringChecks(r *mc.R) {
	var lens []int
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 65534, 65535, 65536, 65537, 65538)
	if r.Thorough() {
		lens = append(lens, 1<<24-1, 1<<24, 1<<24+1)
	}
	for _, n := range lens {
		n := n
		r.Case(fmt.Sprintf("len=%d", n), func(c *mc.C) {
			for _, f := range []byte{0, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xf7, 0xf8, 0xff} {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i * 7)
				}
				if n > 0 {
					b[0] = f
				} else if f != 0 {
					continue
				}
				check(c, b, fmt.Sprintf("bytes len %d first %x", n, f))
				check(c, string(b), fmt.Sprintf("string len %d first %x", n, f))
				check(c, common.HexBytes(b), "HexBytes")
				check(c, [][]byte{b}, "list of bytes")
				check(c, [][]byte{{}, b, {1}}, "list of bytes")
				r.StateBytes(b)
			}
			// list payload of every length
			ls := make([]int, n)
			check(c, ls, fmt.Sprintf("list of %d zeros", n))
			bl := make([]bool, n)
			check(c, bl, fmt.Sprintf("list of %d bools", n))
			ss := make([]string, n)
			check(c, ss, fmt.Sprintf("list of %d strings", n))
		})
	}
	for a := 0; a < 256; a++ {
		a := a
		r.Case(fmt.Sprintf("pairs %02x", a), func(c *mc.C) {
			check(c, []byte{byte(a)}, "1 byte")
			for b := 0; b < 256; b++ {
				check(c, []byte{byte(a), byte(b)}, "2 bytes")
				check(c, [2]byte{byte(a), byte(b)}, "array of 2 bytes")
			}
		})
	}
}

func bounds() []*big.Int {
	m := map[string]*big.Int{}
	add := func(v *big.Int) { m[v.String()] = v }
	for k := uint(0); k <= 66; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), k)
			v.Add(v, big.NewInt(d))
			add(v)
			add(new(big.Int).Neg(v))
		}
	}
	var out []*big.Int
	for _, v := range m {
		out = append(out, v)
	}
	return out
}

var intTypes = []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0)}

func fits(v *big.Int, t reflect.Type) bool {
	bits := uint(t.Bits())
	if strings.HasPrefix(t.Kind().String(), "u") {
		return v.Sign() >= 0 && v.Cmp(new(big.Int).Lsh(big.NewInt(1), bits)) < 0
	}
	lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return v.Cmp(lim) < 0 && new(big.Int).Neg(lim).Cmp(v) <= 0
}

func set(v *big.Int, t reflect.Type) reflect.Value {
	x := reflect.New(t).Elem()
	if strings.HasPrefix(t.Kind().String(), "u") {
		x.SetUint(v.Uint64())
	} else {
		x.SetInt(v.Int64())
	}
	return x
}

func intChecks(r *mc.R) {
	vals := bounds()
	for _, it := range intTypes {
		t := reflect.TypeOf(it)
		r.Case("int "+t.String(), func(c *mc.C) {
			for _, v := range vals {
				// the raw bytes of v, offered to this kind
				for _, raw := range [][]byte{ref.S(ref.TwosComp(v)).Enc()} {
					p := reflect.New(t)
					rest, err := codec.RLP.UnmarshalFromBytes(raw, p.Interface())
					r.Trans(1)
					r.Exec(1)
					r.Validated(1)
					if fits(v, t) {
						if err != nil || len(rest) != 0 {
							c.Report("int-refused:"+t.String(), "%s as %s (%x): err %v rest %x", v, t, raw, err, rest)
						} else if p.Elem().Interface() != set(v, t).Interface() {
							c.Report("int-wrong:"+t.String(), "%s decodes to %v (%x)", v, p.Elem().Interface(), raw)
						}
					} else if err == nil {
						c.Report("int-truncated:"+t.String(), "%s does not fit %s but decodes to %v", v, t, p.Elem().Interface())
					}
				}
				if fits(v, t) {
					check(c, set(v, t).Interface(), fmt.Sprintf("%s %s", t, v))
					r.State(t.String(), v.String())
				}
			}
			if t.Bits() <= 16 {
				for v := int64(-40000); v < 70000; v++ {
					if b := big.NewInt(v); fits(b, t) {
						check(c, set(b, t).Interface(), fmt.Sprintf("%s %d", t, v))
					}
				}
			}
		})
	}
	r.Case("hexint", func(c *mc.C) {
		for _, v := range vals {
			h := &common.HexInt{}
			h.Set(v)
			got, err := codec.RLP.MarshalToBytes(h)
			if err != nil || !bytes.Equal(got, ref.S(ref.TwosComp(v)).Enc()) {
				c.Report("hexint", "HexInt %s encodes to %x err %v", v, got, err)
			}
			var b common.HexInt
			if _, err := codec.RLP.UnmarshalFromBytes(got, &b); err != nil || b.Cmp(v) != 0 {
				c.Report("hexint", "HexInt %s comes back as %s err %v", v, b.Int.String(), err)
			}
			hexFixed(c, v)
			r.Trans(2)
			r.Exec(1)
		}
	})
}

func hexFixed(c *mc.C, v *big.Int) {
	f := func(mk func() interface{}, want interface{}, bits uint, signed bool) {
		x := mk()
		got, err := codec.RLP.MarshalToBytes(x)
		if err != nil || !bytes.Equal(got, ref.S(ref.TwosComp(v)).Enc()) {
			c.Report("hexfixed", "%T %s encodes to %x err %v", x, v, got, err)
		}
		t := reflect.New(reflect.TypeOf(x).Elem())
		if _, err := codec.RLP.UnmarshalFromBytes(got, t.Interface()); err != nil || !reflect.DeepEqual(t.Interface(), x) {
			c.Report("hexfixed", "%T %s comes back as %v err %v", x, v, t.Elem().Interface(), err)
		}
	}
	if fits(v, reflect.TypeOf(int16(0))) {
		f(func() interface{} { return &common.HexInt16{Value: int16(v.Int64())} }, nil, 16, true)
	}
	if fits(v, reflect.TypeOf(uint16(0))) {
		f(func() interface{} { return &common.HexUint16{Value: uint16(v.Int64())} }, nil, 16, false)
	}
	if fits(v, reflect.TypeOf(int32(0))) {
		f(func() interface{} { return &common.HexInt32{Value: int32(v.Int64())} }, nil, 32, true)
	}
	if fits(v, reflect.TypeOf(uint32(0))) {
		f(func() interface{} { return &common.HexUint32{Value: uint32(v.Int64())} }, nil, 32, false)
	}
	if fits(v, reflect.TypeOf(int64(0))) {
		f(func() interface{} { return &common.HexInt64{Value: v.Int64()} }, nil, 64, true)
	}
	if fits(v, reflect.TypeOf(uint64(0))) {
		f(func() interface{} { return &common.HexUint64{Value: v.Uint64()} }, nil, 64, false)
	}
}

// typed shapes
type inner struct {
	A int
	B []byte
}
type outer struct {
	X  int64
	P  *inner
	L  []inner
	M  map[string]int
	S  string
	V  inner
	PP **int
	T  bool
}
type emb struct{ E1, E2 int }
type withEmb struct {
	First string
	emb
	Last uint16
}
type deep struct {
	N    int
	Next *deep
	Kids []*deep
}
type arr struct {
	A [3]byte
	B [2]int
	C [2][]byte
	D [0]int
}
type maps struct {
	I map[int8]string
	U map[uint16][]byte
	S map[string][]int
	N map[string]map[int]bool
}

func typedValues(x *mc.X) interface{} {
	ints := []int{0, 1, -1, 127, 128, 255, 256, -128, -129, 1 << 31}
	bss := [][]byte{nil, {}, {0}, {0x7f}, {0x80}, bytes.Repeat([]byte{9}, 55), bytes.Repeat([]byte{9}, 56)}
	in := func() inner { return inner{ints[x.Choose(len(ints))], bss[x.Choose(len(bss))]} }
	pin := func() *inner {
		if x.Choose(2) == 0 {
			return nil
		}
		v := in()
		return &v
	}
	switch x.Choose(6) {
	case 0:
		return in()
	case 1:
		o := outer{X: int64(ints[x.Choose(3)]), P: pin(), S: []string{"", "a", strings.Repeat("z", 60)}[x.Choose(3)], T: x.Bool()}
		o.V = inner{1, []byte{}}
		switch x.Choose(4) {
		case 1:
			o.L = []inner{}
		case 2:
			o.L = []inner{{5, nil}}
		case 3:
			for i := 0; i < 17; i++ {
				o.L = append(o.L, inner{i, bss[i%len(bss)]})
			}
		}
		switch x.Choose(3) {
		case 1:
			o.M = map[string]int{}
		case 2:
			o.M = map[string]int{"b": 1, "a": -1, "": 200, "ab": 3}
		}
		if x.Bool() {
			v := 300
			pv := &v
			o.PP = &pv
		}
		return o
	case 2:
		w := withEmb{First: []string{"", "q"}[x.Choose(2)], Last: []uint16{0, 128, 65535}[x.Choose(3)]}
		return w
	case 3:
		var mk func(d int) *deep
		mk = func(d int) *deep {
			k := &deep{N: d}
			if d == 0 {
				return k
			}
			switch x.Choose(4) {
			case 1:
				k.Next = mk(d - 1)
			case 2:
				k.Kids = []*deep{}
			case 3:
				k.Kids = []*deep{nil, mk(d - 1)}
				k.Next = mk(d - 1)
			}
			return k
		}
		return *mk(3)
	case 4:
		a := arr{A: [3]byte{byte(x.Choose(2) * 0x80), 1, 2}, B: [2]int{ints[x.Choose(len(ints))], ints[x.Choose(len(ints))]}}
		a.C = [2][]byte{bss[x.Choose(len(bss))], bss[x.Choose(len(bss))]}
		return a
	default:
		m := maps{}
		switch x.Choose(3) {
		case 1:
			m.I = map[int8]string{}
		case 2:
			m.I = map[int8]string{-128: "a", -1: "b", 0: "", 127: "c"}
		}
		switch x.Choose(3) {
		case 1:
			m.U = map[uint16][]byte{256: nil, 255: {}, 0: {1}, 65535: {0x80}}
		case 2:
			m.U = map[uint16][]byte{}
		}
		switch x.Choose(2) {
		case 1:
			m.S = map[string][]int{"z": nil, "a": {}, "aa": {1, 200}}
		}
		switch x.Choose(2) {
		case 1:
			m.N = map[string]map[int]bool{"k": nil, "j": {1: true, -5: false}}
		}
		return m
	}
}

func typed(r *mc.R) {
	r.Explore("typed", func(c *mc.C, x *mc.X) {
		v := typedValues(x)
		if w, ok := v.(withEmb); ok {
			// fields promoted through an unexported struct can be encoded but not set
			got, err := codec.RLP.MarshalToBytes(w)
			want := ref.ItemOf(reflect.ValueOf(w)).Enc()
			if err != nil || !bytes.Equal(got, want) {
				c.Fail("encode", "%+v encodes to %x, reference %x err %v", w, got, want, err)
			}
			return
		}
		enc := check(c, v, fmt.Sprintf("%+v", v))
		r.StateBytes(enc)
		// also through a pointer
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		e2, err := codec.RLP.MarshalToBytes(p.Interface())
		if err != nil || !bytes.Equal(e2, enc) {
			c.Fail("encode-ptr", "%+v encodes differently through a pointer: %x %x %v", v, enc, e2, err)
		}
	})
	// lists longer and shorter than the target: extra items are skipped, missing keep zero,
	// and the value after it is read from the right place
	for n := 0; n <= 20; n++ {
		n := n
		r.Case(fmt.Sprintf("arity %d", n), func(c *mc.C) {
			for kind := 0; kind < 4; kind++ {
				it := ref.L()
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						it.L = append(it.L, ref.S([]byte{byte(i)}))
					case 1:
						it.L = append(it.L, ref.S(bytes.Repeat([]byte{byte(i)}, 1)))
					case 2:
						if i < 2 {
							it.L = append(it.L, ref.S([]byte{byte(i)}))
						} else {
							it.L = append(it.L, ref.L(ref.S([]byte{1}), ref.L(ref.S(bytes.Repeat([]byte{2}, 60)))))
						}
					case 3:
						if i < 2 {
							it.L = append(it.L, ref.S([]byte{byte(i)}))
						} else {
							it.L = append(it.L, ref.S(bytes.Repeat([]byte{byte(i)}, 50+i)))
						}
					}
				}
				in := append(it.Enc(), ref.S([]byte("tail")).Enc()...)
				d := codec.RLP.NewDecoder(bytes.NewReader(in))
				var t struct{ A, B uint8 }
				if err := d.Decode(&t); err != nil {
					c.Fail("arity", "list of %d items into a struct of 2: %v", n, err)
				}
				var wa, wb uint8
				if n > 1 {
					wb = 1
				}
				if t.A != wa || t.B != wb {
					c.Fail("arity", "list of %d items gives %+v", n, t)
				}
				var s string
				if err := d.Decode(&s); err != nil || s != "tail" {
					c.Fail("arity-next", "value after a list of %d items: %q err %v", n, s, err)
				}
				r.Exec(1)
				r.Trans(2)
				r.Validated(1)
			}
		})
	}
}

func streams(r *mc.R) {
	one := 1
	vals := []interface{}{0, -300, "", "abc", []byte{}, []byte{0x81}, []byte(nil), []int{}, []int{1, 2, 300}, [][]byte{{}, nil, {1}},
		inner{1, []byte{2}}, &one, map[string]int{"a": 1, "b": 2}, true, strings.Repeat("x", 300), [3]byte{1, 2, 3},
		deep{N: 1, Next: &deep{N: 2}, Kids: []*deep{nil, {N: 3}}}}
	for i := range vals {
		i := i
		r.Case(fmt.Sprintf("stream %d", i), func(c *mc.C) {
			for j := range vals {
				for k := range vals {
					seq := []interface{}{vals[i], vals[j], vals[k]}
					for _, cd := range []struct {
						n string
						c codec.Codec
					}{{"rlp", codec.RLP}, {"msgpack", codec.MP}} {
						var w bytes.Buffer
						e := cd.c.NewEncoder(&w)
						for _, v := range seq {
							if err := e.Encode(v); err != nil {
								c.Fail("stream-encode", "%s %v: %v", cd.n, v, err)
							}
						}
						d := cd.c.NewDecoder(bytes.NewReader(w.Bytes()))
						for m, v := range seq {
							t := reflect.New(reflect.TypeOf(v))
							if err := d.Decode(t.Interface()); err != nil {
								c.Fail("stream-decode", "%s value %d (%v) of stream %v: %v", cd.n, m, v, seq, err)
							}
							if !reflect.DeepEqual(t.Elem().Interface(), v) {
								c.Fail("stream-value", "%s value %d of stream %v decodes to %v", cd.n, m, seq, t.Elem().Interface())
							}
						}
						var x int
						if err := d.Decode(&x); err == nil {
							c.Fail("stream-end", "%s stream %v yields a fourth value %d", cd.n, seq, x)
						}
						r.Exec(1)
						r.Trans(7)
						r.Validated(1)
						r.StateBytes(w.Bytes())
					}
				}
			}
		})
	}
}

// wide: nested lists whose payload crosses a length class at two levels at once
func wide(r *mc.R) {
	for n := 40; n <= 70; n++ {
		n := n
		r.Case(fmt.Sprintf("wide %d", n), func(c *mc.C) {
			for m := 40; m <= 70; m++ {
				v := [][][]byte{{bytes.Repeat([]byte{1}, n)}, {bytes.Repeat([]byte{2}, m), {}}, {}}
				check(c, v, fmt.Sprintf("nested %d %d", n, m))
				check(c, []inner{{n, bytes.Repeat([]byte{3}, m)}, {m, nil}}, "inner")
			}
		})
	}
	for n := 240; n <= 260; n++ {
		n := n
		r.Case(fmt.Sprintf("wide %d", n), func(c *mc.C) {
			check(c, [][][]byte{{bytes.Repeat([]byte{1}, n)}}, "nested")
		})
	}
	for n := 65525; n <= 65540; n++ {
		n := n
		r.Case(fmt.Sprintf("wide %d", n), func(c *mc.C) {
			check(c, [][][]byte{{bytes.Repeat([]byte{1}, n)}}, "nested")
		})
	}
}
