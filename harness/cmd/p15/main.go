// P15: decoders of untrusted bytes are total.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/mpt"
	"github.com/icon-project/btp/common/mta"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P15", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 3000 * time.Second, MaxHeapMB: 3000,
		Assumptions: []string{
			"bounds: all byte strings of length <= 2 (quick) / 3 (thorough) over all 256 values, all strings of length <= 4 (quick) / 5 (thorough) over the 19 structural bytes, size fields of every width with boundary values, every truncation and every single-byte replacement of a set of valid encodings, into every target listed",
			"memory: total allocation of a batch of 256 inputs is bounded by 64 MiB plus a linear share of the input",
			"oracle for byte strings, lists of byte strings, strings and integers: an independent lenient parser says which inputs are well formed and which value they denote",
		}}, body)
}

type inner struct {
	A int
	B []byte
}
type rec struct {
	N    int8
	Kids []*rec
	M    map[string]uint16
	Arr  [2]inner
}

type target struct {
	name string
	f    func(b []byte) error
}

func into(cd codec.Codec, proto interface{}) func(b []byte) error {
	t := reflect.TypeOf(proto)
	return func(b []byte) error {
		_, err := cd.UnmarshalFromBytes(b, reflect.New(t).Interface())
		return err
	}
}

func targets() []target {
	var ts []target
	protos := []interface{}{[]byte{}, "", false, int8(0), int64(0), uint8(0), uint64(0), []int{}, [][]byte{}, [][][]byte{}, [2]byte{}, [2]int{}, inner{}, rec{}, (*inner)(nil),
		map[string]int{}, map[int][]byte{}, common.Address{}, common.HexInt{}, common.HexInt16{}, common.HexUint16{}, common.HexInt32{}, common.HexUint32{}, common.HexInt64{}, common.HexUint64{},
		mpt.MptNode{}, client.BTPBlockHeader{}, client.BlockHeader{}, client.ReceiptData{}, mbt.MerkleBinaryTreeProof{}}
	for _, p := range protos {
		ts = append(ts, target{fmt.Sprintf("rlp %T", p), into(codec.RLP, p)})
		ts = append(ts, target{fmt.Sprintf("msgpack %T", p), into(codec.MP, p)})
	}
	ts = append(ts,
		target{"rlp skip", func(b []byte) error {
			d := codec.RLP.NewDecoder(bytes.NewReader(b)).(codec.Decoder)
			d2, err := d.DecodeList()
			if err != nil {
				return err
			}
			_, err = d2.DecodeBytes()
			if err != nil {
				return err
			}
			_, err = d.DecodeMulti(new(int), new([]byte))
			return err
		}},
		target{"address bytes", func(b []byte) error { return new(common.Address).SetBytes(b) }},
		target{"new address", func(b []byte) error { common.NewAddress(b); return nil }},
		target{"address string", func(b []byte) error { return new(common.Address).SetString(string(b)) }},
		target{"address json", func(b []byte) error { return new(common.Address).UnmarshalJSON(b) }},
		target{"hexint json", func(b []byte) error { return new(common.HexInt).UnmarshalJSON(b) }},
		target{"hexint64 json", func(b []byte) error { return new(common.HexInt64).UnmarshalJSON(b) }},
		target{"hexbytes json", func(b []byte) error { return new(common.HexBytes).UnmarshalJSON(b) }},
		target{"rawhexbytes json", func(b []byte) error { return new(common.RawHexBytes).UnmarshalJSON(b) }},
		target{"hexint binary", func(b []byte) error { return new(common.HexInt).UnmarshalBinary(b) }},
		target{"client hexbytes", func(b []byte) error { _, err := client.HexBytes(b).Value(); return err }},
		target{"client hexint", func(b []byte) error { _, err := client.HexInt(b).Value(); return err }},
		target{"client hexint int", func(b []byte) error { _, err := client.HexInt(b).Int(); return err }},
		target{"client hexint big", func(b []byte) error { _, err := client.HexInt(b).BigInt(); return err }},
		target{"client address", func(b []byte) error { _, err := client.Address(b).Value(); return err }},
		target{"signature", func(b []byte) error { _, err := crypto.ParseSignature(b); return err }},
		target{"signature vrs", func(b []byte) error { _, err := crypto.ParseSignatureVRS(b); return err }},
		target{"public key", func(b []byte) error { _, err := crypto.ParsePublicKey(b); return err }},
		target{"private key", func(b []byte) error { _, err := crypto.ParsePrivateKey(b); return err }},
		target{"trie proof 1", func(b []byte) error { _, err := mpt.NewMptProof([][]byte{b}); return err }},
		target{"trie proof 2", func(b []byte) error { _, err := mpt.NewMptProof([][]byte{b, b}); return err }},
		target{"accumulator", func(b []byte) error {
			bk, _ := db.NewMapDB().GetBucket("x")
			if err := bk.Set([]byte("k"), b); err != nil {
				return err
			}
			return (&mta.Accumulator{KeyForState: []byte("k"), Bucket: bk}).Recover()
		}},
		target{"ext accumulator", func(b []byte) error {
			bk, _ := db.NewMapDB().GetBucket("x")
			if err := bk.Set([]byte("k"), b); err != nil {
				return err
			}
			return mta.NewExtAccumulator([]byte("k"), bk, 0).Recover()
		}},
	)
	return ts
}

// run offers b to t; only crash and resource use are judged.
func run(c *mc.C, t target, b []byte) (err error) {
	in := append([]byte{}, b...)
	site, p := mc.Try(func() { err = t.f(in) })
	if p != nil {
		c.Report("panic:"+t.name+":"+site, "%s of %x panics: %v", t.name, b, p)
		return fmt.Errorf("panic")
	}
	if !bytes.Equal(in, b) {
		c.Report("modifies:"+t.name, "%s changed its input %x", t.name, b)
	}
	return err
}

var ms runtime.MemStats

func alloc() uint64 { runtime.ReadMemStats(&ms); return ms.TotalAlloc }

// batch runs all targets on the inputs and watches the allocation.
func batch(c *mc.C, ts []target, ins [][]byte) {
	for len(ins) > 0 {
		n := 256
		if n > len(ins) {
			n = len(ins)
		}
		for _, t := range ts {
			a0 := alloc()
			for _, b := range ins[:n] {
				run(c, t, b)
			}
			if d := alloc() - a0; d > 64<<20 {
				for _, b := range ins[:n] {
					a := alloc()
					run(c, t, b)
					if e := alloc() - a; e > 16<<20 {
						c.Report("memory:"+t.name, "%s of %x (%d bytes) allocates %d bytes", t.name, b, len(b), e)
						break
					}
				}
			}
			c.R.Trans(n)
			c.R.Exec(n)
		}
		for _, b := range ins[:n] {
			c.R.StateBytes(b)
		}
		ins = ins[n:]
	}
}

var structural = []byte{0x00, 0x01, 0x02, 0x20, 0x7f, 0x80, 0x81, 0x82, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xf7, 0xf8, 0xff}

func body(r *mc.R) {
	ts := targets()
	full := 2
	sl := 4
	if r.Thorough() {
		full, sl = 3, 5
	}
	for a := 0; a < 256; a++ {
		a := a
		r.Case(fmt.Sprintf("all %02x", a), func(c *mc.C) {
			var ins [][]byte
			if a == 0 {
				ins = append(ins, []byte{}, nil)
			}
			ins = append(ins, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				ins = append(ins, []byte{byte(a), byte(b)})
			}
			batch(c, ts, ins)
			oracle(c, ins)
			if full >= 3 {
				for b := 0; b < 256; b++ {
					ins = ins[:0]
					for d := 0; d < 256; d++ {
						ins = append(ins, []byte{byte(a), byte(b), byte(d)})
					}
					batch(c, ts, ins)
					oracle(c, ins)
					if r.Expired("3-byte strings") {
						return
					}
				}
			}
		})
	}
	for _, a := range structural {
		for _, b := range structural {
			a, b := a, b
			r.Case(fmt.Sprintf("structural %02x%02x", a, b), func(c *mc.C) {
				var ins [][]byte
				var gen func(p []byte)
				gen = func(p []byte) {
					if len(p) > 2 {
						ins = append(ins, append([]byte{}, p...))
						if len(ins) >= 4096 {
							batch(c, ts, ins)
							oracle(c, ins)
							ins = ins[:0]
						}
					}
					if len(p) == sl || r.Expired("structural strings") {
						return
					}
					for _, x := range structural {
						gen(append(p[:len(p):len(p)], x))
					}
				}
				gen([]byte{a, b})
				batch(c, ts, ins)
				oracle(c, ins)
			})
		}
	}
	sizes(r, ts)
	valid(r, ts)
	texts(r, ts)
}

// oracle compares acceptance and value with the lenient reference parser.
func oracle(c *mc.C, ins [][]byte) {
	for _, b := range ins {
		it, n, ok := ref.Parse(b)
		isStr := ok && !it.List && !it.Null
		// a list target that is never descended into still needs its declared bytes
		var bs []byte
		rest, err := codec.RLP.UnmarshalFromBytes(b, &bs)
		switch {
		case isStr && (err != nil || !bytes.Equal(bs, it.B) || !bytes.Equal(rest, b[n:])):
			c.Report("bytes", "%x denotes bytes %x, decoded as %x rest %x err %v", b, it.B, bs, rest, err)
		case ok && it.Null && (err != nil || bs != nil):
			c.Report("null", "%x denotes null, decoded as %x err %v", b, bs, err)
		case (!ok || it.List) && err == nil:
			c.Report("bytes-accepted", "%x is not a byte string but decodes to %x", b, bs)
		}
		for _, t := range []interface{}{int8(0), int16(0), int32(0), int64(0), uint8(0), uint16(0), uint32(0), uint64(0)} {
			p := reflect.New(reflect.TypeOf(t))
			_, err := codec.RLP.UnmarshalFromBytes(b, p.Interface())
			if !isStr {
				if err == nil {
					c.Report("int-accepted", "%x decodes to %T %v", b, t, p.Elem())
				}
				continue
			}
			v := ref.FromTwosComp(it.B)
			var got *big.Int
			if p.Elem().CanInt() {
				got = big.NewInt(p.Elem().Int())
			} else {
				got = new(big.Int).SetUint64(p.Elem().Uint())
			}
			if err == nil && got.Cmp(v) != 0 {
				c.Report(fmt.Sprintf("int-value:%T", t), "%x denotes %s, decoded as %T %s", b, v, t, got)
			}
			canon := bytes.Equal(ref.TwosComp(v), it.B)
			fits := p.Elem().CanInt() && v.IsInt64() && !p.Elem().OverflowInt(v.Int64()) || p.Elem().CanUint() && v.IsUint64() && !p.Elem().OverflowUint(v.Uint64())
			if err != nil && canon && fits {
				c.Report(fmt.Sprintf("int-refused:%T", t), "%x denotes %s, refused for %T: %v", b, v, t, err)
			}
		}
		flat := ok && it.List
		if flat {
			for _, k := range it.L {
				if k.List {
					flat = false
				}
			}
		}
		var l [][]byte
		rest, err = codec.RLP.UnmarshalFromBytes(b, &l)
		switch {
		case flat:
			good := err == nil && len(l) == len(it.L) && bytes.Equal(rest, b[n:])
			for i := 0; good && i < len(l); i++ {
				if it.L[i].Null != (l[i] == nil) || !bytes.Equal(l[i], it.L[i].B) {
					good = false
				}
			}
			if !good {
				c.Report("list", "%x denotes a list of %d strings, decoded as %x rest %x err %v", b, len(it.L), l, rest, err)
			}
		case ok && it.Null:
		case err == nil:
			c.Report("list-accepted", "%x is not a list of strings but decodes to %x", b, l)
		}
		c.R.Validated(10)
	}
}

func sizes(r *mc.R, ts []target) {
	// every size-field width with boundary values, in string and list form, at top level and nested
	for w := 1; w <= 8; w++ {
		for _, base := range []byte{0xb7, 0xf7} {
			w, base := w, base
			r.Case(fmt.Sprintf("size width=%d base=%x", w, base), func(c *mc.C) {
				var ins [][]byte
				add := func(sz []byte, tail int) {
					h := append([]byte{base + byte(w)}, sz...)
					h = append(h, bytes.Repeat([]byte{0x01}, tail)...)
					ins = append(ins, h)
					n := append([]byte{0xc0 + byte(len(h))}, h...)
					if len(h) <= 55 {
						ins = append(ins, n)
						ins = append(ins, append([]byte{0xc1 + byte(len(h)), 0x01}, h...))
					}
					ins = append(ins, append([]byte{0xf8, 0xff}, h...))
				}
				for hi := 0; hi < w; hi++ {
					for _, v := range []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0xff} {
						for _, fill := range []byte{0x00, 0xff} {
							sz := bytes.Repeat([]byte{fill}, w)
							sz[hi] = v
							for _, tail := range []int{0, 1, 2, 40} {
								add(sz, tail)
							}
						}
					}
				}
				batch(c, ts, ins)
				oracle(c, ins)
			})
		}
	}
	// msgpack headers with length fields
	for _, t := range []byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd4, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x8f, 0x9f, 0xbf, 0xcf, 0xd3, 0xcb, 0xca} {
		t := t
		r.Case(fmt.Sprintf("mp %02x", t), func(c *mc.C) {
			var ins [][]byte
			vals := []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
			var gen func(p []byte)
			gen = func(p []byte) {
				for _, tail := range []int{0, 1, 9} {
					ins = append(ins, append(append([]byte{}, p...), bytes.Repeat([]byte{0x01}, tail)...))
				}
				if len(p) == 5 {
					return
				}
				for _, v := range vals {
					gen(append(p[:len(p):len(p)], v))
				}
			}
			gen([]byte{t})
			batch(c, ts, ins)
		})
	}
}

func valid(r *mc.R, ts []target) {
	ad := common.NewAccountAddress(bytes.Repeat([]byte{7}, 20))
	leaf := ref.L(ref.S([]byte{0x20, 1}), ref.S([]byte("value"))).Enc()
	br := ref.L()
	for i := 0; i < 17; i++ {
		br.L = append(br.L, ref.S(nil))
	}
	br.L[3] = ref.S(crypto.SHA3Sum256(leaf))
	tree, _ := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID("icon"), [][]byte{{1}, {2}, {3}})
	pf, _ := tree.Proof(2, 2)
	vals := []interface{}{
		[]byte{1, 2, 3}, "hello", 300, int64(-70000), uint64(1) << 63, []int{1, -200, 0}, [][]byte{{}, nil, {0x80}, bytes.Repeat([]byte{5}, 60)},
		inner{5, []byte{9, 9}}, rec{N: 3, Kids: []*rec{{N: 1}, nil}, M: map[string]uint16{"a": 1, "b": 500}}, map[int][]byte{1: {2}, -4: nil}, ad,
		client.BTPBlockHeader{MainHeight: 10, Round: 2, NextProofContextHash: []byte{1}, NetworkSectionToRoot: [][]byte{{1}, {2}}, NetworkID: 1, UpdateNumber: 7, MessageCount: 2, MessagesRoot: []byte{3}},
		*pf, [2]inner{{1, nil}, {2, []byte{}}},
	}
	var encs [][]byte
	var names []string
	for i, v := range vals {
		e, err := codec.RLP.MarshalToBytes(v)
		if err != nil {
			panic(err)
		}
		encs = append(encs, e)
		names = append(names, fmt.Sprintf("rlp %d %T", i, v))
		i, v, e := i, v, e
		r.Case(fmt.Sprintf("truncate rlp %d %T", i, v), func(c *mc.C) {
			t := reflect.TypeOf(v)
			for n := 0; n < len(e); n++ {
				p := reflect.New(t)
				var err error
				site, pn := mc.Try(func() { _, err = codec.RLP.UnmarshalFromBytes(e[:n], p.Interface()) })
				if pn != nil {
					c.Report("panic-truncated:"+site, "truncated %x panics: %v", e[:n], pn)
				} else if err == nil {
					c.Report(fmt.Sprintf("truncation-accepted:%T", v), "%x, a truncation of %x, is accepted as %+v", e[:n], e, p.Elem().Interface())
				}
				r.Validated(1)
				r.Trans(1)
			}
		})
		m, err := codec.MP.MarshalToBytes(v)
		if err != nil {
			panic(err)
		}
		encs = append(encs, m)
		names = append(names, fmt.Sprintf("mp %d %T", i, v))
		r.Case(fmt.Sprintf("truncate mp %d %T", i, v), func(c *mc.C) {
			t := reflect.TypeOf(v)
			for n := 0; n < len(m); n++ {
				p := reflect.New(t)
				var err error
				site, pn := mc.Try(func() { _, err = codec.MP.UnmarshalFromBytes(m[:n], p.Interface()) })
				if pn != nil {
					c.Report("panic-truncated:"+site, "truncated %x panics: %v", m[:n], pn)
				} else if err == nil {
					c.Report(fmt.Sprintf("mp-truncation-accepted:%T", v), "%x, a truncation of %x, is accepted as %+v", m[:n], m, p.Elem().Interface())
				}
				r.Validated(1)
				r.Trans(1)
			}
		})
	}
	encs = append(encs, leaf, br.Enc(), bytes.Repeat([]byte{1}, 65), bytes.Repeat([]byte{1}, 64), append([]byte{1}, bytes.Repeat([]byte{2}, 20)...), []byte("0x"+hex.EncodeToString(bytes.Repeat([]byte{1}, 20))), []byte("\"hx"+hex.EncodeToString(bytes.Repeat([]byte{1}, 20))+"\""))
	names = append(names, "leaf", "branch", "sig65", "sig64", "addr21", "hextext", "jsonaddr")
	step := 7
	if r.Thorough() {
		step = 1
	}
	for i, e := range encs {
		i, e := i, e
		r.Case("edit "+names[i], func(c *mc.C) {
			var ins [][]byte
			for p := range e {
				for v := 0; v < 256; v++ {
					if v%step != 0 && bytes.IndexByte(structural, byte(v)) < 0 {
						continue
					}
					m := append([]byte{}, e...)
					m[p] = byte(v)
					ins = append(ins, m)
				}
			}
			for n := 0; n <= len(e); n++ {
				ins = append(ins, e[:n])
				for _, x := range structural {
					ins = append(ins, append(append([]byte{}, e[:n]...), x))
				}
			}
			batch(c, ts, ins)
			oracle(c, ins)
		})
	}
	// lengths 0..70 of each fill
	r.Case("lengths", func(c *mc.C) {
		var ins [][]byte
		for n := 0; n <= 70; n++ {
			for _, f := range []byte{0, 1, 2, 3, 4, 0x30, 0x7f, 0x80, 0xff} {
				ins = append(ins, bytes.Repeat([]byte{f}, n))
				if n > 0 {
					m := bytes.Repeat([]byte{f}, n)
					for _, h := range []byte{0, 1, 2, 4} {
						m2 := append([]byte{}, m...)
						m2[0] = h
						ins = append(ins, m2)
					}
				}
			}
		}
		batch(c, ts, ins)
	})
}

func texts(r *mc.R, ts []target) {
	al := []byte("0x1f-\"hc{[ \\nl")
	d := 4
	if r.Thorough() {
		d = 5
	}
	for _, a := range al {
		a := a
		r.Case(fmt.Sprintf("text %q", a), func(c *mc.C) {
			var ins [][]byte
			var gen func(p []byte)
			gen = func(p []byte) {
				ins = append(ins, append([]byte{}, p...))
				if len(ins) >= 4096 {
					batch(c, ts, ins)
					ins = ins[:0]
				}
				if len(p) == d || r.Expired("texts") {
					return
				}
				for _, x := range al {
					gen(append(p[:len(p):len(p)], x))
				}
			}
			gen([]byte{a})
			batch(c, ts, ins)
		})
	}
}
