package ref

import (
	"math/big"
	"reflect"
	"sort"
)

// Item is an RLP item: a byte string, a list, or the codec's null marker.
type Item struct {
	B    []byte
	L    []Item
	List bool
	Null bool
}

func S(b []byte) Item  { return Item{B: b} }
func L(l ...Item) Item { return Item{L: l, List: true} }
func NullItem() Item   { return Item{Null: true} }
func rlpHead(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	var sz []byte
	for m := n; m > 0; m >>= 8 {
		sz = append([]byte{byte(m)}, sz...)
	}
	return append([]byte{base + 55 + byte(len(sz))}, sz...)
}

// Enc encodes an item following the Ethereum yellow paper, plus F8 00 for null.
func (it Item) Enc() []byte {
	switch {
	case it.Null:
		return []byte{0xf8, 0}
	case it.List:
		var p []byte
		for _, x := range it.L {
			p = append(p, x.Enc()...)
		}
		return append(rlpHead(0xc0, len(p)), p...)
	default:
		if len(it.B) == 1 && it.B[0] < 0x80 {
			return []byte{it.B[0]}
		}
		return append(rlpHead(0x80, len(it.B)), it.B...)
	}
}

// TwosComp is the minimal two's-complement big-endian form of v (one zero byte for 0).
func TwosComp(v *big.Int) []byte {
	n := 1
	for {
		lo := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if v.Cmp(lo) < 0 && new(big.Int).Neg(lo).Cmp(v) <= 0 {
			break
		}
		n++
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	x := new(big.Int).Mod(v, m)
	b := x.Bytes()
	out := make([]byte, n)
	copy(out[n-len(b):], b)
	return out
}

// FromTwosComp is the inverse of TwosComp for any length.
func FromTwosComp(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

// ItemOf gives the item the codec has to produce for a Go value.
func ItemOf(v reflect.Value) Item {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return S([]byte{1})
		}
		return S([]byte{0})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return S(TwosComp(big.NewInt(v.Int())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return S(TwosComp(new(big.Int).SetUint64(v.Uint())))
	case reflect.String:
		return S([]byte(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return NullItem()
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return S(b)
		}
		it := L()
		for i := 0; i < v.Len(); i++ {
			it.L = append(it.L, ItemOf(v.Index(i)))
		}
		return it
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return NullItem()
		}
		return ItemOf(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return NullItem()
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			switch ks[i].Kind() {
			case reflect.String:
				return ks[i].String() < ks[j].String()
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				return ks[i].Uint() < ks[j].Uint()
			}
			return ks[i].Int() < ks[j].Int()
		})
		it := L()
		for _, k := range ks {
			it.L = append(it.L, ItemOf(k), ItemOf(v.MapIndex(k)))
		}
		return it
	case reflect.Struct:
		it := L()
		var add func(v reflect.Value)
		add = func(v reflect.Value) {
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath != "" { // unexported: its exported fields are promoted
					if f.Type.Kind() == reflect.Struct {
						add(v.Field(i))
					}
					continue
				}
				it.L = append(it.L, ItemOf(v.Field(i)))
			}
		}
		add(v)
		return it
	}
	panic("ref: kind " + v.Kind().String())
}

// Parse reads one item leniently (non-minimal sizes allowed); ok=false when malformed
// or incomplete.  n is the number of bytes consumed.
func Parse(b []byte) (it Item, n int, ok bool) {
	if len(b) == 0 {
		return
	}
	t := int(b[0])
	size := func(k int) (int, bool) {
		if len(b) < 1+k {
			return 0, false
		}
		var s uint64
		for _, x := range b[1 : 1+k] {
			if s > 1<<40 {
				return 0, false
			}
			s = s<<8 | uint64(x)
		}
		if s > uint64(len(b)) {
			return 0, false
		}
		return int(s), true
	}
	h, sz := 1, 0
	switch {
	case t < 0x80:
		return S(b[:1]), 1, true
	case t <= 0xb7:
		sz = t - 0x80
	case t < 0xc0:
		h = 1 + t - 0xb7
		if sz, ok = size(t - 0xb7); !ok {
			return
		}
	case t <= 0xf7:
		sz = t - 0xc0
	default:
		h = 1 + t - 0xf7
		if sz, ok = size(t - 0xf7); !ok {
			return
		}
		if t == 0xf8 && sz == 0 {
			return NullItem(), 2, true
		}
	}
	ok = false
	if len(b) < h+sz {
		return
	}
	p := b[h : h+sz]
	if t < 0xc0 {
		return S(p), h + sz, true
	}
	it.List = true
	for len(p) > 0 {
		x, k, ok := Parse(p)
		if !ok {
			return it, 0, false
		}
		it.L = append(it.L, x)
		p = p[k:]
	}
	return it, h + sz, true
}
