// P23: trie proofs.
package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/icon-project/btp/common/mpt"
	"golang.org/x/crypto/sha3"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P23", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: every non-empty set of up to 4 (quick) / 5 (thorough) keys out of 12 keys of 0..3 nibbles-pairs chosen to produce every node kind (branch with and without value, extension of even and odd length, leaf of even and odd length, root of every kind); values of 32..40 bytes, so every node is referenced by hash (nodes shorter than a hash are not embedded by this format)",
			"alterations: every byte of every node x 3 masks, every node removed, doubled, swapped with every other, replaced by every other node of the trie, every node of the trie or a foreign node inserted at every place, every node cut at every length or lengthened",
			"oracle: independent trie construction; with the first hash equal to the root, a list is accepted exactly when it is the proof of a present key",
		}}, body)
}

func h(b []byte) []byte { s := sha3.Sum256(b); return s[:] }

type kv struct {
	n []byte // nibbles
	v []byte
}

func hp(n []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 0x20
	}
	var out []byte
	if len(n)%2 == 1 {
		out = append(out, f|0x10|n[0])
		n = n[1:]
	} else {
		out = append(out, f)
	}
	for i := 0; i < len(n); i += 2 {
		out = append(out, n[i]<<4|n[i+1])
	}
	return out
}

// build returns the encoding of the subtrie; proofs maps a value to its node list.
func build(kvs []kv, proofs map[string][][]byte) []byte {
	var enc []byte
	if len(kvs) == 1 {
		enc = ref.L(ref.S(hp(kvs[0].n, true)), ref.S(kvs[0].v)).Enc()
		proofs[string(kvs[0].v)] = [][]byte{enc}
		return enc
	}
	p := kvs[0].n
	for _, k := range kvs[1:] {
		i := 0
		for i < len(p) && i < len(k.n) && p[i] == k.n[i] {
			i++
		}
		p = p[:i]
	}
	sub := map[string][][]byte{}
	if len(p) > 0 {
		var rest []kv
		for _, k := range kvs {
			rest = append(rest, kv{k.n[len(p):], k.v})
		}
		b := build(rest, sub)
		enc = ref.L(ref.S(hp(p, false)), ref.S(h(b))).Enc()
	} else {
		items := make([]ref.Item, 17)
		for i := range items {
			items[i] = ref.S(nil)
		}
		here := ""
		for x := byte(0); x < 16; x++ {
			var g []kv
			for _, k := range kvs {
				if len(k.n) > 0 && k.n[0] == x {
					g = append(g, kv{k.n[1:], k.v})
				}
			}
			if len(g) > 0 {
				items[x] = ref.S(h(build(g, sub)))
			}
		}
		for _, k := range kvs {
			if len(k.n) == 0 {
				items[16] = ref.S(k.v)
				here = string(k.v)
			}
		}
		enc = ref.L(items...).Enc()
		if here != "" {
			proofs[here] = [][]byte{enc}
		}
	}
	for v, l := range sub {
		proofs[v] = append([][]byte{enc}, l...)
	}
	return enc
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func body(r *mc.R) {
	ks := [][]byte{{}, {0x00}, {0x01}, {0x10}, {0x12}, {0x12, 0x34}, {0x12, 0x35}, {0x12, 0x00, 0x00}, {0xff}, {0xff, 0xff}, {0xf0, 0x01}, {0x80, 0x12, 0x34}}
	max := 4
	if r.Thorough() {
		max = 5
	}
	var sets [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) > 0 {
			sets = append(sets, append([]int{}, cur...))
		}
		if len(cur) == max {
			return
		}
		for i := from; i < len(ks); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	for _, s := range sets {
		s := s
		r.Case(fmt.Sprintf("set %v", s), func(c *mc.C) { set(c, ks, s) })
	}
	shapes(r)
}

func set(c *mc.C, ks [][]byte, s []int) {
	r := c.R
	var kvs []kv
	for _, i := range s {
		var n []byte
		for _, b := range ks[i] {
			n = append(n, b>>4, b&15)
		}
		kvs = append(kvs, kv{n, bytes.Repeat([]byte{byte(i + 1)}, 32+i%9)})
	}
	proofs := map[string][][]byte{}
	root := h(build(kvs, proofs))
	if len(proofs) != len(kvs) {
		c.Fail("harness", "reference trie lost keys")
	}
	var all [][]byte
	seen := map[string]bool{}
	for _, k := range kvs {
		for _, n := range proofs[string(k.v)] {
			if !seen[string(n)] {
				seen[string(n)] = true
				all = append(all, n)
			}
		}
	}
	try := func(what string, list [][]byte) {
		in := make([][]byte, len(list))
		for i := range list {
			in[i] = append([]byte{}, list[i]...)
		}
		var mp *mpt.MptProof
		var err error
		if site, p := mc.Try(func() { mp, err = mpt.NewMptProof(in) }); p != nil {
			c.Fail("crash:"+site, "%s of set %v: %v: %x", what, s, p, list)
		}
		r.Trans(1)
		r.Exec(1)
		var val []byte
		for v, l := range proofs {
			if same(l, list) {
				val = []byte(v)
			}
		}
		if val != nil {
			if err != nil {
				c.Fail("refused", "%s of set %v: valid proof refused: %v", what, s, err)
			}
			if !bytes.Equal(mp.Hashes[0], root) {
				c.Fail("root", "%s of set %v: root %x, expected %x", what, s, mp.Hashes[0], root)
			}
			if !bytes.Equal(mp.Leaf().Data, val) {
				c.Fail("value", "%s of set %v: value %x, expected %x", what, s, mp.Leaf().Data, val)
			}
			for i := range list {
				if !bytes.Equal(mp.Hashes[i], h(list[i])) {
					c.Fail("hash", "%s of set %v: hash %d is wrong", what, s, i)
				}
			}
			if !same(in, list) {
				c.Fail("mutated", "proof input changed")
			}
		} else if err == nil && bytes.Equal(mp.Hashes[0], root) {
			c.Fail("accepted", "%s of set %v: accepted with value %x: %x", what, s, mp.Leaf().Data, list)
		} else if err == nil {
			for i := range list {
				if !bytes.Equal(mp.Hashes[i], h(list[i])) {
					c.Fail("hash", "%s of set %v: hash %d is wrong", what, s, i)
				}
				if i > 0 && !bytes.Contains(list[i-1], mp.Hashes[i]) {
					c.Fail("unlinked", "%s of set %v: node %d is not referenced by node %d", what, s, i, i-1)
				}
			}
		}
		r.Validated(1)
		r.StateBytes(bytes.Join(list, []byte("|")))
	}
	foreign := ref.L(ref.S([]byte{0x20}), ref.S(bytes.Repeat([]byte{0x77}, 33))).Enc()
	pool := append(append([][]byte{}, all...), foreign)
	for _, k := range kvs {
		pr := proofs[string(k.v)]
		try("proof", pr)
		cp := func() [][]byte { return append([][]byte{}, pr...) }
		for i := range pr {
			try("removed", append(append([][]byte{}, pr[:i]...), pr[i+1:]...))
			try("doubled", append(append(append([][]byte{}, pr[:i]...), pr[i]), pr[i:]...))
			for j := i + 1; j < len(pr); j++ {
				m := cp()
				m[i], m[j] = m[j], m[i]
				try("swapped", m)
			}
			for b := range pr[i] {
				for _, a := range []byte{0x01, 0x80, 0x20} {
					m := cp()
					m[i] = append([]byte{}, pr[i]...)
					m[i][b] ^= a
					try("altered", m)
				}
				m := cp()
				m[i] = pr[i][:b]
				try("cut", m)
			}
			m := cp()
			m[i] = append(append([]byte{}, pr[i]...), 0)
			try("lengthened", m)
			for _, o := range pool {
				m := cp()
				m[i] = o
				try("replaced", m)
			}
		}
		for i := 0; i <= len(pr); i++ {
			for _, o := range append(pool, nil, []byte{0x80}, []byte{0xc0}) {
				try("inserted", append(append(append([][]byte{}, pr[:i]...), o), pr[i:]...))
			}
		}
	}
	try("empty", nil)
}

// shapes: single and pairs of arbitrary nodes never crash.
func shapes(r *mc.R) {
	pieces := []ref.Item{ref.S(nil), ref.S([]byte{0x20}), ref.S([]byte{0x00}), ref.S([]byte{0x31, 2}), ref.S(bytes.Repeat([]byte{1}, 32)), ref.L(), ref.L(ref.S([]byte{1}))}
	for n := 0; n <= 19; n++ {
		n := n
		r.Case(fmt.Sprintf("shape %d", n), func(c *mc.C) {
			for a, pa := range pieces {
				for b, pb := range pieces {
					for d, pc := range pieces {
						items := make([]ref.Item, n)
						for i := range items {
							items[i] = pb
						}
						if n > 0 {
							items[0] = pa
						}
						if n > 1 {
							items[n-1] = pc
						}
						e := ref.L(items...).Enc()
						lists := [][][]byte{{e}, {e, e}}
						// a parent that references e
						lists = append(lists, [][]byte{ref.L(ref.S([]byte{0}), ref.S(h(e))).Enc(), e})
						lists = append(lists, [][]byte{ref.L(ref.S([]byte{0x20}), ref.S(h(e))).Enc(), e})
						for li, l := range lists {
							var mp *mpt.MptProof
							var err error
							if site, p := mc.Try(func() {
								mp, err = mpt.NewMptProof(l)
								if err == nil {
									mp.Leaf()
								}
							}); p != nil {
								c.Fail("crash:"+site, "nodes %x: %v", l, p)
							}

							nested := n > 0 && a >= 5 || n > 1 && d >= 5 || n > 2 && b >= 5
							want := false
							if n == 2 && !nested && (a == 1 || a == 3) {
								want = true
							}
							if n == 17 && !nested && d != 0 {
								want = true
							}
							want = want && li != 1 && li != 3
							if want != (err == nil) && !nested {
								c.Fail("shape", "nodes %x: err %v, expected accepted=%v", l, err, want)
							}
							r.Trans(1)
							r.Validated(1)
							r.Exec(1)
						}
						r.State(n, a, b, d)
					}
				}
			}
		})
	}
}
