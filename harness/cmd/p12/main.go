// P12: Merkle tree accumulator witnesses.
package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mta"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P12", mc.Options{Exhaustive: true, QuickBudget: 240 * time.Second, FullBudget: 2400 * time.Second,
		Assumptions: []string{
			"bounds: accumulator lengths 0..68 (quick) / 0..132 (thorough); every item; every pair of witness length and verifier length; offsets 0,1,7,1000",
			"tamper set: every step's hash bit flipped, direction flipped, step dropped/duplicated/swapped, other item's hash; SHA3 collision freedom",
		}}, body)
}

func data(i int) []byte { return []byte(fmt.Sprintf("item-%d", i)) }
func leaf(i int) []byte { return ref.Sha3(data(i)) }

func refOf(n int) *ref.MTA {
	m := &ref.MTA{}
	for i := 0; i < n; i++ {
		m.Leaves = append(m.Leaves, leaf(i))
	}
	return m
}

func bucket(c *mc.C) db.Bucket {
	b, err := db.NewMapDB().GetBucket("mta")
	if err != nil {
		c.Fail("setup", "%v", err)
	}
	return b
}

// mode 0: AddData, 1: AddHash, 2: alternate; flush: never / every item / recover every item
func build(c *mc.C, n, mode, fl int) *mta.Accumulator {
	a := &mta.Accumulator{KeyForState: []byte("k"), Bucket: bucket(c)}
	for i := 0; i < n; i++ {
		var w []mta.Witness
		if mode == 0 || mode == 2 && i%2 == 0 {
			w = a.AddData(data(i))
		} else {
			w = a.AddHash(leaf(i))
		}
		c.R.Trans(1)
		same(c, "add-witness", w, refOf(i+1).Witness(i), fmt.Sprintf("witness returned when adding item %d", i))
		if fl > 0 {
			if err := a.Flush(); err != nil {
				c.Fail("flush", "%v", err)
			}
		}
		if fl == 2 {
			b := &mta.Accumulator{KeyForState: []byte("k"), Bucket: a.Bucket}
			if err := b.Recover(); err != nil {
				c.Fail("recover", "%v", err)
			}
			a = b
		}
	}
	return a
}

func same(c *mc.C, key string, w []mta.Witness, r []ref.Step, what string) {
	ok := len(w) == len(r)
	for i := 0; ok && i < len(w); i++ {
		ok = (w[i].Direction == mta.Left) == r[i].Left && bytes.Equal(w[i].HashValue, r[i].Hash)
	}
	if !ok {
		c.Fail(key, "%s differs from the reference: got %v, want %d steps %x", what, w, len(r), r)
	}
}

func cp(w []mta.Witness) []mta.Witness {
	o := make([]mta.Witness, len(w))
	for i := range w {
		o[i] = mta.Witness{Direction: w[i].Direction, HashValue: append([]byte(nil), w[i].HashValue...)}
	}
	return o
}

func body(r *mc.R) {
	maxL := 68
	if r.Thorough() {
		maxL = 132
	}
	for n := 0; n <= maxL; n++ {
		for mode := 0; mode < 3; mode++ {
			for fl := 0; fl < 3; fl++ {
				n, mode, fl := n, mode, fl
				r.Case(fmt.Sprintf("one/%d/%d/%d", n, mode, fl), func(c *mc.C) { one(c, n, mode, fl) })
			}
		}
		n := n
		r.Case(fmt.Sprintf("pair/%d", n), func(c *mc.C) { pair(c, n, maxL) })
		for _, off := range []int64{0, 1, 7, 1000} {
			off := off
			r.Case(fmt.Sprintf("ext/%d/%d", n, off), func(c *mc.C) { ext(c, n, off) })
		}
	}
}

func one(c *mc.C, n, mode, fl int) {
	r := c.R
	a := build(c, n, mode, fl)
	m := refOf(n)
	if a.Len() != int64(n) {
		c.Fail("len", "Len=%d want %d", a.Len(), n)
	}
	if _, err := a.WitnessFor(-1); err == nil {
		c.Fail("range", "WitnessFor(-1) of %d items gives a witness", n)
	}
	for _, i := range []int{n, n + 1, n + 1000} {
		if _, err := a.WitnessFor(int64(i)); err == nil {
			c.Fail("range", "WitnessFor(%d) of %d items gives a witness", i, n)
		}
	}
	for i := 0; i < n; i++ {
		w, err := a.WitnessFor(int64(i))
		if err != nil {
			c.Fail("witness", "WitnessFor(%d) of %d: %v", i, n, err)
		}
		same(c, "witness", w, m.Witness(i), fmt.Sprintf("WitnessFor(%d) of %d", i, n))
		hs := mta.WitnessesToHashes(w)
		rel := i // position inside its perfect tree
		for k := 62; k >= 0; k-- {
			if n&(1<<uint(k)) != 0 && rel >= 1<<uint(k) {
				rel -= 1 << uint(k)
			} else if n&(1<<uint(k)) != 0 {
				break
			}
		}
		same(c, "hashes", mta.HashesToWitness(hs, int64(rel)), m.Witness(i), fmt.Sprintf("HashesToWitness(%d) of %d", i, n))
		if g := mta.GetHeightFromWitness(w, int64(n)); g != int64(i) {
			c.Fail("height", "GetHeightFromWitness of item %d of %d gives %d", i, n, g)
		}
		if g := mta.GetDepthByHeightAndAccLength(int64(i), int64(n)); g != len(w) {
			c.Fail("depth", "GetDepthByHeightAndAccLength(%d,%d)=%d want %d", i, n, g, len(w))
		}
		if err := a.Verify(w, leaf(i)); err != nil {
			c.Fail("verify", "witness of item %d of %d is refused: %v", i, n, err)
		}
		nd, err := a.GetNode(int64(i))
		if err != nil || !bytes.Equal(nd.Hash(), leaf(i)) {
			c.Fail("node", "GetNode(%d) of %d: %v", i, n, err)
		}
		r.State("one", n, mode, fl, i)
		r.Trans(4)
		r.Validated(1)
		if mode != 0 || n > 20 {
			continue
		}
		neg := func(what string, w []mta.Witness, h []byte) {
			var err error
			if s, pe := mc.Try(func() { err = a.Verify(w, h) }); pe != nil {
				c.Fail("verify-crash", "Verify crashes (%s) for %s, item %d of %d: %v", s, what, i, n, pe)
			}
			if err == nil {
				c.Fail("verify-accepts", "Verify accepts %s, item %d of %d", what, i, n)
			}
			if s, pe := mc.Try(func() { err = a.VerifyWithAccLength(w, h, int64(n)) }); pe != nil {
				c.Fail("verify-crash", "VerifyWithAccLength crashes (%s) for %s, item %d of %d: %v", s, what, i, n, pe)
			}
			if err == nil {
				c.Fail("verify-accepts", "VerifyWithAccLength accepts %s, item %d of %d", what, i, n)
			}
			r.Trans(1)
		}
		tamper(w, leaf(i), neg)
		for j := 0; j <= n; j++ {
			if j != i {
				neg("another item's hash", w, leaf(j))
			}
		}
	}
	r.Exec(1)
}

func tamper(w []mta.Witness, h []byte, neg func(string, []mta.Witness, []byte)) {
	for _, bit := range []int{0, 100, 255} {
		h2 := append([]byte(nil), h...)
		h2[bit/8] ^= 1 << uint(bit%8)
		neg("an altered item hash", w, h2)
	}
	for k := range w {
		for _, bit := range []int{0, 77, 255} {
			q := cp(w)
			q[k].HashValue[bit/8] ^= 1 << uint(bit%8)
			neg("an altered step hash", q, h)
		}
		q := cp(w)
		q[k].Direction = 1 - q[k].Direction
		neg("a flipped direction", q, h)
		q = cp(w)
		q = append(q[:k], q[k+1:]...)
		neg("a missing step", q, h)
		q = cp(w)
		q = append(q[:k+1], append([]mta.Witness{w[k]}, q[k+1:]...)...)
		neg("a repeated step", q, h)
		for j := k + 1; j < len(w); j++ {
			q = cp(w)
			q[k], q[j] = q[j], q[k]
			neg("swapped steps", q, h)
		}
	}
	q := append(cp(w), mta.Witness{Direction: mta.Left, HashValue: h})
	neg("a surplus step", q, h)
}

// pair: a witness made at length lw is checked by an accumulator of length n.
func pair(c *mc.C, n, maxL int) {
	r := c.R
	a := build(c, n, 0, 1)
	for lw := 1; lw <= maxL; lw++ {
		src := refOf(lw)
		for i := 0; i < lw; i++ {
			var w []mta.Witness
			for _, s := range src.Witness(i) {
				d := mta.Right
				if s.Left {
					d = mta.Left
				}
				w = append(w, mta.Witness{Direction: d, HashValue: s.Hash})
			}
			err := a.VerifyWithAccLength(cp(w), leaf(i), int64(lw))
			r.Trans(1)
			r.Validated(1)
			if i < n && err != nil {
				c.Fail("pair-refused", "witness of item %d made at length %d is refused at length %d: %v", i, lw, n, err)
			}
			if i >= n && err == nil {
				c.Fail("pair-accepted", "witness of item %d made at length %d is accepted at length %d", i, lw, n)
			}
			if lw <= n {
				// the longer accumulator can produce the older witness
				g, err := a.WitnessForWithAccLength(int64(i), int64(lw))
				if err != nil {
					c.Fail("old-witness", "WitnessForWithAccLength(%d,%d) at length %d: %v", i, lw, n, err)
				}
				same(c, "old-witness", g, src.Witness(i), fmt.Sprintf("WitnessForWithAccLength(%d,%d) at length %d", i, lw, n))
			} else if _, err := a.WitnessForWithAccLength(int64(i), int64(lw)); err == nil {
				c.Fail("range", "WitnessForWithAccLength(%d,%d) at length %d succeeds", i, lw, n)
			}
			if n <= 12 && lw <= 12 {
				tamper(w, leaf(i), func(what string, q []mta.Witness, h []byte) {
					var err error
					if s, pe := mc.Try(func() { err = a.VerifyWithAccLength(q, h, int64(lw)) }); pe != nil {
						c.Fail("verify-crash", "VerifyWithAccLength crashes (%s) for %s: item %d made at %d checked at %d: %v", s, what, i, lw, n, pe)
					}
					// a longer witness is cut to what the shorter verifier needs: only steps
					// that it uses decide
					if err == nil && !stillValid(a, q, h, n) {
						c.Fail("verify-accepts", "VerifyWithAccLength accepts %s: item %d made at %d checked at %d", what, i, lw, n)
					}
					r.Trans(1)
				})
			}
			r.State("pair", n, lw, i)
		}
		for _, i := range []int64{int64(lw), int64(lw) + 1, -1} {
			if _, err := a.WitnessForWithAccLength(i, int64(lw)); err == nil {
				c.Fail("range", "WitnessForWithAccLength(%d,%d) at length %d succeeds", i, lw, n)
			}
		}
	}
	r.Exec(1)
}

// stillValid: some prefix of the witness leads h to one of the first n items' roots,
// or the altered part was a proper prefix that completes to a root: decided with the
// reference: h is a leaf of the accumulator and the steps of q are those of the
// reference path up to the length used.
func stillValid(a *mta.Accumulator, q []mta.Witness, h []byte, n int) bool {
	m := refOf(n)
	for i := 0; i < n; i++ {
		if !bytes.Equal(h, m.Leaves[i]) {
			continue
		}
		full := m.Witness(i)
		ok := true
		for k := 0; k < len(q) && k < len(full); k++ {
			if (q[k].Direction == mta.Left) != full[k].Left || !bytes.Equal(q[k].HashValue, full[k].Hash) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func ext(c *mc.C, n int, off int64) {
	r := c.R
	a := mta.NewExtAccumulator([]byte("k"), bucket(c), off)
	m := refOf(n)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			a.AddData(data(i))
		} else {
			a.AddHash(leaf(i))
		}
	}
	if a.Height() != off+int64(n) || a.Offset() != off || a.Len() != int64(n) {
		c.Fail("ext-height", "height %d offset %d len %d, want %d %d %d", a.Height(), a.Offset(), a.Len(), off+int64(n), off, n)
	}
	if err := a.Flush(); err != nil {
		c.Fail("flush", "%v", err)
	}
	b := mta.NewExtAccumulator([]byte("k"), a.Bucket, off)
	if err := b.Recover(); err != nil {
		c.Fail("recover", "%v", err)
	}
	for _, x := range []*mta.ExtAccumulator{a, b} {
		for h := off - 1; h <= off+int64(n)+2; h++ {
			for at := off; at <= off+int64(n)+2; at++ {
				gat, w, err := x.WitnessForAt(h, at, off)
				r.Trans(1)
				eff := at
				if eff > off+int64(n) {
					eff = off + int64(n)
				}
				if h <= off || h > eff {
					if err == nil {
						c.Fail("ext-range", "WitnessForAt(%d,%d,%d) of heights %d..%d succeeds", h, at, off, off+1, off+int64(n))
					}
					continue
				}
				if err != nil || gat != eff {
					c.Fail("ext-witness", "WitnessForAt(%d,%d,%d): at=%d err=%v, want at=%d", h, at, off, gat, err, eff)
				}
				i := int(h - 1 - off)
				mm := &ref.MTA{Leaves: m.Leaves[:eff-off]}
				same(c, "ext-witness", w, mm.Witness(i), fmt.Sprintf("WitnessForAt(%d,%d,%d)", h, at, off))
				if err := x.VerifyAt(cp(w), leaf(i), gat, off); err != nil {
					c.Fail("ext-verify", "VerifyAt refuses WitnessForAt(%d,%d,%d): %v", h, at, off, err)
				}
				if err := x.VerifyAt(cp(w), leaf(i+1), gat, off); err == nil {
					c.Fail("ext-verify", "VerifyAt accepts another item for WitnessForAt(%d,%d,%d)", h, at, off)
				}
				r.Validated(1)
			}
			nd, err := x.GetNode(h)
			if h > off && h <= off+int64(n) {
				if err != nil || !bytes.Equal(nd.Hash(), leaf(int(h-1-off))) {
					c.Fail("node", "GetNode(%d): %v", h, err)
				}
			} else if err == nil {
				c.Fail("ext-range", "GetNode(%d) of heights %d..%d succeeds", h, off+1, off+int64(n))
			}
		}
		for _, o := range []int64{off - 1, off + 1} {
			if _, _, err := x.WitnessForAt(off+1, off+int64(n), o); err == nil {
				c.Fail("ext-offset", "WitnessForAt with offset %d accepted at offset %d", o, off)
			}
			if err := x.VerifyAt(nil, leaf(0), off+1, o); err == nil {
				c.Fail("ext-offset", "VerifyAt with offset %d accepted at offset %d", o, off)
			}
		}
	}
	r.State("ext", n, off)
	r.Exec(1)
}
