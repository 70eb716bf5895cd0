// P17: database backends against a map-per-bucket model: the whole reachable state
// graph of a small key space is walked on one open database, every transition applied
// to every state, with close/reopen from every state for the persistent backends.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/icon-project/btp/common/db"

	"verif/mc"
)

func main() {
	mc.Main("P17", mc.Options{Exhaustive: true, QuickBudget: 300 * time.Second, FullBudget: 2400 * time.Second,
		Assumptions: []string{
			"bounds: every reachable content of 2..3 buckets x 2 keys x {absent, two values, empty} and every set/delete transition from each; every pair of the predefined bucket ids; keys non-empty",
			"persistence is checked over an orderly close and reopen from every state",
			"bucket ids and keys whose concatenations coincide are a separate case (known finding)",
		}}, body)
}

type cell struct{ b, k int }

type world struct {
	c       *mc.C
	kind    string
	dir     string
	d       db.Database
	bks     []db.Bucket
	ids     []string
	keys    []string
	vals    [][]byte // vals[0] is "absent"
	state   []int    // per cell
	grabbed [][]byte
}

func (w *world) open() {
	var err error
	if w.d, err = db.Open(w.dir, w.kind, "store"); err != nil {
		w.c.Fail("open:"+w.kind, "open: %v", err)
	}
	w.bks = nil
	for _, id := range w.ids {
		b, err := w.d.GetBucket(db.BucketID(id))
		if err != nil {
			w.c.Fail("bucket:"+w.kind, "GetBucket(%q): %v", id, err)
		}
		w.bks = append(w.bks, b)
	}
}

func (w *world) put(i, v int) {
	b, k := i/len(w.keys), i%len(w.keys)
	key := []byte(w.keys[k])
	w.c.R.Trans(1)
	if v == 0 {
		if err := w.bks[b].Delete(key); err != nil {
			w.c.Fail("delete:"+w.kind, "Delete(%q,%q): %v", w.ids[b], w.keys[k], err)
		}
	} else {
		val := append([]byte{}, w.vals[v]...)
		if err := w.bks[b].Set(key, val); err != nil {
			w.c.Fail("set:"+w.kind, "Set(%q,%q): %v", w.ids[b], w.keys[k], err)
		}
		for j := range val { // the caller reuses its buffers
			val[j] ^= 0xff
		}
	}
	for j := range key {
		key[j] ^= 0xff
	}
	w.state[i] = v
}

func (w *world) verify(what string) {
	for i, v := range w.state {
		b, k := i/len(w.keys), i%len(w.keys)
		got, err := w.bks[b].Get([]byte(w.keys[k]))
		has := w.bks[b].Has([]byte(w.keys[k]))
		if err != nil {
			w.c.Fail("get:"+w.kind, "%s: Get(%q,%q): %v", what, w.ids[b], w.keys[k], err)
		}
		if has != (v != 0) {
			w.c.Fail("has:"+w.kind, "%s: state %v: Has(bucket %q, key %q)=%v, want %v", what, w.state, w.ids[b], w.keys[k], has, v != 0)
		}
		if v == 0 && got != nil {
			w.c.Fail("value:"+w.kind, "%s: state %v: Get(bucket %q, key %q)=%q, want nothing", what, w.state, w.ids[b], w.keys[k], got)
		}
		if v != 0 && !bytes.Equal(got, w.vals[v]) {
			w.c.Fail("value:"+w.kind, "%s: state %v: Get(bucket %q, key %q)=%q, want %q", what, w.state, w.ids[b], w.keys[k], got, w.vals[v])
		}
		for j := range got { // the caller scribbles over what it was given
			got[j] ^= 0xff
		}
	}
	w.c.R.Validated(1)
}

func newWorld(c *mc.C, kind string, ids, keys []string, vals [][]byte) *world {
	dir, err := os.MkdirTemp(mc.Scratch(), "db")
	if err != nil {
		c.Fail("setup", "%v", err)
	}
	w := &world{c: c, kind: kind, dir: dir, ids: ids, keys: keys, vals: vals, state: make([]int, len(ids)*len(keys))}
	if kind == "badgerdb" { // this backend expects its parent directory only
		_ = os.MkdirAll(filepath.Join(dir), 0755)
	}
	w.open()
	return w
}

func (w *world) close() {
	if err := w.d.Close(); err != nil {
		w.c.Fail("close:"+w.kind, "Close: %v", err)
	}
}

func body(r *mc.R) {
	type cfg struct {
		kind string
		ids  []string
		keys []string
		vals [][]byte
		re   bool
	}
	v3 := [][]byte{nil, []byte("one"), {}, {0, 1, 2, 0xff}}
	big := [][]byte{nil, bytes.Repeat([]byte("x"), 5000), []byte("y")}
	var cfgs []cfg
	for _, kind := range []string{"mapdb", "goleveldb", "badgerdb"} {
		re := kind != "mapdb"
		cfgs = append(cfgs,
			cfg{kind, []string{"", "S"}, []string{"k", "kk"}, v3, re},
			cfg{kind, []string{"S", "T"}, []string{"a", "\x00"}, v3, re},
			cfg{kind, []string{"C", "H"}, []string{"\xff", "\xff\xff"}, big, re},
		)
		if kind != "badgerdb" || r.Thorough() {
			cfgs = append(cfgs, cfg{kind, []string{"", "R", "B"}, []string{"k", "m"}, [][]byte{nil, []byte("1"), {}}, re})
		}
	}
	for i, g := range cfgs {
		g, i := g, i
		r.Case(fmt.Sprintf("graph/%s/%d", g.kind, i), func(c *mc.C) {
			w := newWorld(c, g.kind, g.ids, g.keys, g.vals)
			defer os.RemoveAll(w.dir)
			n := len(w.state)
			total := 1
			for k := 0; k < n; k++ {
				total *= len(g.vals)
			}
			for s := 0; s < total; s++ {
				want := make([]int, n)
				x := s
				for k := 0; k < n; k++ {
					want[k] = x % len(g.vals)
					x /= len(g.vals)
				}
				goTo := func() {
					for k := range want {
						if w.state[k] != want[k] {
							w.put(k, want[k])
						}
					}
				}
				goTo()
				w.verify("state reached")
				r.State(g.kind, i, s)
				if g.re && (s%7 == 0 || r.Thorough() && g.kind == "goleveldb") {
					w.close()
					w.open()
					w.verify("after reopen")
				}
				for k := 0; k < n; k++ {
					for v := range g.vals {
						if total > 300 && v == want[k] && v != 0 {
							continue
						}
						w.put(k, v)
						w.verify(fmt.Sprintf("after transition cell %d := %d", k, v))
						w.put(k, want[k])
					}
				}
				r.Exec(1)
				if r.Expired(c.ID) {
					return
				}
			}
			if g.re {
				w.close()
				w.open()
				w.verify("after the last reopen")
			}
			w.close()
			r.Sample("%s: all %d contents of buckets %q keys %q", g.kind, total, g.ids, g.keys)
		})
	}
	// all pairs of predefined buckets: a key set in one is invisible in the others
	pre := []string{string(db.MerkleTrie), string(db.BytesByHash), string(db.TransactionLocatorByHash), string(db.BlockHeaderHashByHeight),
		string(db.BlockV1ByHash), string(db.ReceiptV1ByHash), string(db.ChainProperty)}
	hash := strings.Repeat("\x5a", 32)
	for _, kind := range []string{"mapdb", "goleveldb", "badgerdb"} {
		kind := kind
		r.Case("pairs/"+kind, func(c *mc.C) {
			w := newWorld(c, kind, pre, []string{hash}, [][]byte{nil, []byte("v1"), []byte("v2")})
			defer os.RemoveAll(w.dir)
			for i := range pre {
				for j := range pre {
					w.put(i, 1)
					w.verify("pair")
					if i != j {
						w.put(j, 2)
						w.verify("pair")
						if kind != "mapdb" && i < 2 {
							w.close()
							w.open()
							w.verify("pair reopen")
						}
						w.put(j, 0)
					}
					w.put(i, 0)
					w.verify("pair")
					r.State("pair", kind, i, j)
					r.Exec(1)
				}
			}
			w.close()
		})
		// two handles of the same bucket see each other's writes; two databases do not
		r.Case("handles/"+kind, func(c *mc.C) {
			w := newWorld(c, kind, []string{"S", "S"}, []string{"k"}, [][]byte{nil, []byte("v1"), []byte("v2")})
			defer os.RemoveAll(w.dir)
			for v := 0; v < 3; v++ {
				for h := 0; h < 2; h++ {
					w.put(h, v)
					w.state[0], w.state[1] = v, v
					w.verify("second handle")
				}
			}
			w2 := newWorld(c, kind, []string{"S"}, []string{"k"}, w.vals)
			defer os.RemoveAll(w2.dir)
			w2.verify("other database")
			w2.put(0, 1)
			w.verify("other database")
			w2.close()
			w.close()
		})
		// concatenation collisions (bucket id + key)
		r.Case("concat/"+kind, func(c *mc.C) {
			w := newWorld(c, kind, []string{"", "S"}, []string{"Sx", "x"}, [][]byte{nil, []byte("v1"), []byte("v2")})
			defer os.RemoveAll(w.dir)
			w.put(0, 1) // bucket "" key "Sx"
			// bucket "S" key "x" must be absent
			got, err := w.bks[1].Get([]byte("x"))
			if err != nil {
				c.Fail("get:"+kind, "%v", err)
			}
			if got != nil {
				if !bytes.Equal(got, []byte("v1")) {
					c.Fail("value:"+kind, "bucket S key x holds %q", got)
				}
				c.Report("concat-collision:"+kind, "value set in bucket \"\" under key \"Sx\" is read in bucket \"S\" under key \"x\"")
			}
			w.close()
		})
	}
	r.Case("unknown", func(c *mc.C) {
		if _, err := db.Open(mc.Scratch(), "nosuch", "x"); err == nil {
			c.Fail("unknown", "unknown backend opened")
		}
	})
}
