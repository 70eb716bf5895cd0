// P18: layered database.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/icon-project/btp/common/db"

	"verif/mc"
)

func main() {
	mc.Main("P18", mc.Options{Exhaustive: true, QuickBudget: 300 * time.Second, FullBudget: 2400 * time.Second,
		Assumptions: []string{
			"bounds: all operation sequences of length 4 (quick) / 5 (thorough) over {set, set empty, delete} x 2 buckets x 2 keys through the layer, direct writes below it, flush commit, flush discard, flush failing at the k-th underlying write; every initial content class of the underlying database",
			"the underlying database is an in-memory map with injected write failures",
		}}, body)
}

var errDisk = errors.New("injected failure")

type under struct {
	m      map[string]map[string][]byte
	fail   int // countdown, -1 never
	writes int
}

type ubk struct {
	u  *under
	id string
}

func (u *under) GetBucket(id db.BucketID) (db.Bucket, error) { return &ubk{u, string(id)}, nil }
func (u *under) Close() error                                { return nil }
func (b *ubk) Get(k []byte) ([]byte, error) {
	v, ok := b.u.m[b.id][string(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (b *ubk) Has(k []byte) bool { _, ok := b.u.m[b.id][string(k)]; return ok }
func (b *ubk) step() error {
	b.u.writes++
	if b.u.fail >= 0 {
		if b.u.fail == 0 {
			b.u.fail = -1
			return errDisk
		}
		b.u.fail--
	}
	return nil
}
func (b *ubk) Set(k, v []byte) error {
	if err := b.step(); err != nil {
		return err
	}
	if b.u.m[b.id] == nil {
		b.u.m[b.id] = map[string][]byte{}
	}
	b.u.m[b.id][string(k)] = append([]byte{}, v...)
	return nil
}
func (b *ubk) Delete(k []byte) error {
	if err := b.step(); err != nil {
		return err
	}
	delete(b.u.m[b.id], string(k))
	return nil
}

var ids = []string{"", "S"}
var keys = []string{"k", "kk"}
var vals = [][]byte{nil, []byte("one"), {}, []byte("two")}

const cells = 4

type model struct {
	under   [cells]int
	layer   [cells]int // -1: untouched
	flushed bool
}

func (m *model) view(i int) int {
	if m.layer[i] >= 0 {
		return m.layer[i]
	}
	return m.under[i]
}

func body(r *mc.R) {
	depth := 4
	if r.Thorough() {
		depth = 5
	}
	const nop = 3*cells + 2*cells + 3 + 1
	for init := 0; init < 4; init++ {
		for op0 := 0; op0 < nop; op0++ {
			init, op0 := init, op0
			r.Explore(fmt.Sprintf("seq/%d/%d", init, op0), func(c *mc.C, x *mc.X) { run(c, x, init, op0, depth, nop) })
		}
	}
}

func run(c *mc.C, x *mc.X, init, op0, depth, nop int) {
	r := c.R
	u := &under{m: map[string]map[string][]byte{}, fail: -1}
	var m model
	for i := range m.layer {
		m.layer[i] = -1
	}
	for i := 0; i < cells; i++ {
		switch init {
		case 1:
			m.under[i] = 1
		case 2:
			m.under[i] = i % 2
		case 3:
			m.under[i] = 2
		}
	}
	ub := make([]db.Bucket, 2)
	for b := range ids {
		ub[b], _ = u.GetBucket(db.BucketID(ids[b]))
	}
	for i, v := range m.under {
		if v != 0 {
			_ = ub[i/2].Set([]byte(keys[i%2]), vals[v])
		}
	}
	l := db.NewLayerDB(u)
	lb := make([]db.Bucket, 2)
	get := func() {
		for b := range ids {
			var err error
			if lb[b], err = l.GetBucket(db.BucketID(ids[b])); err != nil {
				c.Fail("bucket", "%v", err)
			}
		}
	}
	// choice: obtain bucket handles before or lazily at each use
	lazy := x.Choose(2) == 1
	if !lazy {
		get()
	}
	log := fmt.Sprintf("init %d lazy %v:", init, lazy)
	check := func() {
		h := lb
		if lazy {
			h = make([]db.Bucket, 2)
			for b := range ids {
				h[b], _ = l.GetBucket(db.BucketID(ids[b]))
			}
		}
		for i := 0; i < cells; i++ {
			k := []byte(keys[i%2])
			cmp := func(where string, bk db.Bucket, want int) {
				got, err := bk.Get(k)
				if err != nil {
					c.Fail("get", "[%s] %s Get: %v", log, where, err)
				}
				if bk.Has(k) != (want != 0) || (want == 0) != (got == nil) || want != 0 && !bytes.Equal(got, vals[want]) {
					c.Fail(where, "[%s] %s: cell %d has=%v value=%q, want %d %q", log, where, i, bk.Has(k), got, want, vals[want])
				}
				for j := range got {
					got[j] ^= 0xff
				}
			}
			cmp("underlying", ub[i/2], m.under[i])
			cmp("layer", h[i/2], m.view(i))
		}
		r.Validated(1)
		r.State(m.under, m.layer, m.flushed)
	}
	check()
	commit := func(fail int) {
		u.writes, u.fail = 0, fail
		err := l.Flush(true)
		u.fail = -1
		r.Trans(1)
		if fail >= 0 && u.writes > fail {
			if err == nil {
				c.Fail("swallowed", "[%s] commit with a failing write reports success", log)
			}
			// the layer's own view is unchanged whatever was written
			for i := 0; i < cells; i++ {
				got, _ := ub[i/2].Get([]byte(keys[i%2]))
				isOld := eq(got, m.under[i])
				isNew := eq(got, m.view(i))
				if !isOld && !isNew {
					c.Fail("underlying", "[%s] failed commit wrote %q to cell %d", log, got, i)
				}
			}
			u.writes = 0
			if err := l.Flush(true); err != nil {
				c.Fail("retry", "[%s] retried commit: %v", log, err)
			}
		} else if err != nil {
			c.Fail("commit", "[%s] commit: %v", log, err)
		}
		for i := range m.layer {
			m.under[i] = m.view(i)
			m.layer[i] = -1
		}
		m.flushed = true
	}
	for d := 0; d < depth; d++ {
		op := op0
		if d > 0 {
			op = x.Choose(nop)
		}
		r.Trans(1)
		if lazy {
			get()
		}
		switch {
		case op < 3*cells:
			i, what := op/3, op%3
			k := []byte(keys[i%2])
			var err error
			nv := 0
			if what == 2 {
				err = lb[i/2].Delete(k)
			} else {
				nv = []int{3, 2}[what]
				v := append([]byte{}, vals[nv]...)
				err = lb[i/2].Set(k, v)
				for j := range v {
					v[j] ^= 0xff
				}
			}
			for j := range k {
				k[j] ^= 0xff
			}
			log += fmt.Sprintf(" layer[%d]:=%d", i, nv)
			if err != nil {
				c.Fail("set", "[%s] %v", log, err)
			}
			if m.flushed {
				m.under[i] = nv
			} else {
				m.layer[i] = nv
			}
		case op < 5*cells:
			i, what := (op-3*cells)/2, (op-3*cells)%2
			log += fmt.Sprintf(" under[%d]:=%d", i, what)
			if what == 0 {
				_ = ub[i/2].Delete([]byte(keys[i%2]))
			} else {
				_ = ub[i/2].Set([]byte(keys[i%2]), vals[1])
			}
			m.under[i] = what
		case op == 5*cells:
			log += " commit"
			commit(-1)
		case op == 5*cells+1:
			log += " discard"
			if err := l.Flush(false); err != nil {
				c.Fail("discard", "[%s] %v", log, err)
			}
			for i := range m.layer {
				m.layer[i] = -1
			}
			m.flushed = true
		case op == 5*cells+2:
			n := 0
			for _, v := range m.layer {
				if v >= 0 {
					n++
				}
			}
			k := x.Choose(n + 1)
			log += fmt.Sprintf(" commit!%d", k)
			commit(k)
		default:
			log += " close"
			if err := l.Close(); err != nil {
				c.Fail("close", "%v", err)
			}
		}
		check()
	}
	if len(log) > 60 {
		r.Sample("%s", log)
	}
}

func eq(got []byte, v int) bool {
	if v == 0 {
		return got == nil
	}
	return got != nil && bytes.Equal(got, vals[v])
}
