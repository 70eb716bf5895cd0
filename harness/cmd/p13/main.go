// P13: accumulator persistence: all histories of add / flush / failing flush / crash /
// recover, every write position of a flush being a crash or failure point.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mta"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P13", mc.Options{Exhaustive: true, QuickBudget: 240 * time.Second, FullBudget: 2400 * time.Second,
		Assumptions: []string{
			"bounds: histories of up to 5 (quick) / 6 (thorough) operations {add data, add hash, add 3, flush, flush failing at write k, flush crashing at write k, restart}, k over every write of that flush; both accumulator kinds; offsets 0 and 5; plus, for every length up to 40 / 80, a crash and a failure at every write of the flush of 1..4 further items",
			"a bucket write is atomic (one key at a time); a crash loses only memory",
		}}, body)
}

var errDisk = errors.New("injected write failure")

type crash struct{}

// faulty is a bucket whose k-th write fails or crashes.
type faulty struct {
	m      map[string][]byte
	writes int
	failAt int // -1: never
	mode   int // 0 fail, 1 crash before the write, 2 crash after the write
}

func (f *faulty) Get(k []byte) ([]byte, error) {
	v, ok := f.m[string(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte(nil), v...), nil
}
func (f *faulty) Has(k []byte) bool { _, ok := f.m[string(k)]; return ok }
func (f *faulty) Set(k, v []byte) error {
	n := f.writes
	f.writes++
	if n == f.failAt && f.mode == 0 {
		return errDisk
	}
	if n == f.failAt && f.mode == 1 {
		panic(crash{})
	}
	f.m[string(k)] = append([]byte(nil), v...)
	if n == f.failAt && f.mode == 2 {
		panic(crash{})
	}
	return nil
}
func (f *faulty) Delete(k []byte) error { delete(f.m, string(k)); return nil }

type acc interface {
	AddData(d []byte) []mta.Witness
	AddHash(h []byte) []mta.Witness
	Flush() error
	Recover() error
	WitnessFor(idx int64) ([]mta.Witness, error)
	Verify(ws []mta.Witness, h []byte) error
	Len() int64
}

type sys struct {
	c    *mc.C
	kind int
	off  int64
	f    *faulty
	a    acc
	mem  [][]byte // leaves in memory
	disk [][]byte // leaves of the last completed flush
	n    int
	log  string
}

func (s *sys) fresh() {
	if s.kind == 0 {
		s.a = &mta.Accumulator{KeyForState: []byte("state"), Bucket: db.Bucket(s.f)}
	} else {
		s.a = mta.NewExtAccumulator([]byte("state"), s.f, s.off)
	}
}

func newSys(c *mc.C, kind int, off int64) *sys {
	s := &sys{c: c, kind: kind, off: off, f: &faulty{m: map[string][]byte{}, failAt: -1}}
	s.fresh()
	if err := s.a.Recover(); err != nil {
		c.Fail("recover", "Recover of an empty database: %v", err)
	}
	s.check("start")
	return s
}

func (s *sys) add(hash bool) {
	d := []byte(fmt.Sprintf("d%d", s.n))
	if s.n%5 == 4 {
		d = bytes.Repeat([]byte{byte(s.n)}, 64) // as long as a branch record
	}
	s.n++
	if hash {
		s.a.AddHash(ref.Sha3(d))
	} else {
		s.a.AddData(d)
	}
	s.mem = append(s.mem, ref.Sha3(d))
	s.c.R.Trans(1)
}

func (s *sys) check(what string) {
	m := &ref.MTA{Leaves: s.mem}
	if s.a.Len() != int64(len(s.mem)) {
		s.c.Fail("len", "[%s] after %s: length %d, want %d", s.log, what, s.a.Len(), len(s.mem))
	}
	if e, ok := s.a.(*mta.ExtAccumulator); ok {
		if e.Height() != s.off+int64(len(s.mem)) || e.Offset() != s.off {
			s.c.Fail("height", "[%s] after %s: height %d offset %d", s.log, what, e.Height(), e.Offset())
		}
	}
	for i := range s.mem {
		w, err := s.a.WitnessFor(int64(i))
		if err != nil {
			s.c.Fail("witness", "[%s] after %s: WitnessFor(%d) of %d: %v", s.log, what, i, len(s.mem), err)
		}
		r := m.Witness(i)
		ok := len(r) == len(w)
		for k := 0; ok && k < len(w); k++ {
			ok = (w[k].Direction == mta.Left) == r[k].Left && bytes.Equal(w[k].HashValue, r[k].Hash)
		}
		if !ok {
			s.c.Fail("witness", "[%s] after %s: witness of item %d of %d is wrong", s.log, what, i, len(s.mem))
		}
		if err := s.a.Verify(w, s.mem[i]); err != nil {
			s.c.Fail("verify", "[%s] after %s: witness of item %d of %d is refused: %v", s.log, what, i, len(s.mem), err)
		}
	}
	if _, err := s.a.WitnessFor(int64(len(s.mem))); err == nil {
		s.c.Fail("len", "[%s] after %s: witness beyond the end", s.log, what)
	}
	s.c.R.Validated(1)
}

// flush runs a flush with a fault at write k (k<0: none) and returns the number of writes.
func (s *sys) flush(k, mode int) int {
	s.f.writes, s.f.failAt, s.f.mode = 0, k, mode
	crashed := false
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(crash); ok {
					crashed = true
					return
				}
				panic(e)
			}
		}()
		err = s.a.Flush()
	}()
	w := s.f.writes
	s.f.failAt = -1
	s.c.R.Trans(1)
	hit := k >= 0 && k < w
	switch {
	case crashed:
		// either the previous or the new state must be recovered
		old, cur := s.disk, s.mem
		s.fresh()
		if err := s.a.Recover(); err != nil {
			s.c.Fail("recover", "[%s] Recover after a crash at write %d: %v", s.log, k, err)
		}
		switch s.a.Len() {
		case int64(len(cur)):
			s.mem = cur
		case int64(len(old)):
			s.mem = old
		default:
			s.c.Fail("crash", "[%s] crash at write %d of a flush from %d to %d items recovers %d items", s.log, k, len(old), len(cur), s.a.Len())
		}
		s.mem = append([][]byte(nil), s.mem...)
		s.disk = append([][]byte(nil), s.mem...)
	case hit && mode == 0:
		if err == nil {
			s.c.Fail("swallowed", "[%s] write %d of the flush failed and Flush reported success", s.log, k)
		}
	default:
		if err != nil {
			s.c.Fail("flush", "[%s] Flush: %v", s.log, err)
		}
		s.disk = append([][]byte(nil), s.mem...)
		if e, ok := s.a.(*mta.ExtAccumulator); ok {
			if !bytes.Equal(e.Serialized(), s.f.m["state"]) {
				s.c.Fail("serialized", "[%s] Serialized() is not what was stored", s.log)
			}
		}
	}
	return w
}

func (s *sys) restart() {
	s.fresh()
	if err := s.a.Recover(); err != nil {
		s.c.Fail("recover", "[%s] Recover: %v", s.log, err)
	}
	s.mem = append([][]byte(nil), s.disk...)
	s.c.R.Trans(1)
}

func body(r *mc.R) {
	depth := 5
	maxL := 40
	if r.Thorough() {
		depth, maxL = 6, 80
	}
	type cfg struct {
		kind int
		off  int64
	}
	for _, k := range []cfg{{0, 0}, {1, 0}, {1, 5}} {
		for first := 0; first < 4; first++ {
			for second := 0; second < 6; second++ {
				k, first, second := k, first, second
				r.Explore(fmt.Sprintf("hist/%d/%d/%d/%d", k.kind, k.off, first, second), func(c *mc.C, x *mc.X) {
					s := newSys(c, k.kind, k.off)
					for d := 0; d < depth; d++ {
						op := 0
						switch d {
						case 0:
							op = first
						case 1:
							op = second
						default:
							op = x.Choose(7)
						}
						switch op {
						case 0:
							s.log += " add"
							s.add(false)
						case 1:
							s.log += " addhash"
							s.add(true)
						case 2:
							s.log += " add3"
							s.add(false)
							s.add(false)
							s.add(true)
						case 3:
							s.log += " flush"
							s.flush(-1, 0)
						case 4:
							s.log += " restart"
							s.restart()
						case 5, 6:
							// count the writes this flush will make on a copy, then choose one
							mode := 0
							if op == 6 {
								mode = 1
							}
							w := s.countWrites()
							if w == 0 {
								continue
							}
							k := x.Choose(w)
							s.log += fmt.Sprintf(" flush!%d@%d", mode, k)
							s.flush(k, mode)
						}
						s.check("op")
						r.State(s.kind, s.off, s.log)
					}
					s.log += " restart"
					s.restart()
					s.check("final restart")
					s.log += " add flush restart"
					s.add(false)
					s.flush(-1, 0)
					s.restart()
					s.check("final")
					if len(s.disk) > 3 {
						r.Sample("history%s", s.log)
					}
				})
			}
		}
		for n := 0; n <= maxL; n++ {
			for m := 1; m <= 4; m++ {
				for mode := 0; mode < 3; mode++ {
					k, n, m, mode := k, n, m, mode
					r.Case(fmt.Sprintf("len/%d/%d/%d/%d/%d", k.kind, k.off, n, m, mode), func(c *mc.C) {
						for at := 0; ; at++ {
							s := newSys(c, k.kind, k.off)
							for i := 0; i < n; i++ {
								s.add(i%3 == 1)
							}
							s.flush(-1, 0)
							s.restart()
							for i := 0; i < m; i++ {
								s.add(i%3 == 1)
							}
							s.log = fmt.Sprintf("%d items, flush, restart, %d items, flush with fault %d at write %d", n, m, mode, at)
							w := s.flush(at, mode)
							s.check("faulty flush")
							s.flush(-1, 0)
							s.restart()
							s.check("second flush and restart")
							r.Exec(1)
							r.State("len", k.kind, k.off, n, m, mode, at)
							if at >= w-1 {
								break
							}
						}
					})
				}
			}
		}
		// recovery with a different offset is refused
		k := k
		r.Case(fmt.Sprintf("offset/%d/%d", k.kind, k.off), func(c *mc.C) {
			if k.kind == 0 {
				return
			}
			s := newSys(c, k.kind, k.off)
			s.add(false)
			s.flush(-1, 0)
			for _, o := range []int64{k.off - 1, k.off + 1, k.off + 100} {
				a := mta.NewExtAccumulator([]byte("state"), s.f, o)
				if err := a.Recover(); err == nil {
					c.Fail("offset", "a state with offset %d is recovered by an accumulator with offset %d", k.off, o)
				}
			}
		})
	}
}

// countWrites bounds the writes of the next flush: new items have at most one data
// record each, and at most one branch record per carry; a position beyond the actual
// writes is a plain flush.
func (s *sys) countWrites() int {
	n := len(s.mem) - len(s.disk)
	if n < 0 {
		n = 0
	}
	return 2*n + 1
}
