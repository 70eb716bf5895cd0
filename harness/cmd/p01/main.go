// P01: the real relay loop, driven through every bounded history of source blocks, size
// limit and arrival timing, hands the destination exactly the missing messages.
package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"verif/linkw"
	"verif/mc"

	"github.com/icon-project/btp/common/types"
)

type shape struct {
	msgs [][]int64
	gap  bool
}

func blocks(s shape, rx int64) []*linkw.Blk {
	var out []*linkw.Blk
	h := int64(10)
	for i, m := range s.msgs {
		out = append(out, &linkw.Blk{H: h, Bu: 3, Msgs: m, First: rx})
		rx += int64(len(m))
		h++
		if s.gap && i%2 == 0 {
			h += 3
		}
	}
	return out
}

// lists of message sizes of one block
func menu(max int, sizes []int64) [][]int64 {
	out := [][]int64{{}}
	cur := [][]int64{{}}
	for n := 1; n <= max; n++ {
		var next [][]int64
		for _, c := range cur {
			for _, s := range sizes {
				next = append(next, append(append([]int64{}, c...), s))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func main() {
	mc.Main("P01", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 30, MaxHeapMB: 1500,
		Assumptions: []string{
			"the relay loop (common/link) is the real code; receiver and sender are simulated at the link.Receiver / types.Sender interfaces, one unconfirmed announcement at a time as the receivers' unbuffered channel gives",
			"bounds: up to 4 (quick) / 5-6 (thorough) blocks with 0-3 messages of 2 sizes, 4 limits, 4 receiver styles, margins 0 and 2, start status before, inside and after the first block; a new block may arrive at every BuildBlockUpdate call",
			"one goroutine runs at a time (GOMAXPROCS=1) and is switched at receiver and sender calls",
		}}, func(r *mc.R) {
		runtime.GOMAXPROCS(1)
		nb, mm := 4, 2
		if r.Thorough() {
			nb = 5
		}
		var shapes []shape
		var rec func(cur [][]int64, left int, m [][]int64)
		rec = func(cur [][]int64, left int, m [][]int64) {
			if len(cur) > 0 {
				shapes = append(shapes, shape{append([][]int64{}, cur...), len(cur) == 2})
			}
			if left == 0 {
				return
			}
			for _, x := range m {
				rec(append(cur[:len(cur):len(cur)], x), left-1, m)
			}
		}
		rec(nil, nb-1, menu(mm, []int64{2, 7}))
		// longest histories and longer blocks with fewer sizes
		var long []shape
		var rec2 func(cur [][]int64, left int, m [][]int64)
		rec2 = func(cur [][]int64, left int, m [][]int64) {
			if left == 0 {
				long = append(long, shape{append([][]int64{}, cur...), len(cur)%2 == 0})
				return
			}
			for _, x := range m {
				rec2(append(cur[:len(cur):len(cur)], x), left-1, m)
			}
		}
		rec2(nil, nb, [][]int64{{}, {2}, {2, 2}, {7, 2, 2}})
		rec2(nil, 1, menu(4, []int64{2, 7}))
		if r.Thorough() {
			rec2(nil, 6, [][]int64{{}, {2}, {2, 2, 7}})
		}
		shapes = append(shapes, long...)
		for si, s := range shapes {
			for style := 0; style < 4; style++ {
				for _, limit := range []int64{4, 7, 12, 1000} {
					for _, margin := range []int64{0, 2} {
						if margin == 2 && si%3 != 0 {
							continue
						}
						if limit-margin < 3 {
							continue
						}
						id := fmt.Sprintf("h%d/s%d/l%d/m%d", si, style, limit, margin)
						for pos := -1; pos <= len(s.msgs[0]); pos++ {
							if pos >= 0 && si%2 == 1 && r.Quick() && len(s.msgs) > 2 {
								continue
							}
							p := pos
							n, done := r.Explore(id+fmt.Sprintf("@%d", p), func(c *mc.C, x *mc.X) { run(c, x, s, style, limit, margin, p) })
							_ = n
							if !done {
								return
							}
						}
					}
				}
			}
			if si%40 == 0 {
				r.Sample("history of %d blocks with message sizes %v: all styles, limits and timings", len(s.msgs), s.msgs)
			}
		}
		// every single failing call ends the relay with the error, in order so far
		for si, s := range []shape{{msgs: [][]int64{{2, 7}, {}, {2}}}, {msgs: [][]int64{{7, 7, 7}, {2}}}} {
			for style := 0; style < 4; style++ {
				for _, call := range []string{"start", "sender", "status", "bu", "mp", "update", "rm", "relay", "monitor"} {
					for pos := -1; pos <= len(s.msgs[0]); pos++ {
						for n := 1; n <= 8; n++ {
							s, style, call, n, pos := s, style, call, n, pos
							r.Explore(fmt.Sprintf("fault/%d/%d/%s/%d@%d", si, style, call, n, pos), func(c *mc.C, x *mc.X) { faulty(c, x, s, style, call, n, pos) })
						}
					}
				}
				r.Explore(fmt.Sprintf("stop/%d/%d", si, style), func(c *mc.C, x *mc.X) { stopped(c, x, s, style) })
			}
		}
	})
}

func describe(w *linkw.World) string {
	ms, _ := w.Snapshot()
	return fmt.Sprint(ms)
}

func run(c *mc.C, x *mc.X, s shape, style int, limit, margin int64, pos int) {
	r := c.R
	bs := blocks(s, 5)
	d := &linkw.Dst{H: 9, Rx: 5, Blocks: bs, Style: style}
	if pos >= 0 {
		d.H, d.Rx = bs[0].H, 5+int64(pos)
	}
	w := linkw.NewWorld(bs, style, limit)
	w.Margin = margin
	w.Park["bu"] = true
	first := d.StatusOf()
	w.Status = func() (*types.BMCLinkStatus, error) { s := *first; return &s, nil }
	defer w.End()
	w.Begin()
	steps := 0
	for {
		steps++
		pk := w.Parked()
		prod := w.CanProduce()
		r.Trans(1)
		switch {
		case len(pk) > 0 && prod:
			if x.Bool() {
				w.Produce()
			} else {
				w.Resume(0)
			}
		case len(pk) > 0:
			w.Resume(0)
		case prod:
			w.Produce()
		default:
			goto end
		}
		if w.Done || w.Fatal != "" || w.Spin {
			break
		}
	}
end:
	sent, bad := w.Snapshot()
	if w.Done || w.Fatal != "" {
		c.Fail("stopped", "the relay stopped: %v %s; sent %v", w.DoneErr, w.Fatal, sent)
	}
	if w.Spin {
		c.Fail("spin", "the relay loop spins without end; sent %v", sent)
	}
	if len(bad) > 0 {
		c.Fail("message", "%v", bad)
	}
	if w.StartedWith.RxSeq != first.RxSeq || w.StartedWith.Verifier.Height != first.Verifier.Height {
		c.Fail("start", "the receiver was started at %+v instead of the destination's status %+v", w.StartedWith, first)
	}
	if w.Untaken() > 0 || w.Known() < len(bs) {
		c.Fail("stall", "the relay loop takes no further blocks after %d; sent %v", w.Known()-w.Untaken(), sent)
	}
	for i, m := range sent {
		if code := d.Exec(m); code != 0 {
			c.Fail("order", "relay message %d %v does not follow the destination's position height=%d seq=%d (code %d); sent %v", i, m, d.H, d.Rx, code, sent)
		}
		if o := m.Cross(w, limit-margin); o > 0 {
			c.Fail("size", "relay message %v is %d bytes beyond the limit %d even without its last message", m, o, limit-margin)
		}
		r.Validated(1)
	}
	last := bs[len(bs)-1]
	if d.Rx != last.Last() {
		c.Fail("gap", "the destination got the messages up to %d of %d; sent %v", d.Rx, last.Last(), sent)
	}
	if style != linkw.StyleBridge && d.H != last.H {
		c.Fail("gap", "the destination got the blocks up to %d of %d; sent %v", d.H, last.H, sent)
	}
	r.State(style, limit, margin, pos, fmt.Sprint(s), fmt.Sprint(sent))
}

// stopped: Stop at any point stops the receiver and the sender.
func stopped(c *mc.C, x *mc.X, s shape, style int) {
	bs := blocks(s, 5)
	d := &linkw.Dst{H: 9, Rx: 5, Blocks: bs, Style: style}
	w := linkw.NewWorld(bs, style, 12)
	w.Park["bu"] = true
	first := d.StatusOf()
	w.Status = func() (*types.BMCLinkStatus, error) { s := *first; return &s, nil }
	defer w.End()
	w.Begin()
	for {
		c.R.Trans(1)
		if x.Bool() {
			break
		}
		if len(w.Parked()) > 0 {
			w.Resume(0)
		} else if w.CanProduce() {
			w.Produce()
		} else {
			break
		}
	}
	w.Stop()
	if w.RStops == 0 || w.SStops == 0 {
		c.Fail("stop", "stopping the relay stops the receiver %d and the sender %d times", w.RStops, w.SStops)
	}
	c.R.Validated(1)
}

func faulty(c *mc.C, x *mc.X, s shape, style int, call string, n, pos int) {
	bs := blocks(s, 5)
	d := &linkw.Dst{H: 9, Rx: 5, Blocks: bs, Style: style}
	if pos >= 0 {
		d.H, d.Rx = bs[0].H, 5+int64(pos)
	}
	w := linkw.NewWorld(bs, style, 12)
	w.Park["bu"] = true
	first := d.StatusOf()
	w.Status = func() (*types.BMCLinkStatus, error) { s := *first; return &s, nil }
	boom := errors.New("boom")
	hit := false
	w.Fault = func(name string, k int) error {
		if name == call && k == n {
			hit = true
			return boom
		}
		return nil
	}
	defer w.End()
	w.Begin()
	for {
		pk := w.Parked()
		prod := w.CanProduce()
		c.R.Trans(1)
		if len(pk) > 0 && prod && x.Bool() {
			w.Produce()
		} else if len(pk) > 0 {
			w.Resume(0)
		} else if prod {
			w.Produce()
		} else {
			break
		}
		if w.Spin {
			c.Fail("spin", "the relay loop spins after a failing %s", call)
		}
	}
	sent, _ := w.Snapshot()
	if hit && (!w.Done || w.DoneErr == nil) {
		c.Fail("error-ignored", "failing call %d of %s did not end the relay with an error (done=%v); sent %v", n, call, w.Done, sent)
	}
	if hit && !strings.Contains(w.DoneErr.Error(), "boom") {
		c.Fail("error-replaced", "failing call %d of %s ended the relay with %v", n, call, w.DoneErr)
	}
	for i, m := range sent {
		if code := d.Exec(m); code != 0 {
			c.Fail("order", "after a failing %s: relay message %d %v does not follow the destination's position; sent %v", call, i, m, sent)
		}
	}
	c.R.Validated(1)
}
