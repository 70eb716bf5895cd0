// P28: the relay program between two simulated chains.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/fake"
	"verif/mc"
)

func main() {
	mc.Main("P28", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, QuickBudget: 500 * time.Second, FullBudget: 3000 * time.Second, Assumptions: []string{
		"the relay program runs as built, one process per link; the nodes are simulated on the loopback network; the destination's contract is modelled after javascore/bmv and solidity/bmv-bridge (the model delivers every message of a relay message)",
		"an Ethereum chain goes on making blocks; a lost transaction is noticed with the next message",
		"a supervisor starts the relay again after it was killed or, when a transaction was lost or ran late, ended with an error",
	}}, body)
}

const patience = 40 * time.Second

// run plays one history; it tells whether the crash point was reached.
func run(c *mc.C, f conf, crashAt int) bool {
	w := newWorld(c, f, crashAt)
	defer w.close()
	dirs := [][2]*side{{w.s[0], w.s[1]}}
	if f.dir == "both" {
		dirs = append(dirs, [2]*side{w.s[1], w.s[0]})
	}
	name := func() string {
		if len(w.step) == 0 {
			return ""
		}
		return " (" + strings.Join(w.step, ", ") + ")"
	}
	fail := func(timing bool, key, form string, a ...interface{}) {
		m := fmt.Sprintf(form, a...) + name()
		if timing {
			c.FailTiming(key, "%s; the relay says: %s", m, w.tail())
		}
		c.Fail(key, "%s", m)
	}
	if f.group == 0 {
		for _, d := range dirs {
			for d[0].released < d[0].total() {
				d[0].release()
			}
		}
	}
	w.start()
	ready := func(s *side) bool {
		if s.kind == "icon" {
			return len(s.inode.Requests()) > 0
		}
		return s.enode.Subs() > 0
	}
	// with late or lost transactions duplicates and gaps are expected
	tolerant := f.fate == "late" || f.lose > 0
	end := time.Now().Add(patience)
	stall, last := time.Now(), time.Now()
	var since time.Time
	restarts := 0
	for {
		time.Sleep(300 * time.Microsecond)
		select {
		case err := <-w.exited:
			w.mu.Lock()
			killed := w.crashed && restarts == 0
			w.cmd = nil
			w.mu.Unlock()
			w.disconnect()
			restarts++
			if !killed && !tolerant {
				fail(false, "ended", "the relay ends by itself: %v, %s", err, w.tail())
			}
			if restarts > 8 {
				fail(false, "ended", "the relay ends again and again: %v, %s", err, w.tail())
			}
			w.mu.Lock()
			for _, d := range dirs {
				switch f.fate {
				case "run":
					d[1].runAll()
				case "lost":
					for _, t := range d[1].waiting() {
						t.lost = true
						close(t.done)
					}
				}
			}
			w.mu.Unlock()
			w.start()
			continue
		default:
		}
		w.mu.Lock()
		all := true
		for _, d := range dirs {
			if len(d[1].refused) > 0 && !tolerant {
				r := d[1].refused[0]
				w.mu.Unlock()
				fail(false, "refused", "the destination refuses a message: %s", r)
			}
			want := d[0].msgs
			got := d[1].k.out
			if len(got) > len(want) {
				w.mu.Unlock()
				fail(false, "extra", "%d messages are delivered, %d were sent", len(got), len(want))
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) {
					w.mu.Unlock()
					fail(false, "message", "message %d arrives as %.60q, sent was %.60q", i, got[i], want[i])
				}
			}
			if len(got) < len(want) {
				all = false
			}
			ahead := d[1].ahead()
			// the source goes on
			if d[0].released < d[0].total() {
				all = false
				switch {
				case f.group == 2:
					if ready(d[0]) {
						for d[0].released < d[0].total() {
							d[0].release()
						}
					}
				case d[0].released == 0 || ahead >= d[0].lasts[d[0].released-1] || f.lose > 0 && time.Since(last) > 50*time.Millisecond:
					if !ready(d[0]) {
						break
					}
					empty := d[0].released > 0 && (d[0].released == 1 && len(d[0].msgs) > 0 && d[0].lasts[0] == first(d[0]) || d[0].released > 1 && d[0].lasts[d[0].released-1] == d[0].lasts[d[0].released-2])
					if empty && since.IsZero() {
						since = time.Now()
					}
					if !empty || time.Since(since) > 8*time.Millisecond {
						d[0].release()
						since, last = time.Time{}, time.Now()
					}
				}
			}
			// the destination goes on
			if f.lag && len(d[1].waiting()) > 0 {
				if d[0].released >= d[0].total() && ahead >= d[0].lasts[len(d[0].lasts)-1] || w.crashed && f.fate == "late" {
					d[1].runAll()
				}
			}
		}
		w.mu.Unlock()
		for _, d := range dirs {
			if d[0].kind == "eth" && d[0].released > 0 && time.Since(stall) > 150*time.Millisecond && d[0].released < 200 {
				stall = time.Now()
				d[0].release()
			}
		}
		w.mu.Lock()
		crash := w.crashed
		w.mu.Unlock()
		if all && (crashAt == 0 || crash || settled(w)) {
			break
		}
		if time.Now().After(end) {
			d := dirs[0]
			w.mu.Lock()
			n, m := len(d[1].k.out), len(d[0].msgs)
			r := d[1].refused
			w.mu.Unlock()
			fail(true, "undelivered", "%d of %d messages are delivered, refused: %v", n, m, r)
		}
	}
	for _, d := range dirs {
		var errs []string
		if d[1].icon != nil {
			_, _, errs, _, _ = d[1].icon.Snap()
		} else {
			_, errs, _ = d[1].eth.Snap()
		}
		if len(errs) > 0 {
			fail(false, "node", "the destination's node finds: %v", errs)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	c.R.State(f.String(), crashAt)
	c.R.Trans(w.n + w.sends)
	c.R.Exec(1)
	c.R.Validated(len(dirs[0][0].msgs) + len(dirs[0][1].msgs))
	return w.crashed
}

func first(s *side) int64 {
	if s.kind == "eth" {
		return s.w.f.first
	}
	return s.w.f.offset + s.w.f.first
}

// settled: no interaction for a while.
func settled(w *world) bool {
	w.mu.Lock()
	n := w.n
	w.mu.Unlock()
	time.Sleep(15 * time.Millisecond)
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n == n
}

func counts(n, max int) (out [][]int) {
	c := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			out = append(out, append([]int(nil), c...))
			return
		}
		for c[i] = 0; c[i] <= max; c[i]++ {
			rec(i + 1)
		}
		c[i] = 0
	}
	rec(0)
	return
}

func sum(c []int) (n int) {
	for _, x := range c {
		n += x
	}
	return
}

func body(r *mc.R) {
	r.CaseLimit = 300 * time.Second
	srcs, dsts := []string{"btp2", "bridge", "eth"}, []string{"btp2", "eth"}
	var plain, crash []conf
	n, max := 2, 2
	if r.Thorough() {
		n, max = 3, 3
	}
	for _, s := range srcs {
		for _, d := range dsts {
			for k := 1; k <= n; k++ {
				for _, cnt := range counts(k, max) {
					if sum(cnt) == 0 {
						continue
					}
					for g := 0; g < 3; g++ {
						for _, lag := range []bool{false, true} {
							plain = append(plain, conf{src: s, dst: d, dir: "front", cnt: cnt, group: g, lag: lag})
						}
					}
					plain = append(plain, conf{src: s, dst: d, dir: "reverse", cnt: cnt, group: 1, offset: 7, first: 3})
				}
			}
			for _, g := range []int{0, 1} {
				plain = append(plain, conf{src: s, dst: d, dir: "front", cnt: []int{3, 1}, group: g, size: 1, lag: true})
				plain = append(plain, conf{src: s, dst: d, dir: "front", cnt: []int{4, 0, 7}, group: g, size: 1})
				if d == "btp2" {
					plain = append(plain, conf{src: s, dst: d, dir: "front", cnt: []int{1, 2}, group: g, size: 2})
				}
			}
			// lost transactions, noticed with a later message
			if d == "btp2" {
				for l := 1; l <= 3; l++ {
					for _, cnt := range [][]int{{1, 1, 1, 1}, {2, 1, 0, 1}, {1, 0, 1, 2}} {
						plain = append(plain, conf{src: s, dst: d, dir: "front", cnt: cnt, group: 1 + l%2, lose: l})
					}
				}
			}
			hs := [][]int{{2, 1}}
			if r.Thorough() {
				hs = [][]int{{2, 1}, {1, 0, 2}, {3}, {0, 1, 1}}
			}
			for _, cnt := range hs {
				for g := 0; g < 2; g++ {
					crash = append(crash, conf{src: s, dst: d, dir: "front", cnt: cnt, group: g})
					for _, fate := range []string{"run", "late", "lost"} {
						if g == 1 && r.Quick() {
							continue
						}
						crash = append(crash, conf{src: s, dst: d, dir: "front", cnt: cnt, group: g, lag: true, fate: fate})
					}
				}
			}
		}
	}
	for _, s := range []string{"btp2", "bridge"} {
		for _, cnt := range counts(2, 1) {
			for _, back := range counts(2, 1) {
				if sum(cnt) > 0 && sum(back) > 0 {
					for g := 0; g < 3; g++ {
						plain = append(plain, conf{src: s, dst: "eth", dir: "both", cnt: cnt, back: back, group: g})
						plain = append(plain, conf{src: "eth", dst: s, dir: "both", cnt: cnt, back: back, group: g, first: 4})
					}
				}
			}
		}
	}
	// the mode of one side has nothing to do with the other's
	for _, s := range srcs {
		for _, d := range []string{"btp2", "bridge"} {
			for _, dir := range []string{"front", "reverse"} {
				plain = append(plain, conf{src: s, dst: d, dir: dir, cnt: []int{2, 1}, group: 1, first: 2})
				plain = append(plain, conf{src: s, dst: d, dir: dir, cnt: []int{1, 0, 2}, group: 0, first: 2})
			}
			for g := 0; g < 3; g++ {
				plain = append(plain, conf{src: s, dst: d, dir: "both", cnt: []int{1, 1}, back: []int{2, 1}, group: g})
			}
		}
	}
	mc.Parallel(len(plain), 6, func(i int) {
		r.Case(plain[i].String(), func(c *mc.C) { run(c, plain[i], 0) })
	})
	// a crash at every interaction
	mc.Parallel(len(crash), 6, func(i int) {
		r.Case("crash "+crash[i].String(), func(c *mc.C) {
			for k := 1; k < 200; k++ {
				if !run(c, crash[i], k) {
					break
				}
			}
		})
	})
	errors(r)
}

// errors: a direction that fails ends the program with an error.
func errors(r *mc.R) {
	type job struct {
		name string
		f    conf
		do   func(w *world)
	}
	ic := func(s *side, method string, a *fake.Answer, at int) {
		orig := s.inode.Override
		s.inode.Override = func(m string, n int, p json.RawMessage) *fake.Answer {
			if strings.Contains(m+string(p), method) && n >= at {
				return a
			}
			return orig(m, n, p)
		}
	}
	et := func(s *side, method string, a *fake.Answer) {
		orig := s.enode.Override
		s.enode.Override = func(m string, n int, p []json.RawMessage) *fake.Answer {
			if m == method {
				return a
			}
			return orig(m, n, p)
		}
	}
	ierr := &fake.Answer{Err: `{"code":-31000,"message":"E0000:boom"}`}
	eerr := &fake.Answer{Status: 200, Err: `{"code":-32000,"message":"boom"}`}
	one := []int{1, 1}
	both := conf{src: "btp2", dst: "eth", dir: "both", cnt: one, back: one, group: 0}
	back := conf{src: "eth", dst: "bridge", dir: "both", cnt: one, back: one, group: 0}
	var js []job
	add := func(n string, f conf, do func(w *world)) { js = append(js, job{n, f, do}) }
	for _, s := range []string{"btp2", "bridge", "eth"} {
		f := conf{src: s, dst: "btp2", dir: "front", cnt: one}
		g := conf{src: s, dst: "eth", dir: "reverse", cnt: one}
		add("status", f, func(w *world) { ic(w.s[1], `"getStatus"`, ierr, 0) })
		add("status", g, func(w *world) { et(w.s[1], "eth_call", eerr) })
		add("send", f, func(w *world) { ic(w.s[1], "icx_sendTransaction", ierr, 0) })
		add("send", g, func(w *world) { et(w.s[1], "eth_sendRawTransaction", eerr) })
		if s != "eth" {
			add("messages", f, func(w *world) { ic(w.s[0], "btp_getMessages", ierr, 0) })
			add("drop", f, func(w *world) {
				w.s[0].inode.WSNext = func(conn, i int) *fake.WSEvent { return &fake.WSEvent{Drop: true} }
			})
			add("refuse", g, func(w *world) {
				w.s[0].inode.WSReq = func(int, string, map[string]interface{}) *fake.WSEvent {
					return &fake.WSEvent{Text: `{"code":1,"message":"no"}`}
				}
			})
		} else {
			add("logs", f, func(w *world) { et(w.s[0], "eth_getLogs", eerr) })
			add("subscribe", f, func(w *world) { et(w.s[0], "eth_subscribe", eerr) })
		}
	}
	for _, f := range []conf{both, back} {
		i, e := 0, 1
		if f.src == "eth" {
			i, e = 1, 0
		}
		add("status icon", f, func(w *world) { ic(w.s[i], `"getStatus"`, ierr, 0) })
		add("status eth", f, func(w *world) { et(w.s[e], "eth_call", eerr) })
		add("messages", f, func(w *world) { ic(w.s[i], "btp_getMessages", ierr, 0) })
		add("logs", f, func(w *world) { et(w.s[e], "eth_getLogs", eerr) })
		add("send icon", f, func(w *world) { ic(w.s[i], "icx_sendTransaction", ierr, 0) })
		add("send eth", f, func(w *world) { et(w.s[e], "eth_sendRawTransaction", eerr) })
	}
	// the first direction fails while the second is still being set up: the n-th
	// identification of the chain waits until the failure was answered
	for n := 1; n <= 3; n++ {
		for _, f := range []conf{both, back} {
			add(fmt.Sprintf("status while connecting %d", n), f, func(w *world) {
				i, e := w.s[0], w.s[1]
				if f.src == "eth" {
					i, e = e, i
				}
				failed := make(chan bool)
				var once sync.Once
				hit := func() { once.Do(func() { time.AfterFunc(60*time.Millisecond, func() { close(failed) }) }) }
				oe := e.enode.Override
				e.enode.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
					if m == "eth_chainId" && k == n {
						select {
						case <-failed:
						case <-time.After(300 * time.Millisecond):
						}
					}
					if m == "eth_call" && f.src != "eth" {
						hit()
						return eerr
					}
					return oe(m, k, p)
				}
				oi := i.inode.Override
				i.inode.Override = func(m string, k int, p json.RawMessage) *fake.Answer {
					if strings.Contains(string(p), `"getStatus"`) && f.src == "eth" {
						hit()
						return ierr
					}
					return oi(m, k, p)
				}
			})
		}
	}
	mc.Parallel(len(js), 6, func(i int) {
		j := js[i]
		r.Case(fmt.Sprintf("error %s: %s", j.name, j.f), func(c *mc.C) {
			w := newWorld(c, j.f, 0)
			defer w.close()
			j.do(w)
			for _, s := range w.s {
				for s.released < s.total() {
					s.release()
				}
			}
			w.start()
			quit := make(chan bool)
			defer close(quit)
			go func() { // the chains go on
				for k := 0; k < 300; k++ {
					select {
					case <-quit:
						return
					case <-time.After(100 * time.Millisecond):
					}
					for _, s := range w.s {
						if s.blocks != nil {
							s.release()
						}
					}
				}
			}()
			select {
			case err := <-w.exited:
				w.mu.Lock()
				w.cmd = nil
				w.mu.Unlock()
				if err == nil {
					c.Fail("success", "the relay ends as if all was well: %s", w.tail())
				}
				if t := w.tail(); strings.HasPrefix(t, "panic: runtime error") {
					c.Fail("crash", "the relay crashes: %s", t)
				}
			case <-time.After(patience):
				c.FailTiming("alive", "the relay stays alive although a direction failed; it says: %s", w.tail())
			}
			c.R.State(j.name, j.f.String())
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}
