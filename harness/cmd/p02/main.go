// P02: the real relay loop in closed loop with a simulated destination (every bounded
// interleaving of blocks, executions, losses and reports) and in open loop (every bounded
// sequence of arbitrary results and statuses).
package main

import (
	"fmt"
	"runtime"

	"verif/linkw"
	"verif/mc"

	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"
)

func blocks(ms [][]int64) []*linkw.Blk {
	var out []*linkw.Blk
	rx := int64(5)
	for i, m := range ms {
		out = append(out, &linkw.Blk{H: 10 + int64(i), Bu: 3, Msgs: m, First: rx})
		rx += int64(len(m))
	}
	return out
}

func main() {
	mc.Main("P02", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 30, MaxHeapMB: 1500,
		Assumptions: []string{
			"the relay loop (common/link) is the real code; receiver, sender and destination verifier are simulated; the receiver drops blocks behind the status it is asked with, as the real ones do",
			"closed loop: up to 3 blocks, the destination executes transactions in order, up to 1 (quick) / 2 (thorough) faults (transaction lost, spuriously refused, delivered by someone else), reports of different transactions in any order with possibly stale statuses, up to 2 (quick) / 3 (thorough) deviations from the natural schedule; afterwards two more blocks arrive undisturbed",
			"open loop: up to 3 (quick) / 4 (thorough) arbitrary results or statuses with known and unknown ids and any status position",
		}}, func(r *mc.R) {
		runtime.GOMAXPROCS(1)
		pre, faults := 2, 1
		if r.Thorough() {
			pre, faults = 3, 2
		}
		hist := [][][]int64{{{2}}, {{2}, {2}}, {{2, 2}, {}, {7}}, {{7, 7}, {2}}, {{}, {2}, {2}}, {{7, 7, 7}}}
		for hi, h := range hist {
			for _, style := range []int{linkw.StyleProof, linkw.StyleBridge, linkw.StyleCumul, linkw.StyleWitness} {
				if style == linkw.StyleWitness && hi != 3 && hi != 5 {
					continue // no block is split
				}
				for f := 0; f <= faults; f++ {
					h, style, f := h, style, f
					p := pre
					if len(h) == 1 {
						p++
					}
					// the first decisions are split over cases so that shards share the work
					for part := 0; part < 61; part++ {
						part := part
						r.Explore(fmt.Sprintf("closed/%d/%d/%d/%d", hi, style, f, part), func(c *mc.C, x *mc.X) { closed(c, x, h, style, p, f, part, 61) })
					}
				}
			}
		}
		if linkw.Fine {
			fp := 1
			if r.Thorough() {
				fp = 2
			}
			for hi, h := range [][][]int64{{{2}}, {{2}, {2}}, {{7, 7}}, {{2, 2}, {7}}, {{7, 7}, {2}}} {
				for _, style := range []int{linkw.StyleProof, linkw.StyleBridge} {
					for f := 0; f <= 1; f++ {
						for part := 0; part < 13; part++ {
							h, style, f, part := h, style, f, part
							r.Explore(fmt.Sprintf("fine/%d/%d/%d/%d", hi, style, f, part), func(c *mc.C, x *mc.X) { closedLoop(c, x, h, style, 1, fp, f, part, 13) })
						}
					}
				}
			}
		} else {
			r.Note("the relay loop could not be instrumented: no scheduling at its statements")
		}
		depth := 3
		if r.Thorough() {
			depth = 4
		}
		for hi, h := range [][][]int64{{{2}}, {{2, 2}, {7}}, {{7, 7}, {}, {2}}} {
			for _, style := range []int{linkw.StyleProof, linkw.StyleBridge, linkw.StyleWitness} {
				for k := 0; k <= len(h); k++ {
					for part := 0; part < 8; part++ {
						h, style, k, part := h, style, k, part
						r.Explore(fmt.Sprintf("open/%d/%d/%d/%d", hi, style, k, part), func(c *mc.C, x *mc.X) { open(c, x, h, style, k, depth, part, 8) })
					}
				}
			}
		}
		for _, code := range []errors.Code{link.BMVUnknown, 0, 1, link.CodeBMC, link.CodeBSH, 29, 39, 999, -1} {
			code := code
			r.Case(fmt.Sprintf("code/%d", code), func(c *mc.C) { fatal(c, code) })
		}
	})
}

type tx struct {
	m     *linkw.Msg
	queue []types.SenderMessage
	stat  bool // a status report is still to be sampled
}

func closed(c *mc.C, x *mc.X, h [][]int64, style, pre, faults, part, parts int) {
	closedLoop(c, x, h, style, pre, 0, faults, part, parts)
}

// closedLoop: pre deviations from the natural order; with fpre > 0 the loop's goroutines
// are scheduled at their statements too, with fpre switches away from one that could go on.
func closedLoop(c *mc.C, x *mc.X, h [][]int64, style, pre, fpre, faults, part, parts int) {
	r := c.R
	all := blocks(append(append([][]int64{}, h...), []int64{2}, []int64{2}))
	d := &linkw.Dst{H: 9, Rx: 5, Blocks: all, Style: style}
	w := linkw.NewWorld(all, style, 12)
	w.Park["bu"], w.Park["mp"], w.Park["relay"], w.Park["status"] = true, true, true, true
	w.Status = func() (*types.BMCLinkStatus, error) { return d.StatusOf(), nil }
	fine := fpre > 0
	if fine {
		w.Park["y"] = true
	}
	defer w.End()
	w.Begin()
	var txs []*tx
	execd := 0
	nv, ow, dec, key := 0, 0, 0, -1 // key: the first deviation, which selects the case that explores it
	limit := len(h)                 // blocks that arrive in the explored phase
	trace := ""
	for step := 0; ; step++ {
		if step > 1000 && !fine || step > 10000 {
			c.Fail("livelock", "the relay and the destination do not come to rest: %d messages sent; %s", len(txs), trace)
		}
		r.Trans(1)
		sent, bad := w.Snapshot()
		if len(bad) > 0 {
			c.Fail("message", "%v", bad)
		}
		for len(txs) < len(sent) {
			txs = append(txs, &tx{m: sent[len(txs)]})
		}
		if w.Done || w.Fatal != "" || w.Spin {
			c.Fail("stopped", "the relay stopped: %v %s spin=%v; sent %v; %s", w.DoneErr, w.Fatal, w.Spin, sent, trace)
		}
		// enabled actions, most natural first
		type act struct {
			name string
			f    func()
		}
		var acts []act
		run := -1
		if fine {
			run = w.Running()
		}
		pk := w.Parked()
		if run >= 0 {
			acts = append(acts, act{"resume " + pk[run], func() { w.Resume(run) }})
		}
		for i, p := range pk {
			i := i
			if i != run {
				acts = append(acts, act{"resume " + p, func() { w.Resume(i) }})
			}
		}
		// which bound a deviation counts against
		bound := &pre
		if run >= 0 {
			bound = &fpre
		}
		if w.CanReport() {
			for i := 0; i < execd; i++ {
				t := txs[i]
				if len(t.queue) == 0 && t.stat {
					t.queue, t.stat = append(t.queue, d.StatusOf()), false
				}
				if len(t.queue) == 0 {
					continue
				}
				n := i
				acts = append(acts, act{fmt.Sprintf("report %d", n), func() {
					m := t.queue[0]
					t.queue = t.queue[1:]
					rr, ok := m.(*types.RelayResult)
					if ok && rr.Err == link.BMVNotVerifiable {
						nv++
					}
					if ok && rr.Err == link.BMVRevertInvalidBlockWitnessOld {
						ow++
					}
					w.Report(m)
				}})
				if len(acts) > 4 {
					break
				}
			}
		}
		normal := func(code int) {
			t := txs[execd]
			execd++
			if code != 0 {
				t.queue = append(t.queue, &types.RelayResult{Id: t.m.Id, Err: errors.Code(code)})
			}
			t.stat = true
		}
		if execd < len(txs) {
			acts = append(acts, act{"execute", func() { normal(d.Exec(txs[execd].m)) }})
		}
		if w.CanProduce() && w.Known() < limit {
			acts = append(acts, act{"block", w.Produce})
		}
		nat := len(acts)
		if execd < len(txs) && faults > 0 {
			acts = append(acts, act{"lose", func() { faults--; normal(0) }},
				act{"refuse", func() { faults--; normal(int(link.BMVNotVerifiable)) }},
				act{"overtake", func() {
					faults--
					if d.Exec(txs[execd].m) == 0 {
						normal(int(link.BMVAlreadyVerified))
					} else {
						normal(int(link.BMVNotVerifiable))
					}
				}})
			if proof(txs[execd].m) != nil {
				acts = append(acts, act{"stale", func() { faults--; normal(int(link.BMVRevertInvalidBlockWitnessOld)) }})
			}
		}
		if len(acts) == 0 {
			if limit == len(all) {
				break
			}
			limit++ // an undisturbed further block
			faults, pre, fpre = 0, 0, 0
			w.Coarse()
			continue
		}
		k := 0
		if fine && len(pk) > 0 {
			acts = acts[:nat] // faults happen while the relay waits
		}
		if len(acts) > 1 && (*bound > 0 || len(acts) > nat) {
			if *bound > 0 {
				k = x.Choose(len(acts))
			} else if v := x.Choose(1 + len(acts) - nat); v > 0 {
				k = nat + v - 1
			}
			if k > 0 && k < nat {
				*bound--
			}
			// split of the decision tree
			dec++
			if k > 0 && key < 0 {
				key = dec*5 + k
				if key%parts != part {
					return // explored by another case
				}
			}
		}
		if fine && fpre == 0 {
			w.Coarse()
		}
		if len(trace) < 3000 {
			trace += acts[k].name + "; "
		}
		acts[k].f()
	}
	if key < 0 && part != 0 {
		return
	}
	sent, _ := w.Snapshot()
	last := all[len(all)-1]
	if w.RepPending() || w.Untaken() > 0 || w.Known() < len(all) {
		c.Fail("stall", "the relay no longer takes blocks or reports (blocks %d/%d, report pending %v); %s", w.Known()-w.Untaken(), len(all), w.RepPending(), trace)
	}
	if d.Rx != last.Last() {
		c.Fail("lost", "the destination ended at sequence %d of %d after further blocks; sent %v; %s", d.Rx, last.Last(), sent, trace)
	}
	if w.StatusCalls < 1+nv {
		c.Fail("no-status", "%d not-verifiable results led to %d status requests; %s", nv, w.StatusCalls-1, trace)
	}
	if nv == 0 && ow == 0 {
		seen := map[int]bool{}
		for _, m := range sent {
			if seen[m.N] {
				c.Fail("resent", "message %v was sent again without a not-verifiable result; %s", m, trace)
			}
			seen[m.N] = true
		}
		cnt := map[int64]int{}
		for _, m := range sent {
			for _, it := range m.Items {
				for q := it.StartSeqNum() + 1; q <= it.LastSeqNum(); q++ {
					cnt[q]++
					if cnt[q] > 1 {
						c.Fail("resent", "message %d was sent again without a not-verifiable result; %s", q, trace)
					}
				}
			}
		}
	}
	r.Validated(1)
	r.State(style, fmt.Sprint(h), trace)
}

// open: k blocks are relayed, then any sequence of reports arrives; after each one the
// reaction is compared with what the relay must do, and at the end another block is relayed.
func open(c *mc.C, x *mc.X, h [][]int64, style, k, depth, part, parts int) {
	r := c.R
	all := blocks(append(append([][]int64{}, h...), []int64{2}))
	w := linkw.NewWorld(all, style, 12)
	st := func(h, rx int64) *types.BMCLinkStatus {
		s := &types.BMCLinkStatus{RxSeq: rx}
		s.Verifier.Height = h
		return s
	}
	answer := st(9, 5)
	w.Status = func() (*types.BMCLinkStatus, error) { s := *answer; return &s, nil }
	defer w.End()
	w.Begin()
	for i := 0; i < k; i++ {
		w.Produce()
	}
	sent0, _ := w.Snapshot()
	ids := []int{-12345}
	if len(sent0) > 0 {
		ids = append(ids, sent0[0].Id)
	}
	if len(sent0) > 1 {
		ids = append(ids, sent0[len(sent0)-1].Id)
	}
	// status positions: start, after each block, before the start, beyond everything, middle of a block
	pos := []*types.BMCLinkStatus{st(9, 5), st(8, 3), st(99, 99)}
	for i, b := range all {
		if i < k {
			pos = append(pos, st(b.H, b.Last()))
			if len(b.Msgs) > 1 {
				pos = append(pos, st(b.H, b.First+1))
			}
		}
	}
	held := func() []*linkw.Msg { return sent0 }()
	gens, lastGen := map[int]int{}, map[int]int{}
	confirm := func(s *types.BMCLinkStatus) {
		for len(held) > 0 {
			e := end(held[0])
			if e.Verifier.Height > s.Verifier.Height || e.RxSeq > s.RxSeq {
				return
			}
			held = held[1:]
		}
	}
	trace := ""
	for n := 0; n < depth; n++ {
		kind := x.Choose(5) // stop, not verifiable, already verified, old witness, status
		if n == 0 {
			if kind == 0 && part != 0 {
				return
			}
		}
		if kind == 0 {
			break
		}
		var id, idx int
		if kind < 4 {
			idx = x.Choose(len(ids))
			id = ids[idx]
		}
		before, _ := w.Snapshot()
		calls := w.StatusCalls
		switch kind {
		case 1:
			answer = pos[x.Choose(len(pos))]
			trace += fmt.Sprintf("not verifiable (%d) at %d/%d; ", id, answer.Verifier.Height, answer.RxSeq)
		case 4:
			answer = pos[x.Choose(len(pos))]
			trace += fmt.Sprintf("status %d/%d; ", answer.Verifier.Height, answer.RxSeq)
		default:
			trace += fmt.Sprintf("result %d for %d; ", kind, id)
		}
		if n == 0 && (int(kind)+len(x.Taken())+int(answer.RxSeq)*3+idx)&(parts-1) != part {
			return
		}
		switch kind {
		case 1:
			w.Report(&types.RelayResult{Id: id, Err: link.BMVNotVerifiable})
		case 2:
			w.Report(&types.RelayResult{Id: id, Err: link.BMVAlreadyVerified})
		case 3:
			w.Report(&types.RelayResult{Id: id, Err: link.BMVRevertInvalidBlockWitnessOld})
		case 4:
			s := *answer
			w.Report(&s)
		}
		r.Trans(1)
		if w.Done || w.Fatal != "" || w.Spin {
			c.Fail("stopped", "the relay stopped: %v %s; %s", w.DoneErr, w.Fatal, trace)
		}
		if w.RepPending() {
			c.Fail("stall", "the relay no longer takes reports; %s", trace)
		}
		after, _ := w.Snapshot()
		resent := after[len(before):]
		switch kind {
		case 1:
			if w.StatusCalls <= calls {
				c.Fail("no-status", "a not-verifiable result led to no status request; %s", trace)
			}
			confirm(answer)
			// every held message beyond the position goes out again, in order
			var want, got []string
			for _, m := range held {
				want = append(want, m.String())
			}
			covered := map[int64]bool{}
			prev := int64(-1)
			for _, m := range resent {
				got = append(got, m.String())
				for _, it := range m.Items {
					if it.Type() == link.TypeMessageProof {
						if it.StartSeqNum() < prev {
							c.Fail("resend-order", "resent %v out of order; %s", resent, trace)
						}
						prev = it.LastSeqNum()
						for q := it.StartSeqNum() + 1; q <= it.LastSeqNum(); q++ {
							covered[q] = true
						}
					}
				}
			}
			for _, m := range held {
				for _, it := range m.Items {
					for q := it.StartSeqNum() + 1; q <= it.LastSeqNum(); q++ {
						if q > answer.RxSeq && !covered[q] {
							c.Fail("not-resent", "message %d is held, is beyond the destination's sequence %d and was not sent again (want %v, got %v); %s", q, answer.RxSeq, want, got, trace)
						}
					}
				}
			}
			for _, m := range resent {
				if e := end(m); e.RxSeq <= answer.RxSeq && e.Verifier.Height <= answer.Verifier.Height {
					c.Fail("resent-covered", "message %v, which the destination already has, was sent again; %s", m, trace)
				}
			}
		case 2:
			if len(resent) > 0 {
				c.Fail("resent", "an already-verified result made the relay send %v; %s", resent, trace)
			}
			for i, m := range held {
				if m.Id == id {
					held = held[i+1:]
					break
				}
			}
		case 3:
			var want *linkw.Msg
			for _, m := range held {
				if m.Id == id {
					want = m
				}
			}
			if want == nil || proof(want) == nil {
				if len(resent) > 0 {
					c.Fail("resent", "an old-witness result for a message that holds no block proof or is not outstanding made the relay send %v; %s", resent, trace)
				}
				break
			}
			if len(resent) != 1 || resent[0].String() != want.String() || resent[0].Id != id {
				c.Fail("witness", "the witness of %v is too old, and the relay sends %v; %s", want, resent, trace)
			}
			gens[id]++
			if proof(resent[0]).Gen <= proof(want).Gen || gens[id] > 1 && proof(resent[0]).Gen <= lastGen[id] {
				c.Fail("witness", "the witness of %v is too old, and the relay sends the same one again; %s", want, trace)
			}
			lastGen[id] = proof(resent[0]).Gen
		case 4:
			if len(resent) > 0 {
				c.Fail("resent", "a status report made the relay send %v; %s", resent, trace)
			}
			confirm(answer)
		}
	}
	// the relay goes on with the next block
	before, _ := w.Snapshot()
	for i := k; i < len(all); i++ {
		if !w.CanProduce() {
			c.Fail("stall", "the relay no longer takes blocks; %s", trace)
		}
		w.Produce()
	}
	after, bad := w.Snapshot()
	if w.Done || w.Fatal != "" || w.Spin || w.Untaken() > 0 || len(bad) > 0 {
		c.Fail("stall", "the relay stopped on the next block: %v %s %v; %s", w.DoneErr, w.Fatal, bad, trace)
	}
	next := int64(5)
	if k > 0 {
		next = all[k-1].Last()
	}
	d := &linkw.Dst{H: 9, Rx: next, Blocks: all, Style: style}
	if k > 0 {
		d.H = all[k-1].H
	}
	for _, m := range after[len(before):] {
		if code := d.Exec(m); code != 0 {
			c.Fail("next-block", "after the reports the relay sends %v, which does not follow height %d seq %d; %s", m, d.H, d.Rx, trace)
		}
	}
	if d.Rx != all[len(all)-1].Last() {
		c.Fail("next-block", "the messages of the next blocks were not relayed; %s", trace)
	}
	r.Validated(1)
	r.State("open", style, fmt.Sprint(h), k, trace)
}

func end(m *linkw.Msg) *types.BMCLinkStatus {
	s := &types.BMCLinkStatus{}
	for _, it := range m.Items {
		if it.TargetHeight() > s.Verifier.Height {
			s.Verifier.Height = it.TargetHeight()
		}
		if it.LastSeqNum() > s.RxSeq {
			s.RxSeq = it.LastSeqNum()
		}
	}
	return s
}

// proof is the block proof of a message.
func proof(m *linkw.Msg) *linkw.Item {
	for _, it := range m.Items {
		if it.Type() == link.TypeBlockProof {
			return it
		}
	}
	return nil
}

// fatal: a result the relay cannot recover from stops it.
func fatal(c *mc.C, code errors.Code) {
	all := blocks([][]int64{{2}, {2}})
	w := linkw.NewWorld(all, linkw.StyleProof, 12)
	w.Status = func() (*types.BMCLinkStatus, error) {
		s := &types.BMCLinkStatus{RxSeq: 5}
		s.Verifier.Height = 9
		return s, nil
	}
	defer w.End()
	w.Begin()
	w.Produce()
	sent, _ := w.Snapshot()
	w.Report(&types.RelayResult{Id: sent[0].Id, Err: code})
	if !w.Done && w.Fatal == "" {
		c.Fail("unknown-code", "result code %d neither stops the relay nor is handled", code)
	}
	c.R.Validated(1)
	c.R.Trans(2)
}
