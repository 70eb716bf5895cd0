// Package recvw drives a real receiver the way the relay loop does, with the arrival of
// blocks, the grouping of calls and the size limits chosen by the explorer, and checks
// every status, item and relay message it gives.
package recvw

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"

	"verif/mc"
)

// Quiet is a logger that prints nothing.
var Quiet = func() log.Logger { l := log.New(); l.SetLevel(log.FatalLevel); return l }()

// Blk is what the oracle knows of a source block.
type Blk struct {
	H        int64
	First    int64 // sequence before its first message
	Msgs     [][]byte
	Announce bool // the receiver has to announce it (otherwise it may)
}

func (b *Blk) Last() int64 { return b.First + int64(len(b.Msgs)) }

// Side is one source chain with its receiver and the destination's verifier.
type Side struct {
	R       link.Receiver
	Blocks  []*Blk // in height order; the first Pos are known to the destination
	Pos     int    // blocks below the destination's position; Blocks[Pos-1] is its last one
	Mid     bool   // messages of Blocks[Pos-1] remain
	Release func(k int)
	Settle  func(k int) // wait until the receiver has probably got block k
	Exec    func(m []byte, from *types.BMCLinkStatus) ([][]byte, error)
	Update  func(bu link.BlockUpdate, b *Blk) error
	Status  *types.BMCLinkStatus
	Wait    time.Duration
	race    *race
}

func (s *Side) wait() time.Duration {
	if s.Wait == 0 {
		return 10 * time.Second
	}
	return s.Wait
}

type run struct {
	*Side
	c     *mc.C
	ch    <-chan link.ReceiverMessage
	taken map[int64]link.ReceiveStatus
	bls   types.BMCLinkStatus
	got   [][]byte
	from  types.BMCLinkStatus
	items []link.RelayMessageItem
	lastH int64
}

// Limits chooses the limit of the next call; n is the size of the next message.
type Limits func(call string, sizes []int) int64

// Follow delivers all blocks.  group chooses how many further blocks become visible
// before the next round of calls, ahead whether the receiver already has one more.
func (s *Side) Follow(c *mc.C, group func(max int) int, ahead func() bool, lim Limits) {
	st := *s.Status
	ch, err := s.R.Start(&st)
	if err != nil {
		c.Fail("start", "Start at height %d sequence %d fails: %v", s.Status.Verifier.Height, s.Status.RxSeq, err)
	}
	if rs, err := s.R.GetStatus(); err == nil && rs != nil {
		known := false
		for _, b := range s.Blocks {
			known = known || b.H == rs.Height() && b.Last() == rs.Seq()
		}
		if !known {
			c.Fail("getstatus", "GetStatus before the first block gives height %d sequence %d", rs.Height(), rs.Seq())
		}
	}
	r := &run{Side: s, c: c, ch: ch, taken: map[int64]link.ReceiveStatus{}, bls: *s.Status, from: *s.Status}
	if s.Mid {
		b := s.Blocks[s.Pos-1]
		r.take(b)
		r.rest(b, lim)
		r.flush()
	}
	next := s.Pos
	pending := -1
	for next < len(s.Blocks) || pending >= 0 {
		if pending >= 0 {
			r.take(s.Blocks[pending])
			pending = -1
		}
		if next < len(s.Blocks) {
			k := next + group(len(s.Blocks)-next)
			for ; next < k; next++ {
				s.Release(next)
				r.take(s.Blocks[next])
			}
		}
		if next < len(s.Blocks) && ahead() {
			s.Release(next)
			s.Settle(next)
			if s.Blocks[next].Announce {
				pending = next
			}
			next++
		}
		if s.race != nil {
			atomic.StoreInt32(&s.race.inRound, 1)
		}
		r.round(lim)
		if s.race != nil {
			atomic.StoreInt32(&s.race.inRound, 0)
			atomic.AddInt64(&s.race.rounds, 1)
		}
		done := next - 1
		if pending >= 0 {
			done = pending - 1
		}
		want := s.Status.RxSeq
		if done >= s.Pos || s.Mid {
			want = s.Blocks[done].Last()
		}
		if r.bls.RxSeq != want {
			c.Fail("sequence", "after the calls for the blocks up to height %d the status is at sequence %d, want %d", s.Blocks[done].H, r.bls.RxSeq, want)
		}
		c.R.Trans(1)
	}
	var all [][]byte
	for i, b := range s.Blocks {
		if i < s.Pos-1 || i == s.Pos-1 && !s.Mid {
			continue
		}
		for j, m := range b.Msgs {
			if b.First+int64(j)+1 > s.Status.RxSeq {
				all = append(all, m)
			}
		}
	}
	same := len(all) == len(r.got)
	for i := 0; same && i < len(all); i++ {
		same = bytes.Equal(all[i], r.got[i])
	}
	if !same {
		c.Fail("messages", "the relay messages carry %q, want %q", r.got, all)
	}
	c.R.Validated(len(all))
}

func (r *run) take(b *Blk) {
	if !b.Announce {
		return
	}
	t := time.NewTimer(r.wait())
	defer t.Stop()
	for {
		select {
		case m, ok := <-r.ch:
			if !ok {
				r.c.Fail("closed", "the receiver's channel is closed before block %d is announced", b.H)
			}
			rs, ok := m.(link.ReceiveStatus)
			if !ok {
				r.c.Fail("monitor-error", "the receiver reports %v (%T) instead of block %d", m, m, b.H)
			}
			if rs.Height() <= r.lastH {
				r.c.Fail("announce-order", "height %d is announced after %d", rs.Height(), r.lastH)
			}
			r.lastH = rs.Height()
			var x *Blk
			for _, y := range r.Blocks {
				if y.H == rs.Height() {
					x = y
				}
			}
			if x == nil {
				r.c.Fail("announce-unknown", "height %d is announced, which has no messages for this link", rs.Height())
			}
			if rs.Seq() != x.Last() {
				r.c.Fail("announce-seq", "height %d is announced with sequence %d, its last message is %d", x.H, rs.Seq(), x.Last())
			}
			r.taken[x.H] = rs
			if st, err := r.R.GetStatus(); err != nil || st == nil || st.Height() < rs.Height() {
				r.c.Fail("getstatus", "GetStatus after the announcement of %d gives %v, %v", rs.Height(), st, err)
			}
			for q := x.First + 1; q <= x.Last(); q++ {
				if h := r.R.GetHeightForSeq(q); q > r.Status.RxSeq && h != x.H {
					r.c.Fail("height-for-seq", "GetHeightForSeq(%d) gives %d, the message is in block %d", q, h, x.H)
				}
			}
			if x == b {
				return
			}
			if x.H > b.H {
				r.c.Fail("announce-skip", "height %d is announced, block %d was skipped", x.H, b.H)
			}
		case <-t.C:
			r.c.FailTiming("announce-missing", "block %d is never announced", b.H)
			return
		}
	}
}

func (r *run) round(lim Limits) {
	for n := 0; ; n++ {
		if n > 50 {
			r.c.Fail("endless", "block updates are built without end at height %d", r.bls.Verifier.Height)
		}
		l := lim("bu", nil)
		bus, err := r.R.BuildBlockUpdate(&r.bls, l)
		if err != nil {
			r.c.Fail("bu-error", "BuildBlockUpdate at height %d: %v", r.bls.Verifier.Height, err)
		}
		if len(bus) == 0 {
			// nothing may be missing
			for h := range r.taken {
				if h > r.bls.Verifier.Height {
					r.c.Fail("bu-missing", "no block update at height %d limit %d though block %d was announced", r.bls.Verifier.Height, l, h)
				}
			}
			return
		}
		h := r.bls.Verifier.Height
		stop := false
		for _, bu := range bus {
			var b *Blk
			for _, y := range r.Blocks {
				if y.H > h && (y.Announce || y.H == bu.TargetHeight()) {
					b = y
					break
				}
			}
			if b == nil || bu.TargetHeight() != b.H || bu.Type() != link.TypeBlockUpdate {
				r.c.Fail("bu-order", "block update of height %d follows height %d", bu.TargetHeight(), h)
			}
			h = b.H
			if err := r.Update(bu, b); err != nil {
				r.c.Fail("bu-content", "block update of height %d: %v", b.H, err)
			}
			if r.taken[b.H] == nil { // the receiver is ahead of its announcements
				stop = true
				break
			}
			r.items = append(r.items, bu)
			rx, tx := r.bls.RxSeq, r.bls.TxSeq
			if err := bu.UpdateBMCLinkStatus(&r.bls); err != nil {
				r.c.Fail("bu-status", "block update of height %d: %v", b.H, err)
			}
			if r.bls.Verifier.Height != b.H || r.bls.RxSeq != rx || r.bls.TxSeq != tx {
				r.c.Fail("bu-status", "the status update of block %d moves height %d, receive sequence %d to %d, send sequence %d to %d", b.H, r.bls.Verifier.Height, rx, r.bls.RxSeq, tx, r.bls.TxSeq)
			}
			r.rest(b, lim)
			r.flush()
		}
		if stop {
			return
		}
	}
}

// rest delivers the messages of b that remain.
func (r *run) rest(b *Blk, lim Limits) {
	for n := 0; r.bls.RxSeq < b.Last(); n++ {
		if n > 50 {
			r.c.Fail("endless", "message proofs of block %d never get to its end", b.H)
		}
		var sizes []int
		for _, m := range b.Msgs[r.bls.RxSeq-b.First:] {
			sizes = append(sizes, len(m))
		}
		l := lim("mp", sizes)
		mp, err := r.R.BuildMessageProof(&r.bls, l)
		if err != nil {
			r.c.Fail("mp-error", "BuildMessageProof at height %d sequence %d limit %d: %v", r.bls.Verifier.Height, r.bls.RxSeq, l, err)
		}
		if mp == nil {
			r.c.Fail("mp-missing", "no message proof at height %d sequence %d, the block's last is %d", r.bls.Verifier.Height, r.bls.RxSeq, b.Last())
		}
		if mp.Type() != link.TypeMessageProof {
			r.c.Fail("mp-type", "message proof of type %v", mp.Type())
		}
		rx, tx, h := r.bls.RxSeq, r.bls.TxSeq, r.bls.Verifier.Height
		if err := mp.UpdateBMCLinkStatus(&r.bls); err != nil {
			r.c.Fail("mp-status", "message proof of height %d: %v", b.H, err)
		}
		k := r.bls.RxSeq - rx
		if r.bls.Verifier.Height != h || r.bls.TxSeq != tx || k < 1 || r.bls.RxSeq > b.Last() {
			r.c.Fail("mp-status", "the message proof at height %d sequence %d moves the status to height %d sequence %d (block ends at %d), send sequence %d to %d", h, rx, r.bls.Verifier.Height, r.bls.RxSeq, b.Last(), tx, r.bls.TxSeq)
		}
		if mp.LastSeqNum() != r.bls.RxSeq {
			r.c.Fail("mp-status", "the message proof ends at %d by its own account, its status update at %d", mp.LastSeqNum(), r.bls.RxSeq)
		}
		var sum int64
		for _, x := range sizes[:k-1] {
			sum += int64(x)
		}
		if k > 1 && sum > l {
			r.c.Fail("limit", "the message proof at height %d sequence %d has %d messages, %d bytes without the last, limit %d", h, rx, k, sum, l)
		}
		r.items = append(r.items, mp)
		if r.bls.RxSeq < b.Last() {
			r.flush()
		}
	}
}

func (r *run) flush() {
	if len(r.items) == 0 {
		return
	}
	m, err := r.R.BuildRelayMessage(r.items)
	if err != nil {
		r.c.Fail("rm-error", "BuildRelayMessage: %v", err)
	}
	if len(m) > 0 {
		msgs, err := r.Exec(m, &r.from)
		if err != nil {
			r.c.Fail("verify", "the destination at height %d sequence %d refuses the relay message: %v (status of the items: height %d sequence %d)", r.from.Verifier.Height, r.from.RxSeq, err, r.bls.Verifier.Height, r.bls.RxSeq)
		}
		if r.from.RxSeq+int64(len(msgs)) != r.bls.RxSeq {
			r.c.Fail("verify", "a relay message brings the destination from sequence %d by %d messages, the items' status says %d", r.from.RxSeq, len(msgs), r.bls.RxSeq)
		}
		r.got = append(r.got, msgs...)
		r.c.R.State(fmt.Sprint(r.bls.RxSeq), fmt.Sprintf("%x", m))
	} else if r.bls.RxSeq != r.from.RxSeq {
		r.c.Fail("verify", "items that move the sequence from %d to %d give an empty relay message", r.from.RxSeq, r.bls.RxSeq)
	}
	r.from = r.bls
	r.items = nil
}

// ExpectError starts the receiver, takes the announcements of the blocks before bad and
// wants an error instead of any later announcement.
func (s *Side) ExpectError(c *mc.C, bad int, release int) {
	st := *s.Status
	ch, err := s.R.Start(&st)
	if err != nil {
		return
	}
	for k := s.Pos; k < release; k++ {
		s.Release(k)
	}
	i := s.Pos
	for {
		t := time.NewTimer(s.wait())
		select {
		case m, ok := <-ch:
			t.Stop()
			if !ok {
				c.Fail("error-lost", "the receiver's channel is closed without an error, %d blocks announced", i-s.Pos)
			}
			if err, ok := m.(error); ok && err != nil {
				return
			}
			rs, ok := m.(link.ReceiveStatus)
			if !ok {
				c.Fail("announce", "the receiver sends %v (%T)", m, m)
			}
			if rs.Height() <= s.Status.Verifier.Height {
				continue
			}
			for i < len(s.Blocks) && !s.Blocks[i].Announce {
				i++
			}
			if i >= bad || i >= len(s.Blocks) || rs.Height() != s.Blocks[i].H {
				c.Fail("skipped", "height %d is announced though block %d could not be read", rs.Height(), s.Blocks[bad].H)
			}
			i++
		case <-t.C:
			c.FailTiming("error-missing", "no error is reported though block %d could not be read", s.Blocks[bad].H)
			return
		}
	}
}

// StopNow starts the receiver, releases rel blocks, takes take announcements and stops.
func (s *Side) StopNow(c *mc.C, rel, take int) {
	st := *s.Status
	ch, err := s.R.Start(&st)
	if err != nil {
		c.Fail("start", "Start fails: %v", err)
	}
	for k := 0; k < rel; k++ {
		s.Release(s.Pos + k)
	}
	for k := 0; k < take; k++ {
		select {
		case <-ch:
		case <-time.After(s.wait()):
			c.FailTiming("announce-missing", "announcement %d is missing", k)
			return
		}
	}
	if rel > 0 {
		s.Settle(s.Pos + rel - 1)
	}
	s.R.Stop()
	for k := 0; ; k++ {
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
			if k > rel+2 {
				c.Fail("stop", "the receiver keeps announcing after Stop")
			}
		case <-time.After(s.wait()):
			c.FailTiming("stop", "the receiver's channel is not closed after Stop")
			return
		}
	}
}
