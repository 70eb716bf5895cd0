// P06: the Ethereum block monitor (chain/ethbr/client) against a simulated node.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum"
	ethcommon "github.com/ethereum/go-ethereum/common"

	"github.com/icon-project/btp/chain/ethbr/client"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
)

const limit = 3

func main() {
	client.BlockRetryInterval = 200 * time.Microsecond
	client.BlockRetryLimit = limit
	mc.Main("P06", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"the source chain does not reorganise blocks the node has announced"}}, body)
}

var (
	bmc   = ethcommon.HexToAddress("0xaa")
	noise = ethcommon.HexToAddress("0xbb")
)

// the chain: blocks 0..12, block h has h%3 logs of the contract and one of another
func chain() []*fake.EBlock {
	var bs []*fake.EBlock
	for h := int64(0); h <= 12; h++ {
		b := fake.NewEBlock(h, fake.ELog{Addr: noise, Topic: fake.MessageTopic, Next: "x", Seq: 900 + h})
		for i := int64(0); i < h%3; i++ {
			b.Logs = append(b.Logs, fake.ELog{Tx: uint(i), Addr: bmc, Topic: fake.MessageTopic, Next: "x", Seq: 10*h + i})
		}
		bs = append(bs, b)
	}
	return bs
}

type mon struct {
	n    *fake.Eth
	cl   *client.Client
	mu   sync.Mutex
	got  []int64
	bad  string
	over bool
	err  error
	ret  chan error
	done func()
}

func (m *mon) list() []int64 { m.mu.Lock(); defer m.mu.Unlock(); return append([]int64(nil), m.got...) }

// start begins to monitor from height; cb may fail or block the i-th delivery.
func start(c *mc.C, n *fake.Eth, ws bool, height int64, filter bool, cb func(i int, m *mon) error) *mon {
	url, done := fake.TheHub().Register(n)
	if ws {
		url = strings.Replace(url, "http", "ws", 1)
	}
	m := &mon{n: n, ret: make(chan error, 1)}
	m.cl = client.NewClient(url, recvw.Quiet)
	m.done = func() { m.cl.CloseMonitor(); n.Close(); done() }
	br := &client.BlockRequest{Height: big.NewInt(height)}
	if filter {
		br.FilterQuery = &ethereum.FilterQuery{Addresses: []ethcommon.Address{bmc}, Topics: [][]ethcommon.Hash{{fake.MessageTopic}}}
	}
	go func() {
		var err error
		if site, p := mc.Try(func() {
			err = m.cl.MonitorBlock(br, func(b *client.BlockNotification) error {
				m.mu.Lock()
				i := len(m.got)
				want := height + int64(i)
				e := n.Blocks[want]
				switch {
				case m.over:
					m.bad = "a block is delivered after the callback failed"
				case b.Height == nil || b.Height.Int64() != want:
					m.bad = fmt.Sprintf("block %v is delivered as number %d from height %d", b.Height, i, height)
				case b.Header == nil || b.Header.Number.Int64() != want || b.Hash != e.Head.Hash() || b.Header.Hash() != b.Hash:
					m.bad = fmt.Sprintf("block %d is delivered with another block's hash or header", want)
				default:
					k := int(want % 3)
					if !filter {
						k = 0
					}
					if len(b.Logs) != k {
						m.bad = fmt.Sprintf("block %d is delivered with %d logs, it has %d", want, len(b.Logs), k)
					}
					for j, l := range b.Logs {
						if w := e.Log(j + 1); l.BlockNumber != w.BlockNumber || string(l.Data) != string(w.Data) || l.TxIndex != w.TxIndex || l.Address != w.Address {
							m.bad = fmt.Sprintf("log %d of block %d is %v", j, want, l)
						}
					}
				}
				if b.Height != nil {
					m.got = append(m.got, b.Height.Int64())
				}
				m.mu.Unlock()
				if cb != nil {
					if err := cb(i, m); err != nil {
						m.mu.Lock()
						m.over = true
						m.mu.Unlock()
						return err
					}
				}
				return nil
			})
		}); p != nil {
			m.mu.Lock()
			m.bad = fmt.Sprintf("panic at %s: %v", site, p)
			m.mu.Unlock()
		}
		m.ret <- err
	}()
	return m
}

func (m *mon) check(c *mc.C) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.bad != "" {
		c.Fail("delivery", "%s (delivered %v)", m.bad, m.got)
	}
}

// wait waits for the monitor's end.
func (m *mon) wait(c *mc.C) (error, bool) {
	select {
	case err := <-m.ret:
		m.check(c)
		return err, true
	case <-time.After(40 * time.Second): // the client gives up a lost request after 10 s
		m.check(c)
		c.FailTiming("stuck", "the monitor does not end (delivered %v)", m.list())
		return nil, false
	}
}

var kinds = []struct {
	name string
	a    *fake.Answer
}{
	{"null", &fake.Answer{Result: "null"}},
	{"error", &fake.Answer{Err: `{"code":-32000,"message":"boom"}`, Status: 200}},
	{"500", &fake.Answer{Status: 500, Body: "boom", CType: "text/plain"}},
	{"drop", &fake.Answer{Drop: true}},
}

// failures makes the lookups of height h fail f[h] times.
func failures(n *fake.Eth, f map[int64]int, a *fake.Answer, logs map[int64]*fake.Answer) {
	var mu sync.Mutex
	left := map[int64]int{}
	for h, k := range f {
		left[h] = k
	}
	n.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
		switch m {
		case "eth_getBlockByNumber":
			var s string
			json.Unmarshal(p[0], &s)
			var h int64
			fmt.Sscanf(s, "0x%x", &h)
			mu.Lock()
			defer mu.Unlock()
			if left[h] > 0 {
				left[h]--
				return a
			}
		case "eth_getLogs":
			for h, a := range logs {
				if strings.Contains(strings.ToLower(string(p[0])), strings.ToLower(n.Blocks[h].Head.Hash().Hex())) {
					return a
				}
			}
		}
		return nil
	}
}

func body(r *mc.R) {
	boom := errors.New("callback failed")
	// polling: every head at the start, every requested height around it, every number
	// of failing lookups per height
	poll := func(head, height, top int64, f map[int64]int, kind int) {
		r.Case(fmt.Sprintf("poll/head%d/from%d/top%d/%v/%s", head, height, top, f, kinds[kind].name), func(c *mc.C) {
			n := fake.NewEth(chain()...)
			n.SetHead(top)
			failures(n, f, kinds[kind].a, nil)
			fl := n.Override
			n.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
				if m == "eth_blockNumber" && k == 1 { // the head when monitoring begins
					return &fake.Answer{Result: fmt.Sprintf(`"0x%x"`, head)}
				}
				return fl(m, k, p)
			}
			m := start(c, n, false, height, true, nil)
			defer m.done()
			err, ok := m.wait(c)
			if !ok {
				return
			}
			got := int64(len(m.list()))
			lo, hi := int64(0), top-height+1 // numbers of blocks that must, may be delivered
			if hi < 0 {
				hi = 0
			}
			lo = hi
			cut := func(p *int64, h int64) {
				if k := h - height; k < *p {
					*p = k
				}
				if *p < 0 {
					*p = 0
				}
			}
			for h, k := range f {
				first := head
				switch {
				case h > top || k == 0:
				case h < first: // looked up while catching up: only if there is something to catch up
					if h >= height {
						cut(&lo, h)
					}
				case k > limit:
					cut(&lo, h)
					cut(&hi, h)
					if h == first { // the head comes before what is below it
						lo, hi = 0, 0
					}
				case k == limit:
					cut(&lo, h)
					if h == first {
						lo = 0
					}
				}
			}
			if got < lo || got > hi {
				c.Fail("polling", "%d blocks are delivered from height %d (head %d, top %d, failing lookups %v), want %d to %d", got, height, head, top, f, lo, hi)
			}
			if err == nil {
				c.Fail("silent", "polling ends without an error after %d blocks", got)
			}
			r.Trans(int(got))
			r.Exec(1)
			r.Validated(int(got))
			r.State(fmt.Sprint(head, height, top, f), fmt.Sprint(m.list()))
		})
	}
	maxf := limit + 1
	for head := int64(2); head <= 6; head++ {
		for height := int64(1); height <= 7; height++ {
			for top := head; top <= 7; top++ {
				poll(head, height, top, nil, 0)
				for a := int64(1); a <= top; a++ {
					for k := 1; k <= maxf; k++ {
						for kind := range kinds {
							poll(head, height, top, map[int64]int{a: k}, kind)
						}
					}
				}
			}
		}
	}
	// failures of two or three heights in a row: the count starts afresh
	for x := 0; x <= maxf; x++ {
		for y := 0; y <= maxf; y++ {
			for z := 0; z <= maxf; z++ {
				for _, head := range []int64{4, 5} {
					for kind := range kinds {
						if r.Quick() && kind > 1 {
							continue
						}
						poll(head, 4, 7, map[int64]int{5: x, 6: y, 7: z}, kind)
						poll(head, 3, 7, map[int64]int{5: x, 6: y, 7: z}, kind)
					}
				}
			}
		}
	}
	// polling: failing first question, failing logs, failing callback
	for kind := range kinds {
		kind := kind
		r.Case("poll-number/"+kinds[kind].name, func(c *mc.C) {
			n := fake.NewEth(chain()...)
			n.SetHead(5)
			n.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
				if m == "eth_blockNumber" {
					return kinds[kind].a
				}
				return nil
			}
			m := start(c, n, false, 4, true, nil)
			defer m.done()
			if err, ok := m.wait(c); ok && err == nil && len(m.list()) == 0 {
				c.Fail("silent", "the monitor ends without an error")
			}
			r.Exec(1)
		})
	}
	// any transport: logs of block g fail, or the callback fails for it
	for _, ws := range []bool{false, true} {
		for height := int64(3); height <= 6; height++ {
			for g := height; g <= 7; g++ {
				for kind := range kinds {
					if kinds[kind].name == "null" || ws && kinds[kind].name == "500" {
						continue
					}
					ws, height, g, kind := ws, height, g, kind
					r.Case(fmt.Sprintf("logs/%v/%d/%d/%s", ws, height, g, kinds[kind].name), func(c *mc.C) {
						n := fake.NewEth(chain()...)
						n.SetHead(7)
						failures(n, nil, nil, map[int64]*fake.Answer{g: kinds[kind].a})
						m := start(c, n, ws, height, true, nil)
						defer m.done()
						n.Announce(5)
						n.Announce(7)
						err, ok := m.wait(c)
						if !ok {
							return
						}
						if got := m.list(); int64(len(got)) != g-height || err == nil {
							c.Fail("logs", "the logs of block %d cannot be had: delivered %v, error %v", g, got, err)
						}
						r.Exec(1)
					})
				}
				ws, height, g := ws, height, g
				r.Case(fmt.Sprintf("callback/%v/%d/%d", ws, height, g), func(c *mc.C) {
					n := fake.NewEth(chain()...)
					n.SetHead(7)
					m := start(c, n, ws, height, true, func(i int, m *mon) error {
						if int64(i) == g-height {
							return boom
						}
						return nil
					})
					defer m.done()
					for _, h := range []int64{5, 6, 7} {
						n.Announce(h)
					}
					err, ok := m.wait(c)
					if !ok {
						return
					}
					if got := m.list(); int64(len(got)) != g-height+1 || err == nil {
						c.Fail("callback", "the callback fails for block %d: delivered %v, error %v", g, got, err)
					}
					r.Exec(1)
				})
				r.Case(fmt.Sprintf("close/%v/%d/%d", ws, height, g), func(c *mc.C) {
					n := fake.NewEth(chain()...)
					n.SetHead(7)
					m := start(c, n, ws, height, true, func(i int, m *mon) error {
						if int64(i) == g-height {
							m.cl.CloseMonitor()
						}
						return nil
					})
					defer m.done()
					for _, h := range []int64{5, 6, 7} {
						n.Announce(h)
					}
					m.wait(c)
					r.Exec(1)
				})
			}
		}
		ws := ws
		r.Case(fmt.Sprintf("close-idle/%v", ws), func(c *mc.C) {
			n := fake.NewEth(chain()...)
			n.SetHead(7)
			m := start(c, n, ws, 7, true, nil)
			defer m.done()
			n.Announce(7)
			fake.Wait(5*time.Second, func() bool { return len(m.list()) > 0 || len(m.ret) > 0 })
			m.cl.CloseMonitor()
			m.cl.CloseMonitor()
			m.wait(c)
			r.Exec(1)
		})
		for _, height := range []int64{5, 7} {
			height := height
			r.Case(fmt.Sprintf("nofilter/%v/%d", ws, height), func(c *mc.C) {
				n := fake.NewEth(chain()...)
				n.SetHead(7)
				m := start(c, n, ws, height, false, nil)
				defer m.done()
				n.Announce(7)
				if !fake.Wait(10*time.Second, func() bool { return int64(len(m.list())) >= 8-height }) {
					c.FailTiming("missing", "only %v is delivered", m.list())
				}
				m.check(c)
				r.Exec(1)
			})
		}
	}
	// subscription: every sequence of announced heads
	const base = 4
	n := 4
	if r.Thorough() {
		n = 5
	}
	sub := func(heads []int64, fail int64, kind int) {
		r.Case(fmt.Sprintf("sub/%v/fail%d/%d", heads, fail, kind), func(c *mc.C) {
			nd := fake.NewEth(chain()...)
			nd.SetHead(12)
			if fail > 0 {
				failures(nd, map[int64]int{fail: 1 << 30}, kinds[kind].a, nil)
			}
			m := start(c, nd, true, base, true, nil)
			defer m.done()
			max, looked := int64(0), false
			next := int64(base)
			for _, h := range heads {
				nd.Announce(h)
				if h > max {
					max = h
				}
				for ; next < h; next++ {
					looked = looked || next == fail
				}
				if h == next {
					next++
				}
			}
			want := max - base + 1
			if want < 0 {
				want = 0
			}
			if looked {
				err, ok := m.wait(c)
				if !ok {
					return
				}
				if got := m.list(); int64(len(got)) != fail-base || err == nil {
					c.Fail("lookup", "heads %v, block %d cannot be had: delivered %v, error %v", heads, fail, got, err)
				}
				r.Exec(1)
				return
			}
			if !fake.Wait(10*time.Second, func() bool { return int64(len(m.list())) >= want || len(m.ret) > 0 }) {
				m.check(c)
				c.FailTiming("missing", "heads %v announced: only %v is delivered from height %d", heads, m.list(), base)
				return
			}
			// the node goes away: an error, and nothing but what was announced was delivered
			nd.Kill()
			err, ok := m.wait(c)
			if !ok {
				return
			}
			if got := m.list(); int64(len(got)) != want {
				c.Fail("subscription", "heads %v announced: %v is delivered from height %d", heads, got, base)
			}
			if err == nil {
				c.Fail("silent", "the subscription is lost without an error")
			}
			r.Trans(len(heads))
			r.Validated(int(want))
			r.State(fmt.Sprint(heads), fmt.Sprint(want))
			r.Exec(1)
		})
	}
	var rec func(h []int64)
	rec = func(h []int64) {
		sub(append([]int64(nil), h...), 0, 0)
		if len(h) <= 2 || r.Thorough() && len(h) <= 3 {
			for f := int64(base); f < base+5; f++ {
				for k := range kinds {
					if kinds[k].name != "500" {
						sub(append([]int64(nil), h...), f, k)
					}
				}
			}
		}
		if len(h) == n {
			return
		}
		for d := int64(-2); d <= 4; d++ {
			rec(append(h[:len(h):len(h)], base+d))
		}
	}
	rec(nil)
}
