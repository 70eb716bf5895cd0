// P03: the BTP-block receiver (chain/icon/btp2) against a simulated ICON node.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/types"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
	"verif/ref"
)

const (
	src = types.BtpAddress("btp://0x1.icon/cx0000000000000000000000000000000000000001")
	dst = types.BtpAddress("btp://0x2.icon/cx0000000000000000000000000000000000000002")
)

func main() {
	mc.Main("P03", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"the node announces BTP blocks in height order and answers height queries for announced blocks",
		"receivers are called from one goroutine at a time, as the relay loop does"}}, body)
}

type conf struct {
	cnt    []int // messages per block
	size   int   // message size pattern
	offset int64
	first  int64 // network message number of the first block
	netw   bool  // the first block is the network's first one
	k, j   int   // destination: k blocks verified, j messages of the last delivered
	low    bool  // the destination is at height 1
	extra  int   // 0 Java verifier, 1 Solidity verifier, 2 none
}

func (f conf) String() string {
	return fmt.Sprintf("cnt%v-size%d-off%d-first%d-net%v-pos%d.%d-extra%d-low%v", f.cnt, f.size, f.offset, f.first, f.netw, f.k, f.j, f.extra, f.low)
}

var heights = []int64{10, 11, 14, 15, 200}

func msg(b, i, pat int) []byte {
	n := 0
	switch pat {
	case 0:
		n = 20
	case 1:
		n = []int{0, 1, 60, 130}[i%4]
	case 2:
		n = []int{200, 3, 200, 3}[i%4]
	}
	m := []byte(fmt.Sprintf("%d.%d:", b, i))
	for len(m) < n {
		m = append(m, byte('a'+len(m)%26))
	}
	if n == 0 && pat == 1 {
		m = nil
	}
	return m
}

type world struct {
	n    *fake.Icon
	side *recvw.Side
	done func()
}

func build(f conf) *world {
	ch := &fake.IChain{Nid: 2, Start: 3, Offset: f.offset}
	for i, c := range f.cnt {
		b := &fake.IBlock{H: heights[i], Ctx: c == 0 || i%2 == 1}
		for j := 0; j < c; j++ {
			b.Msgs = append(b.Msgs, msg(i, j, f.size))
		}
		ch.Blocks = append(ch.Blocks, b)
	}
	if f.netw {
		ch.Start = heights[0] - 1
	}
	ch.Finish(f.first)
	n := fake.NewIcon(ch)
	url, done := fake.TheHub().Register(n)
	var bs []*recvw.Blk
	for i, b := range ch.Blocks {
		bs = append(bs, &recvw.Blk{H: b.H, First: f.offset + b.First, Msgs: b.Msgs, Announce: !(f.netw && i == 0)})
	}
	st := &types.BMCLinkStatus{TxSeq: 77}
	st.Verifier.Height = 9
	if f.low {
		st.Verifier.Height = 1
	}
	st.RxSeq = f.offset + f.first
	ef, ec := f.first, int64(0)
	for i := 0; i < f.k; i++ {
		b := ch.Blocks[i]
		st.Verifier.Height = b.H
		if f.extra == 0 || len(b.Msgs) > 0 {
			ef, ec = b.First, int64(len(b.Msgs))
		}
		st.RxSeq = f.offset + b.Last()
	}
	mid := false
	if f.k > 0 && f.j < f.cnt[f.k-1] {
		mid = true
		st.RxSeq = f.offset + ch.Blocks[f.k-1].First + int64(f.j)
	}
	if f.extra != 2 {
		st.Verifier.Extra = ref.L(num(f.offset), num(ef), num(ec)).Enc()
	}
	n.Release(f.k)
	d := &bmv{ch: ch, rx: st.RxSeq, h: st.Verifier.Height, offset: f.offset}
	if f.k > 0 {
		d.cur = ch.Blocks[f.k-1]
	}
	s := &recvw.Side{R: btp2.NewBTP2(src, dst, url, recvw.Quiet), Blocks: bs, Pos: f.k, Mid: mid, Status: st,
		Release: func(k int) { n.Release(k + 1) },
		Settle: func(k int) {
			fake.Wait(200*time.Millisecond, func() bool { return n.Calls("btp_getMessages") > 0 && n.Sent() >= k-f.k+1 })
			time.Sleep(300 * time.Microsecond)
		},
		Update: func(bu link.BlockUpdate, b *recvw.Blk) error { return nil },
		Exec:   d.exec,
	}
	return &world{n, s, func() { s.R.Stop(); n.Close(); done() }}
}

func num(v int64) ref.Item { return ref.S(ref.TwosComp(big.NewInt(v))) }

// bmv executes relay messages the way the BTP block verifier contracts do.
type bmv struct {
	ch     *fake.IChain
	h, rx  int64
	offset int64
	cur    *fake.IBlock // last verified block
}

func ints(it ref.Item) int64 { return ref.FromTwosComp(it.B).Int64() }

func (d *bmv) exec(m []byte, from *types.BMCLinkStatus) ([][]byte, error) {
	it, n, ok := ref.Parse(m)
	if !ok || n != len(m) || !it.List || len(it.L) != 1 || !it.L[0].List {
		return nil, fmt.Errorf("malformed relay message %x", m)
	}
	if from.RxSeq != d.rx {
		return nil, fmt.Errorf("sequence %d, the contract is at %d", from.RxSeq, d.rx)
	}
	if len(it.L[0].L) == 0 {
		return nil, fmt.Errorf("relay message without items")
	}
	var out [][]byte
	for _, x := range it.L[0].L {
		if !x.List || len(x.L) != 2 || x.L[0].List || x.L[1].List {
			return nil, fmt.Errorf("malformed item %v", x)
		}
		p, n, ok := ref.Parse(x.L[1].B)
		if !ok || n != len(x.L[1].B) || !p.List {
			return nil, fmt.Errorf("malformed payload %x", x.L[1].B)
		}
		switch ints(x.L[0]) {
		case 1:
			if len(p.L) != 2 {
				return nil, fmt.Errorf("block update of %d parts", len(p.L))
			}
			if d.cur != nil && d.rx < d.offset+d.cur.Last() {
				return nil, fmt.Errorf("block update while %d messages of block %d remain", d.offset+d.cur.Last()-d.rx, d.cur.H)
			}
			var b *fake.IBlock
			for _, y := range d.ch.Blocks {
				if y.H > d.h && !(y.H == d.ch.Start+1) {
					b = y
					break
				}
			}
			if b == nil || string(p.L[0].B) != string(b.Header) {
				return nil, fmt.Errorf("block update with header %x does not follow height %d", p.L[0].B, d.h)
			}
			if string(p.L[1].B) != string(b.Proof) {
				return nil, fmt.Errorf("block update of height %d has proof %q", b.H, p.L[1].B)
			}
			d.cur, d.h = b, b.H
		case 2:
			if d.cur == nil {
				return nil, fmt.Errorf("message proof without block")
			}
			mp := &mbt.MerkleBinaryTreeProof{}
			if len(p.L) != 3 {
				return nil, fmt.Errorf("message proof of %d parts", len(p.L))
			}
			nodes := func(l ref.Item) (r []mbt.ProofNode) {
				for _, y := range l.L {
					if len(y.L) == 2 {
						r = append(r, mbt.ProofNode{NumOfLeaf: int(ints(y.L[0])), Value: y.L[1].B})
					}
				}
				return
			}
			mp.ProofInLeft, mp.ProofInRight = nodes(p.L[0]), nodes(p.L[2])
			for _, y := range p.L[1].L {
				mp.Contents = append(mp.Contents, y.B)
			}
			k := int(d.rx - d.offset - d.cur.First)
			if len(mp.Contents) == 0 || k < 0 || k+len(mp.Contents) > len(d.cur.Msgs) {
				return nil, fmt.Errorf("message proof of %d messages at position %d of block %d (%d messages)", len(mp.Contents), k, d.cur.H, len(d.cur.Msgs))
			}
			root, err := ref.MbtVerify("eth", len(d.cur.Msgs), k+1, k+len(mp.Contents), mp)
			if err != nil {
				return nil, fmt.Errorf("message proof of block %d: %v", d.cur.H, err)
			}
			if string(root) != string(d.cur.Root) {
				return nil, fmt.Errorf("message proof of block %d gives another root", d.cur.H)
			}
			d.rx += int64(len(mp.Contents))
			out = append(out, mp.Contents...)
		default:
			return nil, fmt.Errorf("item of type %d", ints(x.L[0]))
		}
	}
	return out, nil
}

func positions(cnt []int, netw bool) (out [][2]int) {
	out = append(out, [2]int{0, 0})
	for k := 1; k <= len(cnt); k++ {
		for j := 0; j <= cnt[k-1]; j++ {
			out = append(out, [2]int{k, j})
		}
	}
	return
}

func all(n, max int, f func([]int)) {
	c := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int(nil), c...))
			return
		}
		for c[i] = 0; c[i] <= max; c[i]++ {
			rec(i + 1)
		}
		c[i] = 0
	}
	rec(0)
}

func body(r *mc.R) {
	follow := func(f conf, mode int) {
		r.Explore(fmt.Sprintf("follow/%s/mode%d", f, mode), func(c *mc.C, x *mc.X) {
			w := build(f)
			defer w.done()
			group := func(max int) int { return 1 + x.Choose(max) }
			ahead := func() bool { return x.Choose(2) == 1 }
			lim := func(call string, sizes []int) int64 {
				ls := []int64{0, 150, 1 << 30}
				switch {
				case mode >= 0:
					return ls[mode]
				case call == "bu":
					return ls[2]
				case len(sizes) == 1:
					return ls[2]
				}
				return ls[x.Choose(3)]
			}
			w.side.Follow(c, group, ahead, lim)
			r.Exec(1)
		})
	}
	for _, f := range []conf{{cnt: []int{2, 1, 3}}, {cnt: []int{1, 2}, first: 5}, {cnt: []int{3, 2, 1}, k: 1, j: 1}, {cnt: []int{1, 0, 2}}} {
		f := f
		recvw.Races(r, f.String(), func() (*recvw.Side, func()) { w := build(f); return w.side, w.done })
	}
	follow(conf{cnt: []int{2, 1}, low: true}, 1)
	max1, max2, max3 := 7, 4, 2
	if r.Thorough() {
		max1, max2, max3 = 10, 6, 3
	}
	// one and two blocks: every limit at every call
	for n := 1; n <= 2; n++ {
		m := max1
		if n == 2 {
			m = max2
		}
		all(n, m, func(cnt []int) {
			for _, p := range positions(cnt, false) {
				for size := 0; size < 3; size++ {
					if n == 2 && size > 0 && r.Quick() {
						continue
					}
					follow(conf{cnt: cnt, size: size, k: p[0], j: p[1]}, -1)
				}
				for mode := 0; mode < 3; mode++ {
					follow(conf{cnt: cnt, offset: 120, first: 63, k: p[0], j: p[1], extra: 1}, mode)
				}
				if p[0] == 0 || p[1] == cnt[p[0]-1] {
					follow(conf{cnt: cnt, k: p[0], j: p[1], extra: 2, first: 5}, 1)
				}
			}
		})
	}
	all(3, max3, func(cnt []int) {
		for _, p := range positions(cnt, false) {
			for mode := 0; mode < 3; mode++ {
				if r.Quick() && mode == 1 {
					continue
				}
				follow(conf{cnt: cnt, offset: 7, k: p[0], j: p[1]}, mode)
			}
		}
	})
	// the network's first block is not relayed
	all(2, 2, func(cnt []int) {
		if cnt[0] == 0 {
			follow(conf{cnt: cnt, netw: true}, 2)
			follow(conf{cnt: append(cnt, 1), netw: true}, 0)
		}
	})
	if r.Thorough() {
		all(4, 2, func(cnt []int) {
			for _, p := range positions(cnt, false) {
				follow(conf{cnt: cnt, k: p[0], j: p[1]}, 0)
				follow(conf{cnt: cnt, k: p[0], j: p[1]}, 2)
			}
		})
		for n := 10; n <= 17; n++ {
			for j := 0; j <= n; j++ {
				for mode := 0; mode < 3; mode++ {
					follow(conf{cnt: []int{n}, k: 1, j: j}, mode)
				}
			}
		}
	}
	// faults of the node
	b64 := base64.StdEncoding.EncodeToString
	type flt struct {
		name string
		do   func(n *fake.Icon, bad int)
	}
	call := func(name, method string, a *fake.Answer) flt {
		return flt{name, func(n *fake.Icon, bad int) {
			h := n.C.Blocks[bad].H
			n.Override = func(m string, k int, p json.RawMessage) *fake.Answer {
				var q struct{ Height string }
				json.Unmarshal(p, &q)
				if m == method && q.Height == fmt.Sprintf("0x%x", h) {
					return a
				}
				return nil
			}
		}}
	}
	ws := func(name string, e *fake.WSEvent) flt {
		return flt{name, func(n *fake.Icon, bad int) {
			n.WSNext = func(conn, i int) *fake.WSEvent {
				if i == bad {
					return e
				}
				return nil
			}
		}}
	}
	faults := []flt{
		call("messages-error", "btp_getMessages", &fake.Answer{Err: `{"code":-31000,"message":"E0000:boom"}`}),
		call("messages-500", "btp_getMessages", &fake.Answer{Status: 500, Body: "boom", CType: "text/plain"}),
		call("messages-drop", "btp_getMessages", &fake.Answer{Drop: true}),
		call("messages-base64", "btp_getMessages", &fake.Answer{Result: `["!!"]`}),
		call("messages-type", "btp_getMessages", &fake.Answer{Result: `5`}),
		ws("ws-text", &fake.WSEvent{Text: "{"}),
		ws("ws-base64", &fake.WSEvent{Text: `{"header":"!!"}`}),
		ws("ws-rlp", &fake.WSEvent{Text: `{"header":"` + b64([]byte{0xc3, 1}) + `"}`}),
		ws("ws-empty", &fake.WSEvent{Text: `{"header":""}`}),
		ws("ws-close", &fake.WSEvent{Close: 1000}),
		ws("ws-goaway", &fake.WSEvent{Close: 1001}),
		ws("ws-drop", &fake.WSEvent{Drop: true}),
	}
	for _, cnt := range [][]int{{1, 1, 1}, {2, 0, 1}, {0, 3, 0}} {
		for bad := 0; bad < 3; bad++ {
			for rel := bad + 1; rel <= 3; rel++ {
				for _, ft := range faults {
					cnt, bad, rel, ft := cnt, bad, rel, ft
					r.Case(fmt.Sprintf("fault/%v/%d/%d/%s", cnt, bad, rel, ft.name), func(c *mc.C) {
						w := build(conf{cnt: cnt})
						defer w.done()
						ft.do(w.n, bad)
						w.side.ExpectError(c, bad, rel)
						r.Exec(1)
					})
				}
			}
		}
	}
	// the answers needed before monitoring
	for _, m := range []string{"icx_call", "btp_getNetworkInfo"} {
		for i, a := range []*fake.Answer{{Err: notF}, {Drop: true}, {Result: `"zz"`}, {Result: `{"startHeight":"zz"}`}, {Status: 404, Body: "x", CType: "text/plain"}} {
			m, a := m, a
			r.Case(fmt.Sprintf("start/%s/%d", m, i), func(c *mc.C) {
				w := build(conf{cnt: []int{1, 1}})
				defer w.done()
				w.n.Override = func(x string, k int, p json.RawMessage) *fake.Answer {
					if x == m {
						return a
					}
					return nil
				}
				w.side.ExpectError(c, 0, 2)
				r.Exec(1)
			})
		}
	}
	for i, e := range []*fake.WSEvent{{Text: `{"code":1,"message":"no"}`}, {Close: 1000}, {Drop: true}, {Text: "x"}} {
		e := e
		r.Case(fmt.Sprintf("refused/%d", i), func(c *mc.C) {
			w := build(conf{cnt: []int{1, 1}})
			defer w.done()
			w.n.WSReq = func(int, string, map[string]interface{}) *fake.WSEvent { return e }
			w.side.ExpectError(c, 0, 2)
			r.Exec(1)
		})
	}
	for _, h := range []int64{0, -1} {
		h := h
		r.Case(fmt.Sprintf("zero/%d", h), func(c *mc.C) {
			w := build(conf{cnt: []int{1, 1}})
			defer w.done()
			w.side.Status.Verifier.Height = h
			w.side.ExpectError(c, 0, 2)
			r.Exec(1)
		})
	}
	// a block whose header or proof cannot be had is not skipped
	for _, m := range []string{"btp_getHeader", "btp_getProof"} {
		for i, a := range []*fake.Answer{{Err: notF}, {Drop: true}, {Result: `"!!"`}, {Result: `7`}, {Result: `"wwE="`}} {
			for bad := 0; bad < 2; bad++ {
				m, a, i, bad := m, a, i, bad
				if m == "btp_getProof" && i == 4 {
					continue // any bytes can be a proof
				}
				r.Case(fmt.Sprintf("update/%s/%d/%d", m, i, bad), func(c *mc.C) {
					w := build(conf{cnt: []int{1, 1}})
					defer w.done()
					w.n.Override = func(x string, k int, p json.RawMessage) *fake.Answer {
						var q struct{ Height string }
						json.Unmarshal(p, &q)
						if x == m && q.Height == fmt.Sprintf("0x%x", heights[bad]) {
							return a
						}
						return nil
					}
					st := *w.side.Status
					ch, err := w.side.R.Start(&st)
					if err != nil {
						c.Fail("start", "%v", err)
					}
					for k := 0; k < 2; k++ {
						w.side.Release(k)
						select {
						case <-ch:
						case <-time.After(10 * time.Second):
							c.FailTiming("announce-missing", "block %d", k)
							return
						}
					}
					bls := st
					bus, err := w.side.R.BuildBlockUpdate(&bls, 1<<30)
					if err == nil && len(bus) > bad {
						c.Fail("bu-invented", "a block update of height %d was built though the node refused it", bus[bad].TargetHeight())
					}
					if err == nil && len(bus) == 0 {
						c.Fail("bu-silent", "the failing %s of block %d gives neither an error nor a block update", m, bad)
					}
					r.Exec(1)
				})
			}
		}
	}
	for rel := 0; rel <= 3; rel++ {
		for take := 0; take <= rel; take++ {
			rel, take := rel, take
			r.Case(fmt.Sprintf("stop/%d/%d", rel, take), func(c *mc.C) {
				w := build(conf{cnt: []int{1, 0, 2}})
				defer w.done()
				w.side.StopNow(c, rel, take)
				r.Exec(1)
			})
		}
	}
}

const notF = `{"code":-31004,"message":"E1005:NotFound"}`
