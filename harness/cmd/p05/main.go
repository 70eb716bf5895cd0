// P05: the Ethereum bridge receiver (chain/ethbr) against a simulated Ethereum node.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	ethcommon "github.com/ethereum/go-ethereum/common"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
	"verif/ref"
)

const (
	bmc   = "0xAAaAaAaaAaAaAaaAaAAAAAAAAaaaAaAaAaaAaaAa"
	src   = types.BtpAddress("btp://0x61.bsc/" + bmc)
	dst   = types.BtpAddress("btp://0x2.icon/cx0000000000000000000000000000000000000002")
	other = "btp://0x3.icon/cx0000000000000000000000000000000000000002"
)

func main() {
	client.BlockRetryInterval = 200 * time.Microsecond
	client.BlockRetryLimit = 1 << 30
	mc.Main("P05", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"the node answers log queries in log order and applies the address and topic filter it is given",
		"receivers are called from one goroutine at a time, as the relay loop does"}}, body)
}

// A shape is the events of one block: o for this link, f for another destination,
// | a new transaction.
type conf struct {
	shape []string
	size  int
	first int64
	fseq  int64 // sequence of the other destination's first event
	k, j  int
	http  bool
	gap   bool // transaction indexes with gaps
}

func (f conf) String() string {
	return fmt.Sprintf("%q-size%d-first%d-other%d-pos%d.%d-http%v-gap%v", strings.Join(f.shape, ","), f.size, f.first, f.fseq, f.k, f.j, f.http, f.gap)
}

func own(s string) int { return strings.Count(s, "o") }

func msg(b, i, pat int) []byte {
	n := 0
	switch pat {
	case 0:
		n = 20
	case 1:
		n = []int{0, 1, 60, 130}[i%4]
	case 2:
		n = []int{200, 3, 200, 3}[i%4]
	}
	if n == 0 {
		return nil
	}
	m := []byte(fmt.Sprintf("%d.%d:", b, i))
	for len(m) < n {
		m = append(m, byte('a'+len(m)%26))
	}
	return m
}

type ev struct {
	h  int64
	tx int64
	m  []byte
}

type world struct {
	n    *fake.Eth
	side *recvw.Side
	done func()
}

func build(f conf) *world {
	d := &bmv{rx: f.first, evs: map[int64]ev{}}
	var bs []*recvw.Blk
	eb := []*fake.EBlock{fake.NewEBlock(8), fake.NewEBlock(9)}
	seq, fseq := f.first, f.fseq
	addr := ethcommon.HexToAddress(bmc)
	for i, s := range f.shape {
		h := int64(10 + i)
		b := &recvw.Blk{H: h, First: seq}
		// noise: the same event of another contract, another event of this one
		logs := []fake.ELog{
			{Tx: 0, Addr: ethcommon.HexToAddress("0xbb"), Topic: fake.MessageTopic, Next: string(dst), Seq: seq + 1, Msg: []byte("noise")},
			{Tx: 0, Addr: addr, Topic: ethcommon.HexToHash("0x1234"), Next: string(dst), Seq: seq + 2, Msg: []byte("noise")},
		}
		tx := 1
		for _, k := range s {
			no := tx
			if f.gap {
				no = tx*tx*5 + i
			}
			switch k {
			case '|':
				tx++
			case 'o':
				seq++
				m := msg(i, len(b.Msgs), f.size)
				b.Msgs = append(b.Msgs, m)
				logs = append(logs, fake.ELog{Tx: uint(no), Addr: addr, Topic: fake.MessageTopic, Next: string(dst), Seq: seq, Msg: m})
				d.evs[seq] = ev{h, int64(no), m}
			case 'f':
				fseq++
				logs = append(logs, fake.ELog{Tx: uint(no), Addr: addr, Topic: fake.MessageTopic, Next: other, Seq: fseq, Msg: []byte("not yours")})
			}
		}
		b.Announce = len(b.Msgs) > 0
		eb = append(eb, fake.NewEBlock(h, logs...))
		bs = append(bs, b)
	}
	st := &types.BMCLinkStatus{TxSeq: 77, RxSeq: f.first}
	st.Verifier.Height = 9
	mid := false
	if f.k > 0 {
		b := bs[f.k-1]
		st.RxSeq = b.First + int64(f.j)
		st.Verifier.Height = b.H
		mid = f.j < len(b.Msgs)
	}
	d.rx = st.RxSeq
	n := fake.NewEth(eb...)
	n.SetHead(int64(9 + f.k))
	n.Announce(int64(9 + f.k))
	url, done := fake.TheHub().Register(n)
	if !f.http {
		url = strings.Replace(url, "http", "ws", 1)
	}
	s := &recvw.Side{R: ethbr.NewEthBridge(src, dst, url, recvw.Quiet), Blocks: bs, Pos: f.k, Mid: mid, Status: st,
		Release: func(k int) { n.SetHead(int64(10 + k)); n.Announce(int64(10 + k)) },
		Settle: func(k int) {
			fake.Wait(200*time.Millisecond, func() bool { return n.Calls("eth_getLogs") >= k-f.k+2 })
			time.Sleep(300 * time.Microsecond)
		},
		Update: func(bu link.BlockUpdate, b *recvw.Blk) error { return nil },
		Exec:   d.exec,
	}
	return &world{n, s, func() { s.R.Stop(); n.Close(); done() }}
}

// bmv executes relay messages the way the bridge verifier contract does.
type bmv struct {
	rx  int64
	evs map[int64]ev
}

func ints(it ref.Item) int64 { return ref.FromTwosComp(it.B).Int64() }

func (d *bmv) exec(m []byte, from *types.BMCLinkStatus) ([][]byte, error) {
	list := func(b []byte, n int) ([]ref.Item, error) {
		it, k, ok := ref.Parse(b)
		if !ok || k != len(b) || !it.List || n >= 0 && len(it.L) != n {
			return nil, fmt.Errorf("malformed part %x of relay message %x", b, m)
		}
		return it.L, nil
	}
	if from.RxSeq != d.rx {
		return nil, fmt.Errorf("sequence %d, the contract is at %d", from.RxSeq, d.rx)
	}
	l, err := list(m, 1)
	if err != nil {
		return nil, err
	}
	if !l[0].List || len(l[0].L) == 0 {
		return nil, fmt.Errorf("relay message without receipts")
	}
	var out [][]byte
	last := int64(-1)
	for _, rc := range l[0].L {
		rp, err := list(rc.B, 3)
		if err != nil {
			return nil, err
		}
		evs, err := list(rp[1].B, -1)
		if err != nil {
			return nil, err
		}
		if ints(rp[0]) <= last {
			return nil, fmt.Errorf("receipt of transaction %d after %d", ints(rp[0]), last)
		}
		last = ints(rp[0])
		for _, e := range evs {
			if !e.List || len(e.L) != 3 {
				return nil, fmt.Errorf("malformed event %v", e)
			}
			sn := ints(e.L[1])
			if sn != d.rx+1 {
				return nil, fmt.Errorf("event with sequence %d after %d", sn, d.rx)
			}
			if string(e.L[0].B) != string(dst) {
				return nil, fmt.Errorf("event for %q", e.L[0].B)
			}
			w, ok := d.evs[sn]
			if !ok {
				return nil, fmt.Errorf("sequence %d was never emitted", sn)
			}
			if ints(rp[2]) != w.h || ints(rp[0]) != w.tx {
				return nil, fmt.Errorf("sequence %d comes in receipt %d of height %d, want %d of %d", sn, ints(rp[0]), ints(rp[2]), w.tx, w.h)
			}
			if string(e.L[2].B) != string(w.m) {
				return nil, fmt.Errorf("sequence %d has message %q, want %q", sn, e.L[2].B, w.m)
			}
			out = append(out, e.L[2].B)
			d.rx++
		}
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("relay message without events")
	}
	return out, nil
}

func positions(shape []string) (out [][2]int) {
	out = append(out, [2]int{0, 0})
	for k := 1; k <= len(shape); k++ {
		for j := 0; j <= own(shape[k-1]); j++ {
			out = append(out, [2]int{k, j})
		}
	}
	return
}

// shapes gives all blocks of up to n events.
func shapes(n int, kinds string) (out []string) {
	out = append(out, "")
	cur := []string{}
	for _, k := range kinds {
		cur = append(cur, string(k))
	}
	for i := 1; i <= n; i++ {
		out = append(out, cur...)
		var nx []string
		for _, c := range cur {
			for _, k := range kinds {
				nx = append(nx, c+string(k), c+"|"+string(k))
			}
		}
		cur = nx
	}
	return
}

func body(r *mc.R) {
	follow := func(f conf, mode int) {
		r.Explore(fmt.Sprintf("follow/%s/mode%d", f, mode), func(c *mc.C, x *mc.X) {
			w := build(f)
			defer w.done()
			group := func(max int) int { return 1 + x.Choose(max) }
			ahead := func() bool { return x.Choose(2) == 1 }
			lim := func(call string, sizes []int) int64 {
				ls := []int64{0, 150, 1 << 30}
				switch {
				case mode >= 0:
					return ls[mode]
				case call == "bu" || len(sizes) == 1:
					return ls[2]
				}
				return ls[x.Choose(3)]
			}
			w.side.Follow(c, group, ahead, lim)
			r.Exec(1)
		})
	}
	for _, f := range []conf{{shape: []string{"oo", "o", "oof"}}, {shape: []string{"o", "f", "oo"}, first: 5}, {shape: []string{"ooo", "o"}, k: 1, j: 1}} {
		f := f
		recvw.Races(r, f.String(), func() (*recvw.Side, func()) { w := build(f); return w.side, w.done })
	}
	n1, n2 := 4, 2
	if r.Thorough() {
		n1, n2 = 5, 3
	}
	for _, s := range shapes(n1, "of") {
		sh := []string{s}
		for _, p := range positions(sh) {
			for size := 0; size < 3; size++ {
				follow(conf{shape: sh, size: size, k: p[0], j: p[1]}, -1)
			}
			for mode := 0; mode < 3; mode++ {
				follow(conf{shape: sh, first: 126, fseq: 100, k: p[0], j: p[1], gap: true}, mode)
				follow(conf{shape: sh, first: 254, fseq: 1000, k: p[0], j: p[1], size: 1, gap: true}, mode)
			}
			follow(conf{shape: sh, k: p[0], j: p[1], http: true}, 0)
		}
	}
	ss := shapes(n2, "of")
	for _, a := range ss {
		for _, b := range ss {
			sh := []string{a, b}
			for _, p := range positions(sh) {
				for mode := 0; mode < 3; mode++ {
					follow(conf{shape: sh, fseq: int64(mode), first: 32766, k: p[0], j: p[1], size: mode}, mode)
				}
			}
		}
	}
	ts := shapes(2, "o")
	if r.Thorough() {
		ts = append(shapes(3, "o"), "f", "of", "f|o", "o|f|o")
	}
	for _, a := range ts {
		for _, b := range ts {
			for _, d := range ts {
				sh := []string{a, b, d}
				for _, p := range positions(sh) {
					follow(conf{shape: sh, k: p[0], j: p[1]}, 0)
					follow(conf{shape: sh, k: p[0], j: p[1]}, 2)
				}
			}
		}
	}
	if r.Thorough() {
		for _, s := range shapes(7, "o") {
			sh := []string{s}
			for _, p := range positions(sh) {
				for mode := 0; mode < 3; mode++ {
					follow(conf{shape: sh, size: 2, first: 120, k: p[0], j: p[1], gap: true}, mode)
				}
			}
		}
	}
	// faults of the node at the block bad
	type flt struct {
		name string
		do   func(w *world, bad int)
	}
	call := func(name string, a *fake.Answer) flt {
		return flt{name, func(w *world, bad int) {
			h := w.n.Blocks[int64(10+bad)].Head.Hash().Hex()
			w.n.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
				if m == "eth_getLogs" && strings.Contains(strings.ToLower(string(p[0])), strings.ToLower(h)) {
					return a
				}
				return nil
			}
		}}
	}
	raw := func(name string, data []byte) flt {
		return flt{name, func(w *world, bad int) {
			b := w.n.Blocks[int64(10+bad)]
			b.Logs = append(b.Logs, fake.ELog{Tx: 9, Addr: ethcommon.HexToAddress(bmc), Topic: fake.MessageTopic, Raw: data})
		}}
	}
	good := fake.ABIMessage(string(dst), 5, []byte("abc"))
	huge := append([]byte(nil), good...)
	huge[31] = 0xff
	faults := []flt{
		call("logs-error", &fake.Answer{Err: `{"code":-32000,"message":"boom"}`, Status: 200}),
		call("logs-500", &fake.Answer{Status: 500, Body: "boom", CType: "text/plain"}),
		call("logs-drop", &fake.Answer{Drop: true}),
		call("logs-type", &fake.Answer{Result: `5`}),
		raw("data-empty", []byte{}),
		raw("data-short", good[:40]),
		raw("data-cut", good[:len(good)-32]),
		raw("data-offset", huge),
	}
	for _, http := range []bool{false, true} {
		for _, sh := range [][]string{{"o", "o", "o"}, {"oo", "", "o"}, {"", "o|oo", "f"}} {
			for bad := 0; bad < 3; bad++ {
				for rel := bad + 1; rel <= 3; rel++ {
					for _, ft := range faults {
						if ft.name == "logs-500" && !http {
							continue
						}
						http, sh, bad, rel, ft := http, sh, bad, rel, ft
						r.Case(fmt.Sprintf("fault/%q/%v/%d/%d/%s", strings.Join(sh, ","), http, bad, rel, ft.name), func(c *mc.C) {
							w := build(conf{shape: sh, http: http})
							defer w.done()
							ft.do(w, bad)
							w.side.ExpectError(c, bad, rel)
							r.Exec(1)
						})
					}
				}
			}
		}
	}
	for i, a := range []*fake.Answer{{Err: `{"code":-32601,"message":"no"}`}, {Drop: true}, {Result: `7`}} {
		a := a
		r.Case(fmt.Sprintf("refused/%d", i), func(c *mc.C) {
			w := build(conf{shape: []string{"o", "o"}})
			defer w.done()
			w.n.Override = func(m string, k int, p []json.RawMessage) *fake.Answer {
				if m == "eth_subscribe" {
					return a
				}
				return nil
			}
			w.side.ExpectError(c, 0, 2)
			r.Exec(1)
		})
	}
	for at := 0; at < 3; at++ {
		at := at
		r.Case(fmt.Sprintf("lost/%d", at), func(c *mc.C) {
			w := build(conf{shape: []string{"o", "o", "o"}})
			defer w.done()
			rel := w.side.Release
			w.side.Release = func(k int) {
				if k == at {
					w.n.Kill()
					return
				}
				rel(k)
			}
			w.side.ExpectError(c, at, at+1)
			r.Exec(1)
		})
	}
	for _, http := range []bool{false, true} {
		for rel := 0; rel <= 3; rel++ {
			for take := 0; take <= rel; take++ {
				http, rel, take := http, rel, take
				r.Case(fmt.Sprintf("stop/%v/%d/%d", http, rel, take), func(c *mc.C) {
					w := build(conf{shape: []string{"o", "o|o", "o"}, http: http})
					defer w.done()
					w.side.StopNow(c, rel, take)
					r.Exec(1)
				})
			}
		}
	}
}
