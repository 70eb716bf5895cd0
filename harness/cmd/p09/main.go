// P09: what the Ethereum sender submits and reports.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	ethtypes "github.com/ethereum/go-ethereum/core/types"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/types"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
	"verif/sendw"
)

func main() {
	fake.NoKeepAlive()
	mc.Main("P09", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"go-ethereum's RPC client, transaction codec and ABI packing are trusted; call data is read back by an independent decoder",
		"an unexpected report is looked for until the answers are used up and a grace period of 30 ms has passed",
	}}, body)
}

const patience = 30 * time.Second

func jerr(code int, msg string) *fake.Answer {
	return &fake.Answer{Status: 200, Err: fmt.Sprintf(`{"code":%d,"message":%q}`, code, msg)}
}
func res(s string) *fake.Answer { return &fake.Answer{Result: s} }

// faults are answers that are no answer.
func faults() map[string]*fake.Answer {
	return map[string]*fake.Answer{
		"error":   jerr(-32000, "header not found"),
		"colons":  jerr(-32000, "node: 26: overloaded: x"),
		"http":    {Status: 500, Is: true, CType: "text/plain", Body: "a: 27: b"},
		"drop":    {Drop: true},
		"garbage": {Is: true, Body: "{"},
		"type":    res(`[1,2]`),
		"number":  res(`7`),
	}
}

func body(r *mc.R) {
	shapes(r)
	sending(r)
	outcomes(r)
	statuses(r)
	several(r)
	stops(r)
	silent(r)
	clientSend(r)
}

// shapes: every message length around the words of the encoding.
func shapes(r *mc.R) {
	probe := sendw.NewEthWorld(false, false)
	limit := probe.S.TxSizeLimit()
	probe.Done()
	top := 70
	if r.Thorough() {
		top = 300
	}
	var ns []int
	for n := 0; n <= top; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 1023, 1024, 65535, 65536, limit-1, limit, limit+1)
	for _, bf := range []bool{false, true} {
		for _, ws := range []bool{false, true} {
			mc.Parallel(len(ns), 8, func(i int) {
				n := ns[i]
				r.Case(fmt.Sprintf("length %d basefee=%v ws=%v", n, bf, ws), func(c *mc.C) {
					w := sendw.NewEthWorld(ws, bf)
					defer w.Done()
					ch, _ := w.S.Start()
					defer w.S.Stop()
					m := &sendw.Msg{ID: 7, B: sendw.Pattern(n, 3)}
					id, err := w.S.Relay(m)
					if err != nil || id != 7 {
						c.Fail("relay", "Relay gives %d %v", id, err)
					}
					sent(c, w, m.B)
					expect(c, w, ch, 7, -1, false, status(7, 3, 42, []byte{1, 2}))
					c.R.State("length", n)
					c.R.Exec(1)
					c.R.Trans(1)
					c.R.Validated(1)
				})
			})
		}
	}
}

func sent(c *mc.C, w *sendw.EthWorld, m ...[]byte) {
	txs, errs, _ := w.Snap()
	if len(errs) > 0 {
		c.Fail("refused", "the node finds: %v", errs)
	}
	if len(txs) != len(m) {
		c.Fail("count", "%d transactions for %d messages", len(txs), len(m))
	}
	for i := range m {
		if !bytes.Equal(txs[i].Msg, m[i]) {
			c.Fail("message", "message %d arrives as %x", i, txs[i].Msg)
		}
	}
}

func status(rx, tx, h int64, ex []byte) *types.BMCLinkStatus {
	s := &types.BMCLinkStatus{RxSeq: rx, TxSeq: tx}
	s.Verifier.Height, s.Verifier.Extra = h, ex
	return s
}

func same(a, b *types.BMCLinkStatus) bool {
	return a.TxSeq == b.TxSeq && a.RxSeq == b.RxSeq && a.Verifier.Height == b.Verifier.Height && bytes.Equal(a.Verifier.Extra, b.Verifier.Extra)
}

func show(x types.SenderMessage) string {
	switch t := x.(type) {
	case *types.RelayResult:
		if t != nil {
			return fmt.Sprintf("result id=%d code=%d", t.Id, t.Err)
		}
	case *types.BMCLinkStatus:
		if t != nil {
			return fmt.Sprintf("status %+v", *t)
		}
	}
	return fmt.Sprintf("%T %v", x, x)
}

// expect: the failure result (code >= 0; optional when lax) and then the status (when there is one).
func expect(c *mc.C, w *sendw.EthWorld, ch <-chan types.SenderMessage, id, code int, lax bool, st *types.BMCLinkStatus) {
	want := code >= 0
	end := time.After(patience)
	for {
		var grace <-chan time.Time
		if st == nil && (!want || lax) {
			if !fake.Wait(patience, func() bool { _, _, n := w.Snap(); return n > 0 }) {
				c.FailTiming("not-asked", "the status is not asked for")
			}
			grace = time.After(30 * time.Millisecond)
		}
		select {
		case <-grace:
			return
		case <-end:
			c.FailTiming("missing", "no report comes; result expected: %v", want)
		case x := <-ch:
			switch t := x.(type) {
			case *types.RelayResult:
				if !want || t == nil || t.Id != id || int(t.Err) != code {
					c.Fail("result", "reported: %s; want code %d of message %d", show(x), code, id)
				}
				want = false
			case *types.BMCLinkStatus:
				if want && !lax {
					c.Fail("result", "reported: %s; want code %d of message %d before", show(x), code, id)
				}
				if t == nil || st == nil || !same(t, st) {
					c.Fail("status", "reported: %s; want %v", show(x), st)
				}
				select {
				case y := <-ch:
					c.Fail("unexpected", "reported: %s after the status", show(y))
				case <-time.After(30 * time.Millisecond):
				}
				return
			default:
				c.Fail("unexpected", "reported: %s", show(x))
			}
		}
	}
}

// sending: node faults while a transaction is made and sent.
func sending(r *mc.R) {
	type job struct {
		method, name string
		a            *fake.Answer
		ws, bf       bool
		at           int
	}
	var js []job
	for _, m := range []string{"eth_gasPrice", "eth_getTransactionCount", "eth_sendRawTransaction", "eth_getBlockByNumber", "eth_maxPriorityFeePerGas"} {
		fs := faults()
		if m == "eth_sendRawTransaction" {
			for _, t := range []string{"already known", "nonce too low", "replacement transaction underpriced", "insufficient funds for gas * price + value", "execution reverted: 26:x"} {
				fs[t] = jerr(-32000, t)
			}
			delete(fs, "type") // the answer's content is not used
			delete(fs, "number")
		}
		for n, a := range fs {
			for v := 0; v < 4; v++ {
				for at := 0; at <= 1; at++ {
					if v%2 == 1 && (n == "http" || n == "garbage") {
						continue
					}
					js = append(js, job{m, n, a, v%2 == 1, v/2 == 1, at})
				}
			}
		}
	}
	mc.Parallel(len(js), 16, func(i int) {
		j := js[i]
		r.Case(fmt.Sprintf("sending %s %s ws=%v basefee=%v always=%v", j.method, j.name, j.ws, j.bf, j.at == 0), func(c *mc.C) {
			w := sendw.NewEthWorld(j.ws, j.bf)
			defer w.Done()
			hit := false
			w.Override = func(method string, n int, _ []json.RawMessage) *fake.Answer {
				if method == j.method && (j.at == 0 || n == j.at) && method != "eth_sendRawTransaction" {
					hit = true
					return j.a
				}
				return nil
			}
			w.Send = func(n int, t *sendw.EthTx) *fake.Answer {
				if j.method == "eth_sendRawTransaction" {
					hit = true
					return j.a
				}
				return nil
			}
			ch, _ := w.S.Start()
			defer w.S.Stop()
			m := &sendw.Msg{ID: 12, B: []byte("message")}
			var id int
			var err error
			if site, p := mc.Try(func() { id, err = w.S.Relay(m) }); p != nil {
				c.Fail("panic:"+site, "Relay crashes: %v", p)
			}
			c.R.Exec(1)
			c.R.Trans(1)
			c.R.Validated(1)
			txs, errs, _ := w.Snap()
			if len(errs) > 0 {
				c.Fail("refused", "%v", errs)
			}
			must := hit && (j.method == "eth_sendRawTransaction" || j.method == "eth_getTransactionCount")
			if must && err == nil {
				c.Fail("swallowed", "Relay returns no error although %s fails", j.method)
			}
			if err == nil {
				if id != 12 || len(txs) != 1 || !bytes.Equal(txs[0].Msg, m.B) {
					c.Fail("relay", "Relay returns id %d, %d transactions", id, len(txs))
				}
				expect(c, w, ch, 12, -1, false, status(7, 3, 42, []byte{1, 2}))
				return
			}
			if !hit {
				c.Fail("error", "Relay returns %v without a fault", err)
			}
			if j.method != "eth_sendRawTransaction" && len(txs) > 0 {
				c.Fail("sent", "a transaction is sent although Relay fails: %v", err)
			}
			select {
			case x := <-ch:
				c.Fail("report", "a failed Relay is followed by: %s", show(x))
			case <-time.After(20 * time.Millisecond):
			}
		})
	})
}

type text struct {
	t    string
	code int
	lax  bool // the text has no code in the contract's form
}

func texts(thorough bool) (o []text) {
	for _, pre := range []string{"execution reverted: ", "execution reverted:"} {
		for _, suf := range []string{"x", "", "a:b", " 26:"} {
			top := 60
			for n := 0; n <= top; n++ {
				if !thorough && suf != "x" && n != 0 && n != 25 && n != 26 && n != 27 && n != 28 {
					continue
				}
				o = append(o, text{fmt.Sprintf("%s%d:%s", pre, n, suf), n, false})
			}
			o = append(o, text{fmt.Sprintf("%s%d:%s", pre, 100, suf), 100, false}, text{fmt.Sprintf("%s%d:%s", pre, 1000, suf), 1000, false})
		}
	}
	for _, s := range []string{"execution reverted", "reverted", "out of gas", "invalid opcode"} {
		o = append(o, text{s, 25, false})
	}
	for _, s := range []string{"execution reverted: NotVerifiable", "execution reverted: ", "execution reverted: 26", "execution reverted: some:text", "execution reverted: :26", "execution reverted: 26x:y", "execution reverted: 0x1a:y", "execution reverted: 99999999999999999999:y", "execution reverted: -1:y", "execution reverted: -26:y", "::", ": :", ""} {
		o = append(o, text{s, 25, true})
	}
	return
}

// outcomes: every sequence of transaction, receipt and re-execution answers.
func outcomes(r *mc.R) {
	type job struct {
		name string
		pre  int
		tx   string
		rc   string
		a    *fake.Answer // at the step named by at
		at   string
		code int
		lax  bool
		bf   bool
		ws   bool
		gasx bool // the gas price query fails, so the fees are dynamic
	}
	var js []job
	k := 2
	if r.Thorough() {
		k = 4
	}
	for pre := 0; pre <= k; pre++ {
		js = append(js, job{name: "mined", pre: pre, rc: "ok", code: -1})
		js = append(js, job{name: "reverted", pre: pre, rc: "failed", at: "call", a: jerr(3, "execution reverted: 26:NotVerifiable"), code: 26})
		js = append(js, job{name: "lost", pre: pre, tx: "none", code: -1})
		js = append(js, job{name: "no receipt", pre: pre, rc: "none", code: -1})
		for n, a := range faults() {
			js = append(js, job{name: "tx " + n, pre: pre, at: "tx", a: a, code: -1})
			if pre < k {
				js = append(js, job{name: "receipt " + n, pre: pre, at: "receipt", a: a, code: -1})
			}
		}
	}
	for n, a := range faults() {
		js = append(js, job{name: "again " + n, rc: "failed", at: "tx2", a: a, code: -1})
		jb := job{name: "call " + n, rc: "failed", at: "call", a: a, code: -1}
		switch n {
		case "error":
			jb.code, jb.lax = 25, true
		case "colons":
			jb.code, jb.lax = 26, true
		case "type", "number":
			jb.code, jb.lax = 25, true
		}
		js = append(js, jb)
	}
	js = append(js, job{name: "again lost", rc: "failed", at: "tx2none", code: -1})
	js = append(js, job{name: "does not fail again", rc: "failed", at: "call", a: res(`"0x"`), code: 25})
	for _, t := range texts(r.Thorough()) {
		for _, c := range []int{3, -32000, -32603} {
			for v := 0; v < 3; v++ {
				if r.Quick() && v > 0 && !strings.HasPrefix(t.t, "execution reverted: 2") {
					continue
				}
				js = append(js, job{name: fmt.Sprintf("text %d %q", c, t.t), rc: "failed", at: "call", a: jerr(c, t.t), code: t.code, lax: t.lax, ws: v == 1, bf: v == 2, gasx: v == 2})
			}
		}
	}
	mc.Parallel(len(js), 60, func(i int) {
		j := js[i]
		r.Case(fmt.Sprintf("outcome %s after %d pending, ws=%v basefee=%v", j.name, j.pre, j.ws, j.bf), func(c *mc.C) {
			w := sendw.NewEthWorld(j.ws, j.bf)
			defer w.Done()
			if j.gasx {
				w.Override = func(method string, n int, _ []json.RawMessage) *fake.Answer {
					if method == "eth_gasPrice" {
						return jerr(-32000, "no price")
					}
					return nil
				}
			}
			w.Tx = func(n int, h common.Hash) (string, *fake.Answer) {
				if n <= j.pre {
					return "pending", nil
				}
				if j.at == "tx" {
					return "", j.a
				}
				if n > j.pre+1 {
					if j.at == "tx2" {
						return "", j.a
					}
					if j.at == "tx2none" {
						return "none", nil
					}
				}
				if j.tx != "" {
					return j.tx, nil
				}
				return "mined", nil
			}
			w.Receipt = func(n int, h common.Hash) (string, *fake.Answer) {
				if j.at == "receipt" {
					return "", j.a
				}
				return j.rc, nil
			}
			w.Call = func(n int, t *sendw.EthTx) *fake.Answer { return j.a }
			ch, _ := w.S.Start()
			defer w.S.Stop()
			if _, err := w.S.Relay(&sendw.Msg{ID: 31, B: []byte("m")}); err != nil {
				if j.gasx {
					c.R.Exec(1)
					return
				}
				c.Fail("relay", "Relay: %v", err)
			}
			expect(c, w, ch, 31, j.code, j.lax, status(7, 3, 42, []byte{1, 2}))
			sent(c, w, []byte("m"))
			c.R.State(j.name, j.pre, j.ws, j.bf)
			c.R.Trans(3 + j.pre)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

func pow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// statuses: every status answer, reported and asked for.
func statuses(r *mc.R) {
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Sub(pow(63), big.NewInt(1)), pow(63), pow(64), new(big.Int).Add(pow(64), big.NewInt(5)), new(big.Int).Sub(pow(256), big.NewInt(1))}
	exs := [][]byte{nil, {0}, {1, 2, 3}, bytes.Repeat([]byte{0xab}, 31), bytes.Repeat([]byte{0xab}, 32), bytes.Repeat([]byte{0xab}, 100)}
	type job struct {
		name string
		a    *fake.Answer
		want *types.BMCLinkStatus
	}
	var js []job
	add := func(rx, tx, h *big.Int, ex []byte) {
		b := sendw.EthStatus(rx, tx, h, ex)
		j := job{name: fmt.Sprintf("%v %v %v %d", rx, tx, h, len(ex)), a: res(`"` + fake.Hex(b) + `"`)}
		if rx.IsInt64() && tx.IsInt64() && h.IsInt64() {
			j.want = status(rx.Int64(), tx.Int64(), h.Int64(), ex)
		}
		js = append(js, j)
	}
	d := big.NewInt(9)
	for _, v := range vals {
		add(v, d, d, exs[2])
		add(d, v, d, exs[2])
		add(d, d, v, exs[2])
	}
	for _, e := range exs {
		add(big.NewInt(1), big.NewInt(2), big.NewInt(3), e)
	}
	full := sendw.EthStatus(d, d, d, exs[4])
	for n := 0; n < len(full); n += 16 {
		js = append(js, job{name: fmt.Sprintf("cut %d", n), a: res(`"` + fake.Hex(full[:n]) + `"`)})
	}
	for n, a := range faults() {
		js = append(js, job{name: n, a: a})
	}
	js = append(js, job{name: "null", a: res("null")}, job{name: "revert", a: jerr(3, "execution reverted: 18:NotExistsLink")})
	mc.Parallel(len(js)*2, 40, func(i int) {
		j, mode := js[i/2], i%2
		r.Case(fmt.Sprintf("status %s %d", j.name, mode), func(c *mc.C) {
			w := sendw.NewEthWorld(false, false)
			defer w.Done()
			w.StatusA = func(int) *fake.Answer { return j.a }
			ch, _ := w.S.Start()
			defer w.S.Stop()
			if mode == 0 {
				var st *types.BMCLinkStatus
				var err error
				if site, p := mc.Try(func() { st, err = w.S.GetStatus() }); p != nil {
					c.Fail("panic:"+site, "GetStatus crashes: %v", p)
				}
				if (err == nil) != (j.want != nil) || err == nil && !same(st, j.want) {
					c.Fail("get-status", "status %v error %v; want %v", st, err, j.want)
				}
			} else {
				if _, err := w.S.Relay(&sendw.Msg{ID: 1, B: []byte("m")}); err != nil {
					c.Fail("relay", "Relay: %v", err)
				}
				expect(c, w, ch, 1, -1, false, j.want)
			}
			sent(c, w, map[bool][][]byte{true: {[]byte("m")}}[mode == 1]...)
			c.R.State("status", j.name)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// several messages, their receipts released in every order.
func several(r *mc.R) {
	n := 3
	codes := []int{-1, 26, 27, 28}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	tot := 64
	mc.Parallel(len(perms)*tot, 40, func(v int) {
		perm, x := perms[v%len(perms)], v/len(perms)
		code := make([]int, n)
		for i := range code {
			code[i] = codes[x%4]
			x /= 4
		}
		r.Case(fmt.Sprintf("order %v codes %v", perm, code), func(c *mc.C) {
			w := sendw.NewEthWorld(v%2 == 1, false)
			defer w.Done()
			var mu sync.Mutex
			gate := map[common.Hash]chan bool{}
			idx := map[common.Hash]int{}
			w.Send = func(k int, t *sendw.EthTx) *fake.Answer {
				mu.Lock()
				gate[t.Tx.Hash()], idx[t.Tx.Hash()] = make(chan bool), k-1
				mu.Unlock()
				return nil
			}
			w.Receipt = func(k int, h common.Hash) (string, *fake.Answer) {
				mu.Lock()
				g, i := gate[h], idx[h]
				mu.Unlock()
				if v%2 == 0 {
					<-g
				}
				if code[i] < 0 {
					return "ok", nil
				}
				return "failed", nil
			}
			if v%2 == 1 { // one connection: answers cannot overtake, so the order is by pending
				w.Tx = func(k int, h common.Hash) (string, *fake.Answer) {
					mu.Lock()
					g := gate[h]
					mu.Unlock()
					select {
					case <-g:
						return "mined", nil
					default:
						return "pending", nil
					}
				}
			}
			w.Call = func(k int, t *sendw.EthTx) *fake.Answer {
				mu.Lock()
				defer mu.Unlock()
				return jerr(3, fmt.Sprintf("execution reverted: %d:x", code[idx[t.Tx.Hash()]]))
			}
			ch, _ := w.S.Start()
			defer w.S.Stop()
			var ms [][]byte
			for i := 0; i < n; i++ {
				m := &sendw.Msg{ID: 50 + i, B: []byte{byte(i), 1}}
				ms = append(ms, m.B)
				if id, err := w.S.Relay(m); err != nil || id != 50+i {
					c.Fail("relay", "Relay: %d %v", id, err)
				}
			}
			sent(c, w, ms...)
			txs, _, _ := w.Snap()
			for _, i := range perm {
				close(gate[txs[i].Tx.Hash()])
				expect(c, w, ch, 50+i, code[i], false, status(7, 3, 42, []byte{1, 2}))
			}
			if _, errs, _ := w.Snap(); len(errs) > 0 {
				c.Fail("refused", "%v", errs)
			}
			c.R.Trans(2 * n)
			c.R.State("order", perm, code)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// stops: the sender is stopped at every point of a message's life.
func stops(r *mc.R) {
	points := []string{"before relay", "tx asked", "polling", "receipt asked", "call asked", "result blocked", "status asked", "status blocked", "end"}
	mc.Parallel(len(points)*3, 30, func(v int) {
		p, n := points[v%len(points)], v/len(points)+1
		r.Case(fmt.Sprintf("stop %s, %d messages", p, n), func(c *mc.C) {
			w := sendw.NewEthWorld(false, false)
			defer w.Done()
			hold := make(chan bool)
			var mu sync.Mutex
			at := map[string]int{}
			reach := func(s string) {
				mu.Lock()
				at[s]++
				mu.Unlock()
				if s == p {
					<-hold
				}
			}
			w.Tx = func(k int, _ common.Hash) (string, *fake.Answer) {
				reach("tx asked")
				if p == "polling" && k == 1 {
					reach("polls")
					return "pending", nil
				}
				return "mined", nil
			}
			w.Receipt = func(int, common.Hash) (string, *fake.Answer) { reach("receipt asked"); return "failed", nil }
			w.Call = func(int, *sendw.EthTx) *fake.Answer {
				reach("call asked")
				return jerr(3, "execution reverted: 26:x")
			}
			w.StatusA = func(int) *fake.Answer { reach("status asked"); return nil }
			ch, _ := w.S.Start()
			until := func(s string) {
				if !fake.Wait(patience, func() bool { mu.Lock(); defer mu.Unlock(); return at[s] >= n }) {
					c.FailTiming("not-asked", "%s does not happen", s)
				}
			}
			read := func(results, all int) {
				for results > 0 || all > 0 {
					select {
					case x := <-ch:
						all--
						if _, ok := x.(*types.RelayResult); ok {
							results--
						}
					case <-time.After(patience):
						c.FailTiming("missing", "reports do not come")
					}
				}
			}
			if p != "before relay" {
				for i := 0; i < n; i++ {
					if _, err := w.S.Relay(&sendw.Msg{ID: i, B: []byte{byte(i)}}); err != nil {
						c.Fail("relay", "%v", err)
					}
				}
			}
			switch p {
			case "tx asked", "receipt asked", "call asked":
				until(p)
			case "polling":
				until("polls")
			case "result blocked":
				until("call asked")
				time.Sleep(20 * time.Millisecond)
			case "status asked":
				read(n, 0)
				until(p)
			case "status blocked":
				read(n, 0)
				until("status asked")
				time.Sleep(20 * time.Millisecond)
			case "end":
				read(n, 2*n)
			}
			done := make(chan bool)
			go func() { w.S.Stop(); close(done) }()
			select {
			case <-done:
			case <-time.After(patience):
				c.FailTiming("stop", "Stop does not end")
			}
			close(hold)
			end := time.After(patience)
			for open := true; open; {
				select {
				case _, open = <-ch:
				case <-end:
					c.FailTiming("open", "the report channel is not closed")
				}
			}
			time.Sleep(50 * time.Millisecond)
			if p == "polling" {
				time.Sleep(1100 * time.Millisecond)
			}
			c.R.State("stop", p, n)
			c.R.Trans(n)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// silent: an answer never comes.
func silent(r *mc.R) {
	ms := []string{"eth_gasPrice", "eth_getTransactionCount", "eth_sendRawTransaction", "eth_getTransactionByHash", "eth_getTransactionReceipt", "eth_call", "reexecution", "again"}
	mc.Parallel(len(ms)*2, 16, func(i int) {
		m, ws := ms[i/2], i%2 == 1
		r.Case(fmt.Sprintf("silent %s ws=%v", m, ws), func(c *mc.C) {
			w := sendw.NewEthWorld(ws, false)
			defer w.Done()
			quit := make(chan bool)
			defer close(quit)
			var mu sync.Mutex
			hit, seen := false, 0
			w.Override = func(method string, n int, _ []json.RawMessage) *fake.Answer {
				mu.Lock()
				at := m
				switch m {
				case "reexecution":
					at = "eth_call"
				case "again":
					at = "eth_getTransactionByHash"
					if method == at {
						seen++
					}
					if seen < 2 {
						at = ""
					}
				}
				stop := method == at && !hit
				hit = hit || stop
				mu.Unlock()
				if stop {
					<-quit
					return &fake.Answer{Drop: true}
				}
				return nil
			}
			if m == "reexecution" || m == "again" {
				w.Receipt = func(int, common.Hash) (string, *fake.Answer) { return "failed", nil }
				w.Call = func(int, *sendw.EthTx) *fake.Answer { return jerr(3, "execution reverted: 26:x") }
			}
			ch, _ := w.S.Start()
			defer w.S.Stop()
			done := make(chan error, 1)
			go func() { _, err := w.S.Relay(&sendw.Msg{ID: 5, B: []byte("m")}); done <- err }()
			var err error
			select {
			case err = <-done:
			case <-time.After(45 * time.Second):
				c.FailTiming("hang", "Relay does not return while the answer to %s is missing", m)
				return
			}
			if (m == "eth_getTransactionCount" || m == "eth_sendRawTransaction") && err == nil {
				c.Fail("swallowed", "Relay returns no error although %s was not answered", m)
			}
			c.R.Exec(1)
			c.R.Validated(1)
			if err != nil || ws { // over one connection the silence covers what follows
				return
			}
			if m == "eth_call" { // the status is not known; asking again works
				fake.Wait(45*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return hit })
				st, err := w.S.GetStatus()
				if err != nil || !same(st, status(7, 3, 42, []byte{1, 2})) {
					c.Fail("status", "GetStatus gives %v %v", st, err)
				}
				return
			}
			select {
			case x := <-ch:
				if s, ok := x.(*types.BMCLinkStatus); !ok || !same(s, status(7, 3, 42, []byte{1, 2})) {
					c.Fail("status", "reported: %s", show(x))
				}
			case <-time.After(45 * time.Second):
				c.FailTiming("missing", "no status is reported after %s was not answered", m)
			}
		})
	})
}

// clientSend: the client's own SendTransaction.
func clientSend(r *mc.R) {
	fs := faults()
	delete(fs, "type")
	delete(fs, "number")
	fs["ok"] = nil
	for n, a := range fs {
		r.Case("client send "+n, func(c *mc.C) {
			node := fake.NewEth()
			var got string
			node.Override = func(method string, _ int, params []json.RawMessage) *fake.Answer {
				if method == "eth_sendRawTransaction" {
					json.Unmarshal(params[0], &got)
					if a == nil {
						return res(`"0x00000000000000000000000000000000000000000000000000000000000000aa"`)
					}
					return a
				}
				return nil
			}
			url, done := fake.TheHub().Register(node)
			defer done()
			defer node.Close()
			cl := client.NewClient(url, recvw.Quiet)
			tx, _ := ethtypes.SignNewTx(sendw.EvmWallet().Skey, ethtypes.LatestSignerForChainID(big.NewInt(0x61)), &ethtypes.LegacyTx{Nonce: 1, Gas: 21000, GasPrice: big.NewInt(1), Data: []byte{1}})
			b, _ := tx.MarshalBinary()
			if err := cl.SendTransaction(tx); (err != nil) != (a != nil) || got != fake.Hex(b) {
				c.Fail("client-send", "error %v after answer %s; sent %s", err, n, got)
			}
			c.R.Exec(1)
		})
	}
}
