// P07: what the ICON sender submits, for every message length and sequence of node answers.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/icon-project/btp/common/types"

	"verif/fake"
	"verif/mc"
	"verif/sendw"
)

func main() {
	mc.Main("P07", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"the node's contract reassembles fragments as BTPMessageCenter.handleFragment does",
		"a node that answers 'duplicate' holds the transaction",
	}}, body)
}

type ans struct {
	name string
	kind int // 0 accepted, 1 send the same again, 2 sign again, 3 ends with an error
	err  string
	a    *fake.Answer
}

const (
	accept = iota
	same
	fresh
	final
	either // the same again or an error
)

func jerr(code int, msg string) *fake.Answer {
	return &fake.Answer{Err: fmt.Sprintf(`{"code":%d,"message":%q}`, code, msg)}
}

var (
	ok        = ans{name: "ok", kind: accept}
	duplicate = ans{name: "duplicate", kind: accept, a: jerr(-31000, "E2000:DuplicateTransaction")}
	overflow  = ans{name: "overflow", kind: same, a: jerr(-31001, "E2001:TxPoolOverflow")}
	overflow2 = ans{name: "overflow without text", kind: same, a: jerr(-31001, "")}
	expired   = ans{name: "expired", kind: fresh, a: jerr(-31000, "E2002:ExpiredTransaction")}
	finals    = []ans{
		{name: "future", kind: final, a: jerr(-31000, "E2003:FutureTransaction")},
		{name: "invalid", kind: final, a: jerr(-31000, "E2005:InvalidTransaction")},
		{name: "committed", kind: final, a: jerr(-31000, "E2011:Committed")},
		{name: "system, no text", kind: final, a: jerr(-31000, "")},
		{name: "system, short", kind: final, a: jerr(-31000, "E200")},
		{name: "system, no number", kind: final, a: jerr(-31000, "Server error")},
		{name: "system, other", kind: final, a: jerr(-31000, "E0001:Unknown")},
		{name: "system, number only", kind: final, a: jerr(-31000, "20000")},
		{name: "pending", kind: final, a: jerr(-31002, "E2002:pending")},
		{name: "not found", kind: final, a: jerr(-31004, "E2002:not found")},
		{name: "timeout", kind: final, a: jerr(-31006, "E2000:timeout")},
		{name: "parameters", kind: final, a: jerr(-32602, "E2002:invalid")},
		{name: "score", kind: final, a: jerr(-30032, "reverted")},
		{name: "http", kind: final, a: &fake.Answer{Status: 500, Is: true, CType: "text/plain"}},
		{name: "bad gateway", kind: final, a: &fake.Answer{Status: 502, Is: true, Body: "<html>", CType: "text/html"}},
		{name: "drop", kind: final, a: &fake.Answer{Drop: true}},
		{name: "garbage", kind: final, a: &fake.Answer{Is: true, Body: "{"}},
		{name: "pool overflow as system error", kind: either, a: jerr(-31000, "E2001:TxPoolOverflow")},
	}
)

type job struct {
	name   string
	n      int   // length
	script []ans // answers to the transactions in order of arrival; afterwards ok
}

func names(s []ans) string {
	var o []string
	for _, a := range s {
		o = append(o, a.name)
	}
	return strings.Join(o, ",")
}

// scripts gives every answer sequence with at most k answers that make the sender
// repeat, for a message of tx transactions.
func scripts(tx, k int, retries, accepts, ends []ans) (out [][]ans) {
	var rec func(cur []ans, tx, k int)
	rec = func(cur []ans, tx, k int) {
		if tx == 0 {
			out = append(out, append([]ans{}, cur...))
			return
		}
		for _, a := range accepts {
			rec(append(cur[:len(cur):len(cur)], a), tx-1, k)
		}
		for _, a := range ends {
			out = append(out, append(append([]ans{}, cur...), a))
		}
		if k > 0 {
			for _, a := range retries {
				rec(append(cur[:len(cur):len(cur)], a), tx, k-1)
			}
		}
	}
	rec(nil, tx, k)
	return
}

func body(r *mc.R) {
	probe := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
	limit := probe.S.TxSizeLimit()
	probe.Done()
	var small, big []job
	acc := []ans{ok, duplicate}
	k1, k2, k3, top := 3, 2, 1, 3
	if r.Thorough() {
		k1, k2, k3, top = 5, 3, 2, 6
	}
	for _, s := range scripts(1, k1, []ans{overflow, expired}, acc, finals) {
		small = append(small, job{"one", 100, s})
	}
	small = append(small, job{"one", 100, []ans{overflow2, ok}}, job{"one", 100, []ans{overflow2, expired, overflow2, ok}})
	few := []ans{finals[0], finals[3], finals[13], finals[15]}
	for _, s := range scripts(2, k2, []ans{overflow, expired}, acc, few) {
		big = append(big, job{"two", limit + 5, s})
	}
	for _, s := range scripts(3, k3, []ans{overflow, expired}, acc, few) {
		big = append(big, job{"three", 2*limit + 5, s})
	}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536} {
		small = append(small, job{"length", n, nil})
	}
	for m := 1; m <= top; m++ {
		for d := -3; d <= 3; d++ {
			big = append(big, job{"length", m*limit + d, nil})
		}
		big = append(big, job{"length", m*limit + limit/2, nil})
	}
	run := func(js []job, k int) {
		mc.Parallel(len(js), k, func(i int) {
			j := js[i]
			r.Case(fmt.Sprintf("%s %d [%s]", j.name, j.n, names(j.script)), func(c *mc.C) { one(c, j, limit) })
		})
	}
	run(small, 60)
	run(big, 12)
	r.Note("%d scripts for one transaction, %d for several; limit %d", len(small), len(big), limit)
	options(r)
	several(r, limit)
}

func one(c *mc.C, j job, limit int) {
	w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
	defer w.Done()
	w.Send = func(n int, t *fake.IconTx) (*fake.Answer, bool) {
		if n > len(j.script) {
			return nil, true
		}
		a := j.script[n-1]
		return a.a, a.kind == accept
	}
	ch, err := w.S.Start()
	if err != nil {
		c.Fail("start", "Start fails: %v", err)
	}
	defer w.S.Stop()
	m := &sendw.Msg{ID: 4711 + j.n, B: sendw.Pattern(j.n, uint32(j.n))}
	var id int
	var rerr error
	site, p := mc.Try(func() { id, rerr = w.S.Relay(m) })
	if p != nil {
		c.Fail("panic:"+site, "Relay crashes: %v", p)
	}
	txs, got, errs, _, _ := w.Snap()
	c.R.Trans(len(txs))
	c.R.Exec(1)
	if len(errs) > 0 {
		c.Fail("refused", "the destination refuses: %v", errs)
	}
	// the answers, replayed
	k := 0
	var prev *fake.IconTx
	end := false
	for i, t := range txs {
		a := ok
		if i < len(j.script) {
			a = j.script[i]
		}
		if end {
			c.Fail("after-error", "a transaction is sent after answer %q", j.script[i-1].name)
		}
		if t.Bad != "" {
			c.Fail("bad-tx", "transaction %d: %s", i+1, t.Bad)
		}
		if len(t.Raw) > 524288 {
			c.Fail("size", "transaction %d has %d bytes", i+1, len(t.Raw))
		}
		if len(t.Msg) > limit {
			c.Fail("size", "transaction %d has %d message bytes, limit %d", i+1, len(t.Msg), limit)
		}
		if prev != nil {
			switch j.script[i-1].kind {
			case same, either:
				if t.Raw != prev.Raw {
					c.Fail("resend", "answer %q is not followed by the same transaction", j.script[i-1].name)
				}
			case fresh:
				if t.TS <= prev.TS {
					c.Fail("fresh", "an expired transaction is sent again with timestamp %d after %d", t.TS, prev.TS)
				}
				if t.Method != prev.Method || t.Idx != prev.Idx || !bytes.Equal(t.Msg, prev.Msg) {
					c.Fail("fresh", "an expired transaction is replaced by another one")
				}
			}
		}
		if d := time.Now().UnixMicro() - t.TS; d < -1e6 || d > 120e6 {
			c.Fail("timestamp", "timestamp is %d us off", d)
		}
		switch a.kind {
		case accept:
			k++
			prev = nil
		case final:
			end = true
			prev = t
		default:
			prev = t
		}
		c.R.State(j.name, j.n, i, a.name, k)
	}
	lastKind := accept
	if n := len(txs); n > 0 && n <= len(j.script) {
		lastKind = j.script[n-1].kind
	}
	switch lastKind {
	case final:
		if rerr == nil {
			c.Fail("swallowed", "Relay returns no error after answer %q", j.script[len(txs)-1].name)
		}
		c.R.Validated(1)
		quiet(c, ch)
		return
	case either:
		c.R.Validated(1)
		return
	case same, fresh:
		c.Fail("given-up", "Relay ends (%v) after answer %q", rerr, j.script[len(txs)-1].name)
	}
	if rerr != nil {
		c.Fail("error", "Relay returns %v although every transaction was accepted", rerr)
	}
	if id != m.ID {
		c.Fail("id", "Relay returns id %d for message %d", id, m.ID)
	}
	if len(got) != 1 || !bytes.Equal(got[0], m.B) {
		c.Fail("message", "the destination has %d messages; the first equals the one sent: %v", len(got), len(got) > 0 && bytes.Equal(got[0], m.B))
	}
	if (len(m.B) <= limit) != (txs[len(txs)-1].Method == "handleRelayMessage") {
		c.Fail("form", "a message of %d bytes (limit %d) ends with method %s", len(m.B), limit, txs[len(txs)-1].Method)
	}
	// its result is asked for by the hash of the last accepted transaction
	last := txs[len(txs)-1].Hash
	if !fake.Wait(20*time.Second, func() bool { _, _, _, rs, _ := w.Snap(); return len(rs) > 0 }) {
		c.FailTiming("no-result", "no result is asked for")
	}
	_, _, _, rs, _ := w.Snap()
	if rs[0] != last {
		c.Fail("hash", "result is asked for %q, the accepted transaction is %s", rs[0], last)
	}
	select {
	case x := <-ch:
		if _, ok := x.(*types.BMCLinkStatus); !ok {
			c.Fail("report", "report %T after success", x)
		}
	case <-time.After(20 * time.Second):
		c.FailTiming("no-status", "no status is reported")
	}
	c.R.Validated(1)
}

func quiet(c *mc.C, ch <-chan types.SenderMessage) {
	select {
	case x := <-ch:
		c.Fail("report-after-error", "a report %T follows a failed Relay", x)
	case <-time.After(20 * time.Millisecond):
	}
}

type badWallet struct{}

func (badWallet) Address() string             { return sendw.IconWallet().Address() }
func (badWallet) Sign([]byte) ([]byte, error) { return nil, errors.New("no key") }

// options: the step limit and a wallet that fails.
func options(r *mc.R) {
	for _, o := range []struct {
		opt  map[string]interface{}
		want string
	}{
		{nil, sendw.DefStep}, {map[string]interface{}{}, sendw.DefStep}, {map[string]interface{}{"StepLimit": 0}, sendw.DefStep}, {map[string]interface{}{"StepLimit": -1}, sendw.DefStep},
		{map[string]interface{}{"StepLimit": 1}, "0x1"}, {map[string]interface{}{"StepLimit": int64(1) << 40}, "0x10000000000"}, {map[string]interface{}{"stepLimit": 500}, "0x1f4"}, {map[string]interface{}{"other": 3}, sendw.DefStep},
	} {
		r.Case(fmt.Sprintf("options %v", o.opt), func(c *mc.C) {
			w := sendw.NewIconWorld(sendw.IconWallet(), o.opt, o.want)
			defer w.Done()
			w.S.Start()
			if _, err := w.S.Relay(&sendw.Msg{ID: 1, B: []byte("abc")}); err != nil {
				c.Fail("options", "Relay: %v", err)
			}
			if _, _, errs, _, _ := w.Snap(); len(errs) > 0 {
				c.Fail("options", "%v", errs)
			}
			w.S.Stop()
			c.R.Exec(1)
		})
	}
	r.Case("wallet fails", func(c *mc.C) {
		w := sendw.NewIconWorld(badWallet{}, nil, sendw.DefStep)
		defer w.Done()
		ch, _ := w.S.Start()
		for _, n := range []int{10, w.S.TxSizeLimit() + 1} {
			if _, err := w.S.Relay(&sendw.Msg{ID: 1, B: make([]byte, n)}); err == nil {
				c.Fail("unsigned", "Relay succeeds although the wallet fails")
			}
		}
		if txs, _, _, _, _ := w.Snap(); len(txs) > 0 {
			c.Fail("unsigned", "a transaction is sent although the wallet fails")
		}
		quiet(c, ch)
		w.S.Stop()
		c.R.Exec(1)
	})
}

// several messages one after the other, some in fragments, one given up in the middle.
func several(r *mc.R, limit int) {
	lens := []int{7, limit, limit + 1, 2*limit + 3}
	k := 2
	if r.Thorough() {
		k = 3
	}
	n := 1
	for i := 0; i < k; i++ {
		n *= len(lens) * 2
	}
	mc.Parallel(n, 8, func(v int) {
		r.Case(fmt.Sprintf("several %d", v), func(c *mc.C) {
			w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
			defer w.Done()
			ch, _ := w.S.Start()
			stop := make(chan bool)
			go func() {
				for range ch {
				}
				close(stop)
			}()
			var want [][]byte
			failAt := -1
			cnt := 0
			w.Send = func(_ int, t *fake.IconTx) (*fake.Answer, bool) {
				cnt++
				if cnt == failAt {
					return finals[0].a, false
				}
				return nil, true
			}
			x := v
			for i := 0; i < k; i++ {
				m := &sendw.Msg{ID: i + 1, B: sendw.Pattern(lens[x%len(lens)], uint32(i+1))}
				x /= len(lens)
				cnt, failAt = 0, -1
				if x%2 == 1 { // its last transaction is refused
					failAt = (len(m.B)+limit-1)/limit + 0
				}
				x /= 2
				_, err := w.S.Relay(m)
				if (err != nil) != (failAt > 0) {
					c.Fail("several", "message %d: %v", i, err)
				}
				if err == nil {
					want = append(want, m.B)
				}
				c.R.Trans(cnt)
			}
			_, got, errs, _, _ := w.Snap()
			if len(errs) > 0 || len(got) != len(want) {
				c.Fail("several", "the destination has %d messages of %d; %v", len(got), len(want), errs)
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) {
					c.Fail("several", "message %d arrives changed", i)
				}
			}
			w.S.Stop()
			<-stop
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}
