// P08: what the ICON sender reports of every submitted message.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/types"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
	"verif/sendw"
)

func main() {
	mc.Main("P08", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"an unexpected report is looked for until the answers are used up and a grace period of 30 ms has passed",
	}}, body)
}

const patience = 20 * time.Second

type ans struct {
	name string
	a    *fake.Answer
	code int // revert code it stands for, -1 none
}

func jerr(code int, msg string) *fake.Answer {
	return &fake.Answer{Err: fmt.Sprintf(`{"code":%d,"message":%q}`, code, msg)}
}
func res(s string) *fake.Answer { return &fake.Answer{Result: s} }

func failure(code string, withMsg string) string {
	return `{"to":"cx00000000000000000000000000000000000000bb","status":"0x0","failure":{"code":` + code + `,"message":"` + withMsg + `"},"blockHeight":"0x2","txIndex":"0x0","txHash":"0x03","blockHash":"0x01","eventLogs":[]}`
}

func results() (out []ans) {
	out = append(out, ans{"success", sendw.Success, -1})
	add := func(code int64, want int) {
		out = append(out, ans{fmt.Sprintf("failure %d", code), res(failure(fmt.Sprintf(`"0x%x"`, code), fmt.Sprintf("Reverted(%d)", code))), want})
	}
	for c := int64(0); c <= 110; c++ {
		w := -1
		if c >= 32 && c <= 99 {
			w = int(c - 32)
		}
		add(c, w)
	}
	add(256+57, -1)
	add(1<<32+57, -1)
	out = append(out,
		ans{"failure too large", res(failure(`"0x100000000000000039"`, "")), -1},
		ans{"failure negative", res(failure(`"-0x39"`, "")), -1},
		ans{"failure malformed", res(failure(`"x"`, "")), -1},
		ans{"failure empty", res(failure(`""`, "")), -1},
		ans{"failure null code", res(failure(`null`, "")), -1},
		ans{"failure numeric code", res(failure(`57`, "")), -1},
		ans{"failure without details", res(`{"status":"0x0","to":"cx00000000000000000000000000000000000000bb"}`), -1},
		ans{"failure null details", res(`{"status":"0x0","failure":null}`), -1},
		ans{"failure empty details", res(`{"status":"0x0","failure":{}}`), -1},
		ans{"no status", res(`{}`), -1},
		ans{"no status but details", res(`{"failure":{"code":"0x39","message":"a"}}`), 25},
		ans{"null", res(`null`), -1},
		ans{"text", res(`"0x1"`), -1},
		ans{"list", res(`[]`), -1},
		ans{"wrong status type", res(`{"status":1}`), -1},
		ans{"system no text", jerr(-31000, ""), -1},
		ans{"system short", jerr(-31000, "E2"), -1},
		ans{"system", jerr(-31000, "E2002:x"), -1},
		ans{"overflow", jerr(-31001, ""), -1},
		ans{"not found", jerr(-31004, "E1005:NotFound"), -1},
		ans{"no resource", jerr(-31005, ""), -1},
		ans{"timeout", jerr(-31006, ""), -1},
		ans{"parameters", jerr(-32602, "x"), -1},
		ans{"score 57", jerr(-30057, "reverted"), -1},
		ans{"http", &fake.Answer{Status: 500, Is: true, CType: "text/plain"}, -1},
		ans{"drop", &fake.Answer{Drop: true}, -1},
		ans{"garbage", &fake.Answer{Is: true, Body: "{"}, -1},
		ans{"nothing", &fake.Answer{Is: true}, -1},
	)
	return
}

// statuses: the node's answers to the status query; want is computed from the text.
func statuses() (out []ans) {
	st := func(tx, rx, h, ex string) string {
		f := func(k, v string) string {
			if v == "-" {
				return ""
			}
			return fmt.Sprintf(`%q:%s,`, k, v)
		}
		v := strings.TrimSuffix(f("height", h)+f("extra", ex), ",")
		return `{` + f("tx_seq", tx) + f("rx_seq", rx) + `"verifier":{` + v + `},"cur_height":"0x1"}`
	}
	nums := []string{`"0x0"`, `"0x7"`, `"0x80"`, `"0x7fffffffffffffff"`, `"0x8000000000000000"`, `"-0x1"`, `""`, `"7"`, `"x"`, `null`, "-", `7`}
	exs := []string{`"0x"`, `""`, `"0x00ff"`, `"0x0"`, `"00"`, `"0xzz"`, `null`, "-", `[]`}
	add := func(s string) { out = append(out, ans{s, res(s), 0}) }
	for _, n := range nums {
		add(st(n, `"0x5"`, `"0x6"`, `"0x01"`))
		add(st(`"0x4"`, n, `"0x6"`, `"0x01"`))
		add(st(`"0x4"`, `"0x5"`, n, `"0x01"`))
	}
	for _, e := range exs {
		add(st(`"0x4"`, `"0x5"`, `"0x6"`, e))
	}
	for _, s := range []string{`null`, `{}`, `[]`, `"0x1"`, `7`, `{"tx_seq":"0x1","rx_seq":"0x2"}`, `{"tx_seq":"0x1","rx_seq":"0x2","verifier":null}`, `{"tx_seq":"0x1","rx_seq":"0x2","verifier":"0x3"}`} {
		add(s)
	}
	out = append(out, ans{"error", jerr(-30000, "E0"), 0}, ans{"system no text", jerr(-31000, ""), 0}, ans{"pending", jerr(-31002, ""), 0}, ans{"http", &fake.Answer{Status: 503, Is: true, CType: "text/html"}, 0},
		ans{"drop", &fake.Answer{Drop: true}, 0}, ans{"garbage", &fake.Answer{Is: true, Body: "]"}, 0})
	return
}

// meaning gives the status a status answer stands for, if it stands for one.
func meaning(a *fake.Answer) *types.BMCLinkStatus {
	if a.Result == "" {
		return nil
	}
	var m map[string]interface{}
	if json.Unmarshal([]byte(a.Result), &m) != nil || m == nil {
		return nil
	}
	num := func(v interface{}) (int64, bool) {
		s, _ := v.(string)
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if !strings.HasPrefix(s, "0x") {
			return 0, false
		}
		b, ok := new(big.Int).SetString(s[2:], 16)
		if !ok {
			return 0, false
		}
		if neg {
			b.Neg(b)
		}
		return b.Int64(), b.IsInt64()
	}
	s := &types.BMCLinkStatus{}
	var ok [3]bool
	s.TxSeq, ok[0] = num(m["tx_seq"])
	s.RxSeq, ok[1] = num(m["rx_seq"])
	v, _ := m["verifier"].(map[string]interface{})
	s.Verifier.Height, ok[2] = num(v["height"])
	if !ok[0] || !ok[1] || !ok[2] {
		return nil
	}
	switch e := v["extra"].(type) {
	case nil:
	case string:
		if e != "" {
			if !strings.HasPrefix(e, "0x") {
				return nil
			}
			b, err := hex.DecodeString(e[2:])
			if err != nil {
				return nil
			}
			s.Verifier.Extra = b
		}
	default:
		return nil
	}
	return s
}

// decimal "7" may be read as a number or be refused
func lax(a *fake.Answer) bool {
	return strings.Contains(a.Result, `:"7"`) || strings.Contains(a.Result, `"verifier":null`)
}

type job struct {
	pre []ans
	res ans
	st  ans
}

var (
	pending   = ans{"pending", jerr(-31002, "E2002:Pending"), 0}
	executing = ans{"executing", jerr(-31003, ""), 0}
)

func body(r *mc.R) {
	rs, ss := results(), statuses()
	okSt := ans{"ok", res(sendw.StatusOK), 0}
	var pres [][]ans
	k := 2
	if r.Thorough() {
		k = 4
	}
	pres = append(pres, nil)
	for i := 0; i < len(pres); i++ {
		if len(pres[i]) < k {
			for _, a := range []ans{pending, executing} {
				pres = append(pres, append(append([]ans{}, pres[i]...), a))
			}
		}
	}
	var js []job
	for _, p := range pres {
		for _, a := range rs {
			js = append(js, job{p, a, okSt})
		}
	}
	for _, a := range rs {
		if a.code >= 0 && a.code != 26 && r.Quick() {
			continue
		}
		for _, s := range ss {
			js = append(js, job{nil, a, s})
		}
	}
	for _, s := range ss {
		js = append(js, job{[]ans{pending}, rs[0], s})
	}
	mc.Parallel(len(js), 100, func(i int) {
		j := js[i]
		nm := ""
		for _, p := range j.pre {
			nm += p.name + ","
		}
		r.Case(nm+j.res.name+"/"+j.st.name, func(c *mc.C) { one(c, j) })
	})
	r.Note("%d result and status scripts", len(js))
	getStatus(r, append(ss, okSt))
	several(r)
	stops(r)
	wait(r)
}

func same(a, b *types.BMCLinkStatus) bool {
	return a.TxSeq == b.TxSeq && a.RxSeq == b.RxSeq && a.Verifier.Height == b.Verifier.Height && bytes.Equal(a.Verifier.Extra, b.Verifier.Extra)
}

func show(x types.SenderMessage) string {
	switch t := x.(type) {
	case *types.RelayResult:
		if t == nil {
			return "nil result"
		}
		return fmt.Sprintf("result id=%d code=%d", t.Id, t.Err)
	case *types.BMCLinkStatus:
		if t == nil {
			return "nil status"
		}
		return fmt.Sprintf("status %+v", *t)
	}
	return fmt.Sprintf("%T %v", x, x)
}

// expect checks the next report against the result and then the status.
func expect(c *mc.C, ch <-chan types.SenderMessage, id, code int, st *fake.Answer, asked func() bool) {
	want := meaning(st)
	maybe := lax(st)
	get := func(what string) types.SenderMessage {
		select {
		case x := <-ch:
			return x
		case <-time.After(patience):
			c.FailTiming("missing", "%s is not reported", what)
		}
		return nil
	}
	if code >= 0 {
		x := get(fmt.Sprintf("revert code %d", code))
		rr, ok := x.(*types.RelayResult)
		if !ok || rr == nil || rr.Id != id || int(rr.Err) != code {
			c.Fail("result", "reported: %s; want result id=%d code=%d", show(x), id, code)
		}
	}
	if want != nil && !maybe {
		x := get("the status")
		s, ok := x.(*types.BMCLinkStatus)
		if !ok || s == nil || !same(s, want) {
			c.Fail("status", "reported: %s; want status %+v", show(x), *want)
		}
	} else {
		if !fake.Wait(patience, asked) {
			c.FailTiming("not-asked", "the status is not asked for")
		}
	}
	select {
	case x := <-ch:
		if s, ok := x.(*types.BMCLinkStatus); ok && maybe && s != nil && (want == nil || same(s, want)) {
			return
		}
		c.Fail("unexpected", "reported: %s", show(x))
	case <-time.After(30 * time.Millisecond):
	}
}

func one(c *mc.C, j job) {
	w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
	defer w.Done()
	w.Result = func(n int, hash string) *fake.Answer {
		if n <= len(j.pre) {
			return j.pre[n-1].a
		}
		return j.res.a
	}
	w.Status = func(n int) *fake.Answer { return j.st.a }
	ch, _ := w.S.Start()
	defer w.S.Stop()
	if _, err := w.S.Relay(&sendw.Msg{ID: 99, B: []byte("m")}); err != nil {
		c.Fail("relay", "Relay: %v", err)
	}
	expect(c, ch, 99, j.res.code, j.st.a, func() bool { _, _, _, _, cs := w.Snap(); return len(cs) > 0 })
	txs, _, errs, hs, calls := w.Snap()
	if len(errs) > 0 {
		c.Fail("refused", "%v", errs)
	}
	if len(hs) != len(j.pre)+1 {
		c.Fail("polls", "%d result queries for %d answers", len(hs), len(j.pre)+1)
	}
	for _, h := range hs {
		if h != txs[0].Hash {
			c.Fail("hash", "result of %s is asked for, not of %s", h, txs[0].Hash)
		}
	}
	for _, s := range calls {
		if why := statusQuery(s); why != "" {
			c.Fail("query", "status query %s: %s", s, why)
		}
	}
	c.R.Trans(len(hs) + len(calls) + 1)
	c.R.State(len(j.pre), j.res.name, j.st.name)
	c.R.Exec(1)
	c.R.Validated(1)
}

func statusQuery(s string) string {
	var m map[string]interface{}
	json.Unmarshal([]byte(s), &m)
	d, _ := m["data"].(map[string]interface{})
	p, _ := d["params"].(map[string]interface{})
	switch {
	case m["to"] != sendw.DstAcc:
		return "contract"
	case d["method"] != "getStatus":
		return "method"
	case p["_link"] != sendw.Src:
		return "link"
	}
	return ""
}

// getStatus: the relay asks for the status itself.
func getStatus(r *mc.R, ss []ans) {
	mc.Parallel(len(ss), 20, func(i int) {
		s := ss[i]
		r.Case("status "+s.name, func(c *mc.C) {
			w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
			defer w.Done()
			w.Status = func(n int) *fake.Answer { return s.a }
			w.S.Start()
			defer w.S.Stop()
			st, err := w.S.GetStatus()
			want := meaning(s.a)
			if (err == nil) == (st == nil) {
				c.Fail("get-status", "status %v and error %v", st, err)
			}
			if err == nil && (want == nil && !lax(s.a) || want != nil && !same(st, want)) {
				c.Fail("get-status", "status %+v; want %v", *st, want)
			}
			if err != nil && want != nil && !lax(s.a) {
				c.Fail("get-status", "error %v", err)
			}
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// several messages whose results come in every order: each report is of its own message.
func several(r *mc.R) {
	n := 3
	codes := []int{-1, 26, 27, 28}
	var perms [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			perms = append(perms, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			used := false
			for _, q := range p {
				used = used || q == i
			}
			if !used {
				rec(append(p[:len(p):len(p)], i))
			}
		}
	}
	rec(nil)
	tot := 1
	for i := 0; i < n; i++ {
		tot *= len(codes)
	}
	mc.Parallel(len(perms)*tot, 40, func(v int) {
		perm, x := perms[v%len(perms)], v/len(perms)
		code := make([]int, n)
		for i := range code {
			code[i] = codes[x%len(codes)]
			x /= len(codes)
		}
		r.Case(fmt.Sprintf("order %v codes %v", perm, code), func(c *mc.C) {
			w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
			defer w.Done()
			var mu sync.Mutex
			gate := map[string]chan bool{}
			idx := map[string]int{}
			w.Send = func(k int, t *fake.IconTx) (*fake.Answer, bool) {
				mu.Lock()
				gate[t.Hash], idx[t.Hash] = make(chan bool), k-1
				mu.Unlock()
				return nil, true
			}
			w.Result = func(k int, hash string) *fake.Answer {
				mu.Lock()
				g, i := gate[hash], idx[hash]
				mu.Unlock()
				if g == nil {
					return jerr(-31004, "unknown transaction")
				}
				<-g
				if code[i] < 0 {
					return sendw.Success
				}
				return res(failure(fmt.Sprintf(`"0x%x"`, code[i]+32), "r"))
			}
			ch, _ := w.S.Start()
			defer w.S.Stop()
			for i := 0; i < n; i++ {
				if id, err := w.S.Relay(&sendw.Msg{ID: 1000 + i, B: []byte{byte(i)}}); err != nil || id != 1000+i {
					c.Fail("relay", "Relay: %d %v", id, err)
				}
			}
			txs, _, _, _, _ := w.Snap()
			for q, i := range perm {
				close(gate[txs[i].Hash])
				expect(c, ch, 1000+i, code[i], res(sendw.StatusOK), func() bool { _, _, _, _, cs := w.Snap(); return len(cs) > q })
			}
			c.R.Trans(2 * n)
			c.R.State("order", perm, code)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// stops: the sender is stopped at every point of a message's life.
func stops(r *mc.R) {
	points := []string{"before relay", "result asked", "polling", "result blocked", "result read", "status asked", "status blocked", "end"}
	mc.Parallel(len(points)*3, 30, func(v int) {
		p, n := points[v%len(points)], v/len(points)+1
		r.Case(fmt.Sprintf("stop %s, %d messages", p, n), func(c *mc.C) {
			w := sendw.NewIconWorld(sendw.IconWallet(), nil, sendw.DefStep)
			defer w.Done()
			hold, holdSt := make(chan bool), make(chan bool)
			w.Result = func(k int, hash string) *fake.Answer {
				switch p {
				case "result asked":
					<-hold
				case "polling":
					if k <= n {
						return pending.a
					}
				}
				return res(failure(`"0x3a"`, ""))
			}
			w.Status = func(k int) *fake.Answer {
				if p == "status asked" {
					<-holdSt
				}
				return res(sendw.StatusOK)
			}
			ch, _ := w.S.Start()
			asked := func(rs, cs int) {
				if !fake.Wait(patience, func() bool { _, _, _, a, b := w.Snap(); return len(a) >= rs && len(b) >= cs }) {
					c.FailTiming("not-asked", "queries do not come")
				}
			}
			read := func(k int) {
				for i := 0; i < k; {
					select {
					case x := <-ch:
						if _, ok := x.(*types.RelayResult); ok || p == "end" {
							i++
						}
					case <-time.After(patience):
						c.FailTiming("missing", "report %d does not come", i)
					}
				}
			}
			if p != "before relay" {
				for i := 0; i < n; i++ {
					w.S.Relay(&sendw.Msg{ID: i, B: []byte{1}})
				}
			}
			switch p {
			case "result asked", "polling":
				asked(n, 0)
			case "result blocked":
				asked(n, 0)
				time.Sleep(20 * time.Millisecond)
			case "result read":
				read(n)
			case "status asked":
				read(n)
				asked(n, n)
			case "status blocked":
				read(n)
				asked(n, n)
				time.Sleep(20 * time.Millisecond)
			case "end":
				read(2 * n)
			}
			done := make(chan bool)
			go func() { w.S.Stop(); close(done) }()
			select {
			case <-done:
			case <-time.After(patience):
				c.FailTiming("stop", "Stop does not end")
			}
			close(hold)
			close(holdSt)
			// late answers must not crash the relay; the channel ends
			end := time.After(patience)
			for open := true; open; {
				select {
				case _, open = <-ch:
				case <-end:
					c.FailTiming("open", "the report channel is not closed")
				}
			}
			time.Sleep(50 * time.Millisecond)
			if p == "polling" {
				time.Sleep(1100 * time.Millisecond)
			}
			c.R.State("stop", p, n)
			c.R.Trans(n)
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}

// wait: SendTransactionAndGetResult of the client.
func wait(r *mc.R) {
	type sc struct {
		send    *fake.Answer
		name    string
		pre     int
		res     *fake.Answer
		sendErr bool
	}
	var js []sc
	for _, s := range []sc{{nil, "ok", 0, nil, false}, {jerr(-31000, "E2000:dup"), "duplicate", 0, nil, false}, {jerr(-31000, ""), "no text", 0, nil, true}, {jerr(-31000, "E2"), "short", 0, nil, true}, {jerr(-31000, "E2003:f"), "future", 0, nil, true}, {&fake.Answer{Drop: true}, "drop", 0, nil, true}, {jerr(-32602, "x"), "bad", 0, nil, true}} {
		for pre := 0; pre <= 1; pre++ {
			for _, a := range []*fake.Answer{sendw.Success, jerr(-31004, "nf"), res(failure(`"0x3a"`, "")), &fake.Answer{Drop: true}} {
				s.pre, s.res = pre, a
				js = append(js, s)
				if s.sendErr {
					break
				}
			}
		}
	}
	mc.Parallel(len(js), 80, func(i int) {
		s := js[i]
		r.Case(fmt.Sprintf("wait %d %s %d", i, s.name, s.pre), func(c *mc.C) {
			node := fake.NewIcon(&fake.IChain{})
			var hs []string
			node.Override = func(method string, n int, params json.RawMessage) *fake.Answer {
				switch method {
				case "icx_sendTransaction":
					if s.send != nil {
						return s.send
					}
					return res(`"0xabcd"`)
				case "icx_getTransactionResult":
					var p struct {
						Hash string `json:"txHash"`
					}
					json.Unmarshal(params, &p)
					hs = append(hs, p.Hash)
					if n <= s.pre {
						return pending.a
					}
					return s.res
				}
				return nil
			}
			url, done := fake.TheHub().Register(node)
			defer done()
			cl := client.NewClient(url, recvw.Quiet)
			p := &client.TransactionParam{Version: "0x3", FromAddress: client.Address(sendw.IconWallet().Address()), ToAddress: sendw.DstAcc, StepLimit: "0x1", NetworkID: "0x1"}
			if err := cl.SignTransaction(sendw.IconWallet(), p); err != nil {
				c.Fail("sign", "%v", err)
			}
			want := client.HexBytes("0xabcd")
			if s.send != nil {
				want = p.TxHash
			}
			h, tr, err := cl.SendTransactionAndGetResult(p)
			if s.sendErr {
				if err == nil || len(hs) > 0 {
					c.Fail("wait", "refused transaction gives hash %v result %v error %v, %d queries", h, tr, err, len(hs))
				}
				return
			}
			bad := s.res.Drop || s.res.Err != ""
			if (err != nil) != bad || h == nil || *h != want || (tr != nil) == bad {
				c.Fail("wait", "hash %v result %v error %v", h, tr, err)
			}
			if len(hs) != s.pre+1 || hs[0] != string(want) {
				c.Fail("wait", "queries %v", hs)
			}
			c.R.Exec(1)
			c.R.Validated(1)
		})
	})
}
