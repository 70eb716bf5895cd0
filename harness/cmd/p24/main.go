// P24: the JSON-RPC client (common/jsonrpc) against a scripted server.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/btp/common/jsonrpc"

	"verif/fake"
	"verif/mc"
)

func main() {
	mc.Main("P24", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"a missing result is the null result, as ICON nodes send it"}}, body)
}

type rsp struct {
	status int
	ctype  string
	body   string
	fault  string // "", drop, cut (connection lost inside the body)
}

type srv struct {
	f func(w http.ResponseWriter, r *http.Request, body []byte)
}

func (s *srv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	s.f(w, r, b)
}

func (a *rsp) send(w http.ResponseWriter, id string) {
	body := strings.ReplaceAll(a.body, "$ID", id)
	if a.fault != "" {
		c, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		if a.fault == "cut" {
			fmt.Fprintf(buf, "HTTP/1.1 %d X\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", a.status, a.ctype, len(body)+7, body)
			buf.Flush()
			c.Close()
			return
		}
		fake.Reset(c)
		return
	}
	if a.ctype != "" {
		w.Header().Set("Content-Type", a.ctype)
	} else {
		w.Header()["Content-Type"] = nil
	}
	w.WriteHeader(a.status)
	io.WriteString(w, body)
}

// want is the outcome the property allows.
type want struct {
	ok     bool
	result json.RawMessage
	jerr   *jsonrpc.Error // exact error object, otherwise any error
	data   string
	any    bool // both allowed
}

func oracle(a *rsp) want {
	if a.fault == "cut" { // the whole answer may have come before the connection is lost
		b := *a
		b.fault = ""
		w := oracle(&b)
		return want{any: w.ok || w.any}
	}
	if a.fault != "" {
		return want{}
	}
	var v map[string]json.RawMessage
	dec := json.NewDecoder(strings.NewReader(strings.ReplaceAll(a.body, "$ID", "1")))
	isJ := a.status == 200 || strings.HasPrefix(a.ctype, "application/json")
	if !isJ || dec.Decode(&v) != nil || v == nil {
		return want{}
	}
	_, err := dec.Token()
	trail := err != io.EOF
	if e := v["error"]; e != nil && string(e) != "null" {
		var o struct {
			Code    *int
			Message *string
			Data    json.RawMessage
		}
		if json.Unmarshal(e, &o) != nil || o.Code == nil || o.Message == nil || trail {
			return want{}
		}
		return want{jerr: &jsonrpc.Error{Code: jsonrpc.ErrorCode(*o.Code), Message: *o.Message}, data: canon(o.Data)}
	}
	if a.status != 200 {
		return want{}
	}
	if ver := v["jsonrpc"]; ver != nil && (len(ver) == 0 || ver[0] != '"') {
		return want{any: true}
	}
	r := v["result"]
	if r == nil {
		r = json.RawMessage("null")
	}
	return want{ok: true, result: r, any: trail}
}

func canon(b []byte) string {
	if len(b) == 0 || string(b) == "null" {
		return "null"
	}
	var v interface{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return "?" + string(b)
	}
	o, _ := json.Marshal(v)
	return string(o)
}

type pt struct {
	A string `json:"a"`
	B *int64 `json:"b"`
}

var targets = []struct {
	name string
	mk   func() interface{}
}{
	{"string", func() interface{} { return new(string) }},
	{"int64", func() interface{} { return new(int64) }},
	{"uint64", func() interface{} { return new(uint64) }},
	{"strings", func() interface{} { return new([]string) }},
	{"bytes", func() interface{} { return new([]byte) }},
	{"struct", func() interface{} { return &pt{A: "before"} }},
	{"pstruct", func() interface{} { p := &pt{A: "before"}; return &p }},
	{"raw", func() interface{} { return new(json.RawMessage) }},
	{"nil", func() interface{} { return nil }},
}

func emptyErr(err error) bool {
	v := reflect.ValueOf(err)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Map || v.Kind() == reflect.Func) && v.IsNil()
}

func body(r *mc.R) {
	var errObj = []string{`null`, `{"code":-31004,"message":"E1005:NotFound"}`, `{"code":-31000,"message":"","data":{"a":[1,"x",null]}}`, `{"code":0,"message":"zero"}`,
		`{"code":-31000,"message":"m","data":"text"}`, `{"code":"x","message":"m"}`, `"text"`, `{}`, `[]`, `5`, `{"code":2147483647,"message":"big"}`, `{"code":-32601,"message":"\u00e9\"\n"}`}
	var results = []string{`null`, `"0x1"`, `""`, `5`, `-1`, `9007199254740993`, `18446744073709551615`, `1e3`, `1.5`, `true`, `["0x1","b"]`, `[]`, `{}`, `{"a":"x"}`, `{"a":"x","b":9223372036854775807}`,
		`{"a":5}`, `"aGk="`, `"\u0000\ud83d\ude00<&>"`, `[1,[2,{"z":3}]]`}
	var bodies []string
	for _, x := range results {
		bodies = append(bodies, `{"jsonrpc":"2.0","result":`+x+`,"id":$ID}`)
	}
	for _, e := range errObj {
		bodies = append(bodies, `{"jsonrpc":"2.0","error":`+e+`,"id":$ID}`)
		bodies = append(bodies, `{"jsonrpc":"2.0","result":"0x1","error":`+e+`,"id":$ID}`)
	}
	bodies = append(bodies, ``, ` `, `null`, `{}`, `[]`, `5`, `"x"`, `true`, `{`, `{"jsonrpc":"2.0","result":"0x1"`, `<html></html>`, `[{"jsonrpc":"2.0","result":"0x1","id":$ID}]`,
		`{"jsonrpc":"2.0","id":$ID}`, `{"jsonrpc":2,"result":"0x1","id":$ID}`, `{"result":"0x1"}`, `{"jsonrpc":"2.0","result":"0x1","id":null}`, `{"jsonrpc":"2.0","result":"0x1","id":"other"}`,
		`{"jsonrpc":"2.0","result":"0x1","id":$ID}garbage`, `{"jsonrpc":"2.0","result":"0x1","id":$ID}`+"\n", "\xef\xbb\xbf{}", `{"error":{"code":-31000,"message":"E2000:dup"}}`, `{"error":{"code":-31000,"message":"m"}}}`)
	var rsps []rsp
	for _, st := range []int{200, 400, 401, 404, 500, 503} {
		for _, ct := range []string{"application/json", "application/json; charset=UTF-8", "text/html", ""} {
			if st != 200 && st != 400 && st != 500 && r.Quick() && ct == "" {
				continue
			}
			for _, b := range bodies {
				rsps = append(rsps, rsp{st, ct, b, ""})
				if ct == "application/json" && (st == 200 || st == 400) {
					rsps = append(rsps, rsp{st, ct, b, "cut"})
				}
			}
		}
	}
	rsps = append(rsps, rsp{200, "application/json", "", "drop"})
	for i := range rsps {
		a := &rsps[i]
		r.Case(fmt.Sprintf("answer/%d/%s/%s/%s", a.status, a.ctype, a.fault, a.body), func(c *mc.C) {
			url, done := fake.TheHub().Register(&srv{func(w http.ResponseWriter, q *http.Request, b []byte) { a.send(w, "1") }})
			defer done()
			w := oracle(a)
			for _, t := range targets {
				cl := jsonrpc.NewJsonRpcClient(&http.Client{Timeout: 20 * time.Second}, url)
				ptr := t.mk()
				resp, err := cl.Do("m", map[string]string{"x": "y"}, ptr)
				r.Exec(1)
				if err != nil && emptyErr(err) {
					c.Fail("empty-error", "%s: the call fails with an empty error of type %T", t.name, err)
				}
				if err != nil {
					_ = err.Error()
				}
				if w.any {
					continue
				}
				if w.jerr != nil {
					var je *jsonrpc.Error
					if !errors.As(err, &je) || je == nil {
						c.Fail("error", "%s: the server's error is reported as %v (%T)", t.name, err, err)
					}
					d, _ := json.Marshal(je.Data)
					if je.Code != w.jerr.Code || je.Message != w.jerr.Message || canon(d) != w.data {
						c.Fail("error", "%s: the server's error is reported with code %d, message %q, data %s", t.name, je.Code, je.Message, d)
					}
					continue
				}
				if !w.ok {
					if err == nil {
						c.Fail("success", "%s: the call is reported as successful", t.name)
					}
					continue
				}
				ref := t.mk()
				var rerr error
				if ref != nil {
					rerr = json.Unmarshal(w.result, ref)
				}
				if rerr != nil {
					if err == nil {
						c.Fail("mismatch", "%s: a result of another type is reported as successful", t.name)
					}
					continue
				}
				if err != nil {
					c.Fail("failure", "%s: the call fails with %v", t.name, err)
				}
				if resp == nil {
					c.Fail("response", "%s: a successful call returns no response", t.name)
				}
				if t.name == "raw" {
					x, y := ptr.(*json.RawMessage), ref.(*json.RawMessage)
					if canon(*x) != canon(*y) {
						c.Fail("result", "the result %s is decoded as %s", w.result, *x)
					}
				} else if !reflect.DeepEqual(ptr, ref) {
					c.Fail("result", "%s: the result %s is decoded as %+v", t.name, w.result, ptr)
				}
				r.Validated(1)
			}
			r.State(a.status, a.ctype, a.fault, a.body)
			r.Trans(1)
		})
	}
	// requests
	type prm struct {
		A string      `json:"a"`
		B interface{} `json:"b,omitempty"`
	}
	for i, p := range []interface{}{nil, map[string]interface{}{}, &prm{"x", nil}, &prm{"\"\\\n<>&\u2028", []int{1, 2}}, prm{"", map[string]string{"k": ""}}} {
		for _, m := range []string{"icx_call", "", "é\""} {
			i, p, m := i, p, m
			r.Case(fmt.Sprintf("request/%d/%s", i, m), func(c *mc.C) {
				var bad string
				var n int
				url, done := fake.TheHub().Register(&srv{func(w http.ResponseWriter, q *http.Request, b []byte) {
					n++
					var v map[string]json.RawMessage
					if json.Unmarshal(b, &v) != nil {
						bad = "not JSON: " + string(b)
					}
					mj, _ := json.Marshal(m)
					pj, _ := json.Marshal(p)
					if canon(v["jsonrpc"]) != `"2.0"` || canon(v["method"]) != canon(mj) || canon(v["params"]) != canon(pj) || len(v["id"]) == 0 || string(v["id"]) == "null" {
						bad = string(b)
					}
					if q.Method != "POST" || !strings.HasPrefix(q.Header.Get("Content-Type"), "application/json") || q.Header.Get("X-Custom") != "v" {
						bad = fmt.Sprintf("%s %v", q.Method, q.Header)
					}
					(&rsp{200, "application/json", `{"result":"ok"}`, ""}).send(w, "1")
				}})
				defer done()
				cl := jsonrpc.NewJsonRpcClient(&http.Client{}, url)
				cl.CustomHeader["X-Custom"] = "v"
				var s string
				if _, err := cl.Do(m, p, &s); err != nil || s != "ok" {
					c.Fail("request", "the call gives %q, %v", s, err)
				}
				if bad != "" || n != 1 {
					c.Fail("request", "the server got %d requests, %s", n, bad)
				}
				cl.Pre = func(*http.Request) error { return io.ErrClosedPipe }
				if _, err := cl.Do(m, p, &s); err == nil || n != 1 {
					c.Fail("pre", "a refusing Pre gives error %v, %d requests", err, n)
				}
				r.Exec(2)
			})
		}
	}
	for i, p := range []interface{}{make(chan int), map[string]interface{}{"f": func() {}}} {
		p := p
		r.Case(fmt.Sprintf("unencodable/%d", i), func(c *mc.C) {
			cl := jsonrpc.NewJsonRpcClient(&http.Client{}, "http://127.0.0.1:1/")
			if _, err := cl.Do("m", p, nil); err == nil {
				c.Fail("unencodable", "a call with an unencodable parameter succeeds")
			}
			r.Exec(1)
		})
	}
	for _, u := range []string{"http://127.0.0.1:1/", "::", "nope://x", ""} {
		u := u
		r.Case("endpoint/"+u, func(c *mc.C) {
			cl := jsonrpc.NewJsonRpcClient(&http.Client{}, u)
			var s string
			if _, err := cl.Do("m", nil, &s); err == nil || emptyErr(err) {
				c.Fail("endpoint", "a call to %q gives error %v", u, err)
			}
			r.Exec(1)
		})
	}
	// concurrent calls: every order of answers, some of them errors
	n := 3
	if r.Thorough() {
		n = 4
	}
	for fails := 0; fails < 1<<uint(n); fails++ {
		for shared := 0; shared < 2; shared++ {
			fails, shared := fails, shared
			r.Explore(fmt.Sprintf("concurrent/%d/%d/%d", n, fails, shared), func(c *mc.C, x *mc.X) {
				var mu sync.Mutex
				wait := map[int]chan bool{}
				url, done := fake.TheHub().Register(&srv{func(w http.ResponseWriter, q *http.Request, b []byte) {
					var v struct{ Params struct{ N int } }
					json.Unmarshal(b, &v)
					ch := make(chan bool)
					mu.Lock()
					wait[v.Params.N] = ch
					mu.Unlock()
					<-ch
					if fails>>uint(v.Params.N)&1 == 1 {
						(&rsp{400, "application/json", `{"error":{"code":-` + strconv.Itoa(1000+v.Params.N) + `,"message":"m"}}`, ""}).send(w, "1")
					} else {
						(&rsp{200, "application/json", `{"result":` + strconv.Itoa(v.Params.N) + `}`, ""}).send(w, "1")
					}
				}})
				defer done()
				cl := jsonrpc.NewJsonRpcClient(&http.Client{Transport: &http.Transport{}}, url)
				out := make([]string, n)
				fin := make([]chan bool, n)
				for i := 0; i < n; i++ {
					i := i
					k := cl
					if shared == 1 {
						k = jsonrpc.NewJsonRpcClient(&http.Client{Transport: &http.Transport{}}, url)
					}
					fin[i] = make(chan bool)
					go func() {
						defer close(fin[i])
						var v int
						_, err := k.Do("m", map[string]int{"N": i}, &v)
						var je *jsonrpc.Error
						if errors.As(err, &je) && je != nil {
							out[i] = fmt.Sprint("error ", je.Code)
						} else {
							out[i] = fmt.Sprint(v, err)
						}
					}()
				}
				if !fake.Wait(20*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(wait) == n }) {
					c.FailTiming("concurrent", "only %d of %d calls reach the server", len(wait), n)
					return
				}
				left := []int{}
				for i := 0; i < n; i++ {
					left = append(left, i)
				}
				for len(left) > 0 {
					k := x.Choose(len(left))
					i := left[k]
					left = append(left[:k:k], left[k+1:]...)
					close(wait[i])
					select {
					case <-fin[i]:
					case <-time.After(20 * time.Second):
						c.FailTiming("concurrent", "call %d does not return", i)
						return
					}
					w := fmt.Sprint(i, nil)
					if fails>>uint(i)&1 == 1 {
						w = fmt.Sprint("error ", -1000-i)
					}
					if out[i] != w {
						c.Fail("concurrent", "call %d gets %q, want %q", i, out[i], w)
					}
					r.Trans(1)
				}
				r.Exec(1)
			})
		}
	}
}
