// P25: the websocket monitors of the ICON client against a scripted node.
package main

import (
	"errors"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"

	"verif/fake"
	"verif/mc"
	"verif/recvw"
)

func main() {
	mc.Main("P25", mc.Options{Level: "model_checking", Exhaustive: true, StopAfter: 10, Assumptions: []string{
		"steps of the node and of the client's user are interleaved at the granularity of whole notifications; closing is also tried while a callback runs"}}, body)
}

const patience = 10 * time.Second

// node is the scripted node: it hands each accepted connection to the explorer.
type node struct {
	mu     sync.Mutex
	refuse string
	conns  chan *peer
}

type peer struct {
	c    *websocket.Conn
	path string
	req  map[string]interface{}
	gone chan bool
}

var up = websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}

func (n *node) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	ref := n.refuse
	n.mu.Unlock()
	if ref == "http" {
		w.WriteHeader(404)
		return
	}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	if ref == "early" {
		fake.Reset(c.UnderlyingConn())
		return
	}
	p := &peer{c: c, path: r.URL.Path, gone: make(chan bool)}
	if c.ReadJSON(&p.req) != nil {
		c.Close()
		return
	}
	switch ref {
	case "":
		c.WriteJSON(map[string]interface{}{"code": 0})
	case "code":
		c.WriteJSON(map[string]interface{}{"code": 1, "message": "no"})
	case "text":
		c.WriteMessage(websocket.TextMessage, []byte("}"))
	case "close":
		c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
	case "drop":
		fake.Reset(c.UnderlyingConn())
		return
	}
	if ref == "" {
		n.conns <- p
	}
	for {
		if _, _, err := c.ReadMessage(); err != nil {
			close(p.gone)
			c.Close()
			return
		}
	}
}

// mon is one monitor and what it has done.
type mon struct {
	kind  int
	p     *peer
	conn  *websocket.Conn
	init  chan *websocket.Conn
	mu    sync.Mutex
	got   []string
	errs  int
	want  []string
	plan  map[int]func() error // what the callback does with the i-th notification
	ret   chan error
	open  bool
	mayNo bool
}

var kinds = []string{"/btp", "/block", "/event"}

func text(kind, i int) (json, key string) {
	switch kind {
	case 0:
		return fmt.Sprintf(`{"header":"h%d","proof":"p%d"}`, i, i), fmt.Sprintf("h%d p%d", i, i)
	case 1:
		if i%2 == 1 { // optional parts do not linger
			return fmt.Sprintf(`{"hash":"0x%02x","height":"0x%x"}`, i, i), fmt.Sprintf("0x%02x 0x%x [] []", i, i)
		}
		return fmt.Sprintf(`{"hash":"0x%02x","height":"0x%x","indexes":[["0x%x"]],"events":[[["0x1","0x2"]]]}`, i, i, i), fmt.Sprintf("0x%02x 0x%x [[0x%x]] [[[0x1 0x2]]]", i, i, i)
	}
	return fmt.Sprintf(`{"hash":"0x%02x","height":"0x%x","index":"0x3","events":["0x%x"]}`, i, i, i), fmt.Sprintf("0x%02x 0x%x 0x3 [0x%x]", i, i, i)
}

func (m *mon) list() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string(nil), m.got...)
}

func (m *mon) cb(conn *websocket.Conn, key string) error {
	m.mu.Lock()
	i := len(m.got)
	m.got = append(m.got, key)
	m.conn = conn
	f := m.plan[i]
	m.mu.Unlock()
	if f != nil {
		return f()
	}
	return nil
}

type world struct {
	c    *mc.C
	n    *node
	cl   *client.Client
	done func()
}

func newWorld(c *mc.C) *world {
	n := &node{conns: make(chan *peer, 16)}
	url, done := fake.TheHub().Register(n)
	return &world{c, n, client.NewClient(url, recvw.Quiet), done}
}

func (w *world) start(kind int) *mon {
	m := &mon{kind: kind, init: make(chan *websocket.Conn, 1), plan: map[int]func() error{}, ret: make(chan error, 1)}
	errCb := func(conn *websocket.Conn, err error) {
		m.mu.Lock()
		m.errs++
		m.mu.Unlock()
	}
	scb := func(conn *websocket.Conn) { m.init <- conn }
	go func() {
		var err error
		site, p := mc.Try(func() {
			switch kind {
			case 0:
				err = w.cl.MonitorBTP(&client.BTPRequest{Height: "0x5", NetworkID: "0x2", ProofFlag: "0x0"}, func(conn *websocket.Conn, v *client.BTPNotification) error {
					return m.cb(conn, v.Header+" "+v.Proof)
				}, scb, errCb)
			case 1:
				err = w.cl.MonitorBlock(&client.BlockRequest{Height: "0x5"}, func(conn *websocket.Conn, v *client.BlockNotification) error {
					return m.cb(conn, fmt.Sprintf("%s %s %v %v", v.Hash, v.Height, v.Indexes, v.Events))
				}, scb, errCb)
			case 2:
				err = w.cl.MonitorEvent(&client.EventRequest{Height: "0x5"}, func(conn *websocket.Conn, v *client.EventNotification) error {
					return m.cb(conn, fmt.Sprintf("%s %s %s %v", v.Hash, v.Height, v.Index, v.Events))
				}, errCb)
			}
		})
		if p != nil {
			err = fmt.Errorf("panic at %s: %v", site, p)
			m.mu.Lock()
			m.errs = -1000
			m.mu.Unlock()
		}
		m.ret <- err
	}()
	return m
}

// open opens a monitor and waits until it runs.
func (w *world) open(kind int) *mon {
	m := w.start(kind)
	select {
	case m.p = <-w.n.conns:
	case err := <-m.ret:
		w.c.Fail("open", "monitor %s ends at once: %v", kinds[kind], err)
	case <-time.After(patience):
		w.c.FailTiming("open", "monitor %s does not connect", kinds[kind])
		return nil
	}
	if m.p.path != kinds[kind] || m.p.req["height"] != "0x5" {
		w.c.Fail("open", "monitor %s asks %s %v", kinds[kind], m.p.path, m.p.req)
	}
	if kind < 2 {
		select {
		case m.conn = <-m.init:
		case <-time.After(patience):
			w.c.FailTiming("open", "monitor %s does not report its start", kinds[kind])
			return nil
		}
	}
	m.open = true
	return m
}

// send sends notification i and waits for its delivery.
func (w *world) send(m *mon) {
	t, key := text(m.kind, len(m.want))
	m.want = append(m.want, key)
	if err := m.p.c.WriteMessage(websocket.TextMessage, []byte(t)); err != nil {
		w.c.Fail("closed", "the connection of %s is closed though its monitor was not: %v", kinds[m.kind], err)
	}
	w.delivered(m)
}

func (w *world) delivered(m *mon) {
	fake.Wait(patience, func() bool { return len(m.list()) >= len(m.want) || len(m.ret) > 0 })
	got := m.list()
	if len(got) != len(m.want) {
		if len(m.ret) > 0 {
			w.c.Fail("ended", "monitor %s ended (%v) after %d of %d notifications", kinds[m.kind], <-m.ret, len(got), len(m.want))
		}
		w.c.FailTiming("lost", "monitor %s delivers %v, sent were %v", kinds[m.kind], got, m.want)
	}
	for i := range got {
		if got[i] != m.want[i] {
			w.c.Fail("content", "monitor %s delivers %q, sent were %q", kinds[m.kind], got, m.want)
		}
	}
}

// ended waits for the monitor's end.
func (w *world) ended(m *mon, mustErr bool, is error) {
	m.open = false
	select {
	case err := <-m.ret:
		if m.errs < 0 {
			w.c.Fail("crash", "monitor %s: %v", kinds[m.kind], err)
		}
		if mustErr && err == nil {
			w.c.Fail("no-error", "monitor %s ends without the error that ended it", kinds[m.kind])
		}
		if is != nil && !errors.Is(err, is) {
			w.c.Fail("error", "monitor %s ends with %v instead of the callback's error", kinds[m.kind], err)
		}
	case <-time.After(patience):
		w.c.FailTiming("stuck", "monitor %s does not end", kinds[m.kind])
		return
	}
	got := m.list()
	if len(got) > len(m.want) {
		w.c.Fail("content", "monitor %s delivers %q, sent were %q", kinds[m.kind], got, m.want)
	}
	select {
	case <-m.p.gone:
	case <-time.After(patience):
		w.c.FailTiming("leak", "the connection of the ended monitor %s stays open", kinds[m.kind])
	}
}

var errCb = errors.New("callback refuses")

// act performs one action on an open monitor.
func (w *world) act(m *mon, a int) {
	i := len(m.want)
	plan := func(f func() error) {
		m.mu.Lock()
		m.plan[i] = f
		m.mu.Unlock()
	}
	write := func(t string) {
		if err := m.p.c.WriteMessage(websocket.TextMessage, []byte(t)); err != nil {
			w.c.Fail("closed", "the connection of %s is closed though its monitor was not: %v", kinds[m.kind], err)
		}
	}
	switch a {
	case 0:
		w.send(m)
	case 1: // two in one go
		for k := 0; k < 2; k++ {
			t, key := text(m.kind, len(m.want))
			m.want = append(m.want, key)
			write(t)
		}
		w.delivered(m)
	case 2:
		write("{")
		w.ended(m, true, nil)
	case 3:
		m.p.c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
		w.ended(m, true, nil)
	case 4:
		m.p.c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1001, "away"))
		w.ended(m, true, nil)
	case 5:
		fake.Reset(m.p.c.UnderlyingConn())
		w.ended(m, true, nil)
	case 6: // the callback refuses, another notification is under way
		plan(func() error { return errCb })
		t, key := text(m.kind, i)
		m.want = append(m.want, key)
		write(t)
		t2, _ := text(m.kind, i+1)
		m.p.c.WriteMessage(websocket.TextMessage, []byte(t2))
		w.ended(m, true, errCb)
		if len(m.list()) != len(m.want) {
			w.c.Fail("after-error", "monitor %s delivers %q after its callback refused", kinds[m.kind], m.list())
		}
	case 7:
		if m.conn == nil {
			w.send(m) // the event monitor tells its connection with a notification only
		}
		w.cl.CloseMonitor(m.conn)
		w.ended(m, false, nil)
	case 8: // closed from inside the callback
		plan(func() error { w.cl.CloseMonitor(m.conn); return nil })
		t, key := text(m.kind, i)
		m.want = append(m.want, key)
		write(t)
		t2, _ := text(m.kind, i+1)
		m.p.c.WriteMessage(websocket.TextMessage, []byte(t2))
		w.ended(m, false, nil)
		if len(m.list()) != len(m.want) {
			w.c.Fail("after-close", "monitor %s delivers %q after it was closed", kinds[m.kind], m.list())
		}
	case 9: // closed while the callback runs
		in, out := make(chan bool), make(chan bool)
		plan(func() error { close(in); <-out; return nil })
		t, key := text(m.kind, i)
		m.want = append(m.want, key)
		write(t)
		select {
		case <-in:
		case <-time.After(patience):
			close(out)
			w.c.FailTiming("lost", "monitor %s does not deliver", kinds[m.kind])
			return
		}
		fin := make(chan bool)
		go func() { w.cl.CloseMonitor(m.conn); close(fin) }()
		select {
		case <-fin:
		case <-time.After(patience):
			close(out)
			w.c.FailTiming("close-blocks", "CloseMonitor of %s waits for the running callback", kinds[m.kind])
			return
		}
		close(out)
		w.ended(m, false, nil)
	}
	w.c.R.Trans(1)
}

const acts = 10

func body(r *mc.R) {
	run := func(slots, depth int) {
		r.Explore(fmt.Sprintf("history/%d/%d", slots, depth), func(c *mc.C, x *mc.X) {
			w := newWorld(c)
			defer w.done()
			ms := make([]*mon, slots)
			hist := ""
			defer func() { r.State(hist) }()
			first := x.Choose(3) // which kind the first slot has
			for d := 0; d < depth; d++ {
				type ch struct{ s, a int }
				var opt []ch
				fresh := false
				for s, m := range ms {
					if m != nil && m.open {
						for a := 0; a < acts; a++ {
							if d == depth-1 && a == 1 {
								continue
							}
							opt = append(opt, ch{s, a})
						}
					} else if !fresh {
						fresh = m == nil
						opt = append(opt, ch{s, -1}, ch{s, -2})
					}
				}
				if d > 0 {
					opt = append(opt, ch{-1, -3})
				}
				o := opt[x.Choose(len(opt))]
				hist += fmt.Sprint(o)
				switch o.a {
				case -1:
					ms[o.s] = w.open((first + o.s) % 3)
				case -2: // refused
					ref := []string{"http", "early", "code", "text", "close", "drop"}[d%6]
					w.n.mu.Lock()
					w.n.refuse = ref
					w.n.mu.Unlock()
					m := w.start((first + o.s) % 3)
					select {
					case err := <-m.ret:
						if err == nil || m.errs < 0 {
							c.Fail("refused", "a monitor refused by %s ends with %v", ref, err)
						}
					case <-time.After(patience):
						c.FailTiming("refused", "a monitor refused by %s does not end", ref)
						return
					}
					if len(m.list()) > 0 || len(m.init) > 0 {
						c.Fail("refused", "a monitor refused by %s runs", ref)
					}
					w.n.mu.Lock()
					w.n.refuse = ""
					w.n.mu.Unlock()
				case -3:
					w.cl.CloseAllMonitor()
					for _, m := range ms {
						if m != nil && m.open {
							w.ended(m, false, nil)
						}
					}
				default:
					w.act(ms[o.s], o.a)
				}
			}
			for _, m := range ms {
				if m != nil && m.open {
					w.send(m)
				}
			}
			w.cl.CloseAllMonitor()
			for _, m := range ms {
				if m != nil && m.open {
					w.ended(m, false, nil)
				}
			}
			r.Exec(1)
			r.Validated(1)
		})
	}
	if r.Quick() {
		run(1, 3)
		run(2, 4)
	} else {
		run(1, 4)
		run(2, 5)
		run(3, 4)
	}
	// a monitor without a callback, and every way of refusing
	for k := range kinds {
		for _, ref := range []string{"http", "early", "code", "text", "close", "drop"} {
			k, ref := k, ref
			r.Case("refuse/"+kinds[k]+"/"+ref, func(c *mc.C) {
				w := newWorld(c)
				defer w.done()
				w.n.refuse = ref
				m := w.start(k)
				select {
				case err := <-m.ret:
					if err == nil || m.errs < 0 {
						c.Fail("refused", "a monitor refused by %s ends with %v", ref, err)
					}
				case <-time.After(patience):
					c.FailTiming("refused", "a monitor refused by %s does not end", ref)
				}
				if len(m.list()) > 0 || len(m.init) > 0 {
					c.Fail("refused", "a monitor refused by %s runs", ref)
				}
				r.Exec(1)
			})
		}
	}
	r.Case("nil-callback", func(c *mc.C) {
		w := newWorld(c)
		defer w.done()
		if err := w.cl.Monitor("/btp", &client.BTPRequest{}, &client.BTPNotification{}, nil); err == nil {
			c.Fail("nil-callback", "a monitor without a callback gives no error")
		}
		r.Exec(1)
	})
	// long runs of notifications while the user closes: prefix only
	for k := range kinds {
		for burst := 1; burst <= 6; burst++ {
			for at := 0; at < burst; at++ {
				for how := 0; how < 3; how++ {
					k, burst, at, how := k, burst, at, how
					r.Case(fmt.Sprintf("burst/%d/%d/%d/%d", k, burst, at, how), func(c *mc.C) {
						w := newWorld(c)
						defer w.done()
						m := w.open(k)
						if m == nil {
							return
						}
						o := w.open((k + 1) % 3)
						if o == nil {
							return
						}
						reached := make(chan bool, burst)
						m.mu.Lock()
						m.plan[at] = func() error {
							switch how {
							case 0:
								w.cl.CloseMonitor(m.conn)
							case 1:
								go w.cl.CloseMonitor(m.conn)
							case 2:
								reached <- true
							}
							return nil
						}
						m.mu.Unlock()
						for i := 0; i < burst; i++ {
							t, key := text(k, i)
							m.want = append(m.want, key)
							m.p.c.WriteMessage(websocket.TextMessage, []byte(t))
						}
						if how == 2 {
							<-reached
							fake.Reset(m.p.c.UnderlyingConn())
						}
						w.ended(m, how == 2, nil)
						got := m.list()
						for i := range got {
							if got[i] != m.want[i] {
								c.Fail("content", "monitor %s delivers %q, sent were %q", kinds[k], got, m.want)
							}
						}
						if how == 0 && len(got) != at+1 {
							c.Fail("after-close", "monitor %s delivers %q, it was closed in number %d", kinds[k], got, at)
						}
						w.send(o)
						w.cl.CloseAllMonitor()
						w.ended(o, false, nil)
						r.Exec(1)
					})
				}
			}
		}
	}
}
