package fake

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"github.com/gorilla/websocket"

	"verif/ref"
)

// IBlock is a BTP block of the simulated ICON chain.
type IBlock struct {
	H      int64
	First  int64 // number of the first message in the network (from 0)
	Ctx    bool  // the proof context changes in this block
	Msgs   [][]byte
	Header []byte
	Proof  []byte
	Root   []byte
	NSHash []byte
}

func (b *IBlock) Last() int64 { return b.First + int64(len(b.Msgs)) }

// IChain is one BTP network of an ICON chain; Blocks[0] may be the network's first block.
type IChain struct {
	Nid, Start, Offset int64
	Blocks             []*IBlock
}

func num(v int64) ref.Item { return ref.S(ref.TwosComp(big.NewInt(v))) }
func nb(b []byte) ref.Item {
	if b == nil {
		return ref.NullItem()
	}
	return ref.S(b)
}

// Finish computes headers and proofs.  first is the message number of the first block.
func (c *IChain) Finish(first int64) *IChain {
	var prev []byte
	for _, b := range c.Blocks {
		b.First = first
		first += int64(len(b.Msgs))
		var leaves [][]byte
		for _, m := range b.Msgs {
			leaves = append(leaves, ref.MbtHash("eth", m))
		}
		b.Root = ref.MbtRoot("eth", leaves)
		upd := b.First << 1
		if b.Ctx {
			upd |= 1
		}
		ctx := []byte(nil)
		if b.Ctx {
			ctx = []byte(fmt.Sprintf("validators of %d", b.H))
		}
		h := ref.L(num(b.H), num(b.H%3), ref.S(ref.MbtHash("eth", []byte("ctx"))), ref.L(ref.S([]byte{1, 2}), ref.S([]byte{3})),
			num(c.Nid), num(upd), nb(prev), num(int64(len(b.Msgs))), nb(b.Root), nb(ctx))
		b.Header = h.Enc()
		b.Proof = []byte(fmt.Sprintf("proof of %d", b.H))
		b.NSHash = ref.MbtHash("eth", ref.L(num(c.Nid), num(upd), nb(prev), num(int64(len(b.Msgs))), nb(b.Root)).Enc())
		prev = b.NSHash
	}
	return c
}

func (c *IChain) At(h int64) *IBlock {
	for _, b := range c.Blocks {
		if b.H == h {
			return b
		}
	}
	return nil
}

// Answer is what the node sends to one request; the zero value means "the right answer".
type Answer struct {
	Status int
	CType  string
	Body   string
	Drop   bool   // drop the connection without an answer
	Err    string // a JSON-RPC error object
	Result string // a raw JSON result
	Is     bool
}

// WSEvent is something a websocket does instead of sending the next notification.
type WSEvent struct {
	Text  string // send this text instead
	Close int    // close frame with this code
	Drop  bool   // drop the connection
}

// Icon is a simulated ICON node.
type Icon struct {
	C        *IChain
	Override func(method string, n int, params json.RawMessage) *Answer
	WSReq    func(n int, path string, req map[string]interface{}) *WSEvent // instead of the acceptance
	WSNext   func(conn, i int) *WSEvent                                    // instead of the i-th notification
	Method   func(method string, params json.RawMessage) (result interface{}, jerr string, ok bool)
	Seen     func(method string, params json.RawMessage)

	mu       sync.Mutex
	cond     *sync.Cond
	released int
	closed   bool
	ncall    map[string]int
	nws      int
	sent     int // notifications written
	Reqs     []map[string]interface{}
	open     int
}

func NewIcon(c *IChain) *Icon {
	n := &Icon{C: c, ncall: map[string]int{}}
	n.cond = sync.NewCond(&n.mu)
	return n
}

// Release makes the first k blocks visible.
func (n *Icon) Release(k int) {
	n.mu.Lock()
	n.released = k
	n.cond.Broadcast()
	n.mu.Unlock()
}
func (n *Icon) Sent() int          { n.mu.Lock(); defer n.mu.Unlock(); return n.sent }
func (n *Icon) Open() int          { n.mu.Lock(); defer n.mu.Unlock(); return n.open }
func (n *Icon) Calls(m string) int { n.mu.Lock(); defer n.mu.Unlock(); return n.ncall[m] }
func (n *Icon) Requests() (r []map[string]interface{}) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append(r, n.Reqs...)
}
func (n *Icon) Close() {
	n.mu.Lock()
	n.closed = true
	n.cond.Broadcast()
	n.mu.Unlock()
}

func hexInt(v interface{}) (int64, bool) {
	s, _ := v.(string)
	if !strings.HasPrefix(s, "0x") {
		return 0, false
	}
	x, err := strconv.ParseInt(s[2:], 16, 64)
	return x, err == nil
}

func (n *Icon) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if websocket.IsWebSocketUpgrade(r) {
		n.serveWS(w, r)
		return
	}
	body, _ := io.ReadAll(r.Body)
	var q struct {
		Method string          `json:"method"`
		Params json.RawMessage `json:"params"`
		ID     json.RawMessage `json:"id"`
	}
	if json.Unmarshal(body, &q) != nil {
		w.WriteHeader(400)
		return
	}
	n.mu.Lock()
	n.ncall[q.Method]++
	k := n.ncall[q.Method]
	n.mu.Unlock()
	if n.Seen != nil {
		n.Seen(q.Method, q.Params)
	}
	if n.Override != nil {
		if a := n.Override(q.Method, k, q.Params); a != nil {
			n.answer(w, r, q.ID, a)
			return
		}
	}
	if n.Method != nil {
		if res, jerr, ok := n.Method(q.Method, q.Params); ok {
			if jerr != "" {
				n.answer(w, r, q.ID, &Answer{Err: jerr})
				return
			}
			b, _ := json.Marshal(res)
			n.answer(w, r, q.ID, &Answer{Result: string(b)})
			return
		}
	}
	res, jerr := n.btp(q.Method, q.Params)
	if jerr != "" {
		n.answer(w, r, q.ID, &Answer{Err: jerr})
		return
	}
	b, _ := json.Marshal(res)
	n.answer(w, r, q.ID, &Answer{Result: string(b)})
}

func (n *Icon) answer(w http.ResponseWriter, r *http.Request, id json.RawMessage, a *Answer) {
	if a.Drop {
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				Reset(c)
			}
		}
		return
	}
	ct := a.CType
	if ct == "" {
		ct = "application/json"
	}
	w.Header().Set("Content-Type", ct)
	st, body := a.Status, a.Body
	if st == 0 {
		st = 200
	}
	if body == "" && !a.Is {
		if a.Err != "" {
			if a.Status == 0 {
				st = 400
			}
			body = fmt.Sprintf(`{"jsonrpc":"2.0","error":%s,"id":%s}`, a.Err, id)
		} else {
			body = fmt.Sprintf(`{"jsonrpc":"2.0","result":%s,"id":%s}`, a.Result, id)
		}
	}
	w.WriteHeader(st)
	io.WriteString(w, body)
}

const notFound = `{"code":-31004,"message":"E1005:NotFound"}`

func (n *Icon) btp(method string, params json.RawMessage) (interface{}, string) {
	var p map[string]interface{}
	json.Unmarshal(params, &p)
	n.mu.Lock()
	defer n.mu.Unlock()
	hex := func(v int64) string { return fmt.Sprintf("0x%x", v) }
	switch method {
	case "icx_call":
		d, _ := p["data"].(map[string]interface{})
		switch d["method"] {
		case "getBTPLinkNetworkId":
			return hex(n.C.Nid), ""
		case "getBTPLinkOffset":
			return hex(n.C.Offset), ""
		}
	case "btp_getNetworkInfo":
		if id, _ := hexInt(p["id"]); id != n.C.Nid {
			return nil, notFound
		}
		return map[string]interface{}{"startHeight": hex(n.C.Start), "networkID": hex(n.C.Nid), "open": "0x1", "networkTypeID": "0x1"}, ""
	case "btp_getMessages", "btp_getHeader", "btp_getProof":
		if id, _ := hexInt(p["networkID"]); id != n.C.Nid {
			return nil, notFound
		}
		h, _ := hexInt(p["height"])
		for i, b := range n.C.Blocks {
			if b.H != h || i >= n.released {
				continue
			}
			switch method {
			case "btp_getHeader":
				return base64.StdEncoding.EncodeToString(b.Header), ""
			case "btp_getProof":
				return base64.StdEncoding.EncodeToString(b.Proof), ""
			}
			out := []string{}
			for _, m := range b.Msgs {
				out = append(out, base64.StdEncoding.EncodeToString(m))
			}
			return out, ""
		}
		return nil, notFound
	}
	return nil, `{"code":-32601,"message":"MethodNotFound"}`
}

var up = websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}

func (n *Icon) serveWS(w http.ResponseWriter, r *http.Request) {
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	n.mu.Lock()
	n.nws++
	k := n.nws
	n.open++
	n.mu.Unlock()
	defer func() {
		n.mu.Lock()
		n.open--
		n.cond.Broadcast()
		n.mu.Unlock()
		Reset(c.UnderlyingConn())
	}()
	var req map[string]interface{}
	if c.ReadJSON(&req) != nil {
		return
	}
	n.mu.Lock()
	n.Reqs = append(n.Reqs, req)
	n.mu.Unlock()
	do := func(e *WSEvent) bool { // continue?
		switch {
		case e.Drop:
			return false
		case e.Close != 0:
			c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(e.Close, ""))
			c.ReadMessage()
			return false
		default:
			return c.WriteMessage(websocket.TextMessage, []byte(e.Text)) == nil
		}
	}
	ok := true
	if n.WSReq != nil {
		if e := n.WSReq(k, r.URL.Path, req); e != nil {
			if !do(e) {
				return
			}
			ok = false
		}
	}
	if ok && c.WriteJSON(map[string]interface{}{"code": 0}) != nil {
		return
	}
	// the peer's side: closes and drops
	gone := false
	go func() {
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				n.mu.Lock()
				gone = true
				n.cond.Broadcast()
				n.mu.Unlock()
				return
			}
		}
	}()
	from, _ := hexInt(req["height"])
	for i := 0; ; i++ {
		n.mu.Lock()
		for !(i < n.released || n.closed || gone) {
			n.cond.Wait()
		}
		if n.closed || gone {
			n.mu.Unlock()
			return
		}
		b := n.C.Blocks[i]
		n.mu.Unlock()
		if b.H < from {
			continue
		}
		if n.WSNext != nil {
			if e := n.WSNext(k, i); e != nil {
				if !do(e) {
					return
				}
				n.mu.Lock()
				n.sent++
				n.mu.Unlock()
				continue
			}
		}
		var msg interface{}
		switch r.URL.Path {
		case "/btp":
			msg = map[string]interface{}{"header": base64.StdEncoding.EncodeToString(b.Header)}
		default:
			msg = map[string]interface{}{"hash": fmt.Sprintf("0x%064x", b.H), "height": fmt.Sprintf("0x%x", b.H)}
		}
		if c.WriteJSON(msg) != nil {
			return
		}
		n.mu.Lock()
		n.sent++
		n.mu.Unlock()
	}
}
