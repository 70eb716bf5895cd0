package fake

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/gorilla/websocket"
)

// ELog is an event of the simulated Ethereum chain.
type ELog struct {
	Tx    uint
	Addr  common.Address
	Topic common.Hash
	Next  string
	Seq   int64
	Msg   []byte
	Raw   []byte // event data if not the encoding of Next, Seq, Msg
}

// EBlock is a block of the simulated Ethereum chain.
type EBlock struct {
	H    int64
	Logs []ELog
	Head *types.Header
}

// MessageTopic is the topic of the message event.
var MessageTopic = crypto.Keccak256Hash([]byte("Message(string,uint256,bytes)"))

// NewEBlock makes a block with the given events.
func NewEBlock(h int64, logs ...ELog) *EBlock {
	return &EBlock{H: h, Logs: logs, Head: &types.Header{Number: big.NewInt(h), Difficulty: big.NewInt(2), GasLimit: 30000000, Time: uint64(1000 + h), Extra: []byte(fmt.Sprintf("block %d", h))}}
}

func word(v int64) []byte {
	b := make([]byte, 32)
	new(big.Int).SetInt64(v).FillBytes(b)
	return b
}

func tail(b []byte) []byte {
	out := append(word(int64(len(b))), b...)
	for len(out)%32 != 0 {
		out = append(out, 0)
	}
	return out
}

// ABIMessage encodes (string, uint256, bytes).
func ABIMessage(next string, seq int64, msg []byte) []byte {
	t1, t2 := tail([]byte(next)), tail(msg)
	out := append(word(96), word(seq)...)
	out = append(out, word(int64(96+len(t1)))...)
	return append(append(out, t1...), t2...)
}

// Eth is a simulated Ethereum node.
type Eth struct {
	Blocks   map[int64]*EBlock
	Override func(method string, n int, params []json.RawMessage) *Answer
	Method   func(method string, params []json.RawMessage) (result interface{}, jerr string, ok bool)
	NoSub    bool // subscriptions are refused
	Fresh    bool // subscribers hear of later heads only

	mu    sync.Mutex
	cond  *sync.Cond
	head  int64
	ann   []int64 // announced heights
	ncall map[string]int
	subs  int
	kill  bool
	done  bool
}

func NewEth(bs ...*EBlock) *Eth {
	n := &Eth{Blocks: map[int64]*EBlock{}, ncall: map[string]int{}}
	n.cond = sync.NewCond(&n.mu)
	for _, b := range bs {
		n.Blocks[b.H] = b
	}
	return n
}

// SetHead makes the blocks up to h visible; Announce tells subscribers of a head.
func (n *Eth) SetHead(h int64) {
	n.mu.Lock()
	n.head = h
	n.mu.Unlock()
}
func (n *Eth) Announce(h int64) {
	n.mu.Lock()
	n.ann = append(n.ann, h)
	n.cond.Broadcast()
	n.mu.Unlock()
}

// Mine adds the block, makes it the head and announces it.
func (n *Eth) Mine(b *EBlock) {
	n.mu.Lock()
	n.Blocks[b.H] = b
	n.head = b.H
	n.ann = append(n.ann, b.H)
	n.cond.Broadcast()
	n.mu.Unlock()
}
func (n *Eth) Calls(m string) int { n.mu.Lock(); defer n.mu.Unlock(); return n.ncall[m] }
func (n *Eth) Subs() int          { n.mu.Lock(); defer n.mu.Unlock(); return n.subs }

// Kill drops the subscribers' connections once the announced heads are written.
func (n *Eth) Kill() {
	n.mu.Lock()
	n.kill = true
	n.cond.Broadcast()
	n.mu.Unlock()
}
func (n *Eth) Close() {
	n.mu.Lock()
	n.done = true
	n.cond.Broadcast()
	n.mu.Unlock()
}

type ereq struct {
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
	ID     json.RawMessage   `json:"id"`
}

func (n *Eth) handle(q *ereq) *Answer {
	n.mu.Lock()
	n.ncall[q.Method]++
	k := n.ncall[q.Method]
	n.mu.Unlock()
	if n.Override != nil {
		if a := n.Override(q.Method, k, q.Params); a != nil {
			return a
		}
	}
	var res interface{}
	jerr, ok := "", false
	if n.Method != nil {
		res, jerr, ok = n.Method(q.Method, q.Params)
	}
	if !ok {
		res, jerr = n.chain(q)
	}
	if jerr != "" {
		return &Answer{Err: jerr, Status: 200}
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &Answer{Result: string(b)}
}

func (n *Eth) chain(q *ereq) (interface{}, string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	switch q.Method {
	case "eth_chainId":
		return "0x61", ""
	case "eth_blockNumber":
		return fmt.Sprintf("0x%x", n.head), ""
	case "eth_getBlockByNumber":
		var s string
		json.Unmarshal(q.Params[0], &s)
		var h int64
		if s == "latest" {
			h = n.head
		} else if _, err := fmt.Sscanf(s, "0x%x", &h); err != nil {
			return nil, `{"code":-32602,"message":"invalid argument"}`
		}
		if b := n.Blocks[h]; b != nil && h <= n.head {
			return b.Head, ""
		}
		return nil, ""
	case "eth_getLogs":
		var f struct {
			BlockHash *common.Hash
			FromBlock *string
			ToBlock   *string
			Address   interface{}
			Topics    []interface{}
		}
		if err := json.Unmarshal(q.Params[0], &f); err != nil {
			return nil, `{"code":-32602,"message":"invalid filter"}`
		}
		var bs []*EBlock
		if f.BlockHash != nil {
			for _, b := range n.Blocks {
				if b.Head.Hash() == *f.BlockHash && b.H <= n.head {
					bs = append(bs, b)
				}
			}
			if len(bs) == 0 {
				return nil, `{"code":-32000,"message":"unknown block"}`
			}
		} else {
			num := func(s *string, d int64) int64 {
				if s == nil || *s == "latest" || *s == "pending" {
					return d
				}
				if *s == "earliest" {
					return 0
				}
				var v int64
				fmt.Sscanf(*s, "0x%x", &v)
				return v
			}
			for h := num(f.FromBlock, n.head); h <= num(f.ToBlock, n.head); h++ {
				if b := n.Blocks[h]; b != nil && h <= n.head {
					bs = append(bs, b)
				}
			}
		}
		out := []*types.Log{}
		for _, b := range bs {
			for i, l := range b.Logs {
				if !matchAny(f.Address, l.Addr.Hex()) || len(f.Topics) > 0 && !matchAny(f.Topics[0], l.Topic.Hex()) {
					continue
				}
				out = append(out, b.Log(i))
			}
		}
		return out, ""
	}
	return nil, `{"code":-32601,"message":"the method does not exist"}`
}

// Log gives the i-th event as the node reports it.
func (b *EBlock) Log(i int) *types.Log {
	l := b.Logs[i]
	data := l.Raw
	if data == nil {
		data = ABIMessage(l.Next, l.Seq, l.Msg)
	}
	return &types.Log{Address: l.Addr, Topics: []common.Hash{l.Topic}, Data: data, BlockNumber: uint64(b.H), BlockHash: b.Head.Hash(),
		TxHash: crypto.Keccak256Hash([]byte(fmt.Sprintf("%d.%d", b.H, l.Tx))), TxIndex: l.Tx, Index: uint(i)}
}

func matchAny(f interface{}, v string) bool {
	switch t := f.(type) {
	case nil:
		return true
	case string:
		return strings.EqualFold(t, v)
	case []interface{}:
		for _, x := range t {
			if s, _ := x.(string); strings.EqualFold(s, v) {
				return true
			}
		}
		return len(t) == 0
	}
	return false
}

func (a *Answer) text(id json.RawMessage) string {
	if a.Body != "" || a.Is {
		return a.Body
	}
	if a.Err != "" {
		return fmt.Sprintf(`{"jsonrpc":"2.0","error":%s,"id":%s}`, a.Err, id)
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","result":%s,"id":%s}`, a.Result, id)
}

func (n *Eth) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if websocket.IsWebSocketUpgrade(r) {
		n.serveWS(w, r)
		return
	}
	body, _ := io.ReadAll(r.Body)
	var q ereq
	if json.Unmarshal(body, &q) != nil {
		w.WriteHeader(400)
		return
	}
	a := n.handle(&q)
	if a.Drop {
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				Reset(c)
			}
		}
		return
	}
	ct := a.CType
	if ct == "" {
		ct = "application/json"
	}
	w.Header().Set("Content-Type", ct)
	if a.Status != 0 {
		w.WriteHeader(a.Status)
	}
	io.WriteString(w, a.text(q.ID))
}

func (n *Eth) serveWS(w http.ResponseWriter, r *http.Request) {
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	var wm sync.Mutex
	send := func(s string) bool {
		wm.Lock()
		defer wm.Unlock()
		return c.WriteMessage(websocket.TextMessage, []byte(s)) == nil
	}
	gone := false
	defer func() {
		n.mu.Lock()
		gone = true
		n.cond.Broadcast()
		n.mu.Unlock()
		Reset(c.UnderlyingConn())
	}()
	for {
		var q ereq
		if c.ReadJSON(&q) != nil {
			return
		}
		if q.Method == "eth_subscribe" && !n.NoSub {
			if n.Override != nil {
				if a := n.Override(q.Method, 1, q.Params); a != nil {
					if a.Drop || !send(a.text(q.ID)) {
						return
					}
					continue
				}
			}
			if !send(fmt.Sprintf(`{"jsonrpc":"2.0","result":"0xcafe","id":%s}`, q.ID)) {
				return
			}
			n.mu.Lock()
			n.subs++
			n.mu.Unlock()
			first := 0
			if n.Fresh {
				n.mu.Lock()
				first = len(n.ann)
				n.mu.Unlock()
			}
			go func() {
				for i := first; ; i++ {
					n.mu.Lock()
					for !(i < len(n.ann) || n.done || n.kill || gone) {
						n.cond.Wait()
					}
					if n.done || gone || i >= len(n.ann) {
						n.mu.Unlock()
						Reset(c.UnderlyingConn())
						return
					}
					b := n.Blocks[n.ann[i]]
					n.mu.Unlock()
					h, _ := json.Marshal(b.Head)
					if !send(fmt.Sprintf(`{"jsonrpc":"2.0","method":"eth_subscription","params":{"subscription":"0xcafe","result":%s}}`, h)) {
						return
					}
				}
			}()
			continue
		}
		if q.Method == "eth_unsubscribe" {
			send(fmt.Sprintf(`{"jsonrpc":"2.0","result":true,"id":%s}`, q.ID))
			continue
		}
		if q.Method == "eth_subscribe" {
			send(fmt.Sprintf(`{"jsonrpc":"2.0","error":{"code":-32601,"message":"no subscriptions"},"id":%s}`, q.ID))
			continue
		}
		a := n.handle(&q)
		if a.Drop || !send(a.text(q.ID)) {
			return
		}
	}
}

// Hex gives 0x-prefixed text.
func Hex(b []byte) string { return "0x" + hex.EncodeToString(b) }
