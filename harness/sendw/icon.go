// Package sendw drives the real senders against simulated destination nodes.
package sendw

import (
	"encoding/json"
	"strings"
	"sync"

	"github.com/icon-project/btp/chain/icon"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/fake"
	"verif/recvw"
)

const (
	Src     = "btp://0x61.eth/0x00000000000000000000000000000000000000aa"
	Dst     = "btp://0x53.icon/cx00000000000000000000000000000000000000bb"
	DstAcc  = "cx00000000000000000000000000000000000000bb"
	DefStep = "0x9502f900"
	// StatusOK is a status answer as the contract gives it.
	StatusOK = `{"tx_seq":"0x3","rx_seq":"0x7","verifier":{"height":"0x2a","extra":"0x0102"},"relays":[],"cur_height":"0x64"}`
)

// IconKey gives the wallet the sender signs with.
var iconWallet = func() wallet.Wallet {
	sk, _ := crypto.ParsePrivateKey(crypto.SHA3Sum256([]byte("relay")))
	w, err := wallet.NewIcxWalletFromPrivateKey(sk)
	if err != nil {
		panic(err)
	}
	return w
}()

func IconWallet() wallet.Wallet { return iconWallet }

// Msg is a relay message.
type Msg struct {
	ID int
	B  []byte
}

func (m *Msg) Id() int       { return m.ID }
func (m *Msg) Bytes() []byte { return m.B }
func (m *Msg) Size() int64   { return int64(len(m.B)) }

// Pattern gives n bytes in which every part can be told from every other.
func Pattern(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// IconWorld is an ICON sender with its node.
type IconWorld struct {
	S    types.Sender
	Node *fake.Icon
	D    *fake.IconDst
	Done func()
	Pass bool // the node answers other calls too

	mu      sync.Mutex
	Txs     []*fake.IconTx
	Got     [][]byte // complete relay messages
	Errs    []string
	Results []string // hashes asked for
	Calls   []string // parameters of icx_call

	Send   func(n int, t *fake.IconTx) (a *fake.Answer, execute bool) // nil: accepted
	Result func(n int, hash string) *fake.Answer
	Status func(n int) *fake.Answer
}

func NewIconWorld(w interface {
	Address() string
	Sign([]byte) ([]byte, error)
}, opt map[string]interface{}, step string) *IconWorld {
	d := NewIconDest(fake.NewIcon(&fake.IChain{}), Src, step)
	url, done := fake.TheHub().Register(d.Node)
	d.Done = done
	d.S = icon.NewSender(types.BtpAddress(Src), types.BtpAddress(Dst), w, url, opt, recvw.Quiet)
	return d
}

// NewIconDest makes the node a destination.
func NewIconDest(node *fake.Icon, link, step string) *IconWorld {
	d := &IconWorld{Node: node}
	d.D = &fake.IconDst{From: IconWallet().Address(), To: DstAcc, Nid: "0x53", Step: step}
	d.D.Relay = func(prev string, m []byte) {
		if prev != link {
			d.Errs = append(d.Errs, "message is sent for link "+prev)
		}
		d.Got = append(d.Got, m)
	}
	d.Node.Override = func(method string, n int, params json.RawMessage) *fake.Answer {
		switch method {
		case "icx_sendTransaction":
			t := d.D.Parse(params)
			var a *fake.Answer
			ex := true
			d.mu.Lock()
			d.Txs = append(d.Txs, t)
			n := len(d.Txs)
			d.mu.Unlock()
			if d.Send != nil {
				a, ex = d.Send(n, t)
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			if ex {
				if err := d.D.Execute(t); err != nil {
					d.Errs = append(d.Errs, err.Error())
				}
			}
			if a == nil {
				a = &fake.Answer{Result: `"` + t.Hash + `"`}
			}
			return a
		case "icx_getTransactionResult":
			var p struct {
				Hash string `json:"txHash"`
			}
			json.Unmarshal(params, &p)
			d.mu.Lock()
			d.Results = append(d.Results, p.Hash)
			n := len(d.Results)
			d.mu.Unlock()
			if d.Result != nil {
				return d.Result(n, p.Hash)
			}
			return Success
		case "icx_call":
			if d.Pass && !strings.Contains(string(params), `"getStatus"`) {
				return nil
			}
			d.mu.Lock()
			d.Calls = append(d.Calls, string(params))
			n := len(d.Calls)
			d.mu.Unlock()
			if d.Status != nil {
				return d.Status(n)
			}
			return &fake.Answer{Result: StatusOK}
		}
		if !d.Pass {
			d.mu.Lock()
			d.Errs = append(d.Errs, "unexpected call "+method)
			d.mu.Unlock()
		}
		return nil
	}
	return d
}

// Snap gives a consistent copy of what the node saw.
func (d *IconWorld) Snap() (txs []*fake.IconTx, got [][]byte, errs, results, calls []string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append(txs, d.Txs...), append(got, d.Got...), append(errs, d.Errs...), append(results, d.Results...), append(calls, d.Calls...)
}

// Success is the result of a successful transaction.
var Success = &fake.Answer{Result: `{"to":"` + DstAcc + `","cumulativeStepUsed":"0x1","stepUsed":"0x1","stepPrice":"0x1","eventLogs":[],"logsBloom":"0x00","status":"0x1","blockHash":"0x01","blockHeight":"0x2","txIndex":"0x0","txHash":"0x03"}`}
