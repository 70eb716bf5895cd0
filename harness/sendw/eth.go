package sendw

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/ethbr"
	btypes "github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/fake"
	"verif/recvw"
)

const (
	ESrc    = "btp://0x53.icon/cx00000000000000000000000000000000000000bb"
	EDst    = "btp://0x61.eth/0x00000000000000000000000000000000000000aA"
	EDstAcc = "0x00000000000000000000000000000000000000aA"
)

var evm = func() *wallet.EvmWallet {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte("relay")))
	if err != nil {
		panic(err)
	}
	w, _ := wallet.NewEvmWalletFromPrivateKey(k)
	return w
}()

func EvmWallet() *wallet.EvmWallet { return evm }

// EthTx is a transaction as the node received it.
type EthTx struct {
	Tx   *types.Transaction
	Prev string
	Msg  []byte
	Bad  string
}

func sel(sig string) []byte { return crypto.Keccak256([]byte(sig))[:4] }

// abiBytes reads the dynamic argument whose offset stands in word i.
func abiBytes(d []byte, i int) ([]byte, error) {
	word := func(o *big.Int) (*big.Int, error) {
		if !o.IsInt64() || o.Int64() < 0 || o.Int64()+32 > int64(len(d)) {
			return nil, fmt.Errorf("offset %v of %d bytes", o, len(d))
		}
		return new(big.Int).SetBytes(d[o.Int64() : o.Int64()+32]), nil
	}
	off, err := word(big.NewInt(int64(32 * i)))
	if err != nil {
		return nil, err
	}
	n, err := word(off)
	if err != nil {
		return nil, err
	}
	if !n.IsInt64() || off.Int64()+32+n.Int64() > int64(len(d)) {
		return nil, fmt.Errorf("length %v of %d bytes", n, len(d))
	}
	return d[off.Int64()+32 : off.Int64()+32+n.Int64()], nil
}

// ParseEth reads and verifies a raw transaction.
func ParseEth(raw []byte, nonce uint64) *EthTx {
	t := &EthTx{Tx: new(types.Transaction)}
	bad := func(f string, a ...interface{}) {
		if t.Bad == "" {
			t.Bad = fmt.Sprintf(f, a...)
		}
	}
	if err := t.Tx.UnmarshalBinary(raw); err != nil {
		bad("%v", err)
		return t
	}
	if t.Tx.ChainId().Int64() != 0x61 {
		bad("chain id %v", t.Tx.ChainId())
	}
	from, err := types.Sender(types.LatestSignerForChainID(big.NewInt(0x61)), t.Tx)
	if err != nil || from != crypto.PubkeyToAddress(evm.Skey.PublicKey) {
		bad("signed by %v (%v)", from, err)
	}
	if t.Tx.To() == nil || *t.Tx.To() != common.HexToAddress(EDstAcc) {
		bad("sent to %v", t.Tx.To())
	}
	if t.Tx.Value().Sign() != 0 {
		bad("value %v", t.Tx.Value())
	}
	if t.Tx.Nonce() != nonce {
		bad("nonce %d, the node said %d", t.Tx.Nonce(), nonce)
	}
	if t.Tx.Gas() == 0 {
		bad("no gas")
	}
	d := t.Tx.Data()
	if len(d) < 4 || !bytes.Equal(d[:4], sel("handleRelayMessage(string,bytes)")) {
		bad("method")
		return t
	}
	p, err := abiBytes(d[4:], 0)
	if err != nil {
		bad("source: %v", err)
	}
	t.Prev = string(p)
	if t.Msg, err = abiBytes(d[4:], 1); err != nil {
		bad("message: %v", err)
	}
	return t
}

func w256(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// EthStatus is the contract's answer to getStatus.
func EthStatus(rx, tx, height *big.Int, extra []byte) []byte {
	n := func(v int64) []byte { return w256(big.NewInt(v)) }
	var o []byte
	o = append(o, n(32)...) // tuple
	o = append(o, w256(rx)...)
	o = append(o, w256(tx)...)
	o = append(o, n(128)...) // verifier tuple
	o = append(o, n(77)...)  // current height
	o = append(o, w256(height)...)
	o = append(o, n(64)...)
	o = append(o, n(int64(len(extra)))...)
	o = append(o, extra...)
	for len(o)%32 != 0 {
		o = append(o, 0)
	}
	return o
}

// EthWorld is an Ethereum sender with its node.
type EthWorld struct {
	S    btypes.Sender
	Link string // the source the destination's contract is linked to
	Pass bool   // the node answers other calls too
	Node *fake.Eth
	Done func()

	mu     sync.Mutex
	Txs    []*EthTx
	Errs   []string
	nonce  uint64
	Status int // getStatus calls

	Override func(method string, n int, params []json.RawMessage) *fake.Answer
	Send     func(n int, t *EthTx) *fake.Answer                // nil: accepted
	Tx       func(n int, h common.Hash) (string, *fake.Answer) // "pending", "mined", "none"
	Receipt  func(n int, h common.Hash) (string, *fake.Answer) // "ok", "failed", "none"
	Call     func(n int, h *EthTx) *fake.Answer                // re-execution of a failed transaction
	StatusA  func(n int) *fake.Answer
}

func (d *EthWorld) find(h common.Hash) *EthTx {
	for _, t := range d.Txs {
		if t.Tx.Hash() == h {
			return t
		}
	}
	return nil
}

func (d *EthWorld) Snap() (txs []*EthTx, errs []string, st int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append(txs, d.Txs...), append(errs, d.Errs...), d.Status
}

func js(v interface{}) *fake.Answer {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return &fake.Answer{Result: string(b)}
}

var ethHead = fake.NewEBlock(9)

// NewEthWorld is a sender with its node; with baseFee it is one with dynamic fees.
func NewEthWorld(ws, baseFee bool) *EthWorld {
	d := NewEthDest(fake.NewEth(), ESrc, baseFee)
	url, done := fake.TheHub().Register(d.Node)
	d.Done = func() { d.Node.Close(); done() }
	if ws {
		url = strings.Replace(url, "http", "ws", 1)
	}
	d.S = ethbr.NewSender(btypes.BtpAddress(ESrc), btypes.BtpAddress(EDst), evm, url, nil, recvw.Quiet)
	return d
}

// NewEthDest makes the node a destination.
func NewEthDest(node *fake.Eth, link string, baseFee bool) *EthWorld {
	d := &EthWorld{nonce: 5, Link: link, Node: node}
	errf := func(f string, a ...interface{}) {
		d.mu.Lock()
		d.Errs = append(d.Errs, fmt.Sprintf(f, a...))
		d.mu.Unlock()
	}
	cnt := map[string]int{}
	d.Node.Override = func(method string, n int, params []json.RawMessage) *fake.Answer {
		if d.Override != nil {
			if a := d.Override(method, n, params); a != nil {
				return a
			}
		}
		switch method {
		case "eth_chainId":
			return nil
		case "eth_gasPrice":
			return js("0x3b9aca00")
		case "eth_maxPriorityFeePerGas":
			return js("0x3b9aca00")
		case "eth_getBlockByNumber":
			if d.Pass {
				return nil
			}
			h := *ethHead.Head
			if baseFee {
				h.BaseFee = big.NewInt(7)
			}
			return js(&h)
		case "eth_getTransactionCount":
			var a common.Address
			json.Unmarshal(params[0], &a)
			if a != crypto.PubkeyToAddress(evm.Skey.PublicKey) || string(params[1]) != `"pending"` {
				errf("nonce of %s at %s", a.Hex(), params[1])
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			return js(fmt.Sprintf("0x%x", d.nonce))
		case "eth_sendRawTransaction":
			var s string
			json.Unmarshal(params[0], &s)
			d.mu.Lock()
			t := ParseEth(common.FromHex(s), d.nonce)
			if t.Bad == "" && t.Prev != d.Link {
				t.Bad = fmt.Sprintf("link %q", t.Prev)
			}
			d.Txs = append(d.Txs, t)
			k := len(d.Txs)
			if t.Bad != "" {
				d.Errs = append(d.Errs, t.Bad)
			}
			d.mu.Unlock()
			if d.Send != nil {
				if a := d.Send(k, t); a != nil {
					return a
				}
			}
			d.mu.Lock()
			d.nonce++
			d.mu.Unlock()
			return js(t.Tx.Hash())
		case "eth_getTransactionByHash", "eth_getTransactionReceipt":
			var h common.Hash
			json.Unmarshal(params[0], &h)
			d.mu.Lock()
			t := d.find(h)
			k := method + h.Hex()
			cnt[k]++
			n := cnt[k]
			d.mu.Unlock()
			if t == nil {
				errf("%s of unknown transaction %s", method, h.Hex())
				return js(nil)
			}
			if method == "eth_getTransactionByHash" {
				s := "mined"
				if d.Tx != nil {
					var a *fake.Answer
					if s, a = d.Tx(n, h); a != nil {
						return a
					}
				}
				if s == "none" {
					return js(nil)
				}
				var m map[string]interface{}
				b, _ := t.Tx.MarshalJSON()
				json.Unmarshal(b, &m)
				m["from"] = crypto.PubkeyToAddress(evm.Skey.PublicKey)
				m["blockNumber"], m["blockHash"] = nil, nil
				if s == "mined" {
					m["blockNumber"], m["blockHash"] = "0x9", ethHead.Head.Hash()
				}
				return js(m)
			}
			s := "ok"
			if d.Receipt != nil {
				var a *fake.Answer
				if s, a = d.Receipt(n, h); a != nil {
					return a
				}
			}
			if s == "none" {
				return js(nil)
			}
			rc := &types.Receipt{Status: 1, CumulativeGasUsed: 100, TxHash: h, GasUsed: 100, BlockHash: ethHead.Head.Hash(), BlockNumber: big.NewInt(9), Logs: []*types.Log{}}
			if s == "failed" {
				rc.Status = 0
			}
			return js(rc)
		case "eth_getCode":
			return js("0x6000")
		case "eth_call":
			var p struct {
				To, From *common.Address
				Data     string
				Input    string
			}
			json.Unmarshal(params[0], &p)
			if p.Data == "" {
				p.Data = p.Input
			}
			data := common.FromHex(p.Data)
			if p.To == nil || *p.To != common.HexToAddress(EDstAcc) {
				errf("call to %v", p.To)
			}
			if len(data) >= 4 && bytes.Equal(data[:4], sel("getStatus(string)")) {
				l, err := abiBytes(data[4:], 0)
				if err != nil || string(l) != d.Link {
					errf("status of link %q (%v)", l, err)
				}
				d.mu.Lock()
				d.Status++
				k := d.Status
				d.mu.Unlock()
				if d.StatusA != nil {
					if a := d.StatusA(k); a != nil {
						return a
					}
				}
				return js(fake.Hex(EthStatus(big.NewInt(7), big.NewInt(3), big.NewInt(42), []byte{1, 2})))
			}
			d.mu.Lock()
			var t *EthTx
			for _, x := range d.Txs {
				if bytes.Equal(x.Tx.Data(), data) {
					t = x
				}
			}
			d.mu.Unlock()
			if t == nil || p.From == nil || *p.From != crypto.PubkeyToAddress(evm.Skey.PublicKey) {
				errf("call that is not a sent transaction, from %v", p.From)
				return js("0x")
			}
			if d.Call != nil {
				if a := d.Call(1, t); a != nil {
					return a
				}
			}
			return js("0x")
		}
		if !d.Pass {
			errf("unexpected call %s", method)
		}
		return nil
	}
	return d
}
