package fake

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sync"

	"verif/ref"
)

// IconTx is one transaction as the node received it.
type IconTx struct {
	Raw    string // the parameters as received
	Hash   string
	Method string
	Prev   string
	Msg    []byte
	Idx    int64
	TS     int64
	Bad    string // why a node would refuse it
}

// IconDst is the destination's contract on a simulated ICON node.
type IconDst struct {
	From, To, Nid, Step string
	Relay               func(prev string, msg []byte) // a complete relay message

	mu    sync.Mutex
	first bool
	last  int64
	next  int64
	parts []byte
}

// Parse reads and verifies the parameters of icx_sendTransaction.
func (d *IconDst) Parse(params json.RawMessage) *IconTx {
	t := &IconTx{Raw: string(params)}
	var m map[string]interface{}
	if err := json.Unmarshal(params, &m); err != nil {
		t.Bad = err.Error()
		return t
	}
	bad := func(f string, a ...interface{}) {
		if t.Bad == "" {
			t.Bad = fmt.Sprintf(f, a...)
		}
	}
	for k, v := range map[string]string{"version": "0x3", "from": d.From, "to": d.To, "nid": d.Nid, "stepLimit": d.Step, "dataType": "call"} {
		if m[k] != v {
			bad("%s is %v, not %s", k, m[k], v)
		}
	}
	for k := range m {
		switch k {
		case "version", "from", "to", "nid", "stepLimit", "dataType", "timestamp", "signature", "data":
		default:
			bad("unexpected field %s", k)
		}
	}
	var ok bool
	if t.TS, ok = hexInt(m["timestamp"]); !ok {
		bad("timestamp %v", m["timestamp"])
	}
	t.Hash = "0x" + hex.EncodeToString(ref.IconTxHash(m))
	if a, err := ref.IconTxSigner(m); err != nil || a != d.From {
		bad("signed by %s (%v), not by %s", a, err, d.From)
	}
	data, _ := m["data"].(map[string]interface{})
	p, _ := data["params"].(map[string]interface{})
	t.Method, _ = data["method"].(string)
	t.Prev, _ = p["_prev"].(string)
	ms, ok := p["_msg"].(string)
	if !ok {
		bad("no message: %v", data["method"])
	}
	var err error
	if t.Msg, err = base64.URLEncoding.DecodeString(ms); err != nil {
		bad("message is not base64url: %v", err)
	}
	switch t.Method {
	case "handleRelayMessage":
		if len(p) != 2 {
			bad("%d parameters", len(p))
		}
	case "handleFragment":
		is, _ := p["_idx"].(string)
		neg := len(is) > 0 && is[0] == '-'
		if neg {
			is = is[1:]
		}
		if t.Idx, ok = hexInt(is); !ok || len(p) != 3 {
			bad("index %v, %d parameters", p["_idx"], len(p))
		}
		if neg {
			t.Idx = -t.Idx
		}
	default:
		bad("method %q", t.Method)
	}
	return t
}

// Execute does what the contract does (as BTPMessageCenter.handleFragment and handleRelayMessage).
func (d *IconDst) Execute(t *IconTx) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if t.Bad != "" {
		return fmt.Errorf("transaction refused: %s", t.Bad)
	}
	if t.Method == "handleRelayMessage" {
		d.Relay(t.Prev, t.Msg)
		return nil
	}
	switch {
	case t.Idx < 0:
		d.last, d.next = -t.Idx, -t.Idx-1
		d.parts = append([]byte{}, t.Msg...)
		d.first = true
	case !d.first || t.Idx != d.next:
		return fmt.Errorf("fragment index %d, expected %d", t.Idx, d.next)
	default:
		d.parts = append(d.parts, t.Msg...)
		d.next = t.Idx - 1
		if t.Idx == 0 {
			d.first = false
			d.Relay(t.Prev, d.parts)
		}
	}
	return nil
}
