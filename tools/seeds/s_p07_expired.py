ID="p07-expired-resend"; PROPERTY="P07"
NEEDS="a node that answers that the transaction is expired, after it answered that its pool is full"
BREAKS="after a pool overflow, an expired transaction is sent again unchanged for ever"
EDITS=[("chain/icon/sender.go","""	SendLoop:
		for {
""","""		full := false
	SendLoop:
		for {
"""),("chain/icon/sender.go","""						<-time.After(DefaultRelayReSendInterval)
						continue SendLoop
""","""						<-time.After(DefaultRelayReSendInterval)
						full = true
						continue SendLoop
"""),("chain/icon/sender.go","""								continue SignLoop
""","""								if full {
									continue SendLoop
								}
								continue SignLoop
""")]
PKG="chain/icon"
TEST='''package icon
import ("encoding/json";"net/http";"net/http/httptest";"testing";"time";"github.com/icon-project/btp/common/log";"github.com/icon-project/btp/common/wallet")
type drm []byte
func (m drm) Id() int { return 1 }
func (m drm) Bytes() []byte { return m }
func (m drm) Size() int64 { return int64(len(m)) }
func TestDemo(t *testing.T) {
	n, sig := 0, ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct{ Id json.RawMessage; Method string; Params struct{ Signature string } }
		json.NewDecoder(r.Body).Decode(&q)
		a := `"error":{"code":-31000,"message":"E0000:no"}`
		if q.Method == "icx_sendTransaction" {
			n++
			switch {
			case n == 1: a = `"error":{"code":-31001,"message":"full"}`
			case n == 2: a = `"error":{"code":-31000,"message":"E2002:Expired"}`
			case q.Params.Signature == sig: a = `"error":{"code":-31000,"message":"E2002:Expired"}`
			default: a = `"result":"0x01"`
			}
			if n < 3 { sig = q.Params.Signature }
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,` + a + `}`))
	}))
	x := NewSender("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.icon/cx0000000000000000000000000000000000000002", wallet.New(), s.URL, nil, log.New())
	d := make(chan error, 1)
	go func() { _, err := x.Relay(drm("m")); d <- err }()
	select {
	case err := <-d: if err != nil { t.Fatal(err) }
	case <-time.After(20 * time.Second): t.Fatal("sent unchanged again and again")
	}
}
'''
