ID="p06-retry-not-renewed"; PROPERTY="P06"
NEEDS="polling (an http endpoint) with more waits for new blocks over the whole run than the retry limit, with successes in between"
BREAKS="the retry count is not renewed after a success that follows a wait for a missing block, so monitoring ends with an error"
EDITS=[("chain/ethbr/client/client.go","""			retry = BlockRetryLimit
""","""			if err != ethereum.NotFound && retry == BlockRetryLimit-1 {
				retry = BlockRetryLimit
			}
""")]
PKG="chain/ethbr/client"
TEST='''package client
import ("encoding/json";"fmt";"math/big";"net/http";"net/http/httptest";"testing";"time";"github.com/ethereum/go-ethereum/core/types";"github.com/icon-project/btp/common/log")
func TestDemo(t *testing.T) {
	misses := map[string]int{}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct{ Id json.RawMessage; Method string; Params []interface{} }
		json.NewDecoder(r.Body).Decode(&q)
		res := `"0xa"`
		if q.Method == "eth_getBlockByNumber" {
			h := fmt.Sprint(q.Params[0])
			misses[h]++
			res = "null"
			if misses[h] > 2 {
				n, _ := new(big.Int).SetString(h[2:], 16)
				b, _ := json.Marshal(&types.Header{Number: n, Difficulty: big.NewInt(1)})
				res = string(b)
			}
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"result":` + res + `}`))
	}))
	c := NewClient(s.URL, log.New())
	n := 0
	done := make(chan error, 1)
	stop := fmt.Errorf("enough")
	go func() { done <- c.MonitorBlock(&BlockRequest{Height: big.NewInt(10)}, func(*BlockNotification) error { n++; if n == 4 { return stop }; return nil }) }()
	select {
	case err := <-done: if err != stop { t.Fatal("after ", n, " blocks: ", err) }
	case <-time.After(100 * time.Second): t.Fatal("no end")
	}
}
'''
