# A small ICON node for demonstrations.
NODE = '''
type dnode struct {
	heights []int64 // announced BTP blocks
	upd []int64
	msgs map[string]string // height -> result of btp_getMessages
	req chan string
}
func (n *dnode) serve() *httptest.Server {
	n.req = make(chan string, 10)
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/btp") {
			c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
			if err != nil { return }
			var x struct{ Height string }
			c.ReadJSON(&x)
			n.req <- x.Height
			from, _ := strconv.ParseInt(x.Height, 0, 64)
			c.WriteJSON(map[string]interface{}{"code": 0})
			for i, h := range n.heights {
				if h < from { continue }
				c.WriteJSON(map[string]interface{}{"header": base64.StdEncoding.EncodeToString(codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: h, UpdateNumber: n.upd[i]}))})
			}
			time.Sleep(5 * time.Second)
			return
		}
		var q struct{ Id json.RawMessage; Method string; Params struct{ Height string; Data struct{ Method string } } }
		json.NewDecoder(r.Body).Decode(&q)
		res := `"0x1"`
		switch {
		case q.Method == "btp_getNetworkInfo": res = `{"startHeight":"0x1"}`
		case q.Method == "btp_getMessages": res = n.msgs[q.Params.Height]
		case q.Params.Data.Method == "getBTPLinkOffset": res = `"0x0"`
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"result":` + res + `}`))
	}))
}
'''
IMPORTS='''import ("encoding/base64";"encoding/json";"net/http";"net/http/httptest";"strconv";"strings";"testing";"time";"github.com/gorilla/websocket";"github.com/icon-project/btp/chain/icon/client";"github.com/icon-project/btp/common/codec";"github.com/icon-project/btp/common/log";"github.com/icon-project/btp/common/types")
'''
