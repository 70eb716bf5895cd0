ID="p03-empty-blocks"; PROPERTY="P03"
NEEDS="a BTP block without messages (one that changes the proof context) between blocks with messages"
BREAKS="the block update of a block without messages is left out, so that the verifier cannot follow"
EDITS=[("chain/icon/btp2/btp2.go","""		if bh.MainHeight != b.startHeight {
""","""		if bh.MainHeight != b.startHeight && bh.MessageCount > 0 {
""")]
PKG="chain/icon/btp2"
TEST='''package btp2
import ("encoding/base64";"encoding/json";"net/http";"net/http/httptest";"strings";"testing";"time";"github.com/gorilla/websocket";"github.com/icon-project/btp/chain/icon/client";"github.com/icon-project/btp/common/codec";"github.com/icon-project/btp/common/link";"github.com/icon-project/btp/common/log";"github.com/icon-project/btp/common/types")
func TestDemo(t *testing.T) {
	hd := func(h, n int64) string { return base64.StdEncoding.EncodeToString(codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: h, MessageCount: n})) }
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/btp") {
			c, _ := (&websocket.Upgrader{}).Upgrade(w, r, nil)
			var x interface{}
			c.ReadJSON(&x)
			c.WriteJSON(map[string]interface{}{"code": 0})
			for i, n := range []int64{1, 0, 1} { c.WriteJSON(map[string]interface{}{"header": hd(10+int64(i), n), "proof": ""}) }
			time.Sleep(3 * time.Second)
			return
		}
		var q struct{ Id json.RawMessage; Method string; Params struct{ Height string } }
		json.NewDecoder(r.Body).Decode(&q)
		res := `"0x1"`
		if q.Method == "btp_getNetworkInfo" { res = `{"startHeight":"0x1"}` }
		if q.Method == "btp_getMessages" { res = `["bQ=="]`; if q.Params.Height == "0xb" { res = "[]" } }
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"result":` + res + `}`))
	}))
	b := NewBTP2("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.icon/cx0000000000000000000000000000000000000002", s.URL, log.New())
	bs := &types.BMCLinkStatus{}
	bs.Verifier.Height = 9
	c, err := b.Start(bs)
	if err != nil { t.Fatal(err) }
	for _, h := range []int64{10, 11, 12} {
		select {
		case m := <-c:
			rs, ok := m.(link.ReceiveStatus)
			if !ok { t.Fatal(m) }
			if rs.Height() != h { t.Fatal("block ", h, " is missing, got ", rs.Height()) }
		case <-time.After(2 * time.Second): t.Fatal("block ", h, " is missing")
		}
	}
}
'''
