ID="p05-last-event"; PROPERTY="P05"
NEEDS="a block whose last transaction with messages emits more than one message for the link"
BREAKS="only the first message of the last transaction of a block counts, the others are lost"
EDITS=[("chain/ethbr/receiver.go","""					e.seq = rps[len(rps)-1].Events[len(rps[len(rps)-1].Events)-1].Sequence.Int64()
""","""					e.seq = rps[len(rps)-1].Events[0].Sequence.Int64()
""")]
PKG="chain/ethbr"
TEST='''package ethbr
import ("encoding/json";"fmt";"math/big";"net/http";"net/http/httptest";"testing";"time";"github.com/ethereum/go-ethereum/accounts/abi";"github.com/ethereum/go-ethereum/common";"github.com/ethereum/go-ethereum/core/types";"github.com/ethereum/go-ethereum/crypto";"github.com/icon-project/btp/common/link";"github.com/icon-project/btp/common/log";btp "github.com/icon-project/btp/common/types")
func TestDemo(t *testing.T) {
	const dst = "btp://0x2.icon/cx0000000000000000000000000000000000000002"
	str, _ := abi.NewType("string", "", nil)
	num, _ := abi.NewType("uint256", "", nil)
	byt, _ := abi.NewType("bytes", "", nil)
	args := abi.Arguments{{Type: str}, {Type: num}, {Type: byt}}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct{ Id json.RawMessage; Method string; Params []interface{} }
		json.NewDecoder(r.Body).Decode(&q)
		res := `"0xa"`
		switch q.Method {
		case "eth_getBlockByNumber":
			h := fmt.Sprint(q.Params[0])
			res = "null"
			if h == "0xa" {
				b, _ := json.Marshal(&types.Header{Number: big.NewInt(10), Difficulty: big.NewInt(1)})
				res = string(b)
			}
		case "eth_getLogs":
			var ls []*types.Log
			for i, n := range []int64{1, 2, 3} {
				d, _ := args.Pack(dst, big.NewInt(n), []byte{byte(n)})
				ls = append(ls, &types.Log{Address: common.HexToAddress("0xaa"), Topics: []common.Hash{crypto.Keccak256Hash([]byte(EventSignature))}, Data: d, BlockNumber: 10, TxIndex: uint(1 + i/2*0), Index: uint(i)})
			}
			b, _ := json.Marshal(ls)
			res = string(b)
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,"result":` + res + `}`))
	}))
	e := NewEthBridge("btp://0x1.eth/0x00000000000000000000000000000000000000aA", dst, s.URL, log.New())
	bs := &btp.BMCLinkStatus{}
	bs.Verifier.Height = 10
	c, err := e.Start(bs)
	if err != nil { t.Fatal(err) }
	select {
	case m := <-c:
		rs, ok := m.(link.ReceiveStatus)
		if !ok { t.Fatal(m) }
		if rs.Seq() != 3 { t.Fatal("last message of the block is 3, reported is ", rs.Seq()) }
	case <-time.After(10 * time.Second): t.Fatal("no block")
	}
}
'''
