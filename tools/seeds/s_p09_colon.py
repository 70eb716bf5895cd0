ID="p09-colon-in-text"; PROPERTY="P09"
NEEDS="a transaction reverted with a text that contains a colon"
BREAKS="a revert with a code is reported as unknown when its text contains a colon"
EDITS=[("chain/ethbr/sender.go","""			if len(msgs) > 2 {
""","""			if len(msgs) == 3 {
""")]
PKG="chain/ethbr"
TEST='''package ethbr
import ("context";"encoding/json";"math/big";"net/http";"net/http/httptest";"testing";"github.com/ethereum/go-ethereum/common";"github.com/ethereum/go-ethereum/core/types";"github.com/ethereum/go-ethereum/crypto";"github.com/icon-project/btp/chain/ethbr/client";"github.com/icon-project/btp/common/errors";"github.com/icon-project/btp/common/log";"github.com/icon-project/btp/common/wallet")
var _ = context.Background
func TestDemo(t *testing.T) {
	k, _ := crypto.GenerateKey()
	to := common.HexToAddress("0xaa")
	tx, _ := types.SignNewTx(k, types.NewEIP155Signer(big.NewInt(1)), &types.LegacyTx{To: &to, Gas: 100000, GasPrice: big.NewInt(1)})
	text := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct{ Id json.RawMessage; Method string }
		json.NewDecoder(r.Body).Decode(&q)
		a := `"result":"0x1"`
		switch q.Method {
		case "eth_getTransactionByHash":
			b, _ := json.Marshal(tx)
			m := map[string]interface{}{}
			json.Unmarshal(b, &m)
			m["blockNumber"], m["blockHash"], m["transactionIndex"] = "0x1", common.Hash{1}.Hex(), "0x0"
			m["from"] = crypto.PubkeyToAddress(k.PublicKey).Hex()
			b, _ = json.Marshal(m)
			a = `"result":` + string(b)
		case "eth_getTransactionReceipt":
			b, _ := json.Marshal(&types.Receipt{Status: 0, TxHash: tx.Hash(), Logs: []*types.Log{}, BlockNumber: big.NewInt(1)})
			a = `"result":` + string(b)
		case "eth_call":
			a = `"error":{"code":3,"message":"execution reverted: ` + text + `"}`
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.Id) + `,` + a + `}`))
	}))
	var w client.Wallet = &wallet.EvmWallet{}
	x := NewSender("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.eth/0x00000000000000000000000000000000000000aA", w, s.URL, nil, log.New()).(*sender)
	for _, text = range []string{"26:NotVerifiable", "27:AlreadyVerified: seq 3"} {
		_, err := x.GetResult(&client.TransactionHashParam{Hash: tx.Hash()})
		e, ok := errors.CoderOf(err)
		if !ok || int(e.ErrorCode()) != int(text[1]-'0')+20 { t.Fatal(text, " is reported as ", err) }
	}
}
'''
