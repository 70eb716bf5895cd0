ID="p08-last-revert-code"; PROPERTY="P08"
NEEDS="a transaction that fails with the highest revert code"
BREAKS="the failure with the highest revert code is not reported"
EDITS=[("chain/icon/sender.go","""		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
""","""		if fc < client.ResultStatusFailureCodeRevert || fc >= client.ResultStatusFailureCodeEnd {
""")]
PKG="chain/icon"
TEST='''package icon
import ("testing";"github.com/icon-project/btp/chain/icon/client";"github.com/icon-project/btp/common/errors")
func TestDemo(t *testing.T) {
	for fc := int64(32); fc <= 99; fc++ {
		r := &client.TransactionResult{Status: "0x0"}
		r.Failure = &struct { CodeValue client.HexInt `json:"code"`; MessageValue string `json:"message"` }{client.NewHexInt(fc), "x"}
		e, ok := errors.CoderOf(mapErrorWithTransactionResult(r, nil))
		if !ok || int64(e.ErrorCode()) != fc-32 { t.Fatal(fc, e) }
	}
}
'''
