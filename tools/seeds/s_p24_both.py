ID="p24-error-with-result"; PROPERTY="P24"
NEEDS="a server that answers a failed call with an error and a result at once"
BREAKS="a failed call is reported as a success"
EDITS=[("common/jsonrpc/client.go","""	if jrResp.Error != nil {
		err = jrResp.Error
		return
	}
""","""	if jrResp.Error != nil && jrResp.Result == nil {
		err = jrResp.Error
		return
	}
""")]
PKG="common/jsonrpc"
TEST='''package jsonrpc
import ("net/http";"net/http/httptest";"testing")
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":"","error":{"code":-31000,"message":"no"}}`))
	}))
	var v string
	if _, err := NewJsonRpcClient(&http.Client{}, s.URL).Do("m", nil, &v); err == nil { t.Fatal("success") }
}
'''
