ID="p26-withcode-origin"; PROPERTY="P26"
NEEDS="an error that already carries a code and gets another one"
BREAKS="re-coding an error that has a code drops the original error from the chain, so it is no longer found by identity"
EDITS=[("common/errors/errors.go","""		return Wrapc(err, code, err.Error())""","""		return Errorc(code, err.Error())""")]
PKG="common/errors"
TEST='''package errors
import "testing"
func TestDemo(t *testing.T) {
	base := NewBase(Code(1000), "base")
	e := WithCode(Wrap(base, "x"), Code(2000))
	if CodeOf(e) != Code(2000) { t.Fatal("code") }
	if !Is(e, base) { t.Fatal("origin lost") }
}
'''
