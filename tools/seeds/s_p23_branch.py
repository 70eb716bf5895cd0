ID="p23-branch-link"; PROPERTY="P23"
NEEDS="a trie proof whose branch node has a link slot holding a short (unset) hash that is a prefix of the next node's hash; here: a branch followed by a node it references only by an empty link"
BREAKS="an unrelated node following a branch is accepted when the branch has an empty slot"
EDITS=[("common/mpt/mpt.go","""				if len(ml.Hash) > 0 && bytes.Equal(ml.Hash, mp.Hashes[i+1]) {""","""				if bytes.HasPrefix(mp.Hashes[i+1], ml.Hash) {""")]
PKG="common/mpt"
TEST='''package mpt
import ("testing";"github.com/icon-project/btp/common/codec";"github.com/icon-project/btp/common/crypto")
func TestDemo(t *testing.T) {
	leaf := codec.RLP.MustMarshalToBytes([][]byte{{0x20}, []byte("a value long enough")})
	other := codec.RLP.MustMarshalToBytes([][]byte{{0x20}, []byte("another value long enough")})
	br := make([][]byte, 17)
	for i := range br { br[i] = []byte{} }
	br[3] = crypto.SHA3Sum256(leaf)
	b := codec.RLP.MustMarshalToBytes(br)
	if _, err := NewMptProof([][]byte{b, leaf}); err != nil { t.Fatal(err) }
	if _, err := NewMptProof([][]byte{b, other}); err == nil { t.Fatal("unreferenced node accepted") }
}
'''
