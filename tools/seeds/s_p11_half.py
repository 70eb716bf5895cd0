ID="p11-right-half-unverified"; PROPERTY="P11"
NEEDS="a proof whose counts are altered so that an inner node looks half full and the total stays the same"
BREAKS="a proof with altered counts is accepted: a message counts as one at another position"
EDITS=[("common/mbt/proof.go","""		if err := n.r.verify(); err != nil {
			return err
		}""","""		if n.level > levelBranch && n.l.numOfLeaf == n.r.numOfLeaf {
			// as full as the left one
			return nil
		}
		if err := n.r.verify(); err != nil {
			return err
		}""")]
PKG="common/mbt"
TEST='''package mbt
import ("bytes"; "fmt"; "testing")
func TestDemo(t *testing.T) {
	var cs [][]byte; for i := 0; i < 8; i++ { cs = append(cs, []byte(fmt.Sprint("c", i))) }
	m, err := NewMerkleBinaryTree(Sha3FIPS256, cs); if err != nil { t.Fatal(err) }
	p, err := m.Proof(3, 3); if err != nil { t.Fatal(err) }
	if h, l, tot, err := p.Root(); err != nil || !bytes.Equal(h, m.Root()) || l != 2 || tot != 8 { t.Fatal(l, tot, err) }
	p.ProofInLeft[0].NumOfLeaf, p.ProofInRight[0].NumOfLeaf, p.ProofInRight[1].NumOfLeaf = 4, 3, 0
	if h, l, tot, err := p.Root(); err == nil && bytes.Equal(h, m.Root()) && tot == 8 { t.Fatalf("third message accepted as number %d", l+1) }
}
'''
