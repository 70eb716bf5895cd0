// P11: Merkle binary tree of a BTP block's messages.
package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"

	"verif/mc"
	"verif/ref"
)

// ---- independent reference -------------------------------------------------

func contents(pattern, n int) [][]byte {
	out := make([][]byte, n)
	for i := range out {
		switch pattern {
		case 0: // all distinct, growing
			out[i] = []byte(fmt.Sprintf("message-%d", i))
		case 1: // all equal
			out[i] = []byte("same")
		case 2: // empty and one byte values
			if i%3 == 0 {
				out[i] = []byte{}
			} else {
				out[i] = []byte{byte(i)}
			}
		case 3: // alternating pair (equal subtrees)
			out[i] = []byte{byte(i & 1)}
		}
	}
	return out
}

func clone(p *mbt.MerkleBinaryTreeProof, uid string) *mbt.MerkleBinaryTreeProof {
	q := &mbt.MerkleBinaryTreeProof{}
	for _, x := range p.ProofInLeft {
		q.ProofInLeft = append(q.ProofInLeft, mbt.ProofNode{NumOfLeaf: x.NumOfLeaf, Value: append([]byte{}, x.Value...)})
	}
	for _, c := range p.Contents {
		q.Contents = append(q.Contents, append([]byte{}, c...))
	}
	for _, x := range p.ProofInRight {
		q.ProofInRight = append(q.ProofInRight, mbt.ProofNode{NumOfLeaf: x.NumOfLeaf, Value: append([]byte{}, x.Value...)})
	}
	q.SetHashFunc(mbt.HashFuncByUID(uid))
	return q
}

func main() {
	mc.Main("P11", mc.Options{Exhaustive: true, QuickBudget: 240 * time.Second, FullBudget: 2400 * time.Second,
		Assumptions: []string{
			"bounds: trees of 0..40 leaves (quick) / 0..136 leaves (thorough), every (begin,end) range, 4 content patterns, both registered hash functions",
			"tamper set: every single node/content bit flip position class, drop, duplicate, swap, shift of the range, leaf-count changes on left nodes; trees up to 12 (quick) / 20 (thorough) leaves",
			"SHA3/Keccak collision freedom",
		}}, body)
}

func body(r *mc.R) {
	maxN, tamN := 40, 12
	if r.Thorough() {
		maxN, tamN = 136, 20
	}
	for _, uid := range []string{"eth", "icon"} {
		for pat := 0; pat < 4; pat++ {
			for n := 0; n <= maxN; n++ {
				uid, pat, n := uid, pat, n
				r.Case(fmt.Sprintf("tree/%s/%d/%d", uid, pat, n), func(c *mc.C) { tree(c, uid, pat, n) })
				if n <= tamN && n > 0 && pat == 0 {
					r.Case(fmt.Sprintf("tamper/%s/%d/%d", uid, pat, n), func(c *mc.C) { tamper(c, uid, pat, n) })
				}
			}
		}
	}
}

func tree(c *mc.C, uid string, pat, n int) {
	r := c.R
	hf := mbt.HashFuncByUID(uid)
	if hf == nil {
		c.Fail("hashfunc", "no hash function registered for %q", uid)
	}
	if got, want := hf([]byte("ab"), []byte("c")), ref.MbtHash(uid, []byte("abc")); !bytes.Equal(got, want) {
		c.Fail("hashfunc", "hash function %q wrong", uid)
	}
	cs := contents(pat, n)
	var leaves [][]byte
	for _, x := range cs {
		leaves = append(leaves, ref.MbtHash(uid, x))
	}
	want := ref.MbtRoot(uid, leaves)
	m, err := mbt.NewMerkleBinaryTree(hf, append([][]byte(nil), cs...))
	if err != nil {
		c.Fail("new", "NewMerkleBinaryTree: %v", err)
	}
	inc, err := mbt.NewMerkleBinaryTree(hf, nil)
	if err != nil {
		c.Fail("new", "NewMerkleBinaryTree(nil): %v", err)
	}
	for i, x := range cs {
		if err := inc.Add(x); err != nil {
			c.Fail("add", "Add: %v", err)
		}
		if !bytes.Equal(inc.Root(), ref.MbtRoot(uid, leaves[:i+1])) {
			c.Fail("add-root", "root after %d incremental additions differs from the tree of the same %d contents", i+1, i+1)
		}
	}
	// mixed construction: batch then incremental
	for k := 0; k <= n && n <= 20; k++ {
		mx, err := mbt.NewMerkleBinaryTree(hf, append([][]byte(nil), cs[:k]...))
		if err != nil {
			c.Fail("new", "%v", err)
		}
		for _, x := range cs[k:] {
			if err := mx.Add(x); err != nil {
				c.Fail("add", "Add: %v", err)
			}
		}
		if !bytes.Equal(mx.Root(), want) || mx.Len() != n {
			c.Fail("add-root", "root of %d batch + %d incremental contents is wrong", k, n-k)
		}
		r.Trans(n - k + 1)
	}
	r.Trans(n + 1)
	for _, t := range []*mbt.MerkleBinaryTree{m, inc} {
		if t.Len() != n {
			c.Fail("len", "Len=%d want %d", t.Len(), n)
		}
		if !bytes.Equal(t.Root(), want) {
			c.Fail("root", "root of %d leaves is wrong", n)
		}
		for b := -1; b <= n+2; b++ {
			if v, err := t.Get(b); b >= 1 && b <= n {
				if err != nil || !bytes.Equal(v, cs[b-1]) {
					c.Fail("get", "Get(%d) of %d: %x %v", b, n, v, err)
				}
			} else if err == nil {
				c.Fail("range", "Get(%d) of %d accepted", b, n)
			}
			p, err := t.Path(b)
			if b >= 1 && b <= n {
				if err != nil {
					c.Fail("path", "Path(%d) of %d: %v", b, n, err)
				}
				if !bytes.Equal(p.Content, cs[b-1]) || !bytes.Equal(p.Root(), want) {
					c.Fail("path", "Path(%d) of %d does not lead to the root", b, n)
				}
			} else if err == nil {
				c.Fail("range", "Path(%d) of %d accepted", b, n)
			}
			for e := -1; e <= n+2; e++ {
				p, err := t.Proof(b, e)
				r.Trans(1)
				valid := b >= 1 && e <= n && b <= e
				if !valid {
					if err == nil {
						c.Fail("range", "Proof(%d,%d) of %d accepted", b, e, n)
					}
					continue
				}
				if err != nil || p == nil {
					c.Fail("proof", "Proof(%d,%d) of %d: %v", b, e, n, err)
				}
				checkProof(c, uid, p, cs, want, n, b, e)
				// the same proof after the wire encoding the relay uses
				enc := codec.RLP.MustMarshalToBytes(*p)
				q := &mbt.MerkleBinaryTreeProof{}
				if _, err := codec.RLP.UnmarshalFromBytes(enc, q); err != nil {
					c.Fail("wire", "Proof(%d,%d) of %d does not decode: %v", b, e, n, err)
				}
				q.SetHashFunc(hf)
				checkProof(c, uid, q, cs, want, n, b, e)
				r.Validated(1)
				if n <= 40 {
					r.State(uid, pat, n, b, e)
				}
			}
		}
	}
	if n > 0 && n%7 == 0 {
		r.Sample("tree of %d leaves (%s, pattern %d): all ranges", n, uid, pat)
	}
	r.Exec(1)
}

func checkProof(c *mc.C, uid string, p *mbt.MerkleBinaryTreeProof, cs [][]byte, want []byte, n, b, e int) {
	if len(p.Contents) != e-b+1 {
		c.Fail("proof-contents", "Proof(%d,%d) of %d carries %d contents", b, e, n, len(p.Contents))
	}
	for i, x := range p.Contents {
		if !bytes.Equal(x, cs[b-1+i]) {
			c.Fail("proof-contents", "Proof(%d,%d) of %d: content %d is wrong", b, e, n, i)
		}
	}
	h, err := ref.MbtVerify(uid, n, b, e, p)
	if err != nil || !bytes.Equal(h, want) {
		c.Fail("proof-root", "Proof(%d,%d) of %d is refused by the reference verifier: %v", b, e, n, err)
	}
	gh, left, total, err := p.Root()
	if err != nil || !bytes.Equal(gh, want) || left != b-1 || total != n {
		c.Fail("proof-root", "Proof(%d,%d) of %d: Root()=%x left=%d total=%d err=%v, want %x %d %d", b, e, n, gh, left, total, err, want, b-1, n)
	}
}

// redistMax is the largest tree for which all leaf count vectors of a proof are tried.
const redistMax = 10

// tamper: a changed proof is never accepted for the same root with different contents
// or a different position.
func tamper(c *mc.C, uid string, pat, n int) {
	r := c.R
	hf := mbt.HashFuncByUID(uid)
	cs := contents(pat, n)
	m, err := mbt.NewMerkleBinaryTree(hf, cs)
	if err != nil {
		c.Fail("new", "%v", err)
	}
	want := m.Root()
	for b := 1; b <= n; b++ {
		for e := b; e <= n; e++ {
			p, err := m.Proof(b, e)
			if err != nil {
				c.Fail("proof", "%v", err)
			}
			try := func(what string, q *mbt.MerkleBinaryTreeProof, same bool) {
				r.Trans(1)
				r.Validated(1)
				var h []byte
				var left, total int
				var err error
				if _, pe := mc.Try(func() { h, left, total, err = q.Root() }); pe != nil {
					c.Fail("tamper-crash", "%s on Proof(%d,%d) of %d crashes the verifier: %v", what, b, e, n, pe)
				}
				if err == nil && bytes.Equal(h, want) && total == n && !same {
					c.Fail("tamper", "%s on Proof(%d,%d) of %d is accepted (left=%d total=%d)", what, b, e, n, left, total)
				}
			}
			for i := range p.Contents {
				for _, bit := range []int{0, 7, len(p.Contents[i])*8 - 1} {
					q := clone(p, uid)
					if bit < 0 || bit >= len(q.Contents[i])*8 {
						continue
					}
					q.Contents[i][bit/8] ^= 1 << uint(bit%8)
					try(fmt.Sprintf("bit flip in content %d", i), q, false)
				}
				q := clone(p, uid)
				q.Contents[i] = append(q.Contents[i], 0)
				try("content extended", q, false)
				q = clone(p, uid)
				q.Contents = append(q.Contents[:i], q.Contents[i+1:]...)
				try("content dropped", q, false)
				q = clone(p, uid)
				q.Contents = append(q.Contents[:i+1], q.Contents[i:]...)
				try("content duplicated", q, false)
				for j := i + 1; j < len(p.Contents); j++ {
					q = clone(p, uid)
					q.Contents[i], q.Contents[j] = q.Contents[j], q.Contents[i]
					try("contents swapped", q, false)
				}
			}
			side := func(name string, get func(q *mbt.MerkleBinaryTreeProof) *[]mbt.ProofNode) {
				for i := range *get(p) {
					for _, bit := range []int{0, 128, 255} {
						q := clone(p, uid)
						(*get(q))[i].Value[bit/8] ^= 1 << uint(bit%8)
						try("bit flip in "+name+" node", q, false)
					}
					q := clone(p, uid)
					*get(q) = append((*get(q))[:i], (*get(q))[i+1:]...)
					try(name+" node dropped", q, false)
					q = clone(p, uid)
					l := *get(q)
					*get(q) = append(l[:i+1], append([]mbt.ProofNode{l[i]}, l[i+1:]...)...)
					try(name+" node duplicated", q, false)
					for j := i + 1; j < len(*get(p)); j++ {
						q = clone(p, uid)
						l := *get(q)
						l[i], l[j] = l[j], l[i]
						try(name+" nodes swapped", q, false)
					}
					for _, d := range []int{-1, 1, 2, 4, -(*get(p))[i].NumOfLeaf} {
						q = clone(p, uid)
						(*get(q))[i].NumOfLeaf += d
						try(fmt.Sprintf("%s node leaf count %+d", name, d), q, false)
					}
				}
			}
			side("left", func(q *mbt.MerkleBinaryTreeProof) *[]mbt.ProofNode { return &q.ProofInLeft })
			side("right", func(q *mbt.MerkleBinaryTreeProof) *[]mbt.ProofNode { return &q.ProofInRight })
			// every redistribution of the leaf counts over the nodes that keeps their sum
			nl, nr := len(p.ProofInLeft), len(p.ProofInRight)
			orig := make([]int, 0, nl+nr)
			sum := 0
			for _, x := range append(append([]mbt.ProofNode{}, p.ProofInLeft...), p.ProofInRight...) {
				orig = append(orig, x.NumOfLeaf)
				sum += x.NumOfLeaf
			}
			apply := func(v []int) {
				q := clone(p, uid)
				same := true
				for i, x := range v {
					if i < nl {
						q.ProofInLeft[i].NumOfLeaf = x
					} else {
						q.ProofInRight[i-nl].NumOfLeaf = x
					}
					same = same && x == orig[i]
				}
				if !same {
					try(fmt.Sprintf("leaf counts %v instead of %v", v, orig), q, false)
				}
			}
			if n <= redistMax {
				v := make([]int, len(orig))
				var rec func(i, rest int)
				rec = func(i, rest int) {
					if i == len(v)-1 {
						v[i] = rest
						apply(v)
						return
					}
					for x := 0; x <= rest; x++ {
						v[i] = x
						rec(i+1, rest-x)
					}
				}
				if len(v) > 0 {
					rec(0, sum)
				}
			} else {
				for i := range orig {
					for j := range orig {
						if i == j {
							continue
						}
						for d := 1; d <= orig[i]+1; d *= 2 {
							v := append([]int{}, orig...)
							v[i] -= d
							v[j] += d
							apply(v)
						}
					}
				}
			}
			// proof of one range presented with the contents of another
			for b2 := 1; b2 <= n; b2++ {
				if b2+e-b > n || b2 == b {
					continue
				}
				q := clone(p, uid)
				q.Contents = nil
				for k := b2; k <= b2+e-b; k++ {
					q.Contents = append(q.Contents, cs[k-1])
				}
				try("contents of another range", q, false)
			}
		}
	}
	r.Exec(1)
}
