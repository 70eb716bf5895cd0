package ref

import (
	"fmt"

	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/common/mbt"
)

func MbtHash(uid string, parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	if uid == "eth" {
		h := sha3.NewLegacyKeccak256()
		h.Write(b)
		return h.Sum(nil)
	}
	h := sha3.Sum256(b)
	return h[:]
}

func MbtRoot(uid string, leaves [][]byte) []byte {
	if len(leaves) == 0 {
		return nil
	}
	if len(leaves) == 1 {
		return leaves[0]
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	return MbtHash(uid, MbtRoot(uid, leaves[:k]), MbtRoot(uid, leaves[k:]))
}

// MbtVerify recomputes the root from a range proof the way a verifier that knows the
// total number of leaves does: it consumes the canonical decomposition.
func MbtVerify(uid string, n, begin, end int, p *mbt.MerkleBinaryTreeProof) ([]byte, error) {
	li, ri := 0, 0
	var rec func(lo, hi int) ([]byte, error) // leaves lo..hi (1-based, inclusive)
	rec = func(lo, hi int) ([]byte, error) {
		if hi < begin {
			if li >= len(p.ProofInLeft) {
				return nil, fmt.Errorf("missing left node for %d..%d", lo, hi)
			}
			x := p.ProofInLeft[li]
			li++
			if x.NumOfLeaf != hi-lo+1 {
				return nil, fmt.Errorf("left node %d..%d has NumOfLeaf %d", lo, hi, x.NumOfLeaf)
			}
			return x.Value, nil
		}
		if lo > end {
			if ri >= len(p.ProofInRight) {
				return nil, fmt.Errorf("missing right node for %d..%d", lo, hi)
			}
			x := p.ProofInRight[ri]
			ri++
			if x.NumOfLeaf != hi-lo+1 {
				return nil, fmt.Errorf("right node %d..%d has NumOfLeaf %d", lo, hi, x.NumOfLeaf)
			}
			return x.Value, nil
		}
		if lo == hi {
			if lo-begin >= len(p.Contents) {
				return nil, fmt.Errorf("missing content %d", lo)
			}
			return MbtHash(uid, p.Contents[lo-begin]), nil
		}
		k := 1
		for k*2 < hi-lo+1 {
			k *= 2
		}
		l, err := rec(lo, lo+k-1)
		if err != nil {
			return nil, err
		}
		r, err := rec(lo+k, hi)
		if err != nil {
			return nil, err
		}
		return MbtHash(uid, l, r), nil
	}
	h, err := rec(1, n)
	if err != nil {
		return nil, err
	}
	if li != len(p.ProofInLeft) || ri != len(p.ProofInRight) || end-begin+1 != len(p.Contents) {
		return nil, fmt.Errorf("surplus proof nodes: left %d/%d right %d/%d contents %d/%d",
			li, len(p.ProofInLeft), ri, len(p.ProofInRight), end-begin+1, len(p.Contents))
	}
	return h, nil
}
