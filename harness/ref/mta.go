package ref

import "golang.org/x/crypto/sha3"

// Sha3 is the reference hash.
func Sha3(parts ...[]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	h := sha3.Sum256(b)
	return h[:]
}

// Step is one step of a reference accumulator witness.
type Step struct {
	Left bool
	Hash []byte
}

// MTA is a reference Merkle tree accumulator: it only keeps the leaf hashes.
type MTA struct{ Leaves [][]byte }

func perfect(l [][]byte) []byte {
	if len(l) == 1 {
		return l[0]
	}
	return Sha3(perfect(l[:len(l)/2]), perfect(l[len(l)/2:]))
}

// Roots returns root by level (nil if absent), first leaves in the largest tree.
func (m *MTA) Roots() [][]byte {
	n := len(m.Leaves)
	top := 0
	for 1<<uint(top) <= n {
		top++
	}
	out := make([][]byte, top)
	off := 0
	for k := top - 1; k >= 0; k-- {
		if n&(1<<uint(k)) != 0 {
			out[k] = perfect(m.Leaves[off : off+1<<uint(k)])
			off += 1 << uint(k)
		}
	}
	return out
}

// Witness of leaf idx, leaf to root.
func (m *MTA) Witness(idx int) []Step {
	n := len(m.Leaves)
	off := 0
	for k := 62; k >= 0; k-- {
		if n&(1<<uint(k)) == 0 {
			continue
		}
		if idx < off+1<<uint(k) {
			var out []Step
			lo, hi := off, off+1<<uint(k)
			for hi-lo > 1 {
				mid := (lo + hi) / 2
				if idx < mid {
					out = append([]Step{{false, perfect(m.Leaves[mid:hi])}}, out...)
					hi = mid
				} else {
					out = append([]Step{{true, perfect(m.Leaves[lo:mid])}}, out...)
					lo = mid
				}
			}
			return out
		}
		off += 1 << uint(k)
	}
	return nil
}
