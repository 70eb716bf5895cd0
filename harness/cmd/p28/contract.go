package main

import (
	"fmt"
	"math/big"

	"github.com/icon-project/btp/common/mbt"

	"verif/fake"
	"verif/ref"
)

// Failure codes of the verifier contracts.
const (
	ok       = 0
	unknown  = 25
	notYet   = 26
	verified = 27
)

type event struct {
	h int64
	m []byte
}

// contract is the destination's message centre and verifier for one link, as
// javascore/bmv and solidity/bmv-bridge define them.
type contract struct {
	btp2   bool
	self   string
	ch     *fake.IChain    // btp2
	evs    map[int64]event // bridge: what the source emitted
	first  int64           // btp2: network message number the verifier starts from
	offset int64
	h, rx  int64
	cur    *fake.IBlock
	out    [][]byte
}

func num(v int64) ref.Item   { return ref.S(ref.TwosComp(big.NewInt(v))) }
func ints(it ref.Item) int64 { return ref.FromTwosComp(it.B).Int64() }
func (k *contract) extra() []byte {
	if !k.btp2 {
		return nil
	}
	f, n := k.first, int64(0)
	if k.cur != nil {
		f, n = k.cur.First, int64(len(k.cur.Msgs))
	}
	return ref.L(num(k.offset), num(f), num(n)).Enc()
}

func (k *contract) clone() *contract {
	c := *k
	c.out = append([][]byte{}, k.out...)
	return &c
}

// exec runs a relay message; a failure changes nothing.
func (k *contract) exec(m []byte) (int, string) {
	c := k.clone()
	f := c.bridge
	if c.btp2 {
		f = c.btpblock
	}
	code, why := f(m)
	if code == ok {
		*k = *c
	}
	return code, why
}

func (k *contract) btpblock(m []byte) (int, string) {
	bad := func(code int, f string, a ...interface{}) (int, string) { return code, fmt.Sprintf(f, a...) }
	it, n, fine := ref.Parse(m)
	if !fine || n != len(m) || !it.List || len(it.L) != 1 || !it.L[0].List {
		return bad(unknown, "malformed relay message %.100x", m)
	}
	for _, x := range it.L[0].L {
		if !x.List || len(x.L) != 2 {
			return bad(unknown, "malformed item")
		}
		p, n, fine := ref.Parse(x.L[1].B)
		if !fine || n != len(x.L[1].B) || !p.List {
			return bad(unknown, "malformed payload")
		}
		last, remain := k.first, int64(0)
		if k.cur != nil {
			last = k.cur.Last()
			remain = k.offset + last - k.rx
		}
		switch ints(x.L[0]) {
		case 1:
			var b *fake.IBlock
			pos := -1
			for i, y := range k.ch.Blocks {
				if len(p.L) == 2 && string(p.L[0].B) == string(y.Header) {
					b, pos = y, i
				}
			}
			if b == nil {
				return bad(unknown, "block update with an unknown header")
			}
			if b.First < last {
				return bad(verified, "block %d is verified", b.H)
			}
			if b.First > last {
				return bad(notYet, "block %d is not verifiable at height %d", b.H, k.h)
			}
			if remain != 0 {
				return bad(unknown, "%d messages of block %d remain", remain, k.cur.H)
			}
			if pos == 0 && k.cur != nil || pos > 0 && k.cur != k.ch.Blocks[pos-1] {
				return bad(unknown, "block %d does not follow height %d", b.H, k.h)
			}
			if string(p.L[1].B) != string(b.Proof) {
				return bad(unknown, "block %d has a wrong proof", b.H)
			}
			k.cur, k.h = b, b.H
		case 2:
			if remain <= 0 || len(p.L) != 3 {
				return bad(unknown, "message proof, %d messages remain", remain)
			}
			mp := &mbt.MerkleBinaryTreeProof{}
			nodes := func(l ref.Item) (r []mbt.ProofNode) {
				for _, y := range l.L {
					if len(y.L) == 2 {
						r = append(r, mbt.ProofNode{NumOfLeaf: int(ints(y.L[0])), Value: y.L[1].B})
					}
				}
				return
			}
			mp.ProofInLeft, mp.ProofInRight = nodes(p.L[0]), nodes(p.L[2])
			for _, y := range p.L[1].L {
				mp.Contents = append(mp.Contents, y.B)
			}
			at := int(k.rx - k.offset - k.cur.First)
			if len(mp.Contents) == 0 || at+len(mp.Contents) > len(k.cur.Msgs) {
				return bad(unknown, "message proof of %d messages at %d of %d", len(mp.Contents), at, len(k.cur.Msgs))
			}
			root, err := ref.MbtVerify("eth", len(k.cur.Msgs), at+1, at+len(mp.Contents), mp)
			if err != nil || string(root) != string(k.cur.Root) {
				return bad(unknown, "message proof of block %d at %d is wrong: %v", k.cur.H, at, err)
			}
			k.rx += int64(len(mp.Contents))
			k.out = append(k.out, mp.Contents...)
		default:
			return bad(unknown, "item of type %d", ints(x.L[0]))
		}
	}
	return ok, ""
}

func (k *contract) bridge(m []byte) (int, string) {
	bad := func(code int, f string, a ...interface{}) (int, string) { return code, fmt.Sprintf(f, a...) }
	list := func(b []byte, n int) ([]ref.Item, bool) {
		it, l, fine := ref.Parse(b)
		return it.L, fine && l == len(b) && it.List && (n < 0 || len(it.L) == n)
	}
	l, fine := list(m, 1)
	if !fine || !l[0].List {
		return bad(unknown, "malformed relay message %.100x", m)
	}
	for _, rc := range l[0].L {
		rp, fine := list(rc.B, 3)
		if !fine {
			return bad(unknown, "malformed receipt")
		}
		evs, fine := list(rp[1].B, -1)
		if !fine {
			return bad(unknown, "malformed events")
		}
		h := ints(rp[2])
		if h < k.h {
			continue
		}
		k.h = h
		for _, e := range evs {
			if !e.List || len(e.L) != 3 {
				return bad(unknown, "malformed event")
			}
			sn := ints(e.L[1])
			if sn <= k.rx {
				continue
			}
			if sn > k.rx+1 {
				return bad(notYet, "sequence %d after %d", sn, k.rx)
			}
			w := k.evs[sn]
			if string(e.L[0].B) != k.self || string(e.L[2].B) != string(w.m) || h != w.h {
				return bad(unknown, "sequence %d of height %d for %s has %d bytes, want height %d, %d bytes", sn, h, e.L[0].B, len(e.L[2].B), w.h, len(w.m))
			}
			k.rx++
			k.out = append(k.out, e.L[2].B)
		}
	}
	return ok, ""
}
