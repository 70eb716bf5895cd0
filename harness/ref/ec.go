package ref

import (
	"errors"
	"math/big"
)

// secp256k1 in plain affine arithmetic: slow and obvious.
var (
	P, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	N, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	gx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	gy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
)

// Point is an affine point; nil coordinates: infinity.
type Point struct{ X, Y *big.Int }

var G = Point{gx, gy}

func (a Point) Inf() bool { return a.X == nil }

func (a Point) Add(b Point) Point {
	if a.Inf() {
		return b
	}
	if b.Inf() {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Point{}
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.Y, 1), P))
	} else {
		dx := new(big.Int).Sub(b.X, a.X)
		dx.Mod(dx, P)
		l = new(big.Int).Sub(b.Y, a.Y)
		l.Mul(l, new(big.Int).ModInverse(dx, P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X).Sub(x, b.X).Mod(x, P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l).Sub(y, a.Y).Mod(y, P)
	return Point{x, y}
}

func (a Point) Mul(k *big.Int) Point {
	k = new(big.Int).Mod(k, N)
	var r Point
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

// Lift returns the point with coordinate x and the given parity.
func Lift(x *big.Int, odd uint) (Point, bool) {
	if x.Cmp(P) >= 0 {
		return Point{}, false
	}
	y := new(big.Int).Exp(x, big.NewInt(3), P)
	y.Add(y, big.NewInt(7)).Mod(y, P)
	y = new(big.Int).ModSqrt(y, P)
	if y == nil {
		return Point{}, false
	}
	if y.Bit(0) != odd {
		y.Sub(P, y)
	}
	return Point{x, y}, true
}

func Pad32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func (a Point) Uncompressed() []byte {
	return append(append([]byte{4}, Pad32(a.X)...), Pad32(a.Y)...)
}

func (a Point) Compressed() []byte {
	return append([]byte{2 + byte(a.Y.Bit(0))}, Pad32(a.X)...)
}

// ParsePoint reads either form; nil if not a point of the curve.
func ParsePoint(b []byte) (Point, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		return Lift(new(big.Int).SetBytes(b[1:]), uint(b[0]&1))
	case len(b) == 65 && b[0] == 4:
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		p, ok := Lift(x, y.Bit(0))
		return p, ok && p.Y.Cmp(y) == 0
	}
	return Point{}, false
}

func scalars(rs []byte) (r, s *big.Int, ok bool) {
	r, s = new(big.Int).SetBytes(rs[:32]), new(big.Int).SetBytes(rs[32:64])
	return r, s, r.Sign() > 0 && r.Cmp(N) < 0 && s.Sign() > 0 && s.Cmp(N) < 0
}

// ErrInfinity: the signature determines no key.
var ErrInfinity = errors.New("infinity")

// Recover returns the key that made the signature [R|S|V].
func Recover(d, rsv []byte) (Point, error) {
	r, s, ok := scalars(rsv)
	if !ok || rsv[64] > 3 {
		return Point{}, errors.New("bad scalar or V")
	}
	x := new(big.Int).Set(r)
	if rsv[64]&2 != 0 {
		x.Add(x, N)
	}
	R, ok := Lift(x, uint(rsv[64]&1))
	if !ok {
		return Point{}, errors.New("no such point")
	}
	ri := new(big.Int).ModInverse(r, N)
	e := new(big.Int).SetBytes(d)
	u1 := new(big.Int).Mul(new(big.Int).Neg(e), ri)
	q := R.Mul(s.Mul(s, ri)).Add(G.Mul(u1))
	if q.Inf() {
		return q, ErrInfinity
	}
	return q, nil
}

// Verify checks [R|S] over d.
func Verify(q Point, d, rs []byte) bool {
	r, s, ok := scalars(rs)
	if !ok {
		return false
	}
	w := s.ModInverse(s, N)
	p := G.Mul(new(big.Int).Mul(new(big.Int).SetBytes(d), w)).Add(q.Mul(new(big.Int).Mul(r, w)))
	return !p.Inf() && new(big.Int).Mod(p.X, N).Cmp(r) == 0
}

// SignK signs d with nonce k: [R|S|V], low s.
func SignK(d, key []byte, k *big.Int) []byte {
	R := G.Mul(k)
	r := new(big.Int).Mod(R.X, N)
	v := byte(R.Y.Bit(0))
	if R.X.Cmp(N) >= 0 {
		v |= 2
	}
	s := new(big.Int).Mul(r, new(big.Int).SetBytes(key))
	s.Add(s, new(big.Int).SetBytes(d)).Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
	if s.Cmp(new(big.Int).Rsh(N, 1)) > 0 {
		s.Sub(N, s)
		v ^= 1
	}
	return append(append(Pad32(r), Pad32(s)...), v)
}
