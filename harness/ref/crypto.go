package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
)

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	hx = hexInt("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0")
	hy = hexInt("31d3c6863973926e049e637cb1b5f40a36dac28af1766968c30c2313f3a38904")
)

// Pt is an affine point; X nil means infinity.
type Pt struct{ X, Y *big.Int }

func (p Pt) Inf() bool { return p.X == nil }

func G() Pt { return Pt{gx, gy} }
func H() Pt { return Pt{hx, hy} }

func (p Pt) Eq(q Pt) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func OnCurve(p Pt) bool {
	if p.Inf() || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	l.Mod(l, P)
	return l.Cmp(rhs(p.X)) == 0
}

func rhs(x *big.Int) *big.Int {
	r := new(big.Int).Exp(x, big.NewInt(3), P)
	r.Add(r, big.NewInt(7))
	return r.Mod(r, P)
}

func Neg(p Pt) Pt {
	if p.Inf() {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Pt{p.X, y.Mod(y, P)}
}

func Add(p, q Pt) Pt {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Pt{}
		}
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(d, P))
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		d.Mod(d, P)
		l.Mul(l, d.ModInverse(d, P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, P)
	return Pt{x, y}
}

// jac is a Jacobian point, Z = 0 at infinity.
type jac struct{ x, y, z *big.Int }

func (a jac) dbl() jac {
	if a.z.Sign() == 0 || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	m := func(x, y *big.Int) *big.Int { r := new(big.Int).Mul(x, y); return r.Mod(r, P) }
	yy := m(a.y, a.y)
	s := m(m(big.NewInt(4), a.x), yy)
	mm := m(big.NewInt(3), m(a.x, a.x))
	x := new(big.Int).Sub(m(mm, mm), new(big.Int).Lsh(s, 1))
	x.Mod(x, P)
	y := new(big.Int).Sub(s, x)
	y = m(mm, y)
	y.Sub(y, m(big.NewInt(8), m(yy, yy)))
	y.Mod(y, P)
	z := m(big.NewInt(2), m(a.y, a.z))
	return jac{x, y, z}
}

func (a jac) add(q Pt) jac { // mixed addition
	if a.z.Sign() == 0 {
		return jac{q.X, q.Y, big.NewInt(1)}
	}
	m := func(x, y *big.Int) *big.Int { r := new(big.Int).Mul(x, y); return r.Mod(r, P) }
	zz := m(a.z, a.z)
	u2 := m(q.X, zz)
	s2 := m(q.Y, m(zz, a.z))
	h := new(big.Int).Sub(u2, a.x)
	h.Mod(h, P)
	r := new(big.Int).Sub(s2, a.y)
	r.Mod(r, P)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return a.dbl()
		}
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	hh := m(h, h)
	hhh := m(hh, h)
	v := m(a.x, hh)
	x := new(big.Int).Sub(m(r, r), hhh)
	x.Sub(x, v)
	x.Sub(x, v)
	x.Mod(x, P)
	y := new(big.Int).Sub(v, x)
	y = m(r, y)
	y.Sub(y, m(a.y, hhh))
	y.Mod(y, P)
	return jac{x, y, m(h, a.z)}
}

// Mul is scalar multiplication; the scalar is reduced modulo N.
func Mul(p Pt, k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	if p.Inf() || k.Sign() == 0 {
		return Pt{}
	}
	acc := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.dbl()
		if k.Bit(i) == 1 {
			acc = acc.add(p)
		}
	}
	if acc.z.Sign() == 0 {
		return Pt{}
	}
	zi := new(big.Int).ModInverse(acc.z, P)
	z2 := new(big.Int).Mul(zi, zi)
	z2.Mod(z2, P)
	x := new(big.Int).Mul(acc.x, z2)
	y := new(big.Int).Mul(acc.y, z2.Mul(z2, zi))
	return Pt{x.Mod(x, P), y.Mod(y, P)}
}

// Lift gives the point with this x whose y is a quadratic residue.
func Lift(x *big.Int) (Pt, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	y := new(big.Int).ModSqrt(rhs(x), P)
	if y == nil {
		return Pt{}, false
	}
	if big.Jacobi(y, P) != 1 {
		y.Sub(P, y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// Commit33 is the Pedersen form: 8 when y is a quadratic residue, 9 otherwise.
func Commit33(p Pt) (b [33]byte) {
	b[0] = 9
	if big.Jacobi(p.Y, P) == 1 {
		b[0] = 8
	}
	p.X.FillBytes(b[1:])
	return
}

// UnCommit33 inverts Commit33; ok is false when this is no curve point.
func UnCommit33(b [33]byte) (Pt, bool) {
	if b[0] != 8 && b[0] != 9 {
		return Pt{}, false
	}
	p, ok := Lift(new(big.Int).SetBytes(b[1:]))
	if !ok {
		return p, false
	}
	if b[0] == 9 {
		p = Neg(p)
	}
	return p, true
}

// Pub33 is the standard compressed form.
func Pub33(p Pt) (b [33]byte) {
	b[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(b[1:])
	return
}

// UnPub33 inverts Pub33.
func UnPub33(b [33]byte) (Pt, bool) {
	if b[0] != 2 && b[0] != 3 {
		return Pt{}, false
	}
	p, ok := Lift(new(big.Int).SetBytes(b[1:]))
	if !ok {
		return p, false
	}
	if byte(p.Y.Bit(0)) != b[0]-2 {
		p = Neg(p)
	}
	return p, true
}

// KernelMsg is the message a kernel signature signs.
func KernelMsg(fee, lock uint64) (m [32]byte) {
	binary.BigEndian.PutUint64(m[16:24], fee)
	binary.BigEndian.PutUint64(m[24:32], lock)
	return
}

func challenge(rx *big.Int, pub Pt, msg [32]byte) *big.Int {
	var b [32]byte
	rx.FillBytes(b[:])
	pk := Pub33(pub)
	h := sha256.New()
	h.Write(b[:])
	h.Write(pk[:])
	h.Write(msg[:])
	return new(big.Int).SetBytes(h.Sum(nil))
}

// Sign makes a signature with the given nonce.
func Sign(pub Pt, priv, k *big.Int, msg [32]byte) (sig [64]byte) {
	k = new(big.Int).Set(k)
	r := Mul(G(), k)
	if big.Jacobi(r.Y, P) != 1 {
		k.Sub(N, k)
		r = Neg(r)
	}
	e := challenge(r.X, pub, msg)
	s := new(big.Int).Mul(e, priv)
	s.Add(s, k)
	s.Mod(s, N)
	r.X.FillBytes(sig[:32])
	s.FillBytes(sig[32:])
	return
}

// Verify is full verification: ranges, curve membership and the equation.
func Verify(pub Pt, msg [32]byte, sig [64]byte) bool {
	if !OnCurve(pub) {
		return false
	}
	s := new(big.Int).SetBytes(sig[32:])
	if s.Cmp(N) >= 0 {
		return false
	}
	R, ok := Lift(new(big.Int).SetBytes(sig[:32]))
	if !ok {
		return false
	}
	e := challenge(R.X, pub, msg)
	return Mul(G(), s).Eq(Add(R, Mul(pub, e)))
}

// SipHash-2-4 with an explicit four-word state, as cuckoo mining uses it.
type sip struct{ v0, v1, v2, v3 uint64 }

func rotl(x uint64, b uint) uint64 { return x<<b | x>>(64-b) }
func (s *sip) round() {
	s.v0 += s.v1
	s.v2 += s.v3
	s.v1 = rotl(s.v1, 13) ^ s.v0
	s.v3 = rotl(s.v3, 16) ^ s.v2
	s.v0 = rotl(s.v0, 32)
	s.v2 += s.v1
	s.v0 += s.v3
	s.v1 = rotl(s.v1, 17) ^ s.v2
	s.v3 = rotl(s.v3, 21) ^ s.v0
	s.v2 = rotl(s.v2, 32)
}
func (s *sip) absorb(n uint64) {
	s.v3 ^= n
	s.round()
	s.round()
	s.v0 ^= n
	s.v2 ^= 0xff
	for i := 0; i < 4; i++ {
		s.round()
	}
}
func (s *sip) digest() uint64 { return s.v0 ^ s.v1 ^ s.v2 ^ s.v3 }

func Sip24(k [4]uint64, n uint64) uint64 {
	s := sip{k[0], k[1], k[2], k[3]}
	s.absorb(n)
	return s.digest()
}

// SipBlock hashes the 64-nonce block of n and returns n's hash combined with the last.
func SipBlock(k [4]uint64, n uint64) uint64 {
	s := sip{k[0], k[1], k[2], k[3]}
	var h [64]uint64
	base := n / 64 * 64
	for i := range h {
		s.absorb(base + uint64(i))
		h[i] = s.digest()
	}
	i := n % 64
	if i == 63 {
		return h[63]
	}
	return h[i] ^ h[63]
}

// SipHash is the standard byte-string SipHash-2-4.
func SipHash(k0, k1 uint64, m []byte) uint64 {
	s := sip{k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573}
	n := len(m)
	for len(m) >= 8 {
		w := binary.LittleEndian.Uint64(m)
		s.v3 ^= w
		s.round()
		s.round()
		s.v0 ^= w
		m = m[8:]
	}
	var last [8]byte
	copy(last[:], m)
	last[7] = byte(n)
	w := binary.LittleEndian.Uint64(last[:])
	s.v3 ^= w
	s.round()
	s.round()
	s.v0 ^= w
	s.v2 ^= 0xff
	for i := 0; i < 4; i++ {
		s.round()
	}
	return s.digest()
}

// ShortID of hash in block.
func ShortID(hash, block []byte) (id [6]byte) {
	h := SipHash(binary.LittleEndian.Uint64(block), binary.LittleEndian.Uint64(block[8:]), hash)
	for i := range id {
		id[i] = byte(h >> (8 * uint(i)))
	}
	return
}
