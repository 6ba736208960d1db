package ref

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// ---------------------------------------------------------------- SM3 (GB/T 32905)

func SM3(msg []byte) []byte {
	iv := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	m := append([]byte{}, msg...)
	l := uint64(len(msg)) * 8
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	var lb [8]byte
	binary.BigEndian.PutUint64(lb[:], l)
	m = append(m, lb[:]...)
	rl := bits.RotateLeft32
	p0 := func(x uint32) uint32 { return x ^ rl(x, 9) ^ rl(x, 17) }
	p1 := func(x uint32) uint32 { return x ^ rl(x, 15) ^ rl(x, 23) }
	for o := 0; o < len(m); o += 64 {
		var w [68]uint32
		var w2 [64]uint32
		for i := 0; i < 16; i++ {
			w[i] = binary.BigEndian.Uint32(m[o+4*i:])
		}
		for j := 16; j < 68; j++ {
			w[j] = p1(w[j-16]^w[j-9]^rl(w[j-3], 15)) ^ rl(w[j-13], 7) ^ w[j-6]
		}
		for j := 0; j < 64; j++ {
			w2[j] = w[j] ^ w[j+4]
		}
		a, b, c, d, e, f, g, h := iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], iv[6], iv[7]
		for j := 0; j < 64; j++ {
			t := uint32(0x79cc4519)
			if j >= 16 {
				t = 0x7a879d8a
			}
			ss1 := rl(rl(a, 12)+e+rl(t, j%32), 7)
			ss2 := ss1 ^ rl(a, 12)
			var ff, gg uint32
			if j < 16 {
				ff, gg = a^b^c, e^f^g
			} else {
				ff, gg = (a&b)|(a&c)|(b&c), (e&f)|(^e&g)
			}
			tt1 := ff + d + ss2 + w2[j]
			tt2 := gg + h + ss1 + w[j]
			d = c
			c = rl(b, 9)
			b = a
			a = tt1
			h = g
			g = rl(f, 19)
			f = e
			e = p0(tt2)
		}
		for i, v := range []uint32{a, b, c, d, e, f, g, h} {
			iv[i] ^= v
		}
	}
	out := make([]byte, 32)
	for i, v := range iv {
		binary.BigEndian.PutUint32(out[4*i:], v)
	}
	return out
}

// ---------------------------------------------------------------- SM2 (GB/T 32918)

func SM2ZA(pub Pt, id []byte) []byte {
	var b []byte
	n := uint16(len(id) * 8)
	b = append(b, byte(n>>8), byte(n))
	b = append(b, id...)
	b = append(b, B32(SM2.A)...)
	b = append(b, B32(SM2.B)...)
	b = append(b, SM2.G.XY()...)
	b = append(b, pub.XY()...)
	return SM3(b)
}

// SM2E is the digest as an integer: SM3(ZA||M), or M itself when id is nil.
func SM2E(pub Pt, id, msg []byte) *big.Int {
	if id == nil {
		return new(big.Int).SetBytes(msg)
	}
	return new(big.Int).SetBytes(SM3(append(SM2ZA(pub, id), msg...)))
}

func SM2Sign(d, k, e *big.Int) (r, s *big.Int, R Pt, ok bool) {
	n := SM2.N
	k = new(big.Int).Mod(k, n)
	if k.Sign() == 0 {
		return
	}
	R = SM2.MulG(k)
	r = new(big.Int).Add(e, R.X)
	r.Mod(r, n)
	t := new(big.Int).Add(r, k)
	if r.Sign() == 0 || t.Cmp(n) == 0 {
		return
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, new(big.Int).ModInverse(new(big.Int).Add(d, big.NewInt(1)), n))
	s.Mod(s, n)
	if s.Sign() == 0 {
		return
	}
	return r, s, R, true
}

func SM2Point(Q Pt, r, s *big.Int) Pt {
	t := new(big.Int).Add(r, s)
	t.Mod(t, SM2.N)
	return SM2.Add(SM2.MulG(s), SM2.Mul(t, Q))
}

func SM2Verify(Q Pt, e, r, s *big.Int) bool {
	n := SM2.N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 || !SM2.On(Q) {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, n)
	if t.Sign() == 0 {
		return false
	}
	R := SM2.Add(SM2.MulG(s), SM2.Mul(t, Q))
	x := new(big.Int)
	if !R.Inf {
		x.Set(R.X)
	}
	x.Add(x, e)
	x.Mod(x, n)
	return x.Cmp(r) == 0
}

func SM2KDF(z []byte, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		var c [4]byte
		binary.BigEndian.PutUint32(c[:], ct)
		out = append(out, SM3(append(append([]byte{}, z...), c[:]...))...)
	}
	return out[:n]
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// SM2Encrypt returns 04||C1||C3||C2; ok is false if k is unusable for m.
func SM2Encrypt(pub Pt, k *big.Int, m []byte) ([]byte, bool) {
	c1 := SM2.MulG(k)
	if c1.Inf {
		return nil, false
	}
	s := SM2.Mul(k, pub)
	t := SM2KDF(s.XY(), len(m))
	if allZero(t) {
		return nil, false
	}
	h := append(B32(s.X), m...)
	h = append(h, B32(s.Y)...)
	out := c1.Unc()
	out = append(out, SM3(h)...)
	for i := range m {
		out = append(out, m[i]^t[i])
	}
	return out, true
}

// SM2Decrypt inverts SM2Encrypt; ok only for valid ciphertexts.
func SM2Decrypt(d *big.Int, c []byte) ([]byte, bool) {
	if len(c) < 98 || c[0] != 4 {
		return nil, false
	}
	p, on := SM2.ParseXY(c[1:65])
	if !on {
		return nil, false
	}
	s := SM2.Mul(d, p)
	if s.Inf {
		return nil, false
	}
	t := SM2KDF(s.XY(), len(c)-97)
	if allZero(t) {
		return nil, false
	}
	m := make([]byte, len(c)-97)
	for i := range m {
		m[i] = c[97+i] ^ t[i]
	}
	h := append(B32(s.X), m...)
	h = append(h, B32(s.Y)...)
	if string(SM3(h)) != string(c[65:97]) {
		return nil, false
	}
	return m, true
}

// SM2KA runs the key agreement from one party's view: own static d, own
// ephemeral r with public Rown, peer static P and ephemeral R. ZA is the
// initiator's Z and ZB the responder's; RA and RB the ephemeral publics of
// initiator and responder. It returns the key, S1 (=SB, tag 2) and S2 (=SA, tag 3).
func SM2KA(d, r *big.Int, rown, peerP, peerR Pt, za, zb []byte, ra, rb Pt, klen int) (key, s2, s3 []byte, ok bool) {
	bar := func(x *big.Int) *big.Int {
		w := new(big.Int).Lsh(big.NewInt(1), 127)
		v := new(big.Int).Sub(w, big.NewInt(1))
		v.And(v, x)
		return v.Add(v, w)
	}
	t := new(big.Int).Mul(bar(rown.X), r)
	t.Add(t, d)
	t.Mod(t, SM2.N)
	u := SM2.Add(peerP, SM2.Mul(bar(peerR.X), peerR))
	u = SM2.Mul(t, u)
	if u.Inf {
		return nil, nil, nil, false
	}
	z := append(u.XY(), za...)
	z = append(z, zb...)
	key = SM2KDF(z, klen)
	in := append(B32(u.X), za...)
	in = append(in, zb...)
	in = append(in, ra.XY()...)
	in = append(in, rb.XY()...)
	h := SM3(in)
	tag := func(b byte) []byte {
		x := append([]byte{b}, B32(u.Y)...)
		return SM3(append(x, h...))
	}
	return key, tag(2), tag(3), true
}
