package ref

import (
	"encoding/binary"
	"errors"
	"math/big"
	"math/bits"
)

// BLAKE (SHA-3 finalist, 14/16 rounds) and BLAKE2s, straight from the specifications.

var blakeSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// first 1024 bits of the fractional part of pi
var piBits = func() []byte {
	// Machin: pi = 16 atan(1/5) - 4 atan(1/239) with 1200 fractional bits
	const prec = 1200
	atan := func(x int64) *big.Int {
		one := new(big.Int).Lsh(big.NewInt(1), prec)
		t := new(big.Int).Div(one, big.NewInt(x))
		s := new(big.Int).Set(t)
		x2 := big.NewInt(x * x)
		for n, sign := int64(3), -1; t.Sign() != 0; n, sign = n+2, -sign {
			t.Div(t, x2)
			d := new(big.Int).Div(t, big.NewInt(n))
			if sign < 0 {
				s.Sub(s, d)
			} else {
				s.Add(s, d)
			}
		}
		return s
	}
	pi := atan(5)
	pi.Mul(pi, big.NewInt(16))
	b := atan(239)
	b.Mul(b, big.NewInt(4))
	pi.Sub(pi, b)
	m := new(big.Int).Lsh(big.NewInt(1), prec)
	pi.Mod(pi, m)
	pi.Rsh(pi, prec-1024)
	out := make([]byte, 128)
	x := pi.Bytes()
	copy(out[128-len(x):], x)
	return out
}()

var blakeC32, blakeC64 = func() (a [16]uint32, b [16]uint64) {
	for i := range a {
		a[i] = binary.BigEndian.Uint32(piBits[4*i:])
		b[i] = binary.BigEndian.Uint64(piBits[8*i:])
	}
	return
}()

var b256iv = [8]uint32{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}
var b224iv = [8]uint32{0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4}
var b512iv = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}
var b384iv = [8]uint64{0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4}

// Blake256 computes BLAKE-224 or BLAKE-256 with a 16-byte salt (nil = zero).
func Blake256(size int, salt, msg []byte) []byte {
	var s [4]uint32
	if salt != nil {
		for i := range s {
			s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	h := b256iv
	if size == 28 {
		h = b224iv
	}
	l := uint64(len(msg)) * 8
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	if size == 32 {
		m[len(m)-1] |= 1
	}
	var lb [8]byte
	binary.BigEndian.PutUint64(lb[:], l)
	m = append(m, lb[:]...)
	for o := 0; o < len(m); o += 64 {
		// t = number of message bits hashed so far including this block; 0 if the block has no message bits
		t := uint64(o+64) * 8
		if t > l {
			t = l
		}
		if uint64(o)*8 >= l {
			t = 0
		}
		var w [16]uint32
		for i := range w {
			w[i] = binary.BigEndian.Uint32(m[o+4*i:])
		}
		var v [16]uint32
		copy(v[:8], h[:])
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ blakeC32[i]
		}
		v[12] = uint32(t) ^ blakeC32[4]
		v[13] = uint32(t) ^ blakeC32[5]
		v[14] = uint32(t>>32) ^ blakeC32[6]
		v[15] = uint32(t>>32) ^ blakeC32[7]
		for r := 0; r < 14; r++ {
			sg := blakeSigma[r%10]
			g := func(i, a, b, c, d int) {
				j, k := sg[2*i], sg[2*i+1]
				v[a] += v[b] + (w[j] ^ blakeC32[k])
				v[d] = bits.RotateLeft32(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -12)
				v[a] += v[b] + (w[k] ^ blakeC32[j])
				v[d] = bits.RotateLeft32(v[d]^v[a], -8)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -7)
			}
			g(0, 0, 4, 8, 12)
			g(1, 1, 5, 9, 13)
			g(2, 2, 6, 10, 14)
			g(3, 3, 7, 11, 15)
			g(4, 0, 5, 10, 15)
			g(5, 1, 6, 11, 12)
			g(6, 2, 7, 8, 13)
			g(7, 3, 4, 9, 14)
		}
		for i := range h {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	out := make([]byte, 32)
	for i, x := range h {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out[:size]
}

// Blake512 computes BLAKE-384 or BLAKE-512 with a 32-byte salt (nil = zero).
func Blake512(size int, salt, msg []byte) []byte {
	var s [4]uint64
	if salt != nil {
		for i := range s {
			s[i] = binary.BigEndian.Uint64(salt[8*i:])
		}
	}
	h := b512iv
	if size == 48 {
		h = b384iv
	}
	l := uint64(len(msg)) * 8
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%128 != 112 {
		m = append(m, 0)
	}
	if size == 64 {
		m[len(m)-1] |= 1
	}
	var lb [16]byte
	binary.BigEndian.PutUint64(lb[8:], l)
	m = append(m, lb[:]...)
	for o := 0; o < len(m); o += 128 {
		t := uint64(o+128) * 8
		if t > l {
			t = l
		}
		if uint64(o)*8 >= l {
			t = 0
		}
		var w [16]uint64
		for i := range w {
			w[i] = binary.BigEndian.Uint64(m[o+8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ blakeC64[i]
		}
		v[12] = t ^ blakeC64[4]
		v[13] = t ^ blakeC64[5]
		v[14] = blakeC64[6]
		v[15] = blakeC64[7]
		for r := 0; r < 16; r++ {
			sg := blakeSigma[r%10]
			g := func(i, a, b, c, d int) {
				j, k := sg[2*i], sg[2*i+1]
				v[a] += v[b] + (w[j] ^ blakeC64[k])
				v[d] = bits.RotateLeft64(v[d]^v[a], -32)
				v[c] += v[d]
				v[b] = bits.RotateLeft64(v[b]^v[c], -25)
				v[a] += v[b] + (w[k] ^ blakeC64[j])
				v[d] = bits.RotateLeft64(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft64(v[b]^v[c], -11)
			}
			g(0, 0, 4, 8, 12)
			g(1, 1, 5, 9, 13)
			g(2, 2, 6, 10, 14)
			g(3, 3, 7, 11, 15)
			g(4, 0, 5, 10, 15)
			g(5, 1, 6, 11, 12)
			g(6, 2, 7, 8, 13)
			g(7, 3, 4, 9, 14)
		}
		for i := range h {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	out := make([]byte, 64)
	for i, x := range h {
		binary.BigEndian.PutUint64(out[8*i:], x)
	}
	return out[:size]
}

// Blake2sParams is the parameter block of BLAKE2s.
type Blake2sParams struct {
	Size                 int
	Key, Salt, Person    []byte
	Tree                 bool
	Fanout, MaxDepth     uint8
	LeafSize             uint32
	NodeOffset           uint64
	NodeDepth, InnerHash uint8
	LastNode             bool
}

func Blake2s(p Blake2sParams, msg []byte) ([]byte, error) {
	if p.Size < 1 || p.Size > 32 || len(p.Key) > 32 || len(p.Salt) > 8 || len(p.Person) > 8 {
		return nil, errors.New("blake2s: bad parameters")
	}
	var pb [32]byte
	pb[0] = byte(p.Size)
	pb[1] = byte(len(p.Key))
	pb[2], pb[3] = 1, 1
	if p.Tree {
		if p.NodeOffset >= 1<<48 || p.InnerHash > 32 {
			return nil, errors.New("blake2s: bad tree")
		}
		pb[2], pb[3] = p.Fanout, p.MaxDepth
		binary.LittleEndian.PutUint32(pb[4:], p.LeafSize)
		var o [8]byte
		binary.LittleEndian.PutUint64(o[:], p.NodeOffset)
		copy(pb[8:14], o[:6])
		pb[14], pb[15] = p.NodeDepth, p.InnerHash
	}
	copy(pb[16:24], p.Salt)
	copy(pb[24:32], p.Person)
	iv := b256iv
	h := iv
	for i := range h {
		h[i] ^= binary.LittleEndian.Uint32(pb[4*i:])
	}
	var data []byte
	if len(p.Key) > 0 {
		var kb [64]byte
		copy(kb[:], p.Key)
		data = append(data, kb[:]...)
	}
	data = append(data, msg...)
	total := len(data)
	nb := (total + 63) / 64
	if nb == 0 {
		nb = 1
	}
	buf := make([]byte, nb*64)
	copy(buf, data)
	for bi := 0; bi < nb; bi++ {
		t := uint64((bi + 1) * 64)
		last := bi == nb-1
		if last {
			t = uint64(total)
		}
		var w [16]uint32
		for i := range w {
			w[i] = binary.LittleEndian.Uint32(buf[bi*64+4*i:])
		}
		var v [16]uint32
		copy(v[:8], h[:])
		copy(v[8:], iv[:])
		v[12] ^= uint32(t)
		v[13] ^= uint32(t >> 32)
		if last {
			v[14] ^= 0xffffffff
			if p.Tree && p.LastNode {
				v[15] ^= 0xffffffff
			}
		}
		for r := 0; r < 10; r++ {
			sg := blakeSigma[r]
			g := func(i, a, b, c, d int) {
				v[a] += v[b] + w[sg[2*i]]
				v[d] = bits.RotateLeft32(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -12)
				v[a] += v[b] + w[sg[2*i+1]]
				v[d] = bits.RotateLeft32(v[d]^v[a], -8)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -7)
			}
			g(0, 0, 4, 8, 12)
			g(1, 1, 5, 9, 13)
			g(2, 2, 6, 10, 14)
			g(3, 3, 7, 11, 15)
			g(4, 0, 5, 10, 15)
			g(5, 1, 6, 11, 12)
			g(6, 2, 7, 8, 13)
			g(7, 3, 4, 9, 14)
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	out := make([]byte, 32)
	for i, x := range h {
		binary.LittleEndian.PutUint32(out[4*i:], x)
	}
	return out[:p.Size], nil
}
