package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- generators -------------------------------------------------------------

// seed draws a value that, hashed, gives an independent uniform stream.
func seed(t *rapid.T, l string) uint64 {
	a := rapid.Uint64().Draw(t, l+"A")
	b := rapid.Uint64().Draw(t, l+"B")
	var k [16]byte
	binary.LittleEndian.PutUint64(k[:], a)
	binary.LittleEndian.PutUint64(k[8:], b)
	h := sha256.Sum256(k[:])
	return binary.LittleEndian.Uint64(h[:])
}

// pick draws a number below n. Rapid prefers small numbers; half of the choices
// among many are spread evenly, so that every position is reached.
func pick(t *rapid.T, n int, l string) int {
	if n > 32 && rapid.Bool().Draw(t, l+"U") {
		return int(seed(t, l) % uint64(n))
	}
	return rapid.IntRange(0, n-1).Draw(t, l)
}

// place is an index below n: near the ends, near a power of two, or anywhere.
func place(t *rapid.T, n int, l string) int {
	at := 0
	switch pick(t, 5, l+"w") {
	case 0:
		at = n - 1 - pick(t, 130, l+"tail")
	case 1:
		at = pick(t, 130, l+"head")
	case 2, 3:
		at = 1<<pick(t, 17, l+"p2") + pick(t, 3, l+"d") - 1
	case 4:
		at = pick(t, n, l+"any")
	}
	return max(min(at, n-1), 0)
}

func oneIn(t *rapid.T, n int, l string) bool { return pick(t, n, l) == n-1 }

// rbytes: n bytes, mostly uniform, sometimes patterned.
func rbytes(t *rapid.T, n int, l string) []byte {
	if n == 0 {
		return []byte{}
	}
	k := pick(t, 24, l+"kind")
	b := expand(seed(t, l), n)
	switch k {
	case 23:
		return make([]byte, n)
	case 22:
		return bytes.Repeat([]byte{0xff}, n)
	case 21: // leading zeros
		z := 1 + pick(t, min(n, 8), l+"z")
		for i := 0; i < z && i < n; i++ {
			b[i] = 0
		}
	case 20: // trailing zeros
		z := 1 + pick(t, min(n, 8), l+"z")
		for i := 0; i < z && i < n; i++ {
			b[n-1-i] = 0
		}
	case 19:
		x := b[0]
		for i := range b {
			b[i] = x
		}
	case 18: // one bit
		x := int(b[0])<<8 | int(b[n-1])
		for i := range b {
			b[i] = 0
		}
		b[(x/8)%n] = 1 << (x % 8)
	}
	return b
}

func uniform(t *rapid.T, n int, l string) []byte { return expand(seed(t, l), n) }

var lenEdges = []int{0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 54, 55, 56, 57, 63, 64, 65, 71, 72, 73, 79, 80, 103, 104, 105, 110, 111, 112, 113, 119, 120, 121, 127, 128, 129, 135, 136, 137, 143, 144, 145, 167, 168, 169, 183, 184, 191, 192, 193, 239, 240, 247, 248, 255, 256, 257, 271, 272, 273, 383, 384, 511, 512, 513, 575, 576, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193}

func mlen(t *rapid.T, max int, l string) int {
	switch pick(t, 3, l+"lk") {
	case 0:
		var e []int
		for _, x := range lenEdges {
			if x <= max {
				e = append(e, x)
			}
		}
		return e[pick(t, len(e), l+"le")]
	case 1:
		return rapid.IntRange(0, min(max, 300)).Draw(t, l+"ls")
	}
	return rapid.IntRange(0, max).Draw(t, l+"ll")
}

// message gives mostly short messages with lengths near the edges of blocks,
// now and then one longer than every small counter or buffer.
func message(t *rapid.T, max int, l string) B {
	if oneIn(t, 80, l+"long") {
		n := []int{1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 100000}[pick(t, 7, l+"ln")] + pick(t, 5, l+"ld") - 2
		return B(expand(seed(t, l+"ls"), n))
	}
	return B(rbytes(t, mlen(t, max, l), l))
}

var bigOne = big.NewInt(1)

func bi(b []byte) *big.Int       { return new(big.Int).SetBytes(b) }
func n64(i int64) *big.Int       { return big.NewInt(i) }
func b32(v *big.Int) []byte      { return v.FillBytes(make([]byte, 32)) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }
func lsh(k uint) *big.Int        { return new(big.Int).Lsh(bigOne, k) }

// pattern256: structured integers below 2^bits (long runs of zero/one bits,
// sparse values, limb boundaries).
func pattern(t *rapid.T, bits int, l string) *big.Int {
	k := pick(t, 7, l+"pk")
	r := bi(uniform(t, (bits+7)/8, l+"pr"))
	m := sub(lsh(uint(bits)), bigOne)
	r.And(r, m)
	switch k {
	case 0:
		i := uint(pick(t, bits, l+"pi"))
		r = lsh(i)
		r.Add(r, n64(int64(pick(t, 5, l+"pd")-2)))
	case 1: // ones in [a,b)
		a := uint(pick(t, bits, l+"pa"))
		b := uint(pick(t, bits+1, l+"pb"))
		if a > b {
			a, b = b, a
		}
		r = sub(lsh(b), lsh(a))
	case 2: // random with a zero run
		a := uint(pick(t, bits, l+"pa"))
		b := uint(pick(t, bits+1, l+"pb"))
		if a > b {
			a, b = b, a
		}
		r.AndNot(r, sub(lsh(b), lsh(a)))
	case 3: // random with a one run
		a := uint(pick(t, bits, l+"pa"))
		b := uint(pick(t, bits+1, l+"pb"))
		if a > b {
			a, b = b, a
		}
		r.Or(r, sub(lsh(b), lsh(a)))
	case 4: // small
		r.Rsh(r, uint(bits-min(bits, 1+pick(t, 70, l+"ps"))))
	case 5: // sparse
		v := new(big.Int)
		n := 1 + pick(t, 5, l+"pn")
		for i := 0; i < n; i++ {
			v.SetBit(v, pick(t, bits, l+"pbit"), 1)
		}
		r = v
	case 6: // 64-bit / 32-bit limbs all-zero or all-one at random
		w := 32
		if pick(t, 2, l+"pw") == 1 {
			w = 64
		}
		sel := r.Bit(0) + 2*r.Bit(1) + 4*r.Bit(2)
		v := new(big.Int)
		x := bi(uniform(t, 40, l+"px"))
		for i := 0; i < bits; i += w {
			c := x.Bit(2*i/w) + 2*x.Bit(2*i/w+1)
			f := sub(lsh(uint(w)), bigOne)
			switch {
			case c == 0 || c == 3 && sel&1 == 0:
				f = n64(0)
			case c == 1:
			case c == 2:
				f.And(f, new(big.Int).Rsh(r, uint(i)))
			}
			v.Or(v, new(big.Int).Lsh(f, uint(i)))
		}
		r = v.And(v, m)
	}
	if r.Sign() < 0 {
		r.Neg(r)
	}
	return r.And(r, m)
}

// scalarEdge: near the ends of [0,N].
func scalarEdge(t *rapid.T, N *big.Int, l string) *big.Int {
	d := n64(int64(1 + pick(t, 20, l+"ed")))
	switch pick(t, 3, l+"ek") {
	case 0:
		return d
	case 1:
		return sub(N, d)
	}
	h := new(big.Int).Rsh(N, 1)
	return h.Add(h, sub(d, n64(10)))
}

// scalar draws from [1,N-1], uniform most of the time.
func scalar(t *rapid.T, N *big.Int, l string) *big.Int {
	var v *big.Int
	switch k := pick(t, 10, l+"k"); {
	case k < 5:
		v = bi(uniform(t, 40, l))
	case k < 7:
		v = scalarEdge(t, N, l)
	case k < 9:
		v = pattern(t, N.BitLen(), l)
	default:
		v = sub(N, pattern(t, N.BitLen()-1-pick(t, 128, l+"nb"), l))
	}
	v.Mod(v, sub(N, bigOne))
	return v.Add(v, bigOne)
}

// ---- the Weierstrass family -------------------------------------------------

type wcurve struct {
	name string
	typ  uint32
	c    *ref.Curve
}

var (
	cK1  = wcurve{"secp256k1", ow.ECC_CURVE_SECP256K1, ref.K1}
	cR1  = wcurve{"secp256r1", ow.ECC_CURVE_SECP256R1, ref.R1}
	cSM2 = wcurve{"sm2", ow.ECC_CURVE_SM2_STANDARD, ref.SM2}
	cPas = wcurve{"pasta", ow.ECC_CURVE_PASTA, ref.Pallas}
	wei3 = []wcurve{cK1, cR1, cSM2}
	wei4 = []wcurve{cK1, cR1, cSM2, cPas}
)

func curveOf(typ uint32) wcurve {
	for _, c := range wei4 {
		if c.typ == typ {
			return c
		}
	}
	panic("curveOf")
}

// wpriv draws a legal private key.
func wpriv(t *rapid.T, c wcurve, l string) *big.Int {
	if oneIn(t, 8, l+"sp") {
		return shortPoint(t, c, l)
	}
	d := scalar(t, c.c.N, l)
	if c.typ == ow.ECC_CURVE_PASTA {
		for d.BitLen() > 254 {
			d.Rsh(d, 1)
		}
	}
	return d
}

// shortPoint draws a private key whose public key has leading zero bytes in a coordinate.
func shortPoint(t *rapid.T, c wcurve, l string) *big.Int {
	sp := specials[c.name]
	v := hexInt(sp[pick(t, len(sp), l+"spi")])
	if pick(t, 2, l+"spn") == 1 && c.typ != ow.ECC_CURVE_PASTA {
		v = sub(c.c.N, v)
	}
	return v
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// wpoint draws a finite curve point: multiples of G, points lifted from
// structured x coordinates, points with leading-zero coordinates.
func wpoint(t *rapid.T, c wcurve, l string) ref.Pt {
	if c.typ == cSM2.typ && pick(t, 4, l+"lb") == 0 {
		return limbPoint(t, c, l)
	}
	switch k := pick(t, 10, l+"k"); {
	case k < 4:
		return c.c.MulG(wpriv(t, c, l))
	case k < 6:
		return c.c.MulG(n64(int64(1 + pick(t, 40, l+"small"))))
	case k < 8: // pattern x
		x := pattern(t, 256, l)
		x.Mod(x, c.c.P)
		return liftNear(c, x, uint(pick(t, 2, l+"odd")))
	case k < 9: // x close to p
		x := sub(c.c.P, n64(int64(1+pick(t, 60, l+"np"))))
		return liftNear(c, x, uint(pick(t, 2, l+"odd")))
	default: // tiny x
		return liftNear(c, n64(int64(pick(t, 60, l+"tx"))), uint(pick(t, 2, l+"odd")))
	}
}

func liftNear(c wcurve, x *big.Int, odd uint) ref.Pt {
	x = new(big.Int).Set(x)
	for {
		if p, ok := c.c.Lift(x, odd); ok {
			return p
		}
		x.Add(x, bigOne)
		x.Mod(x, c.c.P)
	}
}

// limbs draws a field element that a Montgomery representation with R = 2^r
// and limbs of the given widths stores as edge-case limbs (below p).
func limbs(t *rapid.T, p *big.Int, r uint, widths []uint, l string) *big.Int {
	kind := pick(t, 4, l+"limbs")
	odd := pick(t, len(widths), l+"odd")
	v, at := new(big.Int), uint(0)
	for i, w := range widths {
		var f *big.Int
		top := sub(lsh(w), bigOne)
		k := pick(t, 9, l+"lk")
		if kind == 0 && pick(t, 3, l+"lz") > 0 {
			k = 0
		}
		if kind == 3 && i != odd { // all but one as they are in p, or full
			if k = 3; i == 0 {
				k = 6
			}
		}
		switch k {
		case 0:
			f = n64(0)
		case 1, 2:
			f = n64(int64(1 + pick(t, 2, l+"ls")))
		case 3:
			f = top
		case 4:
			f = sub(top, n64(int64(pick(t, 4, l+"lt"))))
		case 5:
			f = lsh(uint(pick(t, int(w), l+"lb")))
		case 6:
			f = new(big.Int).And(new(big.Int).Rsh(p, at), top)
		case 7: // -1/p modulo the limb, the Montgomery constant
			m := new(big.Int).ModInverse(p, lsh(w))
			if f = sub(lsh(w), m); pick(t, 2, l+"lm") == 0 {
				f = m
			}
		default:
			f = new(big.Int).And(bi(uniform(t, int(w+7)/8, l+"lr")), top)
		}
		if i == len(widths)-1 { // keep the value below p
			f = mod(f, new(big.Int).Add(new(big.Int).Rsh(p, at), bigOne))
		}
		v.Or(v, new(big.Int).Lsh(f, at))
		at += w
	}
	v.Mod(v, p)
	return mod(mul(v, new(big.Int).ModInverse(lsh(r), p)), p)
}

var sm2Widths = []uint{29, 28, 29, 28, 29, 28, 29, 28, 28}

// limbPoint draws an SM2 point one coordinate of which has edge-case limbs in
// the representation used by the library's field arithmetic (R = 2^257).
func limbPoint(t *rapid.T, c wcurve, l string) ref.Pt {
	v := limbs(t, c.c.P, 257, sm2Widths, l)
	step := mod(mul(lsh(228), new(big.Int).ModInverse(lsh(257), c.c.P)), c.c.P) // one more in the top limb
	odd, y := uint(pick(t, 2, l+"odd")), pick(t, 2, l+"ly") == 0
	for {
		if y {
			if p, ok := c.c.LiftY(v); ok {
				return p
			}
		} else if p, ok := c.c.Lift(v, odd); ok {
			return p
		}
		v = mod(add(v, step), c.c.P)
	}
}

// offCurve: 64 bytes that are not a valid point encoding.
func offCurve(t *rapid.T, c wcurve, l string) []byte {
	p := wpoint(t, c, l)
	xy := p.XY()
	switch pick(t, 7, l+"ok") {
	case 0:
		return make([]byte, 64)
	case 1: // flip a bit of y
		xy[32+pick(t, 32, l+"oi")] ^= 1 << pick(t, 8, l+"ob")
	case 2: // flip a bit of x
		xy[pick(t, 32, l+"oi")] ^= 1 << pick(t, 8, l+"ob")
	case 3:
		xy = uniform(t, 64, l+"or")
	case 4: // x + P when it fits (same point, not reduced)
		x := new(big.Int)
		for {
			q := liftNear(c, x, uint(pick(t, 2, l+"odd")))
			v := add(q.X, c.c.P)
			if v.BitLen() > 256 {
				break
			}
			if pick(t, 2, l+"stop") == 1 {
				return append(b32(v), b32(q.Y)...)
			}
			x = add(q.X, bigOne)
		}
		xy[0] ^= 1
	case 5: // y = 0 or x = 0
		if pick(t, 2, l+"oz") == 0 {
			copy(xy[32:], make([]byte, 32))
		} else {
			copy(xy[:32], make([]byte, 32))
		}
	case 6: // swapped
		xy = append(append([]byte{}, xy[32:]...), xy[:32]...)
	}
	if q, ok := c.c.ParseXY(xy); ok && c.c.On(q) {
		return make([]byte, 64)
	}
	return xy
}

// ---- small helpers ----------------------------------------------------------

func eqb(a, b []byte) bool { return bytes.Equal(a, b) }

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// statusOK says whether st is one of the documented status codes.
func statusOK(st uint16) bool {
	switch st {
	case ow.SUCCESS, ow.FAILURE, ow.ECC_PRIKEY_ILLEGAL, ow.ECC_PUBKEY_ILLEGAL, ow.ECC_WRONG_TYPE, ow.ECC_MISS_ID, ow.RAND_IS_NULL, ow.LENGTH_ERROR, ow.POINT_AT_INFINITY, ow.MESSAGE_ILLEGAL:
		return true
	}
	return false
}

// refused: a non-success documented status and no data.
func refused(st uint16, outs ...[]byte) error {
	if st == ow.SUCCESS {
		return errf("accepted (SUCCESS) although it must be refused")
	}
	if !statusOK(st) {
		return errf("undocumented status %#x", st)
	}
	for _, o := range outs {
		if len(o) != 0 {
			return errf("status %#x but output %x", st, o)
		}
	}
	return nil
}

func flip(b []byte, bit int) []byte {
	c := cp(b)
	c[bit/8] ^= 1 << (bit % 8)
	return c
}

// chosen returns the b for which a+b, a-b, b-a or a*b is w modulo p.
func chosen(t *rapid.T, p, a, w *big.Int) *big.Int {
	switch k := pick(t, 4, "chosen"); {
	case k == 0 || k == 3 && mod(a, p).Sign() == 0:
		return mod(sub(w, a), p)
	case k == 1:
		return mod(sub(a, w), p)
	case k == 2:
		return mod(add(w, a), p)
	default:
		return mod(mul(w, new(big.Int).ModInverse(a, p)), p)
	}
}

// related draws a second operand in a special relation to the finite point p.
func related(t *rapid.T, c wcurve, p ref.Pt) (ref.Pt, string) {
	switch pick(t, 4, "related") {
	case 0: // the sum is a special point
		q := c.c.Add(wpoint(t, c, "W"), c.c.Neg(p))
		if pick(t, 2, "dif") == 1 {
			q = c.c.Neg(q)
		}
		return q, "special sum"
	case 1: // the difference of the abscissas is special
		w := pattern(t, 256, "dx")
		if c.typ == cSM2.typ && pick(t, 3, "dxl") > 0 {
			w = limbs(t, c.c.P, 257, sm2Widths, "dx")
		}
		if pick(t, 2, "sg") == 1 {
			w.Neg(w)
		}
		return liftNear(c, mod(add(p.X, w), c.c.P), uint(pick(t, 2, "odd"))), "special difference of x"
	default: // the same ordinate, or the opposite one, and another abscissa
		d := mod(sub(mul(n64(-3), mul(p.X, p.X)), mul(n64(4), c.c.A)), c.c.P)
		r := new(big.Int).ModSqrt(d, c.c.P)
		if r == nil || r.Sign() == 0 {
			return liftNear(c, mod(add(p.X, bigOne), c.c.P), uint(pick(t, 2, "odd"))), "next x"
		}
		if pick(t, 2, "root") == 1 {
			r = sub(c.c.P, r)
		}
		x := mod(mul(sub(r, p.X), new(big.Int).ModInverse(n64(2), c.c.P)), c.c.P)
		if x.Cmp(p.X) == 0 {
			return c.c.Neg(p), "opposite"
		}
		q := ref.Pt{X: x, Y: p.Y}
		if !c.c.On(q) {
			panic("related")
		}
		if pick(t, 2, "neg") == 1 {
			return c.c.Neg(q), "opposite y"
		}
		return q, "same y"
	}
}

// warp changes several bytes of b in a way that sums, folds or sorted copies of
// the bytes do not show; n selects the change.
func warp(b []byte, n int) []byte {
	o := cp(b)
	if len(o) < 2 {
		return flip(o, n%8)
	}
	k := n % 7
	n /= 7
	i := n % len(o)
	n /= len(o)
	j := (i + 1 + n%(len(o)-1)) % len(o)
	m := byte(1) << (n % 8)
	switch k {
	case 0: // the same bit of two bytes
		o[i] ^= m
		o[j] ^= m
	case 1:
		o[i] ^= 0x80
		o[j] ^= 0x80
	case 2: // equal sum
		o[i]++
		o[j]--
	case 3:
		o[i], o[j] = o[j], o[i]
	case 4: // rotated
		o = cat(o[i:], o[:i])
	case 5:
		for x, y := 0, len(o)-1; x < y; x, y = x+1, y-1 {
			o[x], o[y] = o[y], o[x]
		}
	case 6: // two 8-byte words, or halves
		w := 8
		if len(o) < 16 {
			w = len(o) / 2
		}
		x, y := i/w%(len(o)/w), j/w%(len(o)/w)
		t := cp(o[x*w : x*w+w])
		copy(o[x*w:], o[y*w:y*w+w])
		copy(o[y*w:], t)
	}
	return o
}

// over extends b by a multiple of 256 bytes: a length kept in one byte, or two,
// does not show it.
func over(t *rapid.T, b []byte, l string) B {
	n := 256 * []int{1, 1, 1, 2, 3, 255, 256}[pick(t, 7, l+"over")]
	switch pick(t, 3, l+"ok") {
	case 0:
		return B(cat(b, make([]byte, n)))
	case 1:
		return B(cat(make([]byte, n), b))
	}
	return B(cat(b, rbytes(t, n, l+"ob")))
}
