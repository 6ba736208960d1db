package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
)

// Edwards25519 and Curve25519 models.

var (
	EdP    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL    = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), hx("14def9dea2f79cd65812631a5cf5d3ed"))
	EdD    *big.Int
	edI    *big.Int // sqrt(-1)
	EdB    EdPt
	edDbl  []EdPt
	one    = big.NewInt(1)
	edZero = EdPt{X: new(big.Int), Y: big.NewInt(1)}
)

type EdPt struct{ X, Y *big.Int }

func fe(x *big.Int) *big.Int { return x.Mod(x, EdP) }

func init() {
	EdD = new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), EdP))
	fe(EdD)
	e := new(big.Int).Rsh(new(big.Int).Sub(EdP, one), 2)
	edI = new(big.Int).Exp(big.NewInt(2), e, EdP)
	y := new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), EdP))
	fe(y)
	x, ok := edRecoverX(y, 0)
	if !ok {
		panic("ed base")
	}
	EdB = EdPt{x, y}
	d := EdB
	for i := 0; i < 256; i++ {
		edDbl = append(edDbl, d)
		d = EdAdd(d, d)
	}
}

func EdIdentity() EdPt { return edZero }

func edRecoverX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(y2, one)
	v := new(big.Int).Mul(EdD, y2)
	v.Add(v, one)
	fe(u)
	fe(v)
	x2 := new(big.Int).Mul(u, new(big.Int).ModInverse(v, EdP))
	fe(x2)
	if x2.Sign() == 0 {
		return new(big.Int), sign == 0
	}
	if big.Jacobi(x2, EdP) != 1 {
		return nil, false
	}
	x := new(big.Int).ModSqrt(x2, EdP)
	if x.Bit(0) != sign {
		x.Sub(EdP, x)
	}
	return x, true
}

// EdAdd is the complete affine twisted Edwards addition.
func EdAdd(p, q EdPt) EdPt {
	x1y2 := new(big.Int).Mul(p.X, q.Y)
	y1x2 := new(big.Int).Mul(p.Y, q.X)
	y1y2 := new(big.Int).Mul(p.Y, q.Y)
	x1x2 := new(big.Int).Mul(p.X, q.X)
	t := new(big.Int).Mul(fe(x1x2), fe(y1y2))
	t.Mul(fe(t), EdD)
	fe(t)
	// one inversion for both denominators
	a := new(big.Int).Add(one, t)
	b := new(big.Int).Sub(one, t)
	fe(a)
	fe(b)
	ab := new(big.Int).Mul(a, b)
	inv := new(big.Int).ModInverse(fe(ab), EdP)
	x := new(big.Int).Add(x1y2, y1x2)
	x.Mul(fe(x), b)
	x.Mul(fe(x), inv)
	y := new(big.Int).Add(y1y2, x1x2)
	y.Mul(fe(y), a)
	y.Mul(fe(y), inv)
	return EdPt{fe(x), fe(y)}
}

func EdNeg(p EdPt) EdPt {
	return EdPt{fe(new(big.Int).Neg(p.X)), new(big.Int).Set(p.Y)}
}

func EdMul(k *big.Int, p EdPt) EdPt {
	r := edZero
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = EdAdd(r, r)
		if k.Bit(i) == 1 {
			r = EdAdd(r, p)
		}
	}
	return r
}

// EdMulB multiplies the base point by k (any size up to 2^256).
func EdMulB(k *big.Int) EdPt {
	k = new(big.Int).Mod(k, EdL)
	r := edZero
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = EdAdd(r, edDbl[i])
		}
	}
	return r
}

func EdEq(p, q EdPt) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }

func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func ToLE(v *big.Int, n int) []byte {
	b := v.Bytes()
	if len(b) > n {
		panic("ToLE overflow")
	}
	out := make([]byte, n)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func (p EdPt) Enc() []byte {
	b := ToLE(p.Y, 32)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// EdDec is RFC 8032 5.1.3 decoding (strict).
func EdDec(b []byte) (EdPt, bool) {
	if len(b) != 32 {
		return EdPt{}, false
	}
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := LE(c)
	if y.Cmp(EdP) >= 0 {
		return EdPt{}, false
	}
	x, ok := edRecoverX(y, sign)
	if !ok {
		return EdPt{}, false
	}
	return EdPt{x, y}, true
}

func Clamp(k []byte) []byte {
	c := append([]byte{}, k...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

// EdVerify is the cofactorless RFC 8032 check: R, compared by encoding, equals sB - hA.
func EdVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	A, ok := EdDec(pub)
	if !ok {
		return false
	}
	s := LE(sig[32:])
	if s.Cmp(EdL) >= 0 {
		return false
	}
	h := EdHRAM(sig[:32], pub, msg)
	R := EdAdd(EdMulB(s), EdMul(h, EdNeg(A)))
	return string(R.Enc()) == string(sig[:32])
}

func EdHRAM(r, a, m []byte) *big.Int {
	h := sha512.New()
	h.Write(r)
	h.Write(a)
	h.Write(m)
	v := LE(h.Sum(nil))
	return v.Mod(v, EdL)
}

// MontFromEd: u = (1+y)/(1-y); y = 1 maps to 0.
func MontFromEd(y *big.Int) *big.Int {
	d := fe(new(big.Int).Sub(one, y))
	if d.Sign() == 0 {
		return new(big.Int)
	}
	n := new(big.Int).Add(one, y)
	n.Mul(n, new(big.Int).ModInverse(d, EdP))
	return fe(n)
}

// EdFromMont: y = (u-1)/(u+1); u = -1 maps to 0.
func EdFromMont(u *big.Int) *big.Int {
	d := fe(new(big.Int).Add(u, one))
	if d.Sign() == 0 {
		return new(big.Int)
	}
	n := new(big.Int).Sub(u, one)
	n.Mul(n, new(big.Int).ModInverse(d, EdP))
	return fe(n)
}

// XEdVerify verifies a signature under an X25519 key in the form the library
// documents: the Edwards sign bit is carried in the top bit of s.
func XEdVerify(u, msg, sig []byte) bool {
	if len(sig) != 64 || len(u) != 32 {
		return false
	}
	uu := LE(u)
	if uu.Cmp(EdP) >= 0 {
		return false
	}
	ed := ToLE(EdFromMont(uu), 32)
	ed[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return EdVerify(ed, msg, s)
}

// ---------------------------------------------------------------- EC-KCDSA over Curve25519 with SHA-256

// KCDSAKeygen returns the public u-coordinate and the signing secret s with
// s*|P| = G, where |P| is the point with u-coordinate pub and "positive" v.
func KCDSAKeygen(k []byte) (pub []byte, s *big.Int) {
	kc := LE(Clamp(k))
	P := EdMulB(kc)
	u := MontFromEd(P.Y)
	pub = ToLE(u, 32)
	// v coordinate of P on v^2 = u^3+486662u^2+u with base v = 14781619447589544791020593568409986887264606134616475288964881837755586237401
	v := montV(P, u)
	s = new(big.Int).Mod(kc, EdL)
	if v.Bit(0) == 1 { // negative
		// -P is |P|
	} else {
		s.Sub(EdL, s)
		s.Mod(s, EdL)
	}
	s.ModInverse(s, EdL)
	return pub, s
}

var sqrtM486664 *big.Int

func montV(P EdPt, u *big.Int) *big.Int {
	if sqrtM486664 == nil {
		c := fe(big.NewInt(-486664))
		r := new(big.Int).ModSqrt(c, EdP)
		// base point must map to the standard v
		bv, _ := new(big.Int).SetString("14781619447589544791020593568409986887264606134616475288964881837755586237401", 10)
		v := new(big.Int).Mul(r, big.NewInt(9))
		v.Mul(fe(v), new(big.Int).ModInverse(EdB.X, EdP))
		fe(v)
		if v.Cmp(bv) != 0 {
			r.Sub(EdP, r)
			v = new(big.Int).Mul(r, big.NewInt(9))
			v.Mul(fe(v), new(big.Int).ModInverse(EdB.X, EdP))
			fe(v)
			if v.Cmp(bv) != 0 {
				panic("montV")
			}
		}
		sqrtM486664 = r
	}
	if P.X.Sign() == 0 {
		return new(big.Int)
	}
	v := new(big.Int).Mul(sqrtM486664, u)
	v.Mul(fe(v), new(big.Int).ModInverse(P.X, EdP))
	return fe(v)
}

func KCDSASign(k, msg []byte) []byte {
	_, s := KCDSAKeygen(k)
	m := sha256.Sum256(msg)
	x := sha256.Sum256(append(append([]byte{}, m[:]...), ToLE(s, 32)...))
	xc := Clamp(x[:])
	Y, _ := KCDSAKeygen(xc)
	h := sha256.Sum256(append(append([]byte{}, m[:]...), Y...))
	v := new(big.Int).Sub(LE(xc), LE(h[:]))
	v.Mod(v, EdL)
	v.Mul(v, s)
	v.Mod(v, EdL)
	return append(ToLE(v, 32), h[:]...)
}

// KCDSAVerify: Y = v|P| + hG, h == SHA256(m||Y), v and P canonical.
func KCDSAVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	v := LE(sig[:32])
	if v.Cmp(EdL) >= 0 {
		return false
	}
	u := LE(pub)
	if u.Cmp(EdP) >= 0 {
		return false
	}
	y := EdFromMont(u)
	P, ok := EdDec(ToLE(y, 32))
	if !ok {
		P, ok = EdDec(func() []byte { b := ToLE(y, 32); b[31] |= 0x80; return b }())
		if !ok {
			return false
		}
	}
	if montV(P, u).Bit(0) == 0 {
		P = EdNeg(P)
	}
	h := LE(sig[32:])
	Y := EdAdd(EdMul(v, P), EdMulB(h))
	yb := ToLE(MontFromEd(Y.Y), 32)
	m := sha256.Sum256(msg)
	h2 := sha256.Sum256(append(append([]byte{}, m[:]...), yb...))
	return string(h2[:]) == string(sig[32:])
}

// X25519 is the function of RFC 7748: the u coordinate of kP for the clamped k,
// for any u coordinate of the curve or its twist.
func X25519(k, u []byte) []byte {
	kc := LE(Clamp(k))
	ub := append([]byte{}, u...)
	ub[31] &= 0x7f
	x1 := fe(LE(ub))
	x2, z2 := big.NewInt(1), new(big.Int)
	x3, z3 := new(big.Int).Set(x1), big.NewInt(1)
	mul := func(a, b *big.Int) *big.Int { return fe(new(big.Int).Mul(a, b)) }
	add := func(a, b *big.Int) *big.Int { return fe(new(big.Int).Add(a, b)) }
	sub := func(a, b *big.Int) *big.Int { return fe(new(big.Int).Sub(a, b)) }
	for t := 254; t >= 0; t-- {
		if kc.Bit(t) == 1 {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
		a, b := add(x2, z2), sub(x2, z2)
		aa, bb := mul(a, a), mul(b, b)
		e := sub(aa, bb)
		da, cb := mul(sub(x3, z3), a), mul(add(x3, z3), b)
		s, d := add(da, cb), sub(da, cb)
		x3, z3 = mul(s, s), mul(x1, mul(d, d))
		x2, z2 = mul(aa, bb), mul(e, add(aa, mul(big.NewInt(121665), e)))
		if kc.Bit(t) == 1 {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
	}
	r := new(big.Int)
	if z2.Sign() != 0 {
		r = mul(x2, new(big.Int).ModInverse(z2, EdP))
	}
	return ToLE(r, 32)
}

// MontLift is the point of the curve with the given u coordinate and the v that
// the EC-KCDSA scheme takes as |P|.
func MontLift(u *big.Int) (EdPt, bool) {
	if fe(new(big.Int).Add(u, big.NewInt(1))).Sign() == 0 || u.Sign() == 0 {
		return EdPt{}, false
	}
	y := ToLE(EdFromMont(u), 32)
	P, ok := EdDec(y)
	if !ok {
		y[31] |= 0x80
		if P, ok = EdDec(y); !ok {
			return EdPt{}, false
		}
	}
	if montV(P, u).Bit(0) == 0 {
		P = EdNeg(P)
	}
	return P, true
}

// KCDSAPoint is the u coordinate of v|P| + hG.
func KCDSAPoint(v, h *big.Int, u []byte) ([]byte, bool) {
	P, ok := MontLift(LE(u))
	if !ok {
		return nil, false
	}
	Y := EdAdd(EdMul(v, P), EdMulB(h))
	if EdEq(Y, edZero) {
		return nil, false
	}
	return ToLE(MontFromEd(Y.Y), 32), true
}
