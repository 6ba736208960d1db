package ref

import (
	"crypto/sha256"
	"math/big"
)

// BLS12-381, affine big.Int arithmetic.
var (
	BLSP  = hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	BLSR  = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	heff1 = hx("d201000000010001")
	heff2 = hx("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
	blsG1 = G1Pt{X: hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		Y: hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")}
	blsG2 = G2Pt{
		X: F2{hx("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
			hx("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
		Y: F2{hx("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
			hx("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}}
	blsHalf = new(big.Int).Rsh(BLSP, 1) // (p-1)/2
)

func BLSG1() G1Pt { return blsG1 }
func BLSG2() G2Pt { return blsG2 }

func fm(a *big.Int) *big.Int      { return a.Mod(a, BLSP) }
func fadd(a, b *big.Int) *big.Int { return fm(new(big.Int).Add(a, b)) }
func fsub(a, b *big.Int) *big.Int { return fm(new(big.Int).Sub(a, b)) }
func fmul(a, b *big.Int) *big.Int { return fm(new(big.Int).Mul(a, b)) }
func finv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, BLSP)
}

// F2 is c0 + c1*u, u^2 = -1.
type F2 [2]*big.Int

func (a F2) Zero() bool     { return a[0].Sign() == 0 && a[1].Sign() == 0 }
func (a F2) Eq(b F2) bool   { return a[0].Cmp(b[0]) == 0 && a[1].Cmp(b[1]) == 0 }
func f2add(a, b F2) F2      { return F2{fadd(a[0], b[0]), fadd(a[1], b[1])} }
func f2sub(a, b F2) F2      { return F2{fsub(a[0], b[0]), fsub(a[1], b[1])} }
func f2neg(a F2) F2         { return f2sub(F2{new(big.Int), new(big.Int)}, a) }
func f2small(x, y int64) F2 { return F2{fm(big.NewInt(x)), fm(big.NewInt(y))} }
func f2mul(a, b F2) F2 {
	return F2{fsub(fmul(a[0], b[0]), fmul(a[1], b[1])), fadd(fmul(a[0], b[1]), fmul(a[1], b[0]))}
}
func f2inv(a F2) F2 {
	n := finv(fadd(fmul(a[0], a[0]), fmul(a[1], a[1])))
	return F2{fmul(a[0], n), fmul(fsub(new(big.Int), a[1]), n)}
}
func f2sqrt(a F2) (F2, bool) {
	if a.Zero() {
		return a, true
	}
	// norm n = a0^2+a1^2 must be a square; x0^2 = (a0 +- sqrt n)/2
	n := fadd(fmul(a[0], a[0]), fmul(a[1], a[1]))
	s := new(big.Int).ModSqrt(n, BLSP)
	if s == nil {
		return a, false
	}
	half := finv(big.NewInt(2))
	for i := 0; i < 2; i++ {
		t := fmul(fadd(a[0], s), half)
		if r := new(big.Int).ModSqrt(t, BLSP); r != nil {
			var x F2
			if r.Sign() == 0 {
				q := new(big.Int).ModSqrt(fsub(new(big.Int), a[0]), BLSP)
				if q == nil {
					goto next
				}
				x = F2{new(big.Int), q}
			} else {
				x = F2{r, fmul(a[1], finv(fadd(r, r)))}
			}
			if f2mul(x, x).Eq(a) {
				return x, true
			}
		}
	next:
		s = fsub(new(big.Int), s)
	}
	return a, false
}

type G1Pt struct {
	X, Y *big.Int
	Inf  bool
}
type G2Pt struct {
	X, Y F2
	Inf  bool
}

func (p G1Pt) On() bool {
	return p.Inf || fmul(p.Y, p.Y).Cmp(fadd(fmul(fmul(p.X, p.X), p.X), big.NewInt(4))) == 0
}
func (p G2Pt) On() bool {
	return p.Inf || f2mul(p.Y, p.Y).Eq(f2add(f2mul(f2mul(p.X, p.X), p.X), f2small(4, 4)))
}
func G1Neg(p G1Pt) G1Pt {
	if p.Inf {
		return p
	}
	return G1Pt{X: p.X, Y: fsub(new(big.Int), p.Y)}
}
func G2Neg(p G2Pt) G2Pt {
	if p.Inf {
		return p
	}
	return G2Pt{X: p.X, Y: f2neg(p.Y)}
}
func G1Eq(p, q G1Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}
func G2Eq(p, q G2Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Eq(q.X) && p.Y.Eq(q.Y)
}

// g1addA adds on y^2=x^3+ax+b for the given a (needed on the isogenous curve).
func g1addA(p, q G1Pt, a *big.Int) G1Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		if fadd(p.Y, q.Y).Sign() == 0 {
			return G1Pt{Inf: true}
		}
		x2 := fmul(p.X, p.X)
		l = fmul(fadd(fadd(fadd(x2, x2), x2), a), finv(fadd(p.Y, p.Y)))
	} else {
		l = fmul(fsub(q.Y, p.Y), finv(fsub(q.X, p.X)))
	}
	x := fsub(fsub(fmul(l, l), p.X), q.X)
	return G1Pt{X: x, Y: fsub(fmul(l, fsub(p.X, x)), p.Y)}
}
func g2addA(p, q G2Pt, a F2) G2Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l F2
	if p.X.Eq(q.X) {
		if f2add(p.Y, q.Y).Zero() {
			return G2Pt{Inf: true}
		}
		x2 := f2mul(p.X, p.X)
		l = f2mul(f2add(f2add(f2add(x2, x2), x2), a), f2inv(f2add(p.Y, p.Y)))
	} else {
		l = f2mul(f2sub(q.Y, p.Y), f2inv(f2sub(q.X, p.X)))
	}
	x := f2sub(f2sub(f2mul(l, l), p.X), q.X)
	return G2Pt{X: x, Y: f2sub(f2mul(l, f2sub(p.X, x)), p.Y)}
}
func G1Add(p, q G1Pt) G1Pt { return g1addA(p, q, new(big.Int)) }
func G2Add(p, q G2Pt) G2Pt { return g2addA(p, q, f2small(0, 0)) }
func G1Mul(p G1Pt, k *big.Int) G1Pt {
	r := G1Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = G1Add(r, r)
		if k.Bit(i) == 1 {
			r = G1Add(r, p)
		}
	}
	return r
}
func G2Mul(p G2Pt, k *big.Int) G2Pt {
	r := G2Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = G2Add(r, r)
		if k.Bit(i) == 1 {
			r = G2Add(r, p)
		}
	}
	return r
}
func (p G1Pt) InSub() bool { return G1Mul(p, BLSR).Inf }
func (p G2Pt) InSub() bool { return G2Mul(p, BLSR).Inf }

func b48(x *big.Int) []byte { return x.FillBytes(make([]byte, 48)) }

// G1Comp and G2Comp are the ZCash/IETF compressed encodings.
func G1Comp(p G1Pt) []byte {
	if p.Inf {
		return append([]byte{0xc0}, make([]byte, 47)...)
	}
	o := b48(p.X)
	o[0] |= 0x80
	if p.Y.Cmp(blsHalf) > 0 {
		o[0] |= 0x20
	}
	return o
}
func f2big(y F2) bool {
	if y[1].Sign() != 0 {
		return y[1].Cmp(blsHalf) > 0
	}
	return y[0].Cmp(blsHalf) > 0
}
func G2Comp(p G2Pt) []byte {
	if p.Inf {
		return append([]byte{0xc0}, make([]byte, 95)...)
	}
	o := append(b48(p.X[1]), b48(p.X[0])...)
	o[0] |= 0x80
	if f2big(p.Y) {
		o[0] |= 0x20
	}
	return o
}
func G1Unc(p G1Pt) []byte {
	if p.Inf {
		return append([]byte{0x40}, make([]byte, 95)...)
	}
	return append(b48(p.X), b48(p.Y)...)
}
func G2Unc(p G2Pt) []byte {
	if p.Inf {
		return append([]byte{0x40}, make([]byte, 191)...)
	}
	o := append(b48(p.X[1]), b48(p.X[0])...)
	return append(append(o, b48(p.Y[1])...), b48(p.Y[0])...)
}

// G1Lift / G2Lift return a curve point (any subgroup) with the given x.
func G1Lift(x *big.Int, big_ bool) (G1Pt, bool) {
	y := new(big.Int).ModSqrt(fadd(fmul(fmul(x, x), x), big.NewInt(4)), BLSP)
	if y == nil {
		return G1Pt{}, false
	}
	if (y.Cmp(blsHalf) > 0) != big_ {
		y = fsub(new(big.Int), y)
	}
	return G1Pt{X: x, Y: y}, true
}
func G2Lift(x F2, big_ bool) (G2Pt, bool) {
	y, ok := f2sqrt(f2add(f2mul(f2mul(x, x), x), f2small(4, 4)))
	if !ok {
		return G2Pt{}, false
	}
	if f2big(y) != big_ {
		y = f2neg(y)
	}
	return G2Pt{X: x, Y: y}, true
}

// G1Dec / G2Dec decode compressed encodings strictly: canonical flags, x < p,
// on the curve, in the prime-order subgroup.
func G1Dec(b []byte) (G1Pt, bool) {
	if len(b) != 48 || b[0]&0x80 == 0 {
		return G1Pt{}, false
	}
	if b[0]&0x40 != 0 {
		return G1Pt{Inf: true}, b[0] == 0xc0 && allZero(b[1:])
	}
	c := append([]byte{}, b...)
	c[0] &= 0x1f
	x := new(big.Int).SetBytes(c)
	if x.Cmp(BLSP) >= 0 {
		return G1Pt{}, false
	}
	p, ok := G1Lift(x, b[0]&0x20 != 0)
	if !ok || !p.InSub() {
		return G1Pt{}, false
	}
	return p, true
}
func G2Dec(b []byte) (G2Pt, bool) {
	if len(b) != 96 || b[0]&0x80 == 0 {
		return G2Pt{}, false
	}
	if b[0]&0x40 != 0 {
		return G2Pt{Inf: true}, b[0] == 0xc0 && allZero(b[1:])
	}
	c := append([]byte{}, b...)
	c[0] &= 0x1f
	x := F2{new(big.Int).SetBytes(c[48:]), new(big.Int).SetBytes(c[:48])}
	if x[0].Cmp(BLSP) >= 0 || x[1].Cmp(BLSP) >= 0 {
		return G2Pt{}, false
	}
	p, ok := G2Lift(x, b[0]&0x20 != 0)
	if !ok || !p.InSub() {
		return G2Pt{}, false
	}
	return p, true
}

// ExpandXMD is RFC 9380 expand_message_xmd with SHA-256 (DST <= 255 bytes).
func ExpandXMD(msg, dst []byte, n int) []byte {
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	h := sha256.New()
	h.Write(make([]byte, 64))
	h.Write(msg)
	h.Write([]byte{byte(n >> 8), byte(n), 0})
	h.Write(dp)
	b0 := h.Sum(nil)
	var out, prev []byte
	prev = make([]byte, 32)
	for i := 1; len(out) < n; i++ {
		h.Reset()
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		h.Write(x)
		h.Write([]byte{byte(i)})
		h.Write(dp)
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	return out[:n]
}

func hashToFp(msg, dst []byte, n int) []*big.Int {
	u := ExpandXMD(msg, dst, 64*n)
	var o []*big.Int
	for i := 0; i < n; i++ {
		o = append(o, fm(new(big.Int).SetBytes(u[64*i:64*i+64])))
	}
	return o
}

var (
	sswuA2 = f2small(0, 240)
	sswuB2 = f2small(1012, 1012)
	sswuZ2 = f2small(-2, -1)
	sswuA1 = hx("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
	sswuB1 = hx("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
	sswuZ1 = big.NewInt(11)
)

func f2sgn(x F2) uint {
	if x[0].Sign() != 0 {
		return x[0].Bit(0)
	}
	return x[1].Bit(0)
}
func f2g(x F2, a, b F2) F2 { return f2add(f2add(f2mul(f2mul(x, x), x), f2mul(a, x)), b) }

func sswu2(u F2) G2Pt {
	t := f2mul(sswuZ2, f2mul(u, u))
	d := f2add(f2mul(t, t), t)
	mb := f2neg(sswuB2)
	var x1 F2
	if d.Zero() {
		x1 = f2mul(sswuB2, f2inv(f2mul(sswuZ2, sswuA2)))
	} else {
		x1 = f2mul(f2mul(mb, f2inv(sswuA2)), f2add(f2small(1, 0), f2inv(d)))
	}
	x := x1
	y, ok := f2sqrt(f2g(x1, sswuA2, sswuB2))
	if !ok {
		x = f2mul(t, x1)
		y, ok = f2sqrt(f2g(x, sswuA2, sswuB2))
		if !ok {
			panic("sswu2")
		}
	}
	if f2sgn(u) != f2sgn(y) {
		y = f2neg(y)
	}
	return G2Pt{X: x, Y: y}
}
func sswu1(u *big.Int) G1Pt {
	t := fmul(sswuZ1, fmul(u, u))
	d := fadd(fmul(t, t), t)
	var x1 *big.Int
	if d.Sign() == 0 {
		x1 = fmul(sswuB1, finv(fmul(sswuZ1, sswuA1)))
	} else {
		x1 = fmul(fmul(fsub(new(big.Int), sswuB1), finv(sswuA1)), fadd(big.NewInt(1), finv(d)))
	}
	g := func(x *big.Int) *big.Int { return fadd(fadd(fmul(fmul(x, x), x), fmul(sswuA1, x)), sswuB1) }
	x := x1
	y := new(big.Int).ModSqrt(g(x1), BLSP)
	if y == nil {
		x = fmul(t, x1)
		y = new(big.Int).ModSqrt(g(x), BLSP)
		if y == nil {
			panic("sswu1")
		}
	}
	if u.Bit(0) != y.Bit(0) {
		y = fsub(new(big.Int), y)
	}
	return G1Pt{X: x, Y: y}
}

func iso2(p G2Pt) G2Pt {
	if p.Inf {
		return p
	}
	var v [4]F2
	for k := 0; k < 4; k++ {
		acc := f2small(0, 0)
		for i := len(isoG2[k]) - 1; i >= 0; i-- {
			acc = f2add(f2mul(acc, p.X), isoG2[k][i])
		}
		v[k] = acc
	}
	if v[1].Zero() || v[3].Zero() {
		return G2Pt{Inf: true}
	}
	return G2Pt{X: f2mul(v[0], f2inv(v[1])), Y: f2mul(p.Y, f2mul(v[2], f2inv(v[3])))}
}
func iso1(p G1Pt) G1Pt {
	if p.Inf {
		return p
	}
	var v [4]*big.Int
	for k := 0; k < 4; k++ {
		acc := new(big.Int)
		for i := len(isoG1[k]) - 1; i >= 0; i-- {
			acc = fadd(fmul(acc, p.X), isoG1[k][i])
		}
		v[k] = acc
	}
	if v[1].Sign() == 0 || v[3].Sign() == 0 {
		return G1Pt{Inf: true}
	}
	return G1Pt{X: fmul(v[0], finv(v[1])), Y: fmul(p.Y, fmul(v[2], finv(v[3])))}
}

// HashG2 is BLS12381G2_XMD:SHA-256_SSWU_RO_ of RFC 9380; EncodeG2 the NU variant.
func HashG2(msg, dst []byte) G2Pt {
	u := hashToFp(msg, dst, 4)
	q0, q1 := sswu2(F2{u[0], u[1]}), sswu2(F2{u[2], u[3]})
	return G2Mul(G2Add(iso2(q0), iso2(q1)), heff2)
}
func EncodeG2(msg, dst []byte) G2Pt {
	u := hashToFp(msg, dst, 2)
	return G2Mul(iso2(sswu2(F2{u[0], u[1]})), heff2)
}
func HashG1(msg, dst []byte) G1Pt {
	u := hashToFp(msg, dst, 2)
	return G1Mul(G1Add(iso1(sswu1(u[0])), iso1(sswu1(u[1]))), heff1)
}
func EncodeG1(msg, dst []byte) G1Pt {
	return G1Mul(iso1(sswu1(hashToFp(msg, dst, 1)[0])), heff1)
}
func MapG1(u *big.Int) G1Pt { return G1Mul(iso1(sswu1(u)), heff1) }
func ClearG1(p G1Pt) G1Pt   { return G1Mul(p, heff1) }
func ClearG2(p G2Pt) G2Pt   { return G2Mul(p, heff2) }

// BLSSign is sk*H(msg).
func BLSSign(sk *big.Int, msg, dst []byte) []byte { return G2Comp(G2Mul(HashG2(msg, dst), sk)) }

func F2Mul(a, b F2) F2 { return f2mul(a, b) }
func F2Inv(a F2) F2    { return f2inv(a) }
