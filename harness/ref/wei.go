// Package ref holds reference models that share no code with the library under
// test: plain big.Int arithmetic written from the public specifications.
package ref

import (
	"math/big"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return v
}

// Curve is y^2 = x^3 + A x + B over GF(P), group order N (prime), cofactor 1.
type Curve struct {
	Name       string
	P, A, B, N *big.Int
	G          Pt
	dbl        []Pt // 2^i * G
}

// Pt is an affine point; Inf marks the identity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

func mk(name, p, a, b, n, gx, gy string) *Curve {
	c := &Curve{Name: name, P: hx(p), A: hx(a), B: hx(b), N: hx(n)}
	c.G = Pt{X: hx(gx), Y: hx(gy)}
	d := c.G
	for i := 0; i < 256; i++ {
		c.dbl = append(c.dbl, d)
		d = c.Add(d, d)
	}
	return c
}

var (
	K1 = mk("secp256k1",
		"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
		"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
		"483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	R1 = mk("secp256r1",
		"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
		"ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
		"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
		"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
		"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
		"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
	SM2 = mk("sm2",
		"fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff",
		"fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc",
		"28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93",
		"fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123",
		"32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7",
		"bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")
	Pallas = mkPallas()
)

func mkPallas() *Curve {
	p := hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
	c := &Curve{Name: "pallas", P: p, A: new(big.Int), B: big.NewInt(5),
		N: hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")}
	// generator used by Mina: (1, 0x1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb)
	c.G = Pt{X: big.NewInt(1), Y: hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")}
	if !c.On(c.G) {
		panic("pallas generator")
	}
	d := c.G
	for i := 0; i < 256; i++ {
		c.dbl = append(c.dbl, d)
		d = c.Add(d, d)
	}
	return c
}

func (c *Curve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	t := new(big.Int).Mul(c.A, x)
	r.Add(r, t)
	r.Add(r, c.B)
	return r.Mod(r, c.P)
}

// On reports whether p is a finite point with reduced coordinates on the curve.
func (c *Curve) On(p Pt) bool {
	if p.Inf || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(c.P) >= 0 || p.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	l.Mod(l, c.P)
	return l.Cmp(c.rhs(p.X)) == 0
}

func (c *Curve) Neg(p Pt) Pt {
	if p.Inf {
		return p
	}
	y := new(big.Int).Sub(c.P, p.Y)
	y.Mod(y, c.P)
	return Pt{X: new(big.Int).Set(p.X), Y: y}
}

func (c *Curve) Add(p, q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		s.Mod(s, c.P)
		if s.Sign() == 0 {
			return Pt{Inf: true}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		num.Add(num, c.A)
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	den.Mod(den, c.P)
	den.ModInverse(den, c.P)
	l := num.Mul(num, den)
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, c.P)
	return Pt{X: x, Y: y}
}

// Mul computes k*p for any non-negative k (k is not reduced).
func (c *Curve) Mul(k *big.Int, p Pt) Pt {
	r := Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, p)
		}
	}
	return r
}

// MulG computes k*G, k reduced mod N.
func (c *Curve) MulG(k *big.Int) Pt {
	k = new(big.Int).Mod(k, c.N)
	r := Pt{Inf: true}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = c.Add(r, c.dbl[i])
		}
	}
	return r
}

// Lift returns the point with the given x and y parity, if there is one.
func (c *Curve) Lift(x *big.Int, odd uint) (Pt, bool) {
	if x.Sign() < 0 || x.Cmp(c.P) >= 0 {
		return Pt{}, false
	}
	r := c.rhs(x)
	y := new(big.Int)
	if r.Sign() != 0 {
		if big.Jacobi(r, c.P) != 1 {
			return Pt{}, false
		}
		y = y.ModSqrt(r, c.P)
	}
	if y.Bit(0) != odd {
		y = new(big.Int).Sub(c.P, y)
		y.Mod(y, c.P)
	}
	if y.Bit(0) != odd { // y = 0 and odd requested
		return Pt{}, false
	}
	return Pt{X: new(big.Int).Set(x), Y: y}, true
}

func B32(v *big.Int) []byte {
	out := make([]byte, 32)
	b := v.Bytes()
	if len(b) > 32 {
		panic("B32 overflow")
	}
	copy(out[32-len(b):], b)
	return out
}

func (p Pt) XY() []byte { return append(B32(p.X), B32(p.Y)...) }
func (p Pt) Unc() []byte {
	return append([]byte{4}, p.XY()...)
}
func (p Pt) Comp() []byte {
	return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...)
}

// ParseXY reads X||Y; ok only for points on the curve.
func (c *Curve) ParseXY(b []byte) (Pt, bool) {
	if len(b) != 64 {
		return Pt{}, false
	}
	p := Pt{X: new(big.Int).SetBytes(b[:32]), Y: new(big.Int).SetBytes(b[32:])}
	return p, c.On(p)
}

func Eq(p, q Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// ---------------------------------------------------------------- ECDSA

// ECDSASign signs digest with private key d and nonce k; no low-s rule. ok is
// false when k is unusable.
func (c *Curve) ECDSASign(d, k *big.Int, digest []byte) (r, s *big.Int, R Pt, ok bool) {
	k = new(big.Int).Mod(k, c.N)
	if k.Sign() == 0 {
		return
	}
	R = c.MulG(k)
	r = new(big.Int).Mod(R.X, c.N)
	if r.Sign() == 0 {
		return
	}
	e := new(big.Int).SetBytes(digest)
	s = new(big.Int).Mul(r, d)
	s.Add(s, e)
	s.Mul(s, new(big.Int).ModInverse(k, c.N))
	s.Mod(s, c.N)
	if s.Sign() == 0 {
		return
	}
	return r, s, R, true
}

// ECDSAVerify is the FIPS 186 verification equation.
func (c *Curve) ECDSAVerify(Q Pt, digest []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 || !c.On(Q) {
		return false
	}
	e := new(big.Int).SetBytes(digest)
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mul(e, w)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, c.N)
	R := c.Add(c.MulG(u1), c.Mul(u2, Q))
	if R.Inf {
		return false
	}
	v := new(big.Int).Mod(R.X, c.N)
	return v.Cmp(r) == 0
}

// ECDSAPoint returns the nonce point R = s^-1 (eG + rQ).
func (c *Curve) ECDSAPoint(Q Pt, digest []byte, r, s *big.Int) Pt {
	e := new(big.Int).SetBytes(digest)
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mul(e, w)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, c.N)
	return c.Add(c.MulG(u1), c.Mul(u2, Q))
}

// LiftY returns a point with the given y, when x^3 + A x + B - y^2 has exactly
// one root.
func (c *Curve) LiftY(y *big.Int) (Pt, bool) {
	P := c.P
	k := new(big.Int).Mul(y, y) // x^3 = k - A x with k = y^2 - B
	k.Sub(k, c.B).Mod(k, P)
	type poly [3]*big.Int
	mulp := func(a, b poly) poly {
		var t [5]*big.Int
		for i := range t {
			t[i] = new(big.Int)
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				t[i+j].Add(t[i+j], new(big.Int).Mul(a[i], b[j]))
			}
		}
		for i := 4; i > 2; i-- {
			t[i].Mod(t[i], P)
			t[i-2].Sub(t[i-2], new(big.Int).Mul(t[i], c.A))
			t[i-3].Add(t[i-3], new(big.Int).Mul(t[i], k))
		}
		var r poly
		for i := range r {
			r[i] = t[i].Mod(t[i], P)
		}
		return r
	}
	zero := func() *big.Int { return new(big.Int) }
	x := poly{zero(), big.NewInt(1), zero()}
	e := poly{big.NewInt(1), zero(), zero()}
	for i := P.BitLen() - 1; i >= 0; i-- {
		e = mulp(e, e)
		if P.Bit(i) == 1 {
			e = mulp(e, x)
		}
	}
	e[1].Sub(e[1], big.NewInt(1)).Mod(e[1], P)
	// gcd(f, e): e has degree at most 2
	if e[2].Sign() == 0 {
		if e[1].Sign() == 0 {
			return Pt{}, false
		}
		r := new(big.Int).ModInverse(e[1], P)
		r.Mul(r, e[0]).Neg(r).Mod(r, P)
		p := Pt{X: r, Y: new(big.Int).Set(y)}
		return p, c.On(p)
	}
	// one root: f mod e is the linear factor times a constant
	inv := new(big.Int).ModInverse(e[2], P)
	b := new(big.Int).Mul(e[1], inv)
	d := new(big.Int).Mul(e[0], inv)
	b.Mod(b, P)
	d.Mod(d, P)
	// x^3 + A x - k modulo x^2 + b x + d
	l1 := new(big.Int).Mul(b, b)
	l1.Sub(l1, d).Add(l1, c.A).Mod(l1, P)
	l0 := new(big.Int).Mul(b, d)
	l0.Sub(l0, k).Mod(l0, P)
	if l1.Sign() == 0 {
		return Pt{}, false
	}
	r := new(big.Int).ModInverse(l1, P)
	r.Mul(r, l0).Neg(r).Mod(r, P)
	p := Pt{X: r, Y: new(big.Int).Set(y)}
	return p, p.Y.Cmp(P) < 0 && c.On(p)
}
