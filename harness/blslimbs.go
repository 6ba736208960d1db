package main

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"pgregory.net/rapid"
	"verif/ref"
)

// Field elements stored as edge-case limbs. bls.E, bls.PointG1 and bls.PointG2
// are arrays that a caller can fill, so every element of the field can be put
// into the arithmetic directly, in whatever multiple of it the library stores:
// one tells the factor.

var blsWidths = []uint{64, 64, 64, 64, 64, 64}

func blsLimb(t *rapid.T, l string) *big.Int { return limbs(t, ref.BLSP, 384, blsWidths, l) }

func blsF2(t *rapid.T, l string) ref.F2 {
	v := ref.F2{blsLimb(t, l+"0"), blsLimb(t, l+"1")}
	if k := pick(t, 4, l+"z"); k < 2 {
		v[k] = n64(0)
	}
	return v
}

// limbStep: one more in the top limb.
var limbStep = new(big.Int).ModInverse(lsh(64), ref.BLSP)

// limbG1 draws a point whose projective X, with the given Z, is stored as
// edge-case limbs.
func limbG1(t *rapid.T, z *big.Int, l string) ref.G1Pt {
	v := blsLimb(t, l+"x")
	zi := new(big.Int).ModInverse(mod(mul(z, z), ref.BLSP), ref.BLSP)
	for {
		if p, ok := ref.G1Lift(mod(mul(v, zi), ref.BLSP), pick(t, 2, l+"s") == 1); ok {
			return p
		}
		v = mod(add(v, limbStep), ref.BLSP)
	}
}

func limbG2(t *rapid.T, z ref.F2, l string) ref.G2Pt {
	v := blsF2(t, l+"x")
	zi := ref.F2Inv(ref.F2Mul(z, z))
	for {
		if p, ok := ref.G2Lift(ref.F2Mul(v, zi), pick(t, 2, l+"s") == 1); ok {
			return p
		}
		v[0] = mod(add(v[0], limbStep), ref.BLSP)
	}
}

func store(v, one *big.Int) (o [6]uint64) {
	w := mod(mul(v, one), ref.BLSP)
	m := sub(lsh(64), bigOne)
	for i := range o {
		o[i] = new(big.Int).And(w, m).Uint64()
		w.Rsh(w, 64)
	}
	return
}

func load(o [6]uint64, one *big.Int) (*big.Int, bool) {
	v := new(big.Int)
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(o[i]))
	}
	if v.Cmp(ref.BLSP) >= 0 {
		return nil, false
	}
	return mod(mul(v, new(big.Int).ModInverse(one, ref.BLSP)), ref.BLSP), true
}

func oneLimbs() *big.Int {
	v := new(big.Int)
	o := bls.NewGT().One()
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(o[0][0][0][i]))
	}
	return v
}

type fieldCase struct {
	A, B B // twelve coefficients each, 48 bytes
}

type repCase struct {
	G2     bool
	P, Q   B // affine
	ZP, ZQ B // projective factors
	K      B
	Kind   string
}

func init() {
	F("B03", "limbs", "every case: tower arithmetic on elements whose coefficients are stored as edge-case limbs, against the reference tower", 4000, 150000, func(t *rapid.T) fieldCase {
		var c fieldCase
		el := func(l string) (o B) {
			dense := pick(t, 3, l+"dense") == 0
			for i := 0; i < 12; i++ {
				v := n64(0)
				if dense || pick(t, 4, l+"nz") == 0 {
					v = blsLimb(t, l)
				}
				o = append(o, v.FillBytes(make([]byte, 48))...)
			}
			return o
		}
		c.A = el("a")
		c.B = el("b")
		switch pick(t, 6, "same") {
		case 0:
			c.B = cp(c.A)
		case 1, 2: // special results, coefficient by coefficient
			for i := 0; i < 576; i += 48 {
				chosen(t, ref.BLSP, bi(c.A[i:i+48]), bi(c.B[i:i+48])).FillBytes(c.B[i : i+48])
			}
		}
		return c
	}, func(c fieldCase, x *Ctx) error {
		x.NT()
		gt := bls.NewGT()
		one := oneLimbs()
		mk := func(b B) (*bls.E, ref.F12) {
			e := gt.New()
			var r ref.F12
			for i := 0; i < 12; i++ {
				v := mod(bi(b[48*i:48*i+48]), ref.BLSP)
				e[i/6][i/2%3][i%2] = store(v, one)
				r[i/6][i/2%3][i%2] = v
			}
			return e, r
		}
		a, A := mk(c.A)
		b, Bv := mk(c.B)
		eq := func(what string, e *bls.E, w ref.F12) error {
			for i := 0; i < 12; i++ {
				v, ok := load(e[i/6][i/2%3][i%2], one)
				if !ok {
					return errf("GT %s of %x and %x: coefficient %d is not reduced", what, c.A, c.B, i)
				}
				if v.Cmp(w[i/6][i/2%3][i%2]) != 0 {
					return errf("GT %s of %x and %x: coefficient %d is %x, want %x", what, c.A, c.B, i, v, w[i/6][i/2%3][i%2])
				}
			}
			if !eqb(gt.ToBytes(e), ref.F12Bytes(w)) {
				return errf("GT %s of %x and %x: bytes %x, want %x", what, c.A, c.B, gt.ToBytes(e), ref.F12Bytes(w))
			}
			return nil
		}
		o := gt.New()
		w := ref.F12Mul(A, Bv)
		gt.Mul(o, a, b)
		if err := eq("Mul", o, w); err != nil {
			return err
		}
		gt.Copy(o, a)
		gt.Mul(o, o, b)
		if err := eq("Mul in place", o, w); err != nil {
			return err
		}
		gt.Mul(o, a, a)
		if err := eq("Mul by itself", o, ref.F12Mul(A, A)); err != nil {
			return err
		}
		gt.Add(o, a, b)
		if err := eq("Add", o, ref.F12Add(A, Bv)); err != nil {
			return err
		}
		gt.Sub(o, a, b)
		if err := eq("Sub", o, ref.F12Sub(A, Bv)); err != nil {
			return err
		}
		if gt.Equal(a, b) != eqb(c.A, c.B) {
			return errf("GT Equal of %x and %x = %v", c.A, c.B, gt.Equal(a, b))
		}
		nz := false
		for _, v := range c.A {
			nz = nz || v != 0
		}
		if nz {
			gt.Inverse(o, a)
			if err := eq("Inverse", o, ref.F12Inv(A)); err != nil {
				return err
			}
		}
		if err := eq("operand a", a, A); err != nil {
			return err
		}
		return eq("operand b", b, Bv)
	})

	F("B03", "projective", "every case: group operations on points whose projective coordinates are stored as edge-case limbs, against the reference group", 2200, 60000, func(t *rapid.T) repCase {
		c := repCase{G2: pick(t, 2, "g2") == 1, K: b32(n64(int64(pick(t, 1<<16, "k"))))}
		z := func(l string) []byte {
			if c.G2 {
				v := blsF2(t, l)
				if v.Zero() || pick(t, 4, l+"one") == 0 {
					v = ref.F2{n64(1), n64(0)}
				}
				return append(v[1].FillBytes(make([]byte, 48)), v[0].FillBytes(make([]byte, 48))...)
			}
			v := blsLimb(t, l)
			if v.Sign() == 0 || pick(t, 4, l+"one") == 0 {
				v = n64(1)
			}
			return v.FillBytes(make([]byte, 48))
		}
		c.ZP, c.ZQ = z("zp"), z("zq")
		pt := func(z []byte, l string) []byte {
			if c.G2 {
				return ref.G2Unc(limbG2(t, ref.F2{bi(z[48:]), bi(z[:48])}, l))
			}
			return ref.G1Unc(limbG1(t, bi(z), l))
		}
		c.P, c.Q = pt(c.ZP, "p"), pt(c.ZQ, "q")
		switch pick(t, 8, "rel") {
		case 0:
			c.Q = cp(c.P)
			c.Kind = "equal points"
		case 1:
			c.Kind = "opposite points"
			if c.G2 {
				c.Q = ref.G2Unc(ref.G2Neg(parse2(c.P)))
			} else {
				c.Q = ref.G1Unc(ref.G1Neg(parse1(c.P)))
			}
		}
		return c
	}, func(c repCase, x *Ctx) error {
		x.NT()
		if c.Kind != "" {
			x.Label(c.Kind)
		}
		one := oneLimbs()
		m := func(a, b *big.Int) *big.Int { return mod(mul(a, b), ref.BLSP) }
		k := bi(c.K)
		if !c.G2 {
			g := bls.NewG1()
			mk := func(b, zb B) (*bls.PointG1, ref.G1Pt) {
				p, z := parse1(b), bi(zb)
				o := g.New()
				z2 := m(z, z)
				o[0], o[1], o[2] = store(m(p.X, z2), one), store(m(p.Y, m(z2, z)), one), store(z, one)
				return o, p
			}
			p, P := mk(c.P, c.ZP)
			q, Q := mk(c.Q, c.ZQ)
			if err := want1("a projective representation", p, P); err != nil {
				return err
			}
			if g.Equal(p, q) != eqb(c.P, c.Q) {
				return errf("G1 Equal of %x (z %x) and %x (z %x) = %v", c.P, c.ZP, c.Q, c.ZQ, g.Equal(p, q))
			}
			o := g.New()
			for _, s := range []struct {
				name string
				run  func()
				want ref.G1Pt
			}{
				{"Add", func() { g.Add(o, p, q) }, ref.G1Add(P, Q)},
				{"Sub", func() { g.Sub(o, p, q) }, ref.G1Add(P, ref.G1Neg(Q))},
				{"Double", func() { g.Double(o, p) }, ref.G1Add(P, P)},
				{"Neg", func() { g.Neg(o, p) }, ref.G1Neg(P)},
				{"MulScalar", func() { g.MulScalar(o, p, k) }, ref.G1Mul(P, k)},
			} {
				s.run()
				if err := want1("G1 "+s.name+" of "+errf("%x (z %x) and %x (z %x), k %x", c.P, c.ZP, c.Q, c.ZQ, c.K).Error(), o, s.want); err != nil {
					return err
				}
			}
			return nil
		}
		g := bls.NewG2(nil)
		st := func(v ref.F2) (a, b [6]uint64) { return store(v[0], one), store(v[1], one) }
		mk := func(b, zb B) (*bls.PointG2, ref.G2Pt) {
			p, z := parse2(b), ref.F2{bi(zb[48:]), bi(zb[:48])}
			o := g.New()
			z2 := ref.F2Mul(z, z)
			X, Y := ref.F2Mul(p.X, z2), ref.F2Mul(p.Y, ref.F2Mul(z2, z))
			o[0][0], o[0][1] = st(X)
			o[1][0], o[1][1] = st(Y)
			o[2][0], o[2][1] = st(z)
			return o, p
		}
		p, P := mk(c.P, c.ZP)
		q, Q := mk(c.Q, c.ZQ)
		if err := want2("a projective representation", p, P); err != nil {
			return err
		}
		if g.Equal(p, q) != eqb(c.P, c.Q) {
			return errf("G2 Equal of %x (z %x) and %x (z %x) = %v", c.P, c.ZP, c.Q, c.ZQ, g.Equal(p, q))
		}
		o := g.New()
		for _, s := range []struct {
			name string
			run  func()
			want ref.G2Pt
		}{
			{"Add", func() { g.Add(o, p, q) }, ref.G2Add(P, Q)},
			{"Sub", func() { g.Sub(o, p, q) }, ref.G2Add(P, ref.G2Neg(Q))},
			{"Double", func() { g.Double(o, p) }, ref.G2Add(P, P)},
			{"Neg", func() { g.Neg(o, p) }, ref.G2Neg(P)},
			{"MulScalar", func() { g.MulScalar(o, p, k) }, ref.G2Mul(P, k)},
		} {
			s.run()
			if err := want2("G2 "+s.name+" of "+errf("%x (z %x) and %x (z %x), k %x", c.P, c.ZP, c.Q, c.ZQ, c.K).Error(), o, s.want); err != nil {
				return err
			}
		}
		return nil
	})
}
