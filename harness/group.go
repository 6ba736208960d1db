package main

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	e "github.com/blocktree/go-owcrypt/eddsa/edwards25519"
	"pgregory.net/rapid"

	"verif/ref"
)

const (
	tEd   = ow.ECC_CURVE_ED25519
	tEdN  = ow.ECC_CURVE_ED25519_NORMAL
	tX    = ow.ECC_CURVE_X25519
	tKC   = ow.ECC_CURVE_CURVE25519_SHA256
	tNUL  = ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL
	tAUG  = ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
	tPas  = ow.ECC_CURVE_PASTA
	tK1   = ow.ECC_CURVE_SECP256K1
	tR1   = ow.ECC_CURVE_SECP256R1
	noTyp = 0x12345678
)

// anyScalar draws a 32-byte integer: 0, around multiples of N, structured or
// uniform, not necessarily reduced.
func anyScalar(t *rapid.T, N *big.Int, l string) *big.Int {
	max := sub(lsh(256), bigOne)
	clip := func(v *big.Int) *big.Int {
		if v.Sign() < 0 {
			return new(big.Int)
		}
		if v.Cmp(max) > 0 {
			return max
		}
		return v
	}
	switch k := pick(t, 12, l+"k"); {
	case k < 4:
		return scalar(t, N, l)
	case k < 6: // around small multiples of N
		q := new(big.Int).Div(max, N).Int64()
		m := n64(int64(pick(t, int(min(q, 20))+1, l+"m")))
		return clip(add(mul(m, N), n64(int64(pick(t, 9, l+"d")-4))))
	case k < 7:
		return clip(sub(max, n64(int64(pick(t, 6, l+"top")))))
	case k < 8:
		return n64(int64(pick(t, 66, l+"sm")))
	case k < 10:
		return pattern(t, 256, l)
	}
	return bi(uniform(t, 32, l))
}

type ptCase struct {
	C    int // wei4
	P, Q B   // 64 bytes
	EP   int // encoding of P: 0 X||Y, 1 04||X||Y, 2 compressed
	EQ   int
	K    B // scalar
	Kind string
}

func encPt(xy []byte, how int) []byte {
	switch how {
	case 1:
		return cat([]byte{4}, xy)
	case 2:
		return cat([]byte{2 + xy[63]&1}, xy[:32])
	}
	return cp(xy)
}

func parsePt(c wcurve, xy []byte) ref.Pt {
	p, ok := c.c.ParseXY(xy)
	if !ok {
		panic("parsePt")
	}
	return p
}

func encKind(t *rapid.T, l string) int {
	k := pick(t, 6, l)
	if k > 2 {
		return 0
	}
	return k
}

// wantPt compares a library result with the group-law result.
func wantPt(what string, got []byte, st uint16, want ref.Pt) error {
	if want.Inf {
		if err := refused(st, got); err != nil {
			return errf("%s at infinity: %v", what, err)
		}
		return nil
	}
	if st != ow.SUCCESS || !eqb(got, want.XY()) {
		return errf("%s = %x, %#x; want %x", what, got, st, want.XY())
	}
	return nil
}

var curveNames = map[uint32]string{tK1: "secp256k1", tR1: "secp256r1", tSM2: "sm2_std"}

type edPtCase struct {
	P, Q B
	K    B
	Kind string
}

// edPoint draws an encoding of a curve point: prime-order, with torsion, or of
// small order.
func edPoint(t *rapid.T, l string) B {
	p := ref.EdMulB(ref.LE(edPriv(t, l+"s")))
	switch pick(t, 6, l+"k") {
	case 0: // structured y
		y := mod(pattern(t, 255, l+"y"), ref.EdP)
		for {
			enc := ref.ToLE(y, 32)
			if pick(t, 2, l+"sg") == 1 {
				enc[31] |= 0x80
			}
			if _, ok := ref.EdDec(enc); ok {
				return enc
			}
			y = mod(add(y, bigOne), ref.EdP)
		}
	case 1:
		return edTorsion[pick(t, len(edTorsion), l+"t")].Enc()
	case 2:
		return ref.EdAdd(p, edTorsion[pick(t, len(edTorsion), l+"t")]).Enc()
	}
	return p.Enc()
}

type deriveCase struct {
	S      int // index into deriving schemes
	Priv   B
	Tweaks []B
}

var deriving = []scheme{schK1, schR1, schSM2, schPas, schEd, schBN, schBA}

func intOf(s scheme, b []byte) *big.Int {
	if s.typ == tEd {
		return ref.LE(b)
	}
	return bi(b)
}

func scBytes(s scheme, v *big.Int) []byte {
	if s.typ == tEd {
		return ref.ToLE(v, 32)
	}
	return b32(v)
}

func init() {
	F("G01", "add", "every case: two valid points added in both orders", 9000, 250000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 4, "c"), EP: encKind(t, "ep"), EQ: encKind(t, "eq")}
		w := wei4[c.C]
		P := wpoint(t, w, "P")
		var Q ref.Pt
		switch pick(t, 9, "kind") {
		case 0:
			c.Kind, Q = "equal", P
		case 1:
			c.Kind, Q = "opposite", w.c.Neg(P)
		case 6, 7, 8:
			if Q, c.Kind = related(t, w, P); Q.Inf {
				c.Kind, Q = "equal", P
			}
		case 2: // Q = 2P or -2P
			c.Kind, Q = "double", w.c.Add(P, P)
			if pick(t, 2, "neg") == 1 {
				Q = w.c.Neg(Q)
			}
		case 3:
			c.Kind, Q = "generator", w.c.G
		default:
			c.Kind, Q = "independent", wpoint(t, w, "Q")
		}
		c.P, c.Q = P.XY(), Q.XY()
		return c
	}, func(c ptCase, x *Ctx) error {
		w := wei4[c.C]
		x.Label(w.name + " " + c.Kind)
		x.NT()
		P, Q := parsePt(w, c.P), parsePt(w, c.Q)
		want := w.c.Add(P, Q)
		got, st := ow.Point_add(encPt(c.P, c.EP), encPt(c.Q, c.EQ), w.typ)
		if err := wantPt(w.name+" Point_add", got, st, want); err != nil {
			return err
		}
		got, st = ow.Point_add(encPt(c.Q, c.EQ), encPt(c.P, c.EP), w.typ)
		if err := wantPt(w.name+" Point_add (swapped)", got, st, want); err != nil {
			return err
		}
		if n := curveNames[w.typ]; n != "" {
			got, inf := ow.Add(cp(c.P), cp(c.Q), n)
			if inf != want.Inf || !want.Inf && !eqb(got, want.XY()) || want.Inf && len(got) != 0 {
				return errf("Add(%x, %x, %s) = %x, %v", []byte(c.P), []byte(c.Q), n, got, inf)
			}
		}
		return nil
	}).rows(1500, 40000, kinPt)

	F("G01", "mul", "every case: a valid point multiplied by a 32-byte scalar", 3000, 80000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 4, "c"), EP: encKind(t, "ep")}
		w := wei4[c.C]
		P, k := wpoint(t, w, "P"), anyScalar(t, w.c.N, "k")
		if u := mod(k, w.c.N); u.Sign() != 0 && pick(t, 3, "special") == 0 { // a special product
			P = w.c.Mul(new(big.Int).ModInverse(u, w.c.N), P)
			c.Kind = " special product"
		}
		c.P, c.K = P.XY(), b32(k)
		return c
	}, func(c ptCase, x *Ctx) error {
		w := wei4[c.C]
		x.Label(w.name + c.Kind)
		x.NT()
		k := bi(c.K)
		if k.Cmp(w.c.N) >= 0 {
			x.Label("scalar not reduced")
		}
		want := w.c.Mul(mod(k, w.c.N), parsePt(w, c.P))
		if want.Inf {
			x.Label("infinity")
		}
		got, st := ow.Point_mul(encPt(c.P, c.EP), cp(c.K), w.typ)
		if err := wantPt(w.name+" Point_mul by "+k.Text(16), got, st, want); err != nil {
			return err
		}
		if n := curveNames[w.typ]; n != "" {
			got, inf := ow.Mul(cp(c.P), cp(c.K), n)
			if inf != want.Inf || !want.Inf && !eqb(got, want.XY()) || want.Inf && len(got) != 0 {
				return errf("Mul(%x, %x, %s) = %x, %v", []byte(c.P), []byte(c.K), n, got, inf)
			}
		}
		return nil
	}).rows(600, 15000, kinPt)

	F("G01", "base-add", "every case: scalar*G + P for a valid point and a 32-byte scalar", 4000, 100000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 4, "c"), EP: encKind(t, "ep")}
		w := wei4[c.C]
		k := anyScalar(t, w.c.N, "k")
		c.K = b32(k)
		S := w.c.MulG(mod(k, w.c.N))
		var P ref.Pt
		switch pick(t, 6, "kind") {
		case 0:
			c.Kind, P = "equal", S
		case 1:
			c.Kind, P = "opposite", w.c.Neg(S)
		case 2: // small combination
			c.Kind, P = "related", w.c.Add(S, w.c.MulG(n64(int64(pick(t, 5, "r")))))
		case 3:
			c.Kind, P = "generator", w.c.G
			if !S.Inf {
				P, c.Kind = related(t, w, S)
			}
		default:
			c.Kind, P = "independent", wpoint(t, w, "P")
		}
		if P.Inf {
			c.Kind, P = "generator", w.c.G
		}
		c.P = P.XY()
		return c
	}, func(c ptCase, x *Ctx) error {
		w := wei4[c.C]
		x.Label(w.name + " " + c.Kind)
		x.NT()
		want := w.c.Add(w.c.MulG(mod(bi(c.K), w.c.N)), parsePt(w, c.P))
		check := func(what string, got []byte, inf bool) error {
			if inf != want.Inf || !want.Inf && !eqb(got, want.XY()) || want.Inf && len(got) != 0 {
				w := "infinity"
				if !want.Inf {
					w = hexs(want.XY())
				}
				return errf("%s(%x, %x) = %x, %v; want %s", what, []byte(c.P), []byte(c.K), got, inf, w)
			}
			return nil
		}
		got, inf := ow.Point_mulBaseG_add(encPt(c.P, c.EP), cp(c.K), w.typ)
		if err := check(w.name+" Point_mulBaseG_add", got, inf); err != nil {
			return err
		}
		if n := curveNames[w.typ]; n != "" {
			got, inf := ow.MulBaseG_Add(cp(c.P), cp(c.K), n)
			return check("MulBaseG_Add "+n, got, inf)
		}
		return nil
	}).rows(700, 18000, kinPt)

	F("G01", "ed25519", "every case: Ed25519 point addition and scalar*G+P", 5000, 150000, func(t *rapid.T) edPtCase {
		c := edPtCase{P: edPoint(t, "P"), K: ref.ToLE(anyScalar(t, ref.EdL, "k"), 32)}
		P, _ := ref.EdDec(c.P)
		switch pick(t, 12, "kind") {
		case 5, 6: // a sum of low order or with a structured ordinate
			T := edTorsion[pick(t, len(edTorsion), "T")]
			if pick(t, 3, "far") == 0 {
				T, _ = ref.EdDec(edPoint(t, "T"))
			}
			c.Kind, c.Q = "chosen sum", ref.EdAdd(T, ref.EdNeg(P)).Enc()
		case 7, 8:
			T := edTorsion[pick(t, len(edTorsion), "T")]
			if pick(t, 3, "far") == 0 {
				T, _ = ref.EdDec(edPoint(t, "T"))
			}
			c.Kind, c.Q = "chosen sum with kB", ref.EdAdd(T, ref.EdNeg(ref.EdMulB(ref.LE(c.K)))).Enc()
		case 0:
			c.Kind, c.Q = "equal", cp(c.P)
		case 1:
			c.Kind, c.Q = "opposite", ref.EdNeg(P).Enc()
		case 2:
			c.Kind, c.Q = "torsion apart", ref.EdAdd(P, edTorsion[pick(t, len(edTorsion), "t")]).Enc()
		case 3:
			c.Kind, c.Q = "opposite of kB", ref.EdNeg(ref.EdMulB(ref.LE(c.K))).Enc()
		case 4:
			c.Kind, c.Q = "kB", ref.EdMulB(ref.LE(c.K)).Enc()
		default:
			c.Kind, c.Q = "independent", edPoint(t, "Q")
		}
		return c
	}, func(c edPtCase, x *Ctx) error {
		x.Label(c.Kind)
		x.NT()
		P, _ := ref.EdDec(c.P)
		Q, _ := ref.EdDec(c.Q)
		want := ref.EdAdd(P, Q)
		for i := 0; i < 2; i++ {
			a, b := c.P, c.Q
			if i == 1 {
				a, b = b, a
			}
			got, st := ow.Point_add(cp(a), cp(b), tEd)
			if ref.EdEq(want, ref.EdIdentity()) {
				x.Label("infinity")
				if err := refused(st, got); err != nil {
					return errf("Ed25519 Point_add at infinity: %v", err)
				}
			} else if st != ow.SUCCESS || !eqb(got, want.Enc()) {
				return errf("Ed25519 Point_add(%x, %x) = %x, %#x; want %x", []byte(a), []byte(b), got, st, want.Enc())
			}
		}
		want = ref.EdAdd(ref.EdMulB(ref.LE(c.K)), Q)
		got, inf := ow.Point_mulBaseG_add(cp(c.Q), cp(c.K), tEd)
		isInf := ref.EdEq(want, ref.EdIdentity())
		if inf != isInf || !isInf && !eqb(got, want.Enc()) || isInf && len(got) != 0 {
			return errf("Ed25519 Point_mulBaseG_add(%x, %x) = %x, %v; want %x", []byte(c.Q), []byte(c.K), got, inf, want.Enc())
		}
		return nil
	}).rows(800, 25000, kinEd)

	F("G01", "bls", "every case: scalar*G1+P on BLS12-381", 500, 12000, func(t *rapid.T) edPtCase {
		k := anyScalar(t, ref.BLSR, "k")
		c := edPtCase{K: b32(k)}
		S := ref.G1Mul(ref.BLSG1(), mod(k, ref.BLSR))
		P := S
		switch pick(t, 7, "kind") {
		case 5: // a sum near the generator
			c.Kind, P = "chosen sum", ref.G1Add(ref.G1Mul(ref.BLSG1(), mod(n64(int64(1+pick(t, 9, "j"))), ref.BLSR)), ref.G1Neg(S))
		case 6:
			c.Kind, P = "sum opposite to kG", ref.G1Neg(ref.G1Add(S, S))
		case 0:
			c.Kind = "equal"
		case 1:
			c.Kind, P = "opposite", ref.G1Neg(S)
		default:
			c.Kind, P = "independent", ref.G1Mul(ref.BLSG1(), bi(blsPriv(t, "p")))
		}
		if P.Inf {
			c.Kind, P = "generator", ref.BLSG1()
		}
		c.P = ref.G1Comp(P)
		return c
	}, func(c edPtCase, x *Ctx) error {
		x.Label(c.Kind)
		x.NT()
		P, _ := ref.G1Dec(c.P)
		want := ref.G1Add(ref.G1Mul(ref.BLSG1(), mod(bi(c.K), ref.BLSR)), P)
		for _, typ := range []uint32{tNUL, tAUG} {
			got, inf := ow.Point_mulBaseG_add(cp(c.P), cp(c.K), typ)
			if inf != want.Inf || !want.Inf && !eqb(got, ref.G1Comp(want)) || want.Inf && len(got) != 0 {
				return errf("BLS Point_mulBaseG_add(%x, %x) = %x, %v; want %x", []byte(c.P), []byte(c.K), got, inf, ref.G1Comp(want))
			}
		}
		return nil
	}).rows(90, 2500, kinEd)

	F("G02", "chain", "every case: a chain of 1 to 12 derivations from one parent key", 1000, 30000, func(t *rapid.T) deriveCase {
		c := deriveCase{S: pick(t, 25, "s")}
		if c.S > 6 {
			c.S %= 5
		}
		s := deriving[c.S]
		c.Priv = s.priv(t, "d")
		n := 1 + pick(t, 6, "n")
		if s.slow < 60 {
			n *= 2
		}
		N := new(big.Int).SetBytes(ow.GetCurveOrder(s.typ))
		if N.Sign() == 0 {
			N = ref.BLSR
		}
		acc := mod(intOf(s, c.Priv), N)
		for i := 0; i < n; i++ {
			k := anyScalar(t, N, "tw")
			if pick(t, 8, "special") == 0 && acc.Sign() != 0 { // child = parent doubled, or close to infinity
				k = []*big.Int{acc, sub(N, acc), mod(add(sub(N, acc), bigOne), N), mod(sub(sub(N, acc), bigOne), N)}[pick(t, 4, "sp")]
			}
			c.Tweaks = append(c.Tweaks, scBytes(s, k))
			acc = mod(add(acc, k), N)
			if acc.Sign() == 0 {
				break
			}
		}
		return c
	}, func(c deriveCase, x *Ctx) error {
		s := deriving[c.S]
		x.Label(s.name)
		N := new(big.Int).SetBytes(ow.GetCurveOrder(s.typ))
		if s.typ == tNUL || s.typ == tAUG {
			N = ref.BLSR
		}
		d := mod(intOf(s, c.Priv), N)
		if d.Sign() == 0 {
			return nil
		}
		x.NT()
		pub, st := ow.GenPubkey(cp(c.Priv), s.typ)
		if st != ow.SUCCESS {
			return errf("%s: GenPubkey %#x", s.name, st)
		}
		for i, tw := range c.Tweaks {
			d = mod(add(d, intOf(s, tw)), N)
			child, inf := ow.Point_mulBaseG_add(cp(pub), cp(tw), s.typ)
			if d.Sign() == 0 {
				x.Label("infinity")
				if !inf || len(child) != 0 {
					return errf("%s: child at infinity: %x, %v", s.name, child, inf)
				}
				return nil
			}
			if inf {
				return errf("%s: step %d reported infinity", s.name, i)
			}
			cd := scBytes(s, d)
			if want := s.pub(cd); !eqb(child, want) {
				return errf("%s: step %d: child public key %x; the child private key %x has %x", s.name, i, child, cd, want)
			}
			if s.typ == tPas && d.BitLen() > 254 {
				pub = child
				continue
			}
			got, st := ow.GenPubkey(cd, s.typ)
			if st != ow.SUCCESS || !eqb(got, child) {
				return errf("%s: step %d: GenPubkey(child) = %x, %#x; derived %x", s.name, i, got, st, child)
			}
			pub = child
		}
		return nil
	}).rows(200, 6000, func(t *rapid.T, c deriveCase, l string) deriveCase {
		s := deriving[c.S]
		c.Tweaks = append([]B{}, c.Tweaks...)
		if i := pick(t, len(c.Tweaks)+1, l+"what"); i < len(c.Tweaks) {
			N := order(s.typ)
			if s.typ == tEd {
				N = ref.EdL
			}
			c.Tweaks[i] = scBytes(s, mod(intOf(s, kin(t, c.Tweaks[i], l)), N))
		} else {
			c.Priv = kinKey(t, s, c.Priv, l)
		}
		return c
	})

	F("G02", "order", "every case: the published order of one curve type", 60, 200, func(t *rapid.T) int { return pick(t, len(schemes)+1, "s") }, func(i int, x *Ctx) error {
		if i == len(schemes) {
			if o := ow.GetCurveOrder(noTyp); o != nil {
				return errf("order of an unknown type: %x", o)
			}
			return nil
		}
		x.NT()
		s := schemes[i]
		o := ow.GetCurveOrder(s.typ)
		var want []byte
		switch s.typ {
		case tEd:
			want = b32(ref.EdL)
		case tK1, tR1, tSM2, tPas:
			want = b32(curveOf(s.typ).c.N)
		default:
			return nil
		}
		if !eqb(o, want) {
			return errf("GetCurveOrder(%s) = %x", s.name, o)
		}
		// (N-1)G + G is the identity
		m := scBytes(s, sub(bi(o), bigOne))
		g, st := ow.GenPubkey(scBytes(s, bigOne), s.typ)
		if st != ow.SUCCESS {
			return errf("%s: no generator: %#x", s.name, st)
		}
		if p, inf := ow.Point_mulBaseG_add(g, m, s.typ); !inf || p != nil {
			return errf("%s: (N-1)G+G = %x, %v", s.name, p, inf)
		}
		o[0] ^= 0xff // the caller's copy only
		if !eqb(ow.GetCurveOrder(s.typ), want) {
			return errf("GetCurveOrder(%s) changed", s.name)
		}
		return nil
	})

	F("G03", "round-trip", "every case: a curve point compressed from both forms and decompressed", 9000, 300000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 4, "c")}
		c.P = wpoint(t, wei4[c.C], "P").XY()
		return c
	}, func(c ptCase, x *Ctx) error {
		w := wei4[c.C]
		x.Label(w.name)
		x.NT()
		want := encPt(c.P, 2)
		for how := 0; how < 2; how++ {
			if got := ow.PointCompress(encPt(c.P, how), w.typ); !eqb(got, want) {
				return errf("%s PointCompress(%x) = %x, want %x", w.name, encPt(c.P, how), got, want)
			}
		}
		if got := ow.PointDecompress(want, w.typ); !eqb(got, encPt(c.P, 1)) {
			return errf("%s PointDecompress(%x) = %x, want %x", w.name, want, got, encPt(c.P, 1))
		}
		// the point with the other parity
		neg := cp(want)
		neg[0] ^= 1
		o := cat([]byte{4}, c.P[:32], b32(mod(new(big.Int).Neg(bi(c.P[32:])), w.c.P)))
		got := ow.PointDecompress(neg, w.typ)
		if bi(c.P[32:]).Sign() != 0 && !eqb(got, o) {
			return errf("%s PointDecompress(%x) = %x, want %x", w.name, neg, got, o)
		}
		return nil
	}).rows(1800, 50000, func(t *rapid.T, c ptCase, l string) ptCase {
		c.P = kinPoint(t, wei4[c.C], c.P, l)
		return c
	})

	F("G03", "decompress-any", "cases with a correct length: x without a point, x not below the field prime, wrong prefix, or a valid encoding", 16000, 500000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 4, "c")}
		w := wei4[c.C]
		var x *big.Int
		switch pick(t, 6, "xk") {
		case 0:
			x = pattern(t, 256, "x")
		case 1: // around the prime
			x = add(w.c.P, n64(int64(pick(t, 41, "d")-20)))
		case 2:
			x = n64(int64(pick(t, 80, "sm")))
		case 3: // p + x of a point
			m := sub(lsh(256), w.c.P)
			x = add(w.c.P, mod(bi(uniform(t, 32, "u")), m))
			if pick(t, 2, "pt") == 0 {
				q := liftNear(w, mod(bi(uniform(t, 4, "u4")), w.c.P), 0)
				x = add(q.X, w.c.P)
			}
		default:
			x = bi(uniform(t, 32, "x"))
		}
		if x.Cmp(lsh(256)) >= 0 {
			x = sub(lsh(256), bigOne)
		}
		pre := byte(2 + pick(t, 2, "par"))
		if pick(t, 6, "bad") == 0 {
			pre = byte(pick(t, 256, "pre"))
		}
		c.P = append(B{pre}, b32(x)...)
		if pick(t, 12, "len") == 0 {
			switch pick(t, 4, "lk") {
			case 0:
				c.P = c.P[:pick(t, 33, "cut")]
			case 1:
				c.P = append(c.P, rbytes(t, 1+pick(t, 33, "ext"), "eb")...)
				if pick(t, 2, "by") == 0 {
					c.P = over(t, encPt(wpoint(t, w, "P").XY(), 2), "ov")
				}
			case 2:
				c.P = nil
			case 3:
				c.P = c.P[1:]
			}
		}
		return c
	}, func(c ptCase, x *Ctx) error {
		w := wei4[c.C]
		got := ow.PointDecompress(cp(c.P), w.typ)
		var want []byte
		if len(c.P) == 33 {
			x.NT()
			if c.P[0] == 2 || c.P[0] == 3 {
				if v := bi(c.P[1:]); v.Cmp(w.c.P) < 0 {
					if p, ok := w.c.Lift(v, uint(c.P[0]&1)); ok {
						want = cat([]byte{4}, p.XY())
						x.Label("point")
					} else {
						x.Label("no point")
					}
				} else {
					x.Label("x not reduced")
				}
			}
		}
		if !eqb(got, want) {
			return errf("%s PointDecompress(%x) = %x, want %x", w.name, []byte(c.P), got, want)
		}
		return nil
	}).rows(2500, 80000, func(t *rapid.T, c ptCase, l string) ptCase {
		if pick(t, 4, l+"what") == 0 {
			c.C = pick(t, 4, l+"c")
		} else {
			c.P = kinLen(t, c.P, l)
		}
		return c
	})

	F("G03", "compress-refusals", "every case: a wrong length or an unsupported type", 2000, 30000, func(t *rapid.T) ptCase {
		c := ptCase{C: pick(t, 16, "c")}
		c.P = wpoint(t, wei4[c.C%4], "P").XY()
		if c.C < 8 {
			n := pick(t, 130, "n")
			if n == 64 || n == 65 {
				n = 33
			}
			if n%5 == 0 {
				c.P = over(t, encPt(c.P, n/5%2), "ov")
			} else {
				c.P = B(rbytes(t, n, "b"))
			}
		}
		return c
	}, func(c ptCase, x *Ctx) error {
		x.NT()
		if c.C < 8 {
			w := wei4[c.C%4]
			if got := ow.PointCompress(cp(c.P), w.typ); got != nil {
				return errf("%s PointCompress of %d bytes: %x", w.name, len(c.P), got)
			}
			p := append(B{byte(c.C) | 5}, make([]byte, 64)...)
			if got := ow.PointCompress(p, w.typ); got != nil {
				return errf("%s PointCompress of %x: %x", w.name, []byte(p), got)
			}
			return nil
		}
		typ := []uint32{tEd, tEdN, tX, tKC, tNUL, tAUG, noTyp, 0}[c.C-8]
		if got := ow.PointCompress(cp(c.P), typ); got != nil {
			return errf("PointCompress for type %#x: %x", typ, got)
		}
		if got := ow.PointDecompress(encPt(c.P, 2), typ); got != nil {
			return errf("PointDecompress for type %#x: %x", typ, got)
		}
		return nil
	})

	initConv()
	initG05()
}

func hexs(b []byte) string { return errf("%x", b).Error() }

// ---- Edwards/Montgomery conversion

type convCase struct {
	Kind string
	V    B
}

func initConv() {
	feVal := func(t *rapid.T, l string) *big.Int {
		switch pick(t, 4, l+"k") {
		case 0:
			return n64(int64(pick(t, 20, l+"s")))
		case 1:
			return sub(ref.EdP, n64(int64(1+pick(t, 20, l+"s"))))
		case 2:
			return mod(pattern(t, 255, l), ref.EdP)
		}
		return mod(bi(uniform(t, 40, l)), ref.EdP)
	}
	F("G04", "maps", "every case: one 32-byte key (structured or random field element) or scalar through the maps", 16000, 500000, func(t *rapid.T) convCase {
		c := convCase{Kind: []string{"x", "x", "ed", "ed", "scalar", "seed", "nonreduced", "length"}[pick(t, 8, "kind")]}
		switch c.Kind {
		case "x":
			c.V = ref.ToLE(feVal(t, "u"), 32)
		case "ed":
			c.V = ref.ToLE(feVal(t, "y"), 32)
			if pick(t, 2, "sign") == 1 {
				c.V[31] |= 0x80
			}
		case "scalar":
			c.V = edPriv(t, "s")
		case "seed":
			c.V = B(rbytes(t, 32, "seed"))
		case "nonreduced": // u >= p, or with the top bit
			c.V = ref.ToLE(add(ref.EdP, n64(int64(pick(t, 19, "d")))), 32)
			if pick(t, 2, "hi") == 0 {
				c.V = B(uniform(t, 32, "u"))
				c.V[31] |= 0x80
			}
		case "length":
			n := pick(t, 70, "n")
			if n == 32 {
				n = 31
			}
			c.V = B(rbytes(t, n, "b"))
			if n%4 == 0 {
				c.V = over(t, ref.EdMulB(n64(int64(n+1))).Enc(), "ov")
			}
		}
		return c
	}, func(c convCase, x *Ctx) error {
		x.Label(c.Kind)
		toX := func(v []byte) ([]byte, error) { return ow.CURVE25519_convert_Ed_to_X(cp(v)) }
		toEd := func(v []byte) ([]byte, error) { return ow.CURVE25519_convert_X_to_Ed(cp(v)) }
		switch c.Kind {
		case "x":
			u := ref.LE(c.V)
			if u.Cmp(sub(ref.EdP, bigOne)) == 0 {
				toEd(c.V)
				return nil // u = -1 has no image
			}
			x.NT()
			got, err := toEd(c.V)
			want := ref.ToLE(ref.EdFromMont(u), 32)
			if err != nil || !eqb(got, want) {
				return errf("X_to_Ed(%x) = %x, %v; want %x", []byte(c.V), got, err, want)
			}
			back, err := toX(got)
			if err != nil || !eqb(back, c.V) {
				return errf("Ed_to_X(X_to_Ed(%x)) = %x, %v", []byte(c.V), back, err)
			}
		case "ed":
			v := cp(c.V)
			v[31] &= 0x7f
			y := ref.LE(v)
			if y.Cmp(bigOne) == 0 {
				toX(c.V)
				return nil // the identity has no finite image
			}
			x.NT()
			got, err := toX(c.V)
			want := ref.ToLE(ref.MontFromEd(y), 32)
			if err != nil || !eqb(got, want) {
				return errf("Ed_to_X(%x) = %x, %v; want %x", []byte(c.V), got, err, want)
			}
			back, err := toEd(got)
			if err != nil {
				return errf("X_to_Ed(Ed_to_X(%x)): %v", []byte(c.V), err)
			}
			if !eqb(back, v) {
				return errf("X_to_Ed(Ed_to_X(%x)) = %x", []byte(c.V), back)
			}
		case "scalar":
			if mod(ref.LE(c.V), ref.EdL).Sign() == 0 {
				return nil
			}
			x.NT()
			ed, st1 := ow.GenPubkey(cp(c.V), tEd)
			xp, st2 := ow.GenPubkey(cp(c.V), tX)
			got, err := toX(ed)
			if st1 != ow.SUCCESS || st2 != ow.SUCCESS || err != nil || !eqb(got, xp) {
				return errf("scalar %x: Ed_to_X(%x) = %x, %v; the X25519 key is %x", []byte(c.V), ed, got, err, xp)
			}
			back, err := toEd(xp)
			v := cp(ed)
			v[31] &= 0x7f
			if err != nil || !eqb(back, v) {
				return errf("scalar %x: X_to_Ed(%x) = %x, %v; the Ed25519 key is %x", []byte(c.V), xp, back, err, ed)
			}
		case "seed": // an RFC 8032 key and its X25519 counterpart
			x.NT()
			pub := ed25519.NewKeyFromSeed(c.V).Public().(ed25519.PublicKey)
			h := sha512.Sum512(c.V)
			k, err := ecdh.X25519().NewPrivateKey(h[:32])
			if err != nil {
				return nil
			}
			got, err := toX(pub)
			if err != nil || !eqb(got, k.PublicKey().Bytes()) {
				return errf("seed %x: Ed_to_X(%x) = %x, %v; X25519 gives %x", []byte(c.V), []byte(pub), got, err, k.PublicKey().Bytes())
			}
		case "nonreduced":
			x.NT()
			if got, err := toEd(c.V); err == nil || got != nil {
				return errf("X_to_Ed accepts the non-reduced key %x: %x", []byte(c.V), got)
			}
		case "length":
			x.NT()
			if got, err := toEd(c.V); err == nil || got != nil {
				return errf("X_to_Ed accepts %d bytes: %x", len(c.V), got)
			}
			if got, err := toX(c.V); err == nil || got != nil {
				return errf("Ed_to_X accepts %d bytes: %x", len(c.V), got)
			}
		}
		return nil
	}).rows(3000, 80000, kinConv)
}

// ---- edwards25519 primitives

type feOp struct {
	Op   int
	A, B int
	L    [10]int64 // limbs, or nothing
	V    B
}

type feProg struct{ Ops []feOp }

var feWeights = func() (w [10]*big.Int) {
	for i := range w {
		w[i] = lsh(uint((51*i + 1) / 2))
	}
	return
}()

func feValue(l [10]int64) *big.Int {
	v := new(big.Int)
	for i, x := range l {
		v.Add(v, mul(n64(x), feWeights[i]))
	}
	return v
}

// tightLimb bounds: 1.01*2^25 for even limbs and 1.01*2^24 for odd ones, as
// products leave them.
func limb(t *rapid.T, i int, l string) int64 {
	b := int64(1) << 25
	if i%2 == 1 {
		b = 1 << 24
	}
	var v int64
	switch pick(t, 5, l+"k") {
	case 0:
		v = b
	case 1:
		v = b - 1
	case 2:
		v = int64(pick(t, 3, l+"s"))
	default:
		v = rapid.Int64Range(0, b).Draw(t, l+"v")
	}
	if pick(t, 2, l+"n") == 1 {
		return -v
	}
	return v
}

// feLoose writes a number near -p, 0 or p, or any number, in limbs that were
// not carried: within the bounds of a sum of two products, each sum's limbs
// being anything its value allows.
func feLoose(t *rapid.T, l string) (o [10]int64) {
	v := mul(ref.EdP, n64(int64(pick(t, 2, l+"k"))))
	if pick(t, 3, l+"u") == 0 {
		v = bi(uniform(t, 32, l+"v"))
		v.SetBit(v, 255, 0)
	} else {
		v = add(v, n64(int64(pick(t, 61, l+"d")-30)))
	}
	s := int64(1)
	if v.Sign() < 0 || oneIn(t, 3, l+"neg") {
		s = -1
	}
	w := new(big.Int).Abs(v)
	width := func(i int) uint { return uint(26 - i%2) }
	for i := range o {
		o[i] = s * new(big.Int).Mod(w, lsh(width(i))).Int64()
		w.Rsh(w, width(i))
	}
	if w.Sign() != 0 {
		o[9] += s * w.Int64() << 25
	}
	for k := pick(t, 6, l+"moves"); k > 0; k-- { // move a unit of one limb to its neighbour
		i := pick(t, 9, l+"i")
		d := int64(1)
		if pick(t, 2, l+"dir") == 1 {
			d = -1
		}
		if a, b := o[i]+d<<width(i), o[i+1]-d; a <= 1<<width(i) && a >= -(1<<width(i)) && b <= 1<<width(i+1) && b >= -(1<<width(i+1)) {
			o[i], o[i+1] = a, b
		}
	}
	return
}

func arr32(b []byte) (o [32]byte) { copy(o[:], b); return }

func initG05() {
	const nFe = 15
	F("G05", "field", "every case: a program of 4 to 24 field operations, every intermediate value compared with arithmetic modulo 2^255-19", 12000, 400000, func(t *rapid.T) feProg {
		var p feProg
		n := 4 + pick(t, 21, "n")
		for i := 0; i < n; i++ {
			o := feOp{Op: pick(t, nFe, "op"), A: pick(t, 64, "a"), B: pick(t, 64, "b")}
			if i < 2 {
				o.Op = i
			}
			switch o.Op {
			case 0: // bytes
				switch pick(t, 3, "vk") {
				case 0:
					o.V = ref.ToLE(pattern(t, 256, "v"), 32)
				case 1:
					o.V = ref.ToLE(add(ref.EdP, n64(int64(pick(t, 39, "d")-19))), 32)
				default:
					o.V = B(uniform(t, 32, "v"))
				}
			case 1: // limbs
				for j := range o.L {
					o.L[j] = limb(t, j, "l")
				}
			case 14: // uncarried limbs of a number near a multiple of the prime
				o.L = feLoose(t, "l")
			case 12: // wide limbs for FeCombine
				for j := range o.L {
					o.L[j] = rapid.Int64Range(-1<<57, 1<<57).Draw(t, "w")
				}
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}, func(p feProg, x *Ctx) error {
		type reg struct {
			f     e.FieldElement
			v     *big.Int
			loose bool // one unreduced addition deep
		}
		var regs []reg
		P := ref.EdP
		for i, o := range p.Ops {
			var r reg
			get := func(k int, tight bool) reg {
				for d := 0; d < len(regs); d++ {
					g := regs[(k+d)%len(regs)]
					if !tight || !g.loose {
						return g
					}
				}
				return regs[0]
			}
			if len(regs) == 0 && o.Op > 1 && o.Op != 12 && o.Op != 14 {
				o.Op = 13
			}
			switch o.Op {
			case 0:
				b := arr32(o.V)
				e.FeFromBytes(&r.f, &b)
				c := cp(o.V)
				c[31] &= 0x7f
				r.v = ref.LE(c)
			case 1, 14:
				for j, l := range o.L {
					r.f[j] = int32(l)
				}
				r.v, r.loose = feValue(o.L), o.Op == 14
			case 2:
				a, b := get(o.A, true), get(o.B, true)
				e.FeAdd(&r.f, &a.f, &b.f)
				r.v, r.loose = add(a.v, b.v), true
			case 3:
				a, b := get(o.A, true), get(o.B, true)
				e.FeSub(&r.f, &a.f, &b.f)
				r.v, r.loose = sub(a.v, b.v), true
			case 4, 5:
				a, b := get(o.A, false), get(o.B, false)
				switch o.B % 4 { // the output may be an operand
				case 0:
					r.f = a.f
					e.FeMul(&r.f, &r.f, &b.f)
				case 1:
					r.f = b.f
					e.FeMul(&r.f, &a.f, &r.f)
				default:
					e.FeMul(&r.f, &a.f, &b.f)
				}
				r.v = mul(a.v, b.v)
			case 6:
				a := get(o.A, false)
				e.FeSquare(&r.f, &a.f)
				r.v = mul(a.v, a.v)
			case 7:
				a := get(o.A, false)
				e.FeSquare2(&r.f, &a.f)
				r.v = mul(n64(2), mul(a.v, a.v))
			case 8:
				a := get(o.A, false)
				e.FeInvert(&r.f, &a.f)
				r.v = new(big.Int).Exp(mod(a.v, P), sub(P, n64(2)), P)
			case 9:
				a := get(o.A, false)
				e.FeNeg(&r.f, &a.f)
				r.v, r.loose = new(big.Int).Neg(a.v), a.loose
			case 10:
				a := get(o.A, false)
				e.FeCopy(&r.f, &a.f)
				r.v, r.loose = a.v, a.loose
			case 11:
				a, b := get(o.A, false), get(o.B, false)
				r.f = a.f
				e.FeCMove(&r.f, &b.f, int32(o.A&1))
				if o.A&1 == 1 {
					a = b
				}
				r.v, r.loose = a.v, a.loose
			case 12:
				e.FeCombine(&r.f, o.L[0], o.L[1], o.L[2], o.L[3], o.L[4], o.L[5], o.L[6], o.L[7], o.L[8], o.L[9])
				r.v = feValue(o.L)
			case 13:
				if o.A&1 == 0 {
					e.FeOne(&r.f)
					r.v = n64(1)
				} else {
					r.f[3] = 7
					e.FeZero(&r.f)
					r.v = n64(0)
				}
			}
			r.v = mod(r.v, P)
			// observe a copy: ToBytes carries in place
			f := r.f
			var b [32]byte
			e.FeToBytes(&b, &f)
			if !eqb(b[:], ref.ToLE(r.v, 32)) {
				return errf("operation %d (%d): %x, want %x", i, o.Op, b[:], ref.ToLE(r.v, 32))
			}
			f = r.f
			if e.FeIsNegative(&f) != byte(r.v.Bit(0)) {
				return errf("operation %d (%d): FeIsNegative of %x is %d", i, o.Op, b[:], e.FeIsNegative(&f))
			}
			f = r.f
			if (e.FeIsNonZero(&f) != 0) != (r.v.Sign() != 0) {
				return errf("operation %d (%d): FeIsNonZero of %x", i, o.Op, b[:])
			}
			regs = append(regs, r)
		}
		x.NT()
		return nil
	})

	type scCase struct{ A, B, C, W B }
	sc := func(t *rapid.T, l string) B { return ref.ToLE(anyScalar(t, ref.EdL, l), 32) }
	F("G05", "scalars", "every case: ScMulAdd of three 256-bit integers and ScReduce of a 512-bit one", 60000, 2000000, func(t *rapid.T) scCase {
		c := scCase{A: sc(t, "a"), B: sc(t, "b"), C: sc(t, "c")}
		if pick(t, 4, "target") == 0 { // a special sum
			v := mod(sub(ref.LE(sc(t, "s")), mul(ref.LE(c.A), ref.LE(c.B))), ref.EdL)
			v = add(v, mul(n64(int64(pick(t, 16, "more"))), ref.EdL))
			if v.BitLen() > 256 {
				v = mod(v, ref.EdL)
			}
			c.C = ref.ToLE(v, 32)
		}
		switch pick(t, 4, "wk") {
		case 0:
			c.W = ref.ToLE(pattern(t, 512, "w"), 64)
		case 1: // near multiples of L
			q := bi(uniform(t, 32, "q"))
			if pick(t, 2, "qs") == 0 {
				q.Rsh(q, uint(pick(t, 256, "qr")))
			}
			v := add(mul(q, ref.EdL), n64(int64(pick(t, 5, "d")-2)))
			if v.Sign() < 0 || v.BitLen() > 512 {
				v = new(big.Int)
			}
			c.W = ref.ToLE(v, 64)
		case 2:
			c.W = B(rbytes(t, 64, "w"))
		default:
			c.W = B(uniform(t, 64, "w"))
		}
		return c
	}, func(c scCase, x *Ctx) error {
		x.NT()
		a, b, d := arr32(c.A), arr32(c.B), arr32(c.C)
		var s [32]byte
		e.ScMulAdd(&s, &a, &b, &d)
		if want := ref.ToLE(mod(add(mul(ref.LE(c.A), ref.LE(c.B)), ref.LE(c.C)), ref.EdL), 32); !eqb(s[:], want) {
			return errf("ScMulAdd(%x, %x, %x) = %x, want %x", a, b, d, s, want)
		}
		var w [64]byte
		copy(w[:], c.W)
		e.ScReduce(&s, &w)
		if want := ref.ToLE(mod(ref.LE(c.W), ref.EdL), 32); !eqb(s[:], want) {
			return errf("ScReduce(%x) = %x, want %x", w, s, want)
		}
		if !eqb(w[:], c.W) || !eqb(a[:], c.A) || !eqb(b[:], c.B) || !eqb(d[:], c.C) {
			return errf("an input was modified")
		}
		return nil
	})

	type gCase struct {
		P, Q B
		A, B B
		Ops  []int
	}
	F("G05", "group", "every case: group operations, conversions and (double) scalar multiplications on two points", 4000, 120000, func(t *rapid.T) gCase {
		c := gCase{P: edPoint(t, "P"), Q: edPoint(t, "Q")}
		lim := func(l string) B {
			v := anyScalar(t, ref.EdL, l)
			if v.BitLen() > 253 {
				v.Rsh(v, 3)
			}
			return ref.ToLE(v, 32)
		}
		c.A, c.B = lim("a"), lim("b")
		for i, n := 0, pick(t, 8, "n"); i < n; i++ {
			c.Ops = append(c.Ops, pick(t, 4, "op"))
		}
		return c
	}, func(c gCase, x *Ctx) error {
		x.NT()
		P, _ := ref.EdDec(c.P)
		Q, _ := ref.EdDec(c.Q)
		var p, q e.ExtendedGroupElement
		pb, qb := arr32(c.P), arr32(c.Q)
		if !p.FromBytes(&pb) || !q.FromBytes(&qb) {
			return errf("FromBytes refuses %x or %x", pb, qb)
		}
		enc := func(g e.ExtendedGroupElement) []byte { var b [32]byte; g.ToBytes(&b); return b[:] }
		encP := func(g e.ProjectiveGroupElement) []byte { var b [32]byte; g.ToBytes(&b); return b[:] }
		if !eqb(enc(p), c.P) {
			return errf("ToBytes(FromBytes(%x)) = %x", pb, enc(p))
		}
		// a walk of doublings and representation changes
		W := P
		for i, o := range c.Ops {
			var t e.CompletedGroupElement
			switch o {
			case 0:
				p.Double(&t)
				t.ToExtended(&p)
				W = ref.EdAdd(W, W)
			case 1:
				var r e.ProjectiveGroupElement
				p.ToProjective(&r)
				r.Double(&t)
				t.ToExtended(&p)
				W = ref.EdAdd(W, W)
			case 2:
				var r e.ProjectiveGroupElement
				p.Double(&t)
				t.ToProjective(&r)
				W2 := ref.EdAdd(W, W)
				if !eqb(encP(r), W2.Enc()) {
					return errf("step %d: projective %x, want %x", i, encP(r), W2.Enc())
				}
			case 3: // p + q by the two-scalar routine with scalars 1
				var r e.ProjectiveGroupElement
				one := [32]byte{1}
				e.GePointAddVarTime(&r, &one, &p, &one, &q)
				W2 := ref.EdAdd(W, Q)
				if !eqb(encP(r), W2.Enc()) {
					return errf("step %d: GePointAddVarTime = %x, want %x", i, encP(r), W2.Enc())
				}
			}
			if !eqb(enc(p), W.Enc()) {
				return errf("step %d (%d): %x, want %x", i, o, enc(p), W.Enc())
			}
		}
		a, b := arr32(c.A), arr32(c.B)
		A, Bv := ref.LE(c.A), ref.LE(c.B)
		var r e.ProjectiveGroupElement
		e.GeDoubleScalarMultVartime(&r, &a, &q, &b)
		aQ := ref.EdMul(A, Q)
		if want := ref.EdAdd(aQ, ref.EdMulB(Bv)); !eqb(encP(r), want.Enc()) {
			return errf("GeDoubleScalarMultVartime(%x, %x, %x) = %x, want %x", a, qb, b, encP(r), want.Enc())
		}
		e.GePointAddVarTime(&r, &a, &q, &b, &p)
		if want := ref.EdAdd(aQ, ref.EdMul(Bv, W)); !eqb(encP(r), want.Enc()) {
			return errf("GePointAddVarTime(%x, %x, %x, ..) = %x, want %x", a, qb, b, encP(r), want.Enc())
		}
		if !eqb(a[:], c.A) || !eqb(b[:], c.B) || !eqb(enc(q), c.Q) {
			return errf("an input was modified")
		}
		return nil
	})

	F("G05", "base", "every case: fixed-base scalar multiplication", 8000, 300000, func(t *rapid.T) B {
		v := anyScalar(t, ref.EdL, "a")
		if v.BitLen() > 255 { // a[31] <= 127
			v.Rsh(v, 1)
		}
		return ref.ToLE(v, 32)
	}, func(a B, x *Ctx) error {
		x.NT()
		s := arr32(a)
		var h e.ExtendedGroupElement
		e.GeScalarMultBase(&h, &s)
		var b [32]byte
		h.ToBytes(&b)
		if want := ref.EdMulB(ref.LE(a)).Enc(); !eqb(b[:], want) {
			return errf("GeScalarMultBase(%x) = %x, want %x", []byte(a), b, want)
		}
		return nil
	}).rows(1500, 50000, func(t *rapid.T, b B, l string) B {
		b = kin(t, b, l)
		b[31] &= 0x7f
		return b
	})

	F("G05", "decoding", "every case: 32 bytes offered as a point encoding", 20000, 600000, func(t *rapid.T) B {
		switch pick(t, 5, "k") {
		case 0:
			return edPoint(t, "p")
		case 1: // y in [p, 2^255)
			b := ref.ToLE(add(ref.EdP, n64(int64(pick(t, 19, "d")))), 32)
			if pick(t, 2, "s") == 1 {
				b[31] |= 0x80
			}
			return b
		case 2:
			b := ref.ToLE(pattern(t, 255, "y"), 32)
			if pick(t, 2, "s") == 1 {
				b[31] |= 0x80
			}
			return b
		case 3: // x = 0
			b := ref.ToLE([]*big.Int{n64(1), sub(ref.EdP, bigOne)}[pick(t, 2, "y")], 32)
			if pick(t, 2, "s") == 1 {
				b[31] |= 0x80
			}
			return b
		}
		return B(uniform(t, 32, "u"))
	}, func(b B, x *Ctx) error {
		x.NT()
		P, ok := ref.EdDec(b)
		if ok {
			x.Label("point")
		}
		var p e.ExtendedGroupElement
		in := arr32(b)
		if got := p.FromBytes(&in); got != ok {
			return errf("FromBytes(%x) = %v, want %v", []byte(b), got, ok)
		}
		if !ok {
			return nil
		}
		var o [32]byte
		p.ToBytes(&o)
		if !eqb(o[:], b) || !eqb(o[:], P.Enc()) {
			return errf("%x decodes to %x", []byte(b), o)
		}
		return nil
	}).rows(3000, 90000, func(t *rapid.T, b B, l string) B { return kin(t, b, l) })
}
