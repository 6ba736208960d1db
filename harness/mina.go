package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"

	ow "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/pasta"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- M01: signatures ----------------------------------------------------------

type minaCase struct {
	Priv B
	Pub  B
	Msg  B
	Sig  B
	Pre  B
	Kind string
}

func minaFields(l [][4]uint64) (o []pasta.Field) {
	for _, x := range l {
		o = append(o, pasta.Field(x))
	}
	return
}

func libMina(msg []byte) pasta.MinaMessage {
	var j minaJSON
	if err := json.Unmarshal(msg, &j); err != nil {
		panic(err)
	}
	m := pasta.MinaMessage{TransactionPrefix: minaFields(j.P), TransactionSuffix: minaFields(j.S)}
	for i, x := range j.IV {
		m.SpongeIV[i] = pasta.Field(x)
	}
	return m
}

func mont(v *big.Int) [4]uint64 { return ref.ToMont(v, ref.FpP) }

func refMina(pub, msg, sig []byte) bool {
	m, ok := minaDecode(msg)
	if !ok || len(sig) != 64 || len(pub) != 64 {
		return false
	}
	P, ok := ref.Pallas.ParseXY(pub)
	if !ok {
		return false
	}
	return ref.MinaVerify(P, m, bi(sig[:32]), bi(sig[32:]))
}

// badJSON spoils the JSON text of a message so that it no longer is a message.
func badJSON(t *rapid.T, msg []byte) B {
	for try := 0; ; try++ {
		var b []byte
		switch pick(t, 9, "bad") {
		case 0: // truncated
			b = cp(msg[:pick(t, len(msg), "cut")])
		case 1: // trailing data
			b = cat(msg, [][]byte{[]byte("x"), {0}, []byte("{}"), []byte("]"), []byte(`""`)}[pick(t, 5, "tr")])
		case 2: // a limb that is not a 64-bit unsigned number
			l := []string{"-1", "18446744073709551616", "1.5", `"1"`, "1e30", "true", "01", "[]"}[pick(t, 8, "limb")]
			f := []string{"transactionPrefix", "transactionSuffix", "spongeIV"}[pick(t, 3, "fld")]
			b = []byte(`{"` + f + `":[[0,0,` + l + `,0]]}`)
		case 3: // wrong type for the whole
			b = []byte([]string{"[]", "1", `"x"`, "true", "[[0,0,0,0]]"}[pick(t, 5, "whole")])
		case 4: // wrong type for one field
			f := []string{"transactionPrefix", "transactionSuffix", "spongeIV"}[pick(t, 3, "fld")]
			b = []byte(`{"` + f + `":` + []string{"1", `"00"`, "{}", "[1]", "false"}[pick(t, 5, "ty")] + `}`)
		case 5:
			b = []byte{}
		case 6: // random bytes
			b = rbytes(t, pick(t, 40, "n"), "r")
		case 7: // one character replaced
			b = cp(msg)
			b[pick(t, len(b), "at")] = "{}[]\":,xX\\\x00\xff"[pick(t, 12, "ch")]
		case 8: // leading garbage
			b = cat([]byte{[]byte("\xef\x00x}")[pick(t, 4, "lead")]}, msg)
		}
		var j minaJSON
		if json.Unmarshal(b, &j) != nil {
			return B(b)
		}
		if try > 20 {
			return B("{")
		}
	}
}

func init() {
	F("M01", "sign", "every case: a message with random fields signed under a random key, the equation checked by the reference", 800, 60000, func(t *rapid.T) minaCase {
		c := minaCase{Msg: minaMsg(t, "m"), Priv: b32(wpriv(t, cPas, "d"))}
		if pick(t, 3, "rng") == 0 {
			c.Pre = rngPre(t, ref.Pallas.N, "pre")
		}
		return c
	}, func(c minaCase, x *Ctx) error {
		x.NT()
		if c.Pre != nil {
			x.Label("structured random stream")
		}
		pub := ref.Pallas.MulG(bi(c.Priv)).XY()
		for i := 0; i < 2; i++ {
			setRand(cat(c.Priv, c.Msg, c.Pre), c.Pre)
			var sig []byte
			if i == 0 {
				s, v, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), ow.ECC_CURVE_PASTA)
				if st != ow.SUCCESS || v != 0 {
					return errf("Signature status %#x v=%d", st, v)
				}
				sig = s
			} else {
				s, err := pasta.Sign(cp(c.Priv), cp(c.Msg))
				if err != nil {
					return errf("pasta.Sign: %v", err)
				}
				sig = s
			}
			if len(sig) != 64 || !refMina(pub, c.Msg, sig) {
				return errf("signature %x of %s under key %x does not satisfy s*G - e*P = R with R.x = r, R.y even", sig, c.Msg, []byte(c.Priv))
			}
			if st := ow.Verify(cp(pub), nil, cp(c.Msg), cp(sig), ow.ECC_CURVE_PASTA); st != ow.SUCCESS {
				return errf("own signature %x does not verify: %#x", sig, st)
			}
			if !pasta.Verify(cp(pub), cp(c.Msg), cp(sig)) {
				return errf("pasta.Verify rejects own signature %x", sig)
			}
		}
		return nil
	}).rows(160, 10000, kinMina)

	F("M01", "verify", "the tuple is valid, or differs from a valid one in a single respect", 1400, 90000, func(t *rapid.T) minaCase {
		d := wpriv(t, cPas, "d")
		k := mod(add(bi(uniform(t, 40, "k")), bigOne), ref.FqN)
		if k.Sign() == 0 {
			k = n64(1)
		}
		c := minaCase{Msg: minaMsg(t, "m")}
		m, _ := minaDecode(c.Msg)
		P := ref.Pallas.MulG(d)
		c.Pub = P.XY()
		c.Sig = ref.MinaSign(d, k, m)
		r, s := bi(c.Sig[:32]), bi(c.Sig[32:])
		put := func(r, s *big.Int) {
			if r.BitLen() <= 256 && s.BitLen() <= 256 {
				c.Sig = cat(b32(r), b32(s))
			}
		}
		remod := func(f func(j *minaJSON)) {
			var j minaJSON
			json.Unmarshal(c.Msg, &j)
			f(&j)
			c.Msg, _ = json.Marshal(j)
		}
		switch pick(t, 22, "kind") {
		case 0, 1, 2:
			c.Kind = "valid"
		case 3:
			c.Kind = "s + n"
			put(r, add(s, mul(ref.FqN, n64(int64(1+pick(t, 3, "mult"))))))
		case 4:
			c.Kind = "r + p"
			put(add(r, mul(ref.FpP, n64(int64(1+pick(t, 3, "mult"))))), s)
		case 5: // the nonce whose point has odd y: s = k' + e*d for k' = -k
			c.Kind = "odd R.y"
			e := minaHash(P, m, r)
			k2 := mod(sub(s, mul(e, d)), ref.FqN)
			put(r, mod(add(sub(ref.FqN, k2), mul(e, d)), ref.FqN))
		case 6:
			c.Kind = "R at infinity" // s = e*d for any claimed r
			r = fpElem(t, ref.FpP, "r")
			e := minaHash(P, m, r)
			put(r, mod(mul(e, d), ref.FqN))
		case 7:
			c.Kind = "r = 0"
			put(n64(0), s)
		case 8:
			c.Kind = "s = 0"
			put(r, n64(0))
		case 9:
			c.Kind = "-s"
			put(r, sub(ref.FqN, s))
		case 10:
			c.Kind = "bit flipped in signature"
			c.Sig = flip(c.Sig, pick(t, 512, "bit"))
		case 11:
			c.Kind = "wrong length"
			switch pick(t, 4, "len") {
			case 0:
				c.Sig = c.Sig[:pick(t, 64, "cut")]
			case 1:
				c.Sig = cat(c.Sig, rbytes(t, 1+pick(t, 40, "ext"), "e"))
				if pick(t, 2, "by") == 0 {
					c.Sig = over(t, c.Sig[:64], "ov")
				}
			case 2:
				c.Sig = cat([]byte{0}, c.Sig)
			case 3:
				c.Sig = nil
			}
		case 12:
			c.Kind = "other key"
			c.Pub = ref.Pallas.MulG(wpriv(t, cPas, "d2")).XY()
		case 13:
			c.Kind = "negated key"
			c.Pub = ref.Pallas.Neg(P).XY()
		case 14:
			c.Kind = "other sponge IV"
			i := pick(t, 3, "iv")
			remod(func(j *minaJSON) {
				v := ref.FromMont(j.IV[i], ref.FpP)
				j.IV[i] = mont(mod(add(v, n64(1)), ref.FpP))
			})
		case 15: // one field changed
			c.Kind = "field changed"
			w, u := pick(t, 8, "w"), pick(t, 255, "u")
			remod(func(j *minaJSON) {
				l := &j.P
				if len(j.P) == 0 || w%2 == 1 && len(j.S) > 0 {
					l = &j.S
				}
				if len(*l) == 0 {
					*l = append(*l, mont(bigOne))
					return
				}
				i := w / 2 % len(*l)
				v := ref.FromMont((*l)[i], ref.FpP)
				(*l)[i] = mont(mod(add(v, lsh(uint(u))), ref.FpP))
			})
		case 16: // boundary between prefix and suffix moved
			c.Kind = "boundary moved"
			remod(func(j *minaJSON) {
				if len(j.P) > 0 {
					j.S = append([][4]uint64{j.P[len(j.P)-1]}, j.S...)
					j.P = j.P[:len(j.P)-1]
				} else if len(j.S) > 0 {
					j.P = append(j.P, j.S[0])
					j.S = j.S[1:]
				}
			})
		case 17: // fields appended
			c.Kind = "field appended"
			v := fpElem(t, ref.FpP, "v")
			w := pick(t, 2, "w")
			remod(func(j *minaJSON) {
				if w == 0 {
					j.P = append(j.P, mont(v))
				} else {
					j.S = append(j.S, mont(v))
				}
			})
		case 18:
			c.Kind = "not a message"
			c.Msg = badJSON(t, c.Msg)
		case 19: // forged for a self-made equation: choose s, then R = sG - eP cannot be solved, but r = x(sG) with e = 0 works only if e = 0
			c.Kind = "R = s*G"
			R := ref.Pallas.MulG(s)
			put(R.X, s)
		case 20:
			c.Kind = "r and s swapped"
			put(s, r)
		case 21: // same r, random s
			c.Kind = "random s"
			put(r, mod(bi(uniform(t, 40, "s")), ref.FqN))
		}
		return c
	}, func(c minaCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		want := refMina(c.Pub, c.Msg, c.Sig)
		if want {
			x.Label("reference accepts")
		}
		st := ow.Verify(cp(c.Pub), nil, cp(c.Msg), cp(c.Sig), ow.ECC_CURVE_PASTA)
		if !statusOK(st) {
			return errf("Verify: undocumented status %#x", st)
		}
		if (st == ow.SUCCESS) != want {
			return errf("%s: Verify(%x, %s, %x) = %#x, the reference says %v", c.Kind, []byte(c.Pub), c.Msg, []byte(c.Sig), st, want)
		}
		if got := pasta.Verify(cp(c.Pub), cp(c.Msg), cp(c.Sig)); got != want {
			return errf("%s: pasta.Verify(%x, %s, %x) = %v, the reference says %v", c.Kind, []byte(c.Pub), c.Msg, []byte(c.Sig), got, want)
		}
		return nil
	}).rows(260, 15000, kinMina)

	F("M01", "message", "every case: a message hashed, round-tripped through JSON and (if malformed) refused", 2500, 80000, func(t *rapid.T) minaCase {
		c := minaCase{Msg: minaMsg(t, "m"), Pub: wpoint(t, cPas, "P").XY(), Sig: b32(fpElem(t, ref.FpP, "r")), Priv: b32(wpriv(t, cPas, "d"))}
		if pick(t, 3, "bad?") == 0 {
			c.Kind = "malformed"
			c.Msg = badJSON(t, c.Msg)
		}
		return c
	}, func(c minaCase, x *Ctx) error {
		x.NT()
		if c.Kind != "" {
			x.Label(c.Kind)
			if m, err := pasta.NewMinaMessage(cp(c.Msg)); err == nil {
				return errf("NewMinaMessage(%q) = %v", c.Msg, m)
			}
			sig, v, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), ow.ECC_CURVE_PASTA)
			if err := refused(st, sig); err != nil || v != 0 {
				return errf("Signature of %q: %v (v=%d)", c.Msg, err, v)
			}
			if sig, err := pasta.Sign(cp(c.Priv), cp(c.Msg)); err == nil || sig != nil {
				return errf("pasta.Sign of %q: %x, %v", c.Msg, sig, err)
			}
			return nil
		}
		m := libMina(c.Msg)
		got, err := pasta.NewMinaMessage(cp(c.Msg))
		if err != nil {
			return errf("NewMinaMessage(%s): %v", c.Msg, err)
		}
		same := func(a, b pasta.MinaMessage) bool {
			return eqFields(a.TransactionPrefix, b.TransactionPrefix) && eqFields(a.TransactionSuffix, b.TransactionSuffix) && a.SpongeIV == b.SpongeIV
		}
		if !same(*got, m) {
			return errf("NewMinaMessage(%s) = %v", c.Msg, *got)
		}
		back, err := pasta.NewMinaMessage(m.ToBytes())
		if err != nil || !same(*back, m) {
			return errf("NewMinaMessage(ToBytes(%s)) = %v, %v", c.Msg, back, err)
		}
		rm, ok := minaDecode(m.ToBytes())
		if !ok {
			return errf("ToBytes(%s) is not the message", c.Msg)
		}
		P, _ := ref.Pallas.ParseXY(c.Pub)
		want := b32(minaHash(P, rm, bi(c.Sig)))
		if h := pasta.MessageHash(cp(c.Pub), mont(bi(c.Sig)), m); !eqb(h, want) {
			return errf("MessageHash(%x, r=%x, %s) = %x, want %x", []byte(c.Pub), []byte(c.Sig), c.Msg, h, want)
		}
		if !same(libMina(c.Msg), m) {
			return errf("MessageHash changed the message")
		}
		// both lists cut out of one array
		k := len(m.TransactionPrefix)
		all := append(append([]pasta.Field{}, m.TransactionPrefix...), m.TransactionSuffix...)
		m.TransactionPrefix, m.TransactionSuffix = all[:k], all[k:]
		if h := pasta.MessageHash(cp(c.Pub), mont(bi(c.Sig)), m); !eqb(h, want) {
			return errf("MessageHash(%x, r=%x, %s) = %x when prefix and suffix share an array, want %x", []byte(c.Pub), []byte(c.Sig), c.Msg, h, want)
		}
		if !same(libMina(c.Msg), m) {
			return errf("MessageHash changed the message (prefix and suffix share an array)")
		}
		return nil
	})
}

func eqFields(a, b []pasta.Field) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- M02: arithmetic ----------------------------------------------------------

type pfCase struct {
	Q    bool // the scalar field
	A, B B    // big-endian values below the modulus
	E    uint8
	X, Y B // raw 32-byte strings
	Kind string
}

// pfVal draws a field element; half of the time one whose Montgomery limbs are
// special, so that carries between limbs are exercised.
var pastaWidths = []uint{64, 64, 64, 64}

func pfVal(t *rapid.T, p *big.Int, l string) *big.Int {
	switch pick(t, 4, l+"mont") {
	case 0:
		return limbs(t, p, 256, pastaWidths, l)
	case 1:
		v := fpElem(t, p, l)
		return ref.FromMont(ref.Limbs(v), p)
	}
	return fpElem(t, p, l)
}

type pgCase struct {
	P, Q  B // affine X||Y; empty: infinity
	Z, Z2 B
	K, K2 B
	Kind  string
}

func gpt(b []byte) ref.Pt {
	if len(b) == 0 {
		return ref.Pt{Inf: true}
	}
	return parsePt(cPas, b)
}

// libG builds a Jacobian representation of the point with the given Z.
func libG(p ref.Pt, z *big.Int) (g pasta.Group) {
	if p.Inf {
		// any X, Y with Z = 0 stands for infinity
		g.X = mont(mod(mul(z, z), ref.FpP))
		g.Y = mont(mod(add(z, bigOne), ref.FpP))
		return
	}
	z2 := mod(mul(z, z), ref.FpP)
	g.X = mont(mod(mul(p.X, z2), ref.FpP))
	g.Y = mont(mod(mul(p.Y, mul(z2, z)), ref.FpP))
	g.Z = mont(z)
	return
}

func unG(g pasta.Group) ref.Pt {
	z := ref.FromMont(g.Z, ref.FpP)
	if z.Sign() == 0 {
		return ref.Pt{Inf: true}
	}
	zi := new(big.Int).ModInverse(z, ref.FpP)
	zi2 := mod(mul(zi, zi), ref.FpP)
	return ref.Pt{X: mod(mul(ref.FromMont(g.X, ref.FpP), zi2), ref.FpP), Y: mod(mul(ref.FromMont(g.Y, ref.FpP), mul(zi2, zi)), ref.FpP)}
}

func libA(p ref.Pt) (a pasta.Affine) {
	if p.Inf {
		return
	}
	a.X, a.Y = mont(p.X), mont(p.Y)
	return
}

func wantG(what string, g pasta.Group, w ref.Pt) error {
	for _, f := range []pasta.Field{g.X, g.Y, g.Z} {
		if ref.FromLimbs(f).Cmp(ref.FpP) >= 0 {
			return errf("%s: coordinate not reduced", what)
		}
	}
	if !ref.Eq(unG(g), w) {
		return errf("%s = %v, want %v", what, unG(g), w)
	}
	if (pasta.IsZero(g) == 1) != w.Inf {
		return errf("%s: IsZero = %d", what, pasta.IsZero(g))
	}
	if pasta.GroupIsOnCurve(g) != 1 {
		return errf("%s: GroupIsOnCurve = 0", what)
	}
	var a pasta.Affine
	pasta.AffineFromGroup(&a, g)
	if a != libA(w) {
		return errf("AffineFromGroup(%s) = %x", what, a)
	}
	return nil
}

func wantA(what string, a pasta.Affine, w ref.Pt) error {
	if a != libA(w) {
		return errf("%s = %x (Montgomery limbs), want %v", what, a, w)
	}
	return nil
}

type pgStep struct {
	Op   int
	D    int
	A, B int
	K    B
}
type pgProg struct {
	Start []B
	Z     []B
	Steps []pgStep
}

type fieldFns struct {
	name                    string
	m                       *big.Int
	add, sub, mul           func(*[4]uint64, [4]uint64, [4]uint64)
	sq, opp, from, to, copy func(*[4]uint64, [4]uint64)
	nonzero                 func(*uint64, [4]uint64)
	eq                      func(a, b [4]uint64) bool
	wadd, wsub, wmul        func(a, b [4]uint64) [4]uint64
	wsq, wneg, wcopy        func(a [4]uint64) [4]uint64
	weq                     func(a, b [4]uint64) bool
	hex                     func(s string) ([4]uint64, bool)
	fromBE                  func([]byte) [4]uint64
	toBE                    func([4]uint64) []byte
	structBE                func([4]uint64) []byte
	addc, subb              func(*uint64, *uint8, uint8, uint64, uint64)
	mulx                    func(a, b *uint64, x, y uint64)
	cmov                    func(*uint64, uint8, uint64, uint64)
}

type (
	pF = pasta.Field
	pS = pasta.Scalar
)

var fpFns = fieldFns{
	name: "Fp", m: ref.FpP,
	add: pasta.FiatPastaFpAdd, sub: pasta.FiatPastaFpSub, mul: pasta.FiatPastaFpMul,
	sq: pasta.FiatPastaFpSquare, opp: pasta.FiatPastaFpOpp, from: pasta.FiatPastaFpFromMontgomery, to: pasta.FiatPastaFpToMontgomery, copy: pasta.FiatPastaFpCopy,
	nonzero: pasta.FiatPastaFpNonZero, eq: pasta.FiatPastaFpEquals,
	wadd:   func(a, b [4]uint64) [4]uint64 { var c pF; pasta.FieldAdd(&c, a, b); return c },
	wsub:   func(a, b [4]uint64) [4]uint64 { var c pF; pasta.FieldSub(&c, a, b); return c },
	wmul:   func(a, b [4]uint64) [4]uint64 { var c pF; pasta.FieldMul(&c, a, b); return c },
	wsq:    func(a [4]uint64) [4]uint64 { var c pF; pasta.FieldSq(&c, a); return c },
	wneg:   func(a [4]uint64) [4]uint64 { var c pF; pasta.FieldNegate(&c, a); return c },
	wcopy:  func(a [4]uint64) [4]uint64 { var c pF; pasta.FieldCopy(&c, a); return c },
	weq:    func(a, b [4]uint64) bool { return pasta.FieldEq(a, b) == 1 },
	hex:    func(s string) ([4]uint64, bool) { var f pF; ok := pasta.FieldFromHex(&f, s); return f, ok },
	fromBE: pasta.BigEndianBytesToFpMontgomeryArray, toBE: pasta.FpMontgomeryArrayToBigEndianBytes,
	structBE: func(a [4]uint64) []byte { return pF(a).ToBigEndianBytes() },
	addc: func(o *uint64, c *uint8, i uint8, a, b uint64) {
		pasta.FiatPastaFpAddCarryXU64(o, (*pasta.FiatPastaFpUint1)(c), pasta.FiatPastaFpUint1(i), a, b)
	},
	subb: func(o *uint64, c *uint8, i uint8, a, b uint64) {
		pasta.FiatPastaFpSubBorrowXU64(o, (*pasta.FiatPastaFpUint1)(c), pasta.FiatPastaFpUint1(i), a, b)
	},
	mulx: func(l, h *uint64, a, b uint64) { pasta.FiatPastaFpMulXU64(l, h, a, b) },
	cmov: func(o *uint64, i uint8, a, b uint64) {
		pasta.FiatPastaFpCmovznzU64(o, pasta.FiatPastaFpUint1(i), a, b)
	},
}

var fqFns = fieldFns{
	name: "Fq", m: ref.FqN,
	add: pasta.FiatPastaFqAdd, sub: pasta.FiatPastaFqSub, mul: pasta.FiatPastaFqMul,
	sq: pasta.FiatPastaFqSquare, opp: pasta.FiatPastaFqOpp, from: pasta.FiatPastaFqFromMontgomery, to: pasta.FiatPastaFqToMontgomery, copy: pasta.FiatPastaFqCopy,
	nonzero: pasta.FiatPastaFqNonZero, eq: pasta.FiatPastaFqEquals,
	wadd:   func(a, b [4]uint64) [4]uint64 { var c pS; pasta.ScalarAdd(&c, a, b); return c },
	wsub:   func(a, b [4]uint64) [4]uint64 { var c pS; pasta.ScalarSub(&c, a, b); return c },
	wmul:   func(a, b [4]uint64) [4]uint64 { var c pS; pasta.ScalarMul(&c, a, b); return c },
	wsq:    func(a [4]uint64) [4]uint64 { var c pS; pasta.ScalarSq(&c, a); return c },
	wneg:   func(a [4]uint64) [4]uint64 { var c pS; pasta.ScalarNegate(&c, a); return c },
	wcopy:  func(a [4]uint64) [4]uint64 { var c pS; pasta.ScalarCopy(&c, a); return c },
	weq:    func(a, b [4]uint64) bool { return pasta.ScalarEq(a, b) },
	hex:    func(s string) ([4]uint64, bool) { var f pS; ok := pasta.ScalarFromHex(&f, s); return f, ok },
	fromBE: pasta.BigEndianBytesToFqMontgomeryArray, toBE: pasta.FqMontgomeryArrayToBigEndianBytes,
	addc: func(o *uint64, c *uint8, i uint8, a, b uint64) {
		pasta.FiatPastaFqAddCarryXU64(o, (*pasta.FiatPastaFqUint1)(c), pasta.FiatPastaFqUint1(i), a, b)
	},
	subb: func(o *uint64, c *uint8, i uint8, a, b uint64) {
		pasta.FiatPastaFqSubBorrowXU64(o, (*pasta.FiatPastaFqUint1)(c), pasta.FiatPastaFqUint1(i), a, b)
	},
	mulx: func(l, h *uint64, a, b uint64) { pasta.FiatPastaFqMulXU64(l, h, a, b) },
	cmov: func(o *uint64, i uint8, a, b uint64) {
		pasta.FiatPastaFqCmovznzU64(o, pasta.FiatPastaFqUint1(i), a, b)
	},
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[len(b)-1-i]
	}
	return o
}

func init() {
	F("M02", "field", "every case: two elements of Fp or Fq through every field operation", 26000, 900000, func(t *rapid.T) pfCase {
		c := pfCase{Q: pick(t, 2, "q") == 1, E: uint8(pick(t, 256, "e"))}
		p := ref.FpP
		if c.Q {
			p = ref.FqN
		}
		a := pfVal(t, p, "a")
		var b *big.Int
		switch pick(t, 12, "rel") {
		case 0:
			c.Kind, b = "equal", a
		case 1:
			c.Kind, b = "opposite", mod(sub(p, a), p)
		case 2:
			c.Kind, b = "neighbour", mod(add(a, n64(int64(pick(t, 5, "n")-2))), p)
		case 3, 4, 5, 6: // a special result
			c.Kind, b = "chosen result", chosen(t, p, a, pfVal(t, p, "b"))
		default:
			c.Kind, b = "independent", pfVal(t, p, "b")
		}
		c.A, c.B = b32(a), b32(b)
		return c
	}, func(c pfCase, x *Ctx) error {
		x.NT()
		f := &fpFns
		if c.Q {
			f = &fqFns
		}
		x.Label(f.name + " " + c.Kind)
		p := f.m
		a, b := bi(c.A), bi(c.B)
		am, bm := ref.ToMont(a, p), ref.ToMont(b, p)
		chk := func(op string, got [4]uint64, w *big.Int) error {
			if got != ref.ToMont(mod(w, p), p) {
				return errf("%s %s(%x, %x) = limbs %x, want the Montgomery form of %x", f.name, op, a, b, got, mod(w, p))
			}
			return nil
		}
		var errs []error
		two := func(op string, fn func(*[4]uint64, [4]uint64, [4]uint64), w func(a, b [4]uint64) [4]uint64, want *big.Int) {
			o := [4]uint64{9, 9, 9, 9}
			fn(&o, am, bm)
			al := am
			fn(&al, al, bm) // result over an operand
			errs = append(errs, chk(op, o, want), chk(op+" in place", al, want), chk(op+" wrapper", w(am, bm), want))
		}
		one := func(op string, fn func(*[4]uint64, [4]uint64), w func(a [4]uint64) [4]uint64, want *big.Int) {
			o := [4]uint64{9, 9, 9, 9}
			fn(&o, am)
			errs = append(errs, chk(op, o, want), chk(op+" wrapper", w(am), want))
		}
		two("add", f.add, f.wadd, add(a, b))
		two("sub", f.sub, f.wsub, sub(a, b))
		two("mul", f.mul, f.wmul, mul(a, b))
		one("square", f.sq, f.wsq, mul(a, a))
		one("opp", f.opp, f.wneg, sub(p, a))
		one("copy", f.copy, f.wcopy, a)
		var o [4]uint64
		f.to(&o, ref.Limbs(a))
		errs = append(errs, chk("ToMontgomery", o, a))
		f.from(&o, am)
		if o != ref.Limbs(a) {
			return errf("%s FromMontgomery(%x) = %x", f.name, a, o)
		}
		var nz uint64
		f.nonzero(&nz, am)
		if (nz != 0) != (a.Sign() != 0) {
			return errf("%s NonZero(%x) = %d", f.name, a, nz)
		}
		eq := a.Cmp(b) == 0
		if f.eq(am, bm) != eq || f.weq(am, bm) != eq || !f.eq(am, am) || !f.weq(bm, bm) {
			return errf("%s Equals(%x, %x)", f.name, a, b)
		}
		if !eqb(f.toBE(am), c.A) || f.fromBE(cp(c.A)) != am {
			return errf("%s big-endian conversion of %x: %x, %x", f.name, a, f.toBE(am), f.fromBE(cp(c.A)))
		}
		if f.structBE != nil && !eqb(f.structBE(am), b32(ref.FromLimbs(am))) {
			return errf("%s ToBigEndianBytes(%x)", f.name, am)
		}
		if c.Q {
			for _, e := range errs {
				if e != nil {
					return e
				}
			}
			return nil
		}
		// Fp only
		var w pF
		pasta.FieldPow(&w, am, c.E)
		errs = append(errs, chk(fmt.Sprintf("FieldPow %d", c.E), w, new(big.Int).Exp(a, n64(int64(c.E)), p)))
		inv := new(big.Int)
		if a.Sign() != 0 {
			inv.ModInverse(a, p)
		}
		pasta.FieldInv(&w, am)
		errs = append(errs, chk("FieldInv", w, inv))
		pasta.FiatPastaFpInv(&o, am)
		errs = append(errs, chk("Inv", o, inv))
		bl := make([]bool, 0, 256)
		for i := b.BitLen() - 1; i >= 0; i-- {
			bl = append(bl, b.Bit(i) == 1)
		}
		pasta.FiatPastaFpPow(&o, am, bl, len(bl))
		errs = append(errs, chk("Pow", o, new(big.Int).Exp(a, b, p)))
		pasta.FiatPastaFpSetOne(&o)
		errs = append(errs, chk("SetOne", o, bigOne))
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		if pasta.FiatPastaFpEqualsZero(am) != (a.Sign() == 0) || pasta.FiatPastaFpEqualsOne(am) != (a.Cmp(bigOne) == 0) {
			return errf("EqualsZero/EqualsOne(%x)", a)
		}
		if pasta.FieldIsOdd(am) != (a.Bit(0) == 1) {
			return errf("FieldIsOdd(%x)", a)
		}
		if f := pF(am); f.ToU64Array() != am {
			return errf("ToU64Array")
		}
		return nil
	})

	F("M02", "root", "every case: square roots and Legendre symbols of squares, non-squares and roots of unity", 6000, 200000, func(t *rapid.T) pfCase {
		a := pfVal(t, ref.FpP, "a")
		c := pfCase{}
		switch pick(t, 4, "kind") {
		case 0:
			c.Kind, a = "square", mod(mul(a, a), ref.FpP)
		case 1: // elements of 2-power order: the longest Tonelli-Shanks runs
			c.Kind = "root of unity"
			e := new(big.Int).Rsh(sub(ref.FpP, bigOne), 32)
			e.Mul(e, lsh(uint(pick(t, 32, "j"))))
			a = new(big.Int).Exp(add(a, n64(2)), e, ref.FpP)
		case 2: // odd-order element times a root of unity
			c.Kind = "mixed"
			e := lsh(uint(pick(t, 33, "j")))
			a = new(big.Int).Exp(a, e, ref.FpP)
		default:
			c.Kind = "any"
		}
		c.A = b32(a)
		return c
	}, func(c pfCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		a := bi(c.A)
		am := mont(a)
		leg := big.Jacobi(a, ref.FpP)
		if got := pasta.FiatPastaFpLegendRe(am); got != leg {
			return errf("LegendRe(%x) = %d, want %d", a, got, leg)
		}
		r := [4]uint64{7, 7, 7, 7}
		ok := pasta.FiatPastaFpSqrt(&r, am)
		if ok != (leg >= 0) {
			return errf("Sqrt(%x) = %v", a, ok)
		}
		if ok {
			x.Label("square")
			v := ref.FromMont(r, ref.FpP)
			if ref.FromLimbs(r).Cmp(ref.FpP) >= 0 || mod(mul(v, v), ref.FpP).Cmp(a) != 0 {
				return errf("Sqrt(%x) = %x", a, v)
			}
		}
		return nil
	})

	F("M02", "bytes", "every case: hexadecimal, word and byte conversions of arbitrary 32-byte strings", 16000, 400000, func(t *rapid.T) pfCase {
		c := pfCase{Q: pick(t, 2, "q") == 1}
		p := ref.FpP
		if c.Q {
			p = ref.FqN
		}
		switch pick(t, 4, "kind") {
		case 0:
			c.Kind, c.X = "reduced", b32(fpElem(t, p, "x"))
		case 1:
			c.Kind, c.X = "around the modulus", b32(add(p, n64(int64(pick(t, 9, "d")-4))))
		case 2:
			c.Kind, c.X = "pattern", b32(pattern(t, 256, "x"))
		default:
			c.Kind, c.X = "any", B(rbytes(t, 32, "x"))
		}
		n := []int{0, 1, 8, 16, 31, 32, 33, 64}[pick(t, 8, "n")]
		c.Y = B(rbytes(t, n, "y"))
		c.E = uint8(pick(t, 4, "e"))
		return c
	}, func(c pfCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		f := &fpFns
		if c.Q {
			f = &fqFns
		}
		p := f.m
		v := bi(c.X)
		want := ref.ToMont(mod(v, p), p)
		if got := f.fromBE(cp(c.X)); got != want {
			return errf("%s from big-endian bytes %x = %x", f.name, []byte(c.X), got)
		}
		if len(c.Y) <= 32 {
			if got := f.fromBE(cp(c.Y)); got != ref.ToMont(mod(bi(c.Y), p), p) {
				return errf("%s from big-endian bytes %x = %x", f.name, []byte(c.Y), got)
			}
		}
		// little-endian hexadecimal: 255 bits, the top two of 256 refused
		h := hex.EncodeToString(rev(c.X))
		ok := c.X[0]&0xc0 == 0
		if c.E == 1 { // upper case is the same number
			h = fmt.Sprintf("%X", rev(c.X))
		}
		if got, g := f.hex(h); g != ok || ok && got != want {
			return errf("%s FromHex(%s) = %x, %v", f.name, h, got, g)
		}
		bad := []string{h[:len(h)-1], h[:62], h + "00", "zz" + h[2:], "", "0x" + h, " " + h[1:]}[pick0(int(c.E)*2+int(c.X[31])%7, 7)]
		if got, g := f.hex(bad); g {
			return errf("%s FromHex(%q) = %x accepted", f.name, bad, got)
		}
		if len(c.Y) != 32 {
			if got, g := f.hex(hex.EncodeToString(c.Y)); g {
				return errf("%s FromHex of %d bytes accepted: %x", f.name, len(c.Y), got)
			}
		}
		le := arr32(rev(c.X))
		if got := pasta.BytesArrayToU64Array(le); got != ref.Limbs(v) {
			return errf("BytesArrayToU64Array(%x) = %x", le, got)
		}
		if got := pasta.U64ArrayToBytesArray(ref.Limbs(v)); got != le {
			return errf("U64ArrayToBytesArray(%x) = %x", v, got)
		}
		var w32 [32]byte
		if len(c.Y) == 32 {
			w32 = arr32(c.Y)
		}
		if got := pasta.BytesArrayTo32LengthBytesArray(cp(c.Y)); got != w32 {
			return errf("BytesArrayTo32LengthBytesArray(%x) = %x", []byte(c.Y), got)
		}
		if c.Q {
			var s pS
			pasta.ScalarFromWords(&s, ref.Limbs(v))
			m := mod(mod(v, lsh(254)), p)
			if [4]uint64(s) != ref.ToMont(m, p) {
				return errf("ScalarFromWords(%x) = %x", v, s)
			}
			var z pS
			z.Set(ref.Limbs(v))
			if z.ToU64Array() != ref.Limbs(v) {
				return errf("Scalar Set/ToU64Array")
			}
		}
		return nil
	})

	F("M02", "words", "every case: the one-word primitives on special and random words", 16000, 300000, func(t *rapid.T) pfCase {
		c := pfCase{Q: pick(t, 2, "q") == 1, E: uint8(pick(t, 2, "c"))}
		w := func(l string) B {
			b := rbytes(t, 8, l)
			switch pick(t, 4, l+"k") {
			case 0:
				b = b32(mod(sub(add(lsh(64), n64(int64(pick(t, 4, l+"d")))), n64(2)), lsh(64)))[24:]
			case 1:
				b = b32(mod(lsh(uint(pick(t, 64, l+"s"))), lsh(64)))[24:]
			}
			return B(b)
		}
		c.X, c.Y = w("x"), w("y")
		return c
	}, func(c pfCase, x *Ctx) error {
		x.NT()
		f := &fpFns
		if c.Q {
			f = &fqFns
		}
		a, b, ci := bi(c.X).Uint64(), bi(c.Y).Uint64(), uint64(c.E)
		var o, h uint64
		var k uint8
		f.addc(&o, &k, c.E, a, b)
		if s, cc := bits.Add64(a, b, ci); o != s || uint64(k) != cc {
			return errf("%s AddCarryX(%d, %x, %x) = %x, %d", f.name, c.E, a, b, o, k)
		}
		f.subb(&o, &k, c.E, a, b)
		if s, cc := bits.Sub64(a, b, ci); o != s || uint64(k) != cc {
			return errf("%s SubBorrowX(%d, %x, %x) = %x, %d", f.name, c.E, a, b, o, k)
		}
		f.mulx(&o, &h, a, b)
		if hh, ll := bits.Mul64(a, b); o != ll || h != hh {
			return errf("%s MulX(%x, %x) = %x, %x", f.name, a, b, h, o)
		}
		f.cmov(&o, c.E, a, b)
		if w := []uint64{a, b}[c.E]; o != w {
			return errf("%s Cmovznz(%d, %x, %x) = %x", f.name, c.E, a, b, o)
		}
		return nil
	})

	F("M02", "group", "every case: two points in random Jacobian form through every group operation", 4000, 150000, func(t *rapid.T) pgCase {
		c := pgCase{}
		pt := func(l string) ref.Pt {
			if oneIn(t, 8, l+"inf") {
				return ref.Pt{Inf: true}
			}
			return wpoint(t, cPas, l)
		}
		P := pt("P")
		var Q ref.Pt
		switch pick(t, 6, "kind") {
		case 0:
			c.Kind, Q = "equal", P
		case 1:
			c.Kind, Q = "opposite", ref.Pallas.Neg(P)
		case 2:
			c.Kind, Q = "double", ref.Pallas.Add(P, P)
		case 3:
			c.Kind, Q = "independent", pt("Q")
			if !P.Inf {
				Q, c.Kind = related(t, cPas, P)
			}
		default:
			c.Kind, Q = "independent", pt("Q")
		}
		if !P.Inf {
			c.P = P.XY()
		}
		if !Q.Inf {
			c.Q = Q.XY()
		}
		z := func(l string) B {
			if pick(t, 3, l) == 0 {
				return b32(bigOne)
			}
			v := fpElem(t, ref.FpP, l+"z")
			if v.Sign() == 0 {
				v = n64(2)
			}
			return b32(v)
		}
		c.Z, c.Z2 = z("z"), z("z2")
		return c
	}, func(c pgCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		P, Q := gpt(c.P), gpt(c.Q)
		if P.Inf || Q.Inf {
			x.Label("infinity")
		}
		g, h := libG(P, bi(c.Z)), libG(Q, bi(c.Z2))
		W := ref.Pallas.Add(P, Q)
		D := ref.Pallas.Add(P, P)
		N := ref.Pallas.Neg(P)
		var r pasta.Group
		steps := []struct {
			n string
			f func()
			w ref.Pt
		}{
			{"GroupAdd", func() { pasta.GroupAdd(&r, g, h) }, W},
			{"GroupAdd swapped", func() { pasta.GroupAdd(&r, h, g) }, W},
			{"GroupAdd over p", func() { r = g; pasta.GroupAdd(&r, r, h) }, W},
			{"GroupAdd over q", func() { r = h; pasta.GroupAdd(&r, g, r) }, W},
			{"GroupDbl", func() { pasta.GroupDbl(&r, g) }, D},
			{"GroupDbl in place", func() { r = g; pasta.GroupDbl(&r, r) }, D},
			{"GroupNegate", func() { pasta.GroupNegate(&r, g) }, N},
			{"GroupNegate in place", func() { r = g; pasta.GroupNegate(&r, r) }, N},
			{"identity + P", func() { pasta.GroupAdd(&r, pasta.GroupZero, g) }, P},
			{"P", func() { r = g }, P},
			{"AffineToGroup", func() { pasta.AffineToGroup(&r, libA(P)) }, P},
			{"GroupOne", func() { pasta.GroupOne(&r) }, ref.Pallas.G},
		}
		for _, s := range steps {
			r = pasta.Group{X: pF{1, 2, 3, 4}, Y: pF{5}, Z: pF{6}}
			s.f()
			if err := wantG(s.n, r, s.w); err != nil {
				return err
			}
		}
		pa, qa := libA(P), libA(Q)
		var a pasta.Affine
		pasta.AffineAdd(&a, pa, qa)
		if err := wantA("AffineAdd", a, W); err != nil {
			return err
		}
		pasta.AffineNegate(&a, pa)
		if err := wantA("AffineNegate", a, N); err != nil {
			return err
		}
		if pasta.AffineEq(pa, qa) != ref.Eq(P, Q) {
			return errf("AffineEq(%v, %v)", P, Q)
		}
		if (pasta.AffineIsZero(pa) == 1) != P.Inf || !pasta.AffineIsOnCurve(pa) {
			return errf("AffineIsZero / AffineIsOnCurve(%v)", P)
		}
		// a point moved off the curve
		if !P.Inf {
			o := pa
			y := mod(add(P.Y, bi(c.Z)), ref.FpP)
			on := ref.Pallas.On(ref.Pt{X: P.X, Y: y})
			o.Y = mont(y)
			if pasta.AffineIsOnCurve(o) != on {
				return errf("AffineIsOnCurve(%x, %x) = %v", P.X, y, !on)
			}
			og := libG(ref.Pt{X: P.X, Y: y}, bi(c.Z2))
			if (pasta.GroupIsOnCurve(og) == 1) != on {
				return errf("GroupIsOnCurve(%x, %x; z=%x) = %v", P.X, y, []byte(c.Z2), !on)
			}
			// compression
			var cm pasta.Compressed
			pasta.Compress(&cm, pa)
			if cm.IsOdd != (P.Y.Bit(0) == 1) {
				return errf("Compress(%v): IsOdd = %v", P, cm.IsOdd)
			}
			var back pasta.Affine
			if !pasta.Decompress(&back, cm) || back != pa {
				return errf("Decompress(Compress(%v)) = %x", P, back)
			}
			if !eqb(cm.ToBigEndianBytes(), P.Comp()) {
				return errf("Compressed bytes of %v = %x", P, cm.ToBigEndianBytes())
			}
			var cm2 pasta.Compressed
			if err := cm2.FromBigEndianBytes(P.Comp()); err != nil || cm2.IsOdd != cm.IsOdd || !pasta.Decompress(&back, cm2) || back != pa {
				return errf("Compressed.FromBigEndianBytes(%x): %v %x", P.Comp(), err, back)
			}
			for _, e := range [][]byte{P.XY(), P.Comp(), P.Unc()} {
				var b pasta.Affine
				if err := b.FromBigEndianBytes(cp(e)); err != nil || b != pa {
					return errf("Affine.FromBigEndianBytes(%x) = %x, %v", e, b, err)
				}
			}
			if !eqb(pa.ToBigEndianBytes(), P.XY()) {
				return errf("Affine.ToBigEndianBytes(%v) = %x", P, pa.ToBigEndianBytes())
			}
			if w := cat(b32(ref.FromLimbs(pa.X)), b32(ref.FromLimbs(pa.Y))); !eqb(pa.ToBigEndianMontgomeryBytes(), w) {
				return errf("Affine.ToBigEndianMontgomeryBytes(%v)", P)
			}
		}
		return nil
	})

	F("M02", "decompress", "every case: an arbitrary x with a sign, decompressed iff x is the abscissa of a point", 5000, 150000, func(t *rapid.T) pgCase {
		v := fpElem(t, ref.FpP, "x")
		return pgCase{K: b32(v), Kind: []string{"even", "odd"}[pick(t, 2, "odd")]}
	}, func(c pgCase, x *Ctx) error {
		x.NT()
		odd := c.Kind == "odd"
		v := bi(c.K)
		P, ok := ref.Pallas.Lift(v, uint(map[bool]int{true: 1}[odd]))
		if ok {
			x.Label("on the curve")
		}
		var a pasta.Affine
		if got := pasta.Decompress(&a, pasta.Compressed{X: mont(v), IsOdd: odd}); got != ok {
			return errf("Decompress(%x) = %v", v, got)
		}
		if ok && a != libA(P) {
			return errf("Decompress(%x, odd=%v) = %x", v, odd, a)
		}
		return nil
	})

	F("M02", "mul", "every case: a scalar multiple of a point in random Jacobian form", 1200, 50000, func(t *rapid.T) pgCase {
		c := pgCase{K: b32(mod(anyScalar(t, ref.FqN, "k"), ref.FqN)), Kind: "point"}
		if oneIn(t, 10, "inf") {
			c.Kind = "infinity"
		} else {
			c.P = wpoint(t, cPas, "P").XY()
		}
		v := fpElem(t, ref.FpP, "z")
		if v.Sign() == 0 {
			v = n64(1)
		}
		c.Z = b32(v)
		return c
	}, func(c pgCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		P := gpt(c.P)
		k := bi(c.K)
		W := ref.Pt{Inf: true}
		if !P.Inf {
			W = ref.Pallas.Mul(k, P)
		}
		km := pS(ref.ToMont(k, ref.FqN))
		r := libG(ref.Pallas.G, n64(3))
		pasta.GroupScalarMul(&r, km, libG(P, bi(c.Z)))
		if err := wantG(fmt.Sprintf("GroupScalarMul by %x", k), r, W); err != nil {
			return err
		}
		r = libG(P, bi(c.Z))
		pasta.GroupScalarMul(&r, km, r)
		if err := wantG(fmt.Sprintf("GroupScalarMul in place by %x", k), r, W); err != nil {
			return err
		}
		var a pasta.Affine
		pasta.AffineScalarMul(&a, km, libA(P))
		if err := wantA("AffineScalarMul", a, W); err != nil {
			return err
		}
		pasta.GeneratePubkey(&a, km)
		return wantA("GeneratePubkey", a, ref.Pallas.MulG(k))
	})

	F("M02", "program", "at least four group operations on four registers, each result feeding later ones", 1200, 60000, func(t *rapid.T) pgProg {
		var p pgProg
		for i := 0; i < 4; i++ {
			var b B
			if i > 0 {
				b = wpoint(t, cPas, "s").XY()
			}
			v := fpElem(t, ref.FpP, "z")
			if v.Sign() == 0 {
				v = n64(1)
			}
			p.Start, p.Z = append(p.Start, b), append(p.Z, b32(v))
		}
		for i, n := 0, 4+pick(t, 16, "n"); i < n; i++ {
			s := pgStep{Op: pick(t, 12, "op"), D: pick(t, 4, "d"), A: pick(t, 4, "a"), B: pick(t, 4, "b")}
			if s.Op == 11 {
				s.K = b32(n64(int64(pick(t, 9, "k"))))
				if oneIn(t, 6, "big") {
					s.K = b32(mod(anyScalar(t, ref.FqN, "kk"), ref.FqN))
				}
			}
			p.Steps = append(p.Steps, s)
		}
		return p
	}, func(p pgProg, x *Ctx) error {
		if len(p.Steps) >= 4 {
			x.NT()
		}
		var lib [4]pasta.Group
		var mod_ [4]ref.Pt
		for i := range lib {
			mod_[i] = gpt(p.Start[i])
			lib[i] = libG(mod_[i], bi(p.Z[i]))
		}
		for n, s := range p.Steps {
			switch {
			case s.Op < 5:
				pasta.GroupAdd(&lib[s.D], lib[s.A], lib[s.B])
				mod_[s.D] = ref.Pallas.Add(mod_[s.A], mod_[s.B])
			case s.Op < 8:
				pasta.GroupDbl(&lib[s.D], lib[s.A])
				mod_[s.D] = ref.Pallas.Add(mod_[s.A], mod_[s.A])
			case s.Op < 10:
				pasta.GroupNegate(&lib[s.D], lib[s.A])
				mod_[s.D] = ref.Pallas.Neg(mod_[s.A])
			case s.Op == 10: // normalise
				var a pasta.Affine
				pasta.AffineFromGroup(&a, lib[s.A])
				pasta.AffineToGroup(&lib[s.D], a)
				mod_[s.D] = mod_[s.A]
			default:
				k := bi(s.K)
				pasta.GroupScalarMul(&lib[s.D], ref.ToMont(k, ref.FqN), lib[s.A])
				if !mod_[s.A].Inf {
					mod_[s.D] = ref.Pallas.Mul(k, mod_[s.A])
				} else {
					mod_[s.D] = ref.Pt{Inf: true}
				}
			}
			if mod_[s.D].Inf {
				x.Label("infinity reached")
			}
			if err := wantG(fmt.Sprintf("step %d", n), lib[s.D], mod_[s.D]); err != nil {
				return err
			}
		}
		return nil
	})
	initM03()
}

func pick0(a, n int) int { return a % n }

// ---- M03: Poseidon --------------------------------------------------------------

type posOp struct {
	C int // context
	V []B // nil: digest
	N bool
}
type posCase struct {
	IV  [][]B // per context, three field elements
	Ops []posOp
}

func initM03() {
	F("M03", "split", "at least two updates of one context before its digest, or two interleaved contexts", 1100, 60000, func(t *rapid.T) posCase {
		var c posCase
		nc := 1 + pick(t, 3, "contexts")
		for i := 0; i < nc; i++ {
			var iv []B
			switch pick(t, 3, "iv") {
			case 0:
				iv = []B{b32(n64(0)), b32(n64(0)), b32(n64(0))}
			case 1:
				k := pick(t, 2, "net")
				for _, v := range ref.MinaIV[k] {
					iv = append(iv, b32(v))
				}
			default:
				for j := 0; j < 3; j++ {
					iv = append(iv, b32(fpElem(t, ref.FpP, "iv")))
				}
			}
			c.IV = append(c.IV, iv)
		}
		for i, n := 0, 1+pick(t, 8, "ops"); i < n; i++ {
			o := posOp{C: pick(t, nc, "ctx")}
			k := []int{0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 7}[pick(t, 11, "k")]
			o.V = []B{}
			o.N = k == 0 && pick(t, 2, "nil") == 0
			for j := 0; j < k; j++ {
				o.V = append(o.V, b32(pfVal(t, ref.FpP, "v")))
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, func(c posCase, x *Ctx) error {
		rk, mds := deepCopy(pasta.RoundKeys3W), deepCopy(pasta.MdsMatrix3W)
		n := len(c.IV)
		ctx := make([]pasta.PoseidonCtx, n)
		in := make([][]*big.Int, n)
		ups := make([]int, n)
		ivs := make([][3]*big.Int, n)
		for i, iv := range c.IV {
			var f []pasta.Field
			for j, v := range iv {
				f = append(f, mont(bi(v)))
				ivs[i][j] = bi(v)
			}
			ctx[i] = pasta.Poseidon3WInit(f)
			for j := range f { // the initial state is taken by value
				f[j] = pF{1, 2, 3, 4}
			}
		}
		for _, o := range c.Ops {
			var f []pasta.Field
			if !o.N {
				f = []pasta.Field{}
			}
			for _, v := range o.V {
				f = append(f, mont(bi(v)))
				in[o.C] = append(in[o.C], bi(v))
			}
			keep := append([]pasta.Field{}, f...)
			pasta.PoseidonUpdate(&ctx[o.C], f)
			if !eqFields(keep, f) {
				return errf("PoseidonUpdate changed its input")
			}
			for j := range f {
				f[j] = pF{9, 9, 9, 9}
			}
			ups[o.C]++
			// a copy of the context gives the digest of what was absorbed so far
			cpy := ctx[o.C]
			want := b32(ref.Poseidon(ivs[o.C], in[o.C]))
			if got := pasta.PoseidonDigest(&cpy); !eqb(got, want) {
				return errf("digest of %v after %d updates = %x, want %x", in[o.C], ups[o.C], got, want)
			}
		}
		for i := range ctx {
			if ups[i] > 1 || n > 1 {
				x.NT()
			}
			want := b32(ref.Poseidon(ivs[i], in[i]))
			if got := pasta.PoseidonDigest(&ctx[i]); !eqb(got, want) {
				return errf("context %d: digest of %v = %x, want %x", i, in[i], got, want)
			}
		}
		if !eqFF(rk, pasta.RoundKeys3W) || !eqFF(mds, pasta.MdsMatrix3W) {
			return errf("hashing changed the constants")
		}
		return nil
	}).rows(220, 10000, kinPos)

	F("M03", "long", "every case: one absorption of up to 300 elements, whole and split at one point", 300, 20000, func(t *rapid.T) posCase {
		c := posCase{IV: [][]B{{b32(fpElem(t, ref.FpP, "iv")), b32(fpElem(t, ref.FpP, "iv")), b32(fpElem(t, ref.FpP, "iv"))}}}
		n := pick(t, 60, "n")
		if oneIn(t, 8, "big") {
			n = 200 + pick(t, 100, "n2")
		}
		b := uniform(t, 32*n, "data")
		o := posOp{C: pick(t, n+1, "split"), V: []B{}}
		for i := 0; i < n; i++ {
			o.V = append(o.V, b32(mod(bi(b[32*i:32*i+32]), ref.FpP)))
		}
		c.Ops = []posOp{o}
		return c
	}, func(c posCase, x *Ctx) error {
		x.NT()
		var iv [3]*big.Int
		var f []pasta.Field
		for j, v := range c.IV[0] {
			iv[j] = bi(v)
			f = append(f, mont(bi(v)))
		}
		var in []*big.Int
		var lf []pasta.Field
		for _, v := range c.Ops[0].V {
			in = append(in, bi(v))
			lf = append(lf, mont(bi(v)))
		}
		want := b32(ref.Poseidon(iv, in))
		a := pasta.Poseidon3WInit(f)
		pasta.PoseidonUpdate(&a, lf)
		if got := pasta.PoseidonDigest(&a); !eqb(got, want) {
			return errf("digest of %d elements = %x, want %x", len(in), got, want)
		}
		b := pasta.Poseidon3WInit(f)
		pasta.PoseidonUpdate(&b, lf[:c.Ops[0].C])
		pasta.PoseidonUpdate(&b, lf[c.Ops[0].C:])
		if got := pasta.PoseidonDigest(&b); !eqb(got, want) {
			return errf("digest of %d elements split at %d = %x, want %x", len(in), c.Ops[0].C, got, want)
		}
		return nil
	})
}

func deepCopy(a [][]pasta.Field) (o [][]pasta.Field) {
	for _, r := range a {
		o = append(o, append([]pasta.Field{}, r...))
	}
	return
}

func eqFF(a, b [][]pasta.Field) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqFields(a[i], b[i]) {
			return false
		}
	}
	return true
}
