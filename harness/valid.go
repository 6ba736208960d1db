package main

import (
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/pasta"
	"pgregory.net/rapid"

	"verif/ref"
)

// Invalid keys and points (V01). The signatures offered under an invalid key
// are made so that a verifier that skips the validity check would accept.

type badCase struct {
	C    int // curve
	Bad  B
	Good B
	K    B
	D    B
	ID   B
	Sigs []verTry
	Kind string
	Aug  bool
}

type verTry struct {
	Msg, Sig B
}

// validEnc: the encoding is a legal form of a finite curve point.
func validEnc(w wcurve, b []byte) bool {
	switch len(b) {
	case 64:
		P, ok := w.c.ParseXY(b)
		return ok && w.c.On(P)
	case 65:
		return b[0] == 4 && validEnc(w, b[1:])
	case 33:
		if b[0] != 2 && b[0] != 3 || bi(b[1:]).Cmp(w.c.P) >= 0 {
			return false
		}
		_, ok := w.c.Lift(bi(b[1:]), uint(b[0]&1))
		return ok
	}
	return false
}

func noLift(t *rapid.T, w wcurve, l string) *big.Int {
	x := mod(pattern(t, 256, l), w.c.P)
	if pick(t, 2, l+"u") == 0 {
		x = mod(bi(uniform(t, 40, l)), w.c.P)
	}
	for {
		if _, ok := w.c.Lift(x, 0); !ok {
			return x
		}
		x = mod(add(x, bigOne), w.c.P)
	}
}

// badPoint draws an encoding that is not a valid point.
func badPoint(t *rapid.T, w wcurve, l string) (B, string) {
	p := w.c.P
	P := wpoint(t, w, l)
	switch pick(t, 14, l+"bk") {
	case 0:
		return make(B, 64), "zero"
	case 1, 2, 3:
		return offCurve(t, w, l), "off curve"
	case 4: // (x, 0): order 2 on another curve
		return cat(b32(P.X), make([]byte, 32)), "order two on another curve"
	case 5: // both coordinates random but reduced
		return cat(b32(mod(bi(uniform(t, 40, l+"rx")), p)), b32(mod(bi(uniform(t, 40, l+"ry")), p))), "off curve"
	case 6: // not reduced: the same point modulo p
		x, y := P.X, P.Y
		if w.typ == tPas {
			n := int64(1 + pick(t, 3, l+"n"))
			switch pick(t, 3, l+"w") {
			case 0:
				x = add(x, mul(p, n64(n)))
			case 1:
				y = add(y, mul(p, n64(n)))
			default:
				x, y = add(x, p), add(y, p)
			}
		} else if w.typ == tK1 && pick(t, 2, l+"w") == 0 { // small y: x = cuberoot(y^2-7)
			for v := int64(1 + pick(t, 200, l+"y")); ; v++ {
				c := mod(sub(n64(v*v), n64(7)), p)
				e := new(big.Int).Div(add(p, n64(2)), n64(9))
				r := new(big.Int).Exp(c, e, p)
				if new(big.Int).Exp(r, n64(3), p).Cmp(c) == 0 {
					x, y = r, add(n64(v), p)
					break
				}
			}
		} else {
			Q := liftNear(w, n64(int64(pick(t, 1000, l+"tx"))), uint(pick(t, 2, l+"odd")))
			x, y = add(Q.X, p), Q.Y
		}
		if x.BitLen() <= 256 && y.BitLen() <= 256 {
			return cat(b32(x), b32(y)), "not reduced"
		}
		return make(B, 64), "zero"
	case 7:
		return cat([]byte{[]byte{0, 1, 2, 3, 5, 6, 7, 0xff}[pick(t, 8, l+"pf")]}, P.XY()), "65 bytes, wrong prefix"
	case 8:
		return cat([]byte{4}, offCurve(t, w, l)), "65 bytes, off curve"
	case 9:
		return cat([]byte{[]byte{0, 1, 4, 5, 6, 7, 0x82, 0xff}[pick(t, 8, l+"pf")]}, b32(P.X)), "33 bytes, wrong prefix"
	case 10:
		return cat([]byte{byte(2 + pick(t, 2, l+"pf"))}, b32(noLift(t, w, l+"nl"))), "33 bytes, no point"
	case 11: // compressed, x not reduced
		Q := liftNear(w, n64(int64(pick(t, 1000, l+"tx"))), 0)
		v := add(Q.X, p)
		return cat([]byte{byte(2 + pick(t, 2, l+"pf"))}, b32(v)), "33 bytes, not reduced"
	case 12:
		n := pick(t, 140, l+"n")
		if n == 33 || n == 64 || n == 65 {
			n++
			if n == 65 {
				n++
			}
		}
		b := cat(P.Unc(), P.XY(), P.XY())[:n]
		if pick(t, 2, l+"from1") == 0 && n < 128 {
			b = cat(P.XY(), P.XY())[:n]
		}
		if pick(t, 4, l+"by") == 0 {
			return over(t, encPt(P.XY(), pick(t, 3, l+"form")), l+"ov"), "wrong length"
		}
		return B(b), "wrong length"
	default:
		if pick(t, 2, l+"nil") == 0 {
			return nil, "nil"
		}
		return B{}, "empty"
	}
}

// forge makes signatures that a verifier computing with the raw coordinates
// (or with the coordinates modulo p, or with the identity) would accept.
func forge(t *rapid.T, w wcurve, bad []byte, l string) (o []verTry) {
	n := w.c.N
	if len(bad) != 64 {
		if len(bad) == 65 {
			bad = bad[1:]
		} else if len(bad) == 33 {
			Q, ok := w.c.Lift(mod(bi(bad[1:]), w.c.P), uint(bad[0]&1))
			if !ok {
				return []verTry{{B(rbytes(t, 32, l)), B(rbytes(t, 64, l+"s"))}}
			}
			bad = Q.XY()
		} else {
			return []verTry{{B(rbytes(t, 32, l)), B(rbytes(t, 64, l+"s"))}}
		}
	}
	Q := ref.Pt{X: mod(bi(bad[:32]), w.c.P), Y: mod(bi(bad[32:]), w.c.P)}
	Qs := []ref.Pt{Q}
	if zeroes(bad) {
		Qs = []ref.Pt{{Inf: true}}
	}
	if Q.Y.Sign() == 0 { // the tangent is undefined: formulas see order two or the identity
		Qs = append(Qs, ref.Pt{Inf: true})
	}
	for i, q := range Qs {
		u1 := mod(bi(uniform(t, 40, l+"u1")), n)
		u2 := mod(bi(uniform(t, 40, l+"u2")), n)
		if pick(t, 3, l+"small") == 0 {
			u1, u2 = n64(int64(pick(t, 4, l+"us"))), n64(int64(1+pick(t, 4, l+"ut")))
		}
		if u2.Sign() == 0 {
			u2 = n64(1)
		}
		if w.typ == tPas {
			for try := 0; try < 12; try++ {
				m, mb := ref.MinaMsg{}, B(minaMsg(t, l+"m"))
				m, _ = minaDecode(mb)
				s := mod(add(u1, n64(int64(try))), n)
				G := w.c.MulG(s)
				neg := w.c.Neg(q)
				done := false
				for k := 0; k < 2 && !done; k++ { // e*Q is 0 or Q for a key of order two (or the identity)
					R := G
					if k == 1 {
						R = w.c.Add(G, neg)
					}
					if R.Inf || R.Y.Bit(0) == 1 {
						continue
					}
					kp := Q
					if kp.Inf {
						kp = ref.Pt{X: n64(0), Y: n64(0)}
					}
					e := mod(minaHash(ref.Pt{X: Q.X, Y: Q.Y}, m, R.X), n)
					T := ref.Pt{Inf: true}
					if !q.Inf {
						T = w.c.Mul(e, q)
					}
					if ref.Eq(w.c.Add(G, w.c.Neg(T)), R) {
						o = append(o, verTry{mb, B(cat(b32(R.X), b32(s)))})
						done = true
					}
				}
				if done {
					break
				}
			}
			continue
		}
		T := ref.Pt{Inf: true}
		if !q.Inf {
			T = w.c.Mul(u2, q)
		}
		R := w.c.Add(w.c.MulG(u1), T)
		if R.Inf {
			continue
		}
		if isSM2(w) { // R = s*G + (r+s)*Q, r = e + x(R)
			s, tt := u1, u2
			r := mod(sub(tt, s), n)
			e := mod(sub(r, R.X), n)
			o = append(o, verTry{b32(e), B(cat(b32(r), b32(s)))})
			continue
		}
		r := mod(R.X, n)
		s := mod(mul(r, new(big.Int).ModInverse(u2, n)), n)
		e := mod(mul(u1, s), n)
		if e2 := add(e, n); i == 0 && e2.BitLen() <= 256 && pick(t, 4, l+"e2") == 0 {
			e = e2
		}
		o = append(o, verTry{b32(e), B(cat(b32(r), b32(s)))})
		if h := new(big.Int).Rsh(n, 1); s.Cmp(h) > 0 {
			o = append(o, verTry{b32(e), B(cat(b32(r), b32(sub(n, s))))})
		}
	}
	if len(o) == 0 {
		o = []verTry{{B(rbytes(t, 32, l)), B(rbytes(t, 64, l+"s"))}}
		if w.typ == tPas {
			o[0].Msg = minaMsg(t, l+"m")
		}
	}
	return
}

func init() {
	F("V01", "weierstrass", "every case: one invalid encoding (off curve, identity, order two elsewhere, not reduced, wrong prefix or length) offered to every entry point of the curve", 2400, 150000, func(t *rapid.T) badCase {
		c := badCase{C: pick(t, 4, "c")}
		w := wei4[c.C]
		c.Bad, c.Kind = badPoint(t, w, "b")
		c.Sigs = forge(t, w, c.Bad, "f")
		if w.typ == tPas {
			// and a genuine signature when the coordinates are those of a known key modulo p
			if c.Kind == "not reduced" || oneIn(t, 3, "known") {
				d := wpriv(t, w, "kd")
				P := w.c.MulG(d)
				m := minaMsg(t, "km")
				mm, _ := minaDecode(m)
				x, y := P.X, P.Y
				switch pick(t, 3, "kw") {
				case 0:
					x = add(x, w.c.P)
				case 1:
					y = add(y, w.c.P)
				default:
					x, y = add(x, w.c.P), add(y, w.c.P)
				}
				c.Bad, c.Kind = cat(b32(x), b32(y)), "not reduced"
				c.Sigs = []verTry{{m, B(ref.MinaSign(d, mod(add(bi(uniform(t, 40, "kk")), bigOne), w.c.N), mm))}}
			}
		}
		c.Good = wpoint(t, w, "g").XY()
		c.K = b32(anyScalar(t, w.c.N, "k"))
		c.D = b32(wpriv(t, w, "d"))
		if isSM2(w) {
			c.ID = sm2ID(t, "i")
			if len(c.ID) == 0 {
				c.ID = B("id")
			}
		}
		return c
	}, func(c badCase, x *Ctx) error {
		w := wei4[c.C]
		if validEnc(w, c.Bad) {
			return nil
		}
		x.NT()
		x.Label(w.name)
		x.Label(c.Kind)
		for _, s := range c.Sigs {
			if st := ow.Verify(cp(c.Bad), nil, cp(s.Msg), cp(s.Sig), w.typ); st == ow.SUCCESS || !statusOK(st) {
				return errf("%s: Verify under the invalid key %x (%s) = %#x for message %x, signature %x", w.name, []byte(c.Bad), c.Kind, st, []byte(s.Msg), []byte(s.Sig))
			}
		}
		no := func(what string, out []byte) error {
			if len(out) != 0 {
				return errf("%s %s with the invalid point %x (%s) returned %x", w.name, what, []byte(c.Bad), c.Kind, out)
			}
			return nil
		}
		st2 := func(what string, out []byte, st uint16) error {
			if err := refused(st, out); err != nil {
				return errf("%s %s with the invalid point %x (%s): %v", w.name, what, []byte(c.Bad), c.Kind, err)
			}
			return nil
		}
		pts := [][2][]byte{{c.Bad, c.Good}, {c.Good, c.Bad}, {c.Bad, c.Bad}}
		for i, p := range pts {
			o, st := ow.Point_add(cp(p[0]), cp(p[1]), w.typ)
			if err := st2([]string{"Point_add (first)", "Point_add (second)", "Point_add (both)"}[i], o, st); err != nil {
				return err
			}
		}
		o, st := ow.Point_mul(cp(c.Bad), cp(c.K), w.typ)
		if err := st2("Point_mul", o, st); err != nil {
			return err
		}
		o, _ = ow.Point_mulBaseG_add(cp(c.Bad), cp(c.K), w.typ)
		if err := no("Point_mulBaseG_add", o); err != nil {
			return err
		}
		if len(c.Bad) == 33 {
			if err := no("PointDecompress", ow.PointDecompress(cp(c.Bad), w.typ)); err != nil {
				return err
			}
		}
		if n := curveNames[w.typ]; n != "" && len(c.Bad) == 64 {
			for i, p := range pts {
				o, _ := ow.Add(cp(p[0]), cp(p[1]), n)
				if err := no("Add, position "+string(rune('0'+i)), o); err != nil {
					return err
				}
			}
			o, _ := ow.Mul(cp(c.Bad), cp(c.K), n)
			if err := no("Mul", o); err != nil {
				return err
			}
			o, _ = ow.MulBaseG_Add(cp(c.Bad), cp(c.K), n)
			if err := no("MulBaseG_Add", o); err != nil {
				return err
			}
		}
		switch {
		case w.typ == tPas:
			for i, p := range pts {
				if o, err := pasta.PointAdd(cp(p[0]), cp(p[1])); err == nil || len(o) != 0 {
					return errf("pasta.PointAdd, position %d, with the invalid point %x (%s) = %x, %v", i, []byte(c.Bad), c.Kind, o, err)
				}
			}
			if o, err := pasta.PointMul(cp(c.Bad), cp(c.K)); err == nil || len(o) != 0 {
				return errf("pasta.PointMul of the invalid point %x (%s) = %x, %v", []byte(c.Bad), c.Kind, o, err)
			}
			if o, err := pasta.PointMulBaseGAdd(cp(c.Bad), cp(c.K)); err == nil || len(o) != 0 {
				return errf("pasta.PointMulBaseGAdd of the invalid point %x (%s) = %x, %v", []byte(c.Bad), c.Kind, o, err)
			}
			for _, s := range c.Sigs {
				if pasta.Verify(cp(c.Bad), cp(s.Msg), cp(s.Sig)) {
					return errf("pasta.Verify under the invalid key %x (%s) accepts %x", []byte(c.Bad), c.Kind, []byte(s.Sig))
				}
			}
		case isSM2(w):
			o, st := ow.Encryption(cp(c.Bad), []byte("plain"), w.typ)
			if err := st2("Encryption", o, st); err != nil {
				return err
			}
			P := pub2(c.D).XY()
			E := ref.SM2.MulG(n64(5)).XY()
			zero := make([]byte, 32)
			for i := 0; i < 4; i++ {
				a := [][]byte{P, c.Good, E, c.Good}
				a[i] = c.Bad
				k, s, st := ow.KeyAgreement_initiator_step2(cp(c.ID), []byte("peer"), cp(c.D), cp(a[0]), cp(a[1]), b32(n64(5)), cp(a[2]), cp(a[3]), zero, 16, tSM2)
				if err := refused(st, k, s); err != nil {
					return errf("KeyAgreement_initiator_step2 with invalid point %d %x (%s): %v", i, []byte(c.Bad), c.Kind, err)
				}
				if i == 3 {
					continue
				}
				a = [][]byte{P, c.Good, E}
				a[i] = c.Bad
				k, r, s1, s2, st := ow.KeyAgreement_responder_step1([]byte("peer"), cp(c.ID), cp(c.D), cp(a[0]), cp(a[1]), cp(a[2]), 16, tSM2)
				if err := refused(st, k, r, s1, s2); err != nil {
					return errf("KeyAgreement_responder_step1 with invalid point %d %x (%s): %v", i, []byte(c.Bad), c.Kind, err)
				}
				k, r, s1, s2, st = ow.KeyAgreement_responder_ElGamal_step1([]byte("peer"), cp(c.ID), cp(c.D), cp(a[0]), cp(a[1]), cp(a[2]), 16, b32(n64(9)), tSM2)
				if err := refused(st, k, r, s1, s2); err != nil {
					return errf("KeyAgreement_responder_ElGamal_step1 with invalid point %d %x (%s): %v", i, []byte(c.Bad), c.Kind, err)
				}
			}
		}
		return nil
	})

	F("V01", "edwards", "every case: one encoding that is not a canonical Edwards or Montgomery point offered to verification and the point operations", 1800, 200000, func(t *rapid.T) badCase {
		c := badCase{Good: edPoint(t, "g"), K: B(ref.ToLE(anyScalar(t, ref.EdL, "k"), 32))}
		s := scalar(t, ref.EdL, "s")
		R := ref.EdMulB(s).Enc()
		m := msgAny(t, "m")
		easy := func() { // valid when h*A vanishes
			c.Sigs = append(c.Sigs, verTry{m, B(cat(R, ref.ToLE(s, 32)))})
			for i := 0; i < 8; i++ { // or is any torsion point
				c.Sigs = append(c.Sigs, verTry{m, B(cat(ref.EdAdd(ref.EdMulB(s), edTorsion[i]).Enc(), ref.ToLE(s, 32)))})
			}
		}
		switch pick(t, 8, "kind") {
		case 0, 1:
			c.Kind = "not a point"
			for {
				c.Bad = B(rbytes(t, 32, "b"))
				if _, ok := ref.EdDec(c.Bad); !ok {
					break
				}
				c.Bad = B(uniform(t, 32, "b2"))
				if _, ok := ref.EdDec(c.Bad); !ok {
					break
				}
			}
		case 2, 3:
			c.Kind = "y not reduced"
			c.Bad = ref.ToLE(add(n64(int64(pick(t, 19, "y"))), ref.EdP), 32)
			if pick(t, 2, "sg") == 1 {
				c.Bad[31] |= 0x80
			}
		case 4:
			c.Kind = "x = 0 with the sign bit"
			c.Bad = ref.ToLE([]*big.Int{n64(1), sub(ref.EdP, bigOne), add(ref.EdP, bigOne)}[pick(t, 3, "y")], 32)
			c.Bad[31] |= 0x80
		case 5:
			c.Kind = "length"
			A := ref.EdMulB(s).Enc()
			c.Bad = B(cat(A, A, A)[:[]int{0, 1, 16, 31, 33, 48, 63, 64, 65, 96}[pick(t, 10, "n")]])
			if pick(t, 4, "by") == 0 {
				c.Bad = over(t, A, "ov")
			}
			if len(c.Bad) == 0 && pick(t, 2, "nil") == 0 {
				c.Bad = nil
			}
		case 6, 7: // X25519
			c.Kind = "u not reduced"
			u := n64(9) // the base point: its key is 1
			if pick(t, 2, "any") == 0 {
				u = n64(int64(pick(t, 19, "u")))
			}
			c.Bad = ref.ToLE(add(u, ref.EdP), 32)
			A := ref.EdMulB(bigOne).Enc() // x even
			h := ref.EdHRAM(R, A, m)
			c.Sigs = append(c.Sigs, verTry{m, B(cat(R, ref.ToLE(mod(add(s, h), ref.EdL), 32)))})
			if pick(t, 3, "top") == 0 {
				c.Kind = "u with bit 255"
				c.Bad = ref.ToLE(n64(9), 32)
				c.Bad[31] |= 0x80
				A[31] |= 0x80
				h := ref.EdHRAM(R, A, m)
				c.Sigs = append(c.Sigs, verTry{m, B(cat(R, ref.ToLE(mod(sub(s, h), ref.EdL), 32)))})
			}
		}
		easy()
		return c
	}, func(c badCase, x *Ctx) error {
		x.Label(c.Kind)
		mont := len(c.Kind) > 2 && c.Kind[:2] == "u "
		for _, s := range c.Sigs {
			for _, typ := range []uint32{tEd, tEdN, tX} {
				if (typ == tX) != mont {
					continue
				}
				if !mont && len(c.Bad) == 32 {
					if _, ok := ref.EdDec(c.Bad); ok {
						continue
					}
				}
				x.NT()
				if st := ow.Verify(cp(c.Bad), nil, cp(s.Msg), cp(s.Sig), typ); st == ow.SUCCESS {
					return errf("type %#x: Verify under the invalid key %x (%s) accepts %x", typ, []byte(c.Bad), c.Kind, []byte(s.Sig))
				}
			}
		}
		if c.Kind == "length" {
			for _, typ := range []uint32{tX, tKC} {
				if st := ow.Verify(cp(c.Bad), nil, []byte("m"), make([]byte, 64), typ); st == ow.SUCCESS {
					return errf("type %#x: Verify under the invalid key %x", typ, []byte(c.Bad))
				}
			}
		}
		if mont {
			return nil
		}
		if _, ok := ref.EdDec(c.Bad); ok && len(c.Bad) == 32 {
			return nil
		}
		for i, p := range [][2][]byte{{c.Bad, c.Good}, {c.Good, c.Bad}, {c.Bad, c.Bad}} {
			o, st := ow.Point_add(cp(p[0]), cp(p[1]), tEd)
			if err := refused(st, o); err != nil {
				return errf("Ed25519 Point_add with the invalid point %x (%s) at position %d: %v", []byte(c.Bad), c.Kind, i, err)
			}
		}
		if o, _ := ow.Point_mulBaseG_add(cp(c.Bad), cp(c.K), tEd); len(o) != 0 {
			return errf("Ed25519 Point_mulBaseG_add with the invalid point %x (%s) = %x", []byte(c.Bad), c.Kind, o)
		}
		return nil
	})

	F("V01", "bls", "every case: one encoding that is not a finite point of the prime-order subgroup of G1 offered to verification and scalar*G+point", 500, 20000, func(t *rapid.T) badCase {
		c := badCase{Aug: pick(t, 2, "aug") == 1, K: b32(anyScalar(t, ref.BLSR, "k"))}
		typ := blsCase{Aug: c.Aug}.typ()
		d := blsPriv(t, "d")
		m := blsMsg(t, "m")
		P := ref.G1Mul(ref.BLSG1(), bi(d))
		T := ref.G1Mul(liftG1(t, "T"), ref.BLSR) // order divides the cofactor
		hash := func(pub []byte) ref.G2Pt {
			if typ == tAUG {
				return ref.HashG2(cat(pub, m), []byte(dstAUG))
			}
			return ref.HashG2(m, []byte(dstNUL))
		}
		signed := func() { // what key d would sign, were the encoding its key
			c.Sigs = append(c.Sigs, verTry{m, ref.G2Comp(ref.G2Mul(hash(c.Bad), bi(d)))})
		}
		inf := ref.G2Comp(ref.G2Pt{Inf: true})
		switch pick(t, 11, "kind") {
		case 0:
			c.Kind, c.Bad = "identity", ref.G1Comp(ref.G1Pt{Inf: true})
			c.Sigs = []verTry{{m, inf}}
		case 1, 2:
			c.Kind, c.Bad = "outside the subgroup", ref.G1Comp(ref.G1Add(P, T))
			signed()
		case 3: // pure torsion: pairs to 1 with everything
			c.Kind, c.Bad = "torsion", ref.G1Comp(T)
			c.Sigs = []verTry{{m, inf}}
		case 4:
			c.Kind, c.Bad = "infinity flag on a point", ref.G1Comp(P)
			c.Bad[0] |= 0x40
			signed()
			c.Sigs = append(c.Sigs, verTry{m, inf})
		case 5:
			c.Kind, c.Bad = "no compression flag", ref.G1Comp(P)
			c.Bad[0] &^= 0x80
			signed()
		case 6:
			c.Kind, c.Bad = "uncompressed", ref.G1Unc(P)
			if pick(t, 2, "half") == 0 {
				c.Bad = c.Bad[:48]
			}
			signed()
		case 7:
			c.Kind = "length"
			c.Bad = cat(ref.G1Comp(P), rbytes(t, 1+pick(t, 60, "x"), "xb"))
			if pick(t, 2, "short") == 0 {
				c.Bad = B(ref.G1Comp(P))[:pick(t, 48, "n")]
			} else if pick(t, 3, "by") == 0 {
				c.Bad = over(t, ref.G1Comp(P), "ov")
			}
			signed()
		case 8:
			c.Kind = "x not reduced"
			x := n64(int64(pick(t, 1000, "x")))
			for {
				if _, ok := ref.G1Lift(x, false); ok {
					break
				}
				x = add(x, bigOne)
			}
			b := add(x, ref.BLSP).FillBytes(make([]byte, 48))
			b[0] |= 0x80 | byte(pick(t, 2, "sg"))<<5
			c.Bad = b
			signed()
		case 9:
			c.Kind = "no point"
			x := mod(bi(uniform(t, 56, "x")), ref.BLSP)
			for {
				if _, ok := ref.G1Lift(x, false); !ok {
					break
				}
				x = mod(add(x, bigOne), ref.BLSP)
			}
			b := x.FillBytes(make([]byte, 48))
			b[0] |= 0x80 | byte(pick(t, 2, "sg"))<<5
			c.Bad = b
			signed()
		case 10:
			c.Kind = "infinity with other bits"
			c.Bad = make(B, 48)
			c.Bad[0] = 0xc0
			c.Bad[pick(t, 48, "i")] |= 1 << pick(t, 8, "b")
			if c.Bad[0] == 0xc0 && zeroes(c.Bad[1:]) {
				c.Bad[47] = 1
			}
			c.Sigs = []verTry{{m, inf}}
		}
		return c
	}, func(c badCase, x *Ctx) error {
		x.Label(c.Kind)
		if P, ok := ref.G1Dec(c.Bad); ok && !P.Inf {
			return nil // (decoding includes the subgroup check)
		}
		x.NT()
		typ := blsCase{Aug: c.Aug}.typ()
		for _, s := range c.Sigs {
			if st := ow.Verify(cp(c.Bad), nil, cp(s.Msg), cp(s.Sig), typ); st == ow.SUCCESS {
				return errf("BLS Verify under the invalid key %x (%s) accepts %x", []byte(c.Bad), c.Kind, []byte(s.Sig))
			}
		}
		if o, _ := ow.Point_mulBaseG_add(cp(c.Bad), cp(c.K), typ); len(o) != 0 {
			return errf("BLS Point_mulBaseG_add with the invalid point %x (%s) = %x", []byte(c.Bad), c.Kind, o)
		}
		return nil
	})

	F("V01", "aggregation", "every case: one encoding that is not a point of the prime-order subgroup of G2 among valid signatures", 500, 15000, func(t *rapid.T) aggCase {
		c := aggCase{Aug: pick(t, 2, "aug") == 1}
		for i, n := 0, pick(t, 3, "n"); i < n; i++ {
			c.Priv = append(c.Priv, B(ref.G2Comp(ref.G2Mul(ref.BLSG2(), n64(int64(1+pick(t, 1000, "k")))))))
		}
		c.At = pick(t, len(c.Priv)+1, "at")
		Q := ref.G2Mul(ref.BLSG2(), n64(int64(2+pick(t, 1000, "s"))))
		switch pick(t, 4, "kind") {
		case 0:
			c.Kind, c.Bad = "outside the subgroup", ref.G2Comp(liftG2(t, "T"))
		case 1:
			c.Kind, c.Bad = "signature plus torsion", ref.G2Comp(ref.G2Add(Q, ref.G2Mul(liftG2(t, "T"), ref.BLSR)))
		case 2:
			c.Kind = "not a point"
			c.Bad = flip(ref.G2Comp(Q), 8+pick(t, 96*8-8, "bit"))
		case 3:
			c.Kind, c.Bad = "random", B(rbytes(t, 96, "r"))
			c.Bad[0] = c.Bad[0]&0x3f | 0x80
		}
		return c
	}, func(c aggCase, x *Ctx) error {
		x.Label(c.Kind)
		if _, ok := ref.G2Dec(c.Bad); ok {
			return nil
		}
		x.NT()
		var l [][]byte
		for i := 0; i <= len(c.Priv); i++ {
			if i == c.At {
				l = append(l, c.Bad)
			}
			if i < len(c.Priv) {
				l = append(l, c.Priv[i])
			}
		}
		a, st := ow.AggregateSignatures(blsCase{Aug: c.Aug}.typ(), l...)
		if err := refused(st, a); err != nil {
			return errf("AggregateSignatures with %s at %d of %d (%x): %v", c.Kind, c.At, len(l), []byte(c.Bad), err)
		}
		return nil
	})
}
