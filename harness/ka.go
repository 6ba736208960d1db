package main

import (
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

type kaCase struct {
	IDA, IDB B
	DA, DB   B
	RA       B // initiator's ephemeral key; nil: the library draws it
	RB       B // responder's ephemeral key; nil: the library draws it
	Len      uint16
	Pre      B
	Kind     string
	N        []int
	X        B // altered value
}

func kaID(t *rapid.T, l string) B {
	switch pick(t, 6, l+"k") {
	case 0:
		return B("1234567812345678")
	case 1:
		return B(rbytes(t, []int{1, 2, 31, 32, 33, 63, 64, 255, 256, 257, 511, 512, 4095, 4096, 8191}[pick(t, 15, l+"e")], l))
	}
	return B(rbytes(t, 1+pick(t, 48, l+"n"), l))
}

func kaLen(t *rapid.T, l string) uint16 {
	switch pick(t, 6, l+"k") {
	case 0:
		return uint16([]int{0, 1, 2, 15, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 255, 256, 257}[pick(t, 18, l+"e")])
	case 1: // multiples of the hash length and neighbours
		return uint16(32*(1+pick(t, 2047, l+"m")) + pick(t, 3, l+"d") - 1)
	case 2:
		return uint16(pick(t, 65536, l+"u"))
	case 3:
		return uint16([]int{8159, 8160, 8161, 8191, 8192, 8193, 8223, 8224, 16383, 16384, 32767, 32768, 65503, 65504, 65505, 65534, 65535}[pick(t, 17, l+"h")])
	}
	return uint16(1 + pick(t, 300, l+"s"))
}

func genKA(t *rapid.T) kaCase {
	c := kaCase{IDA: kaID(t, "ia"), IDB: kaID(t, "ib"), DA: sm2key(t, "da"), DB: sm2key(t, "db"), Len: kaLen(t, "len")}
	if pick(t, 12, "self") == 0 {
		c.DB, c.IDB = cp(c.DA), cp(c.IDA)
	}
	if pick(t, 2, "ra") == 0 {
		c.RA = sm2key(t, "rav")
	}
	if pick(t, 2, "rb") == 0 {
		c.RB = sm2key(t, "rbv")
	}
	if pick(t, 4, "pre") == 0 {
		c.Pre = rngPre(t, ref.SM2.N, "prev")
	}
	if c.RA != nil && c.RB != nil && oneIn(t, 5, "steer") {
		// a shared point with leading zero bytes: (dA + x(RA)rA)(dB + x(RB)rB) = v
		bar := func(r B) *big.Int { return mul(kaBar(pub2(r).X), bi(r)) }
		tb := mod(add(bi(c.DB), bar(c.RB)), ref.SM2.N)
		if tb.Sign() != 0 {
			v := mul(shortPoint(t, cSM2, "shared"), new(big.Int).ModInverse(tb, ref.SM2.N))
			if d := mod(sub(v, bar(c.RA)), ref.SM2.N); d.Sign() != 0 && d.Cmp(sub(ref.SM2.N, bigOne)) != 0 {
				c.DA = b32(d)
			}
		}
	}
	return c
}

func pub2(d []byte) ref.Pt { return ref.SM2.MulG(bi(d)) }

func kaBar(x *big.Int) *big.Int {
	w := lsh(127)
	v := new(big.Int).And(x, sub(w, bigOne))
	return v.Add(v, w)
}

// respond runs the responder's first step in the mode RB selects.
func respond(c kaCase, ida, idb, db, pb, pa, ra []byte) (key, rb, sin, sout []byte, st uint16) {
	if c.RB == nil {
		return ow.KeyAgreement_responder_step1(cp(ida), cp(idb), cp(db), cp(pb), cp(pa), cp(ra), c.Len, tSM2)
	}
	return ow.KeyAgreement_responder_ElGamal_step1(cp(ida), cp(idb), cp(db), cp(pb), cp(pa), cp(ra), c.Len, cp(c.RB), tSM2)
}

func initiate(c kaCase, ida, idb, da, pa, pb, r, ra, rb, s []byte) (key, sout []byte, st uint16) {
	return ow.KeyAgreement_initiator_step2(cp(ida), cp(idb), cp(da), cp(pa), cp(pb), cp(r), cp(ra), cp(rb), cp(s), c.Len, tSM2)
}

func init() {
	F("A01", "honest", "every case: a complete honest run compared with the reference key and check values", 3600, 150000, genKA, func(c kaCase, x *Ctx) error {
		x.NT()
		if c.Pre != nil {
			setRand(cat(c.DA, c.DB, c.Pre), c.Pre)
			x.Label("structured random source")
		}
		switch {
		case c.Len >= 8192:
			x.Label("8192 bytes or more")
		case c.Len%32 == 0:
			x.Label("whole blocks")
		}
		PA, PB := pub2(c.DA), pub2(c.DB)
		ra, Ra := []byte(c.RA), []byte(nil)
		if c.RA == nil {
			x.Label("library initiator ephemeral")
			ra, Ra = ow.KeyAgreement_initiator_step1(tSM2)
			if len(ra) != 32 || bi(ra).Sign() == 0 || bi(ra).Cmp(ref.SM2.N) >= 0 {
				return errf("initiator's ephemeral private key %x", ra)
			}
			if !eqb(Ra, pub2(ra).XY()) {
				return errf("ephemeral public key %x does not belong to %x", Ra, ra)
			}
		} else {
			Ra = pub2(ra).XY()
		}
		keyB, Rb, sin, sout, st := respond(c, c.IDA, c.IDB, c.DB, PB.XY(), PA.XY(), Ra)
		if st != ow.SUCCESS {
			return errf("responder step 1: status %#x", st)
		}
		if c.RB != nil {
			x.Label("fixed responder ephemeral")
			if !eqb(Rb, pub2(c.RB).XY()) {
				return errf("responder's ephemeral key %x, want that of %x", Rb, []byte(c.RB))
			}
		}
		RB, ok := ref.SM2.ParseXY(Rb)
		if !ok {
			return errf("responder's ephemeral key %x is not a point", Rb)
		}
		RA, _ := ref.SM2.ParseXY(Ra)
		key, s2, s3, ok := ref.SM2KA(bi(c.DA), bi(ra), RA, PB, RB, ref.SM2ZA(PA, c.IDA), ref.SM2ZA(PB, c.IDB), RA, RB, int(c.Len))
		if !ok {
			x.Label("infinity")
			return nil
		}
		if !eqb(keyB, key) {
			return errf("responder's key of length %d: %s", c.Len, diff(keyB, key))
		}
		if !eqb(sout, s2) || !eqb(sin, s3) {
			return errf("check values %x, %x; want %x, %x", sout, sin, s2, s3)
		}
		keyA, sa, st := initiate(c, c.IDA, c.IDB, c.DA, PA.XY(), PB.XY(), ra, Ra, Rb, sout)
		if st != ow.SUCCESS {
			return errf("initiator step 2: status %#x", st)
		}
		if !eqb(keyA, key) {
			return errf("initiator's key of length %d: %s", c.Len, diff(keyA, key))
		}
		if !eqb(sa, s3) {
			return errf("initiator's check value %x, want %x", sa, s3)
		}
		if st := ow.KeyAgreement_responder_step2(cp(sa), cp(sin), tSM2); st != ow.SUCCESS {
			return errf("responder step 2: status %#x", st)
		}
		return nil
	}).rows(600, 20000, kinKA)

	type lens struct {
		Case kaCase
		From uint16
		Step uint16
	}
	F("A01", "key-lengths", "every case: 40 key lengths derived from one exchange, each compared with the reference", 100, 3000, func(t *rapid.T) lens {
		c := genKA(t)
		c.RA, c.RB, c.Pre = sm2key(t, "ra"), sm2key(t, "rb"), nil
		return lens{c, kaLen(t, "from"), uint16(1 + 31*pick(t, 2, "st"))}
	}, func(l lens, x *Ctx) error {
		c := l.Case
		x.NT()
		PA, PB, RA, RB := pub2(c.DA), pub2(c.DB), pub2(c.RA), pub2(c.RB)
		for i := 0; i < 40; i++ {
			n := l.From + uint16(i)*l.Step
			c.Len = n
			key, _, _, ok := ref.SM2KA(bi(c.DA), bi(c.RA), RA, PB, RB, ref.SM2ZA(PA, c.IDA), ref.SM2ZA(PB, c.IDB), RA, RB, int(n))
			if !ok {
				return nil
			}
			kb, _, _, _, st := respond(c, c.IDA, c.IDB, c.DB, PB.XY(), PA.XY(), RA.XY())
			if st != ow.SUCCESS || !eqb(kb, key) {
				return errf("responder, length %d: %#x, %s", n, st, diff(kb, key))
			}
		}
		return nil
	})

	F("A02", "disagreement", "every case: one input of one party differs from the other party's view, or a check value is altered", 3200, 150000, func(t *rapid.T) kaCase {
		c := genKA(t)
		c.RA, c.Pre = sm2key(t, "ra2"), nil
		if c.RB == nil {
			c.RB = sm2key(t, "rb2")
		}
		c.Len %= 600
		c.Kind = []string{"A:ida", "A:idb", "A:da", "A:pa", "A:pb", "A:ra", "A:Ra", "A:Rb", "A:s", "B:ida", "B:idb", "B:db", "B:pb", "B:pa", "B:Ra", "final"}[pick(t, 16, "kind")]
		switch c.Kind {
		case "A:ida", "A:idb", "B:ida", "B:idb":
			id := c.IDA
			if c.Kind[2:] == "idb" {
				id = c.IDB
			}
			switch pick(t, 6, "idk") {
			case 0:
				c.X = flip(id, pick(t, 8*len(id), "bit"))
			case 1:
				c.X = append(cp(id), byte(pick(t, 256, "ext")))
			case 2:
				c.X = append(B{0}, id...)
			case 3:
				c.X = append(cp(id), 0)
			case 4:
				c.X = B(rbytes(t, len(id), "other"))
			case 5: // the other party's identity
				c.X = cp(c.IDA)
				if c.Kind[2:] == "ida" {
					c.X = cp(c.IDB)
				}
			}
			if len(c.X) > 8191 {
				c.X = c.X[:8190]
			}
		case "A:s", "final":
			c.N = []int{pick(t, 11, "sk"), pick(t, 256, "bit"), pick(t, 1<<20, "warp")}
		case "A:da", "A:ra", "B:db":
			switch pick(t, 4, "dk") {
			case 0:
				c.X = sm2key(t, "d2")
			case 1:
				d := c.DA
				if c.Kind == "A:ra" {
					d = c.RA
				} else if c.Kind == "B:db" {
					d = c.DB
				}
				c.X = b32(sub(ref.SM2.N, bi(d)))
			case 2:
				c.X = cp(c.RA)
			case 3:
				c.X = cp(c.DA)
			}
		default: // another valid point
			switch pick(t, 4, "pk") {
			case 0:
				c.X = wpoint(t, cSM2, "p2").XY()
			case 1: // the negated one
				p := map[string]B{"pa": c.DA, "pb": c.DB, "Ra": c.RA, "Rb": c.RB}[c.Kind[2:]]
				q := pub2(p)
				c.X = cat(b32(q.X), b32(sub(ref.SM2.P, q.Y)))
			case 2:
				c.X = pub2(c.RA).XY()
			case 3:
				c.X = pub2(c.DB).XY()
			}
		}
		return c
	}, func(c kaCase, x *Ctx) error {
		x.Label(c.Kind)
		PA, PB, RA, RB := pub2(c.DA), pub2(c.DB), pub2(c.RA), pub2(c.RB)
		a := map[string][]byte{"ida": c.IDA, "idb": c.IDB, "da": c.DA, "pa": PA.XY(), "pb": PB.XY(), "ra": c.RA, "Ra": RA.XY(), "Rb": RB.XY()}
		b := map[string][]byte{"ida": c.IDA, "idb": c.IDB, "db": c.DB, "pa": PA.XY(), "pb": PB.XY(), "Ra": RA.XY()}
		f := ""
		if c.Kind != "final" {
			f = c.Kind[2:]
		}
		side := c.Kind[:1]
		if f != "s" && f != "" {
			m := a
			if side == "B" {
				m = b
			}
			if eqb(m[f], c.X) {
				return nil // nothing altered
			}
			m[f] = c.X
		}
		x.NT()
		keyB, Rb, sin, sout, st := respond(c, b["ida"], b["idb"], b["db"], b["pb"], b["pa"], b["Ra"])
		if st != ow.SUCCESS {
			if err := refused(st, keyB, Rb, sin, sout); err != nil {
				return err
			}
			if side == "B" { // refusing an inconsistent view is fine
				x.Label("responder refuses")
				return nil
			}
			return errf("honest responder step 1: %#x", st)
		}
		alter := func(s, other []byte) []byte {
			switch c.N[0] {
			case 0:
				return nil
			case 1:
				return []byte{}
			case 2:
				return s[:c.N[1]%32]
			case 3:
				if c.N[2]%3 == 0 {
					return cat(s, make([]byte, 256*(1+c.N[1]%2)))
				}
				return append(cp(s), byte(c.N[1]))
			case 4:
				return other
			case 5:
				return make([]byte, 32)
			case 6:
				return cat(s[:31], []byte{s[31] ^ byte(1+c.N[1]%255)})
			case 7:
				return cat([]byte{s[0] ^ byte(1+c.N[1]%255)}, s[1:])
			case 8, 9:
				if w := warp(s, c.N[2]); !eqb(w, s) {
					return w
				}
			}
			return flip(s, c.N[1])
		}
		if c.Kind == "final" {
			_, sa, st := initiate(c, a["ida"], a["idb"], a["da"], a["pa"], a["pb"], a["ra"], a["Ra"], a["Rb"], sout)
			if st != ow.SUCCESS {
				return errf("honest initiator step 2: %#x", st)
			}
			if err := refused(ow.KeyAgreement_responder_step2(alter(sa, sout), cp(sin), tSM2)); err != nil {
				return errf("responder step 2 with an altered check value of the initiator: %v", err)
			}
			if err := refused(ow.KeyAgreement_responder_step2(cp(sa), alter(sin, sout), tSM2)); err != nil {
				return errf("responder step 2 with another own check value: %v", err)
			}
			return nil
		}
		s := sout
		if f == "s" {
			s = alter(sout, sin)
		}
		key, sa, st := initiate(c, a["ida"], a["idb"], a["da"], a["pa"], a["pb"], a["ra"], a["Ra"], a["Rb"], s)
		if err := refused(st, key, sa); err != nil {
			return errf("%s altered: initiator step 2: %v", c.Kind, err)
		}
		if f == "s" {
			return nil
		}
		// the check value of an initiator with this view fails at the responder
		pb, ok1 := ref.SM2.ParseXY(a["pb"])
		pa, ok2 := ref.SM2.ParseXY(a["pa"])
		Ra, ok3 := ref.SM2.ParseXY(a["Ra"])
		Rb2, ok4 := ref.SM2.ParseXY(a["Rb"])
		if ok1 && ok2 && ok3 && ok4 {
			_, s2, s3, ok := ref.SM2KA(bi(a["da"]), bi(a["ra"]), Ra, pb, Rb2, ref.SM2ZA(pa, a["ida"]), ref.SM2ZA(pb, a["idb"]), Ra, Rb2, int(c.Len))
			if ok {
				if eqb(s2, sout) {
					return errf("%s altered: check values still agree", c.Kind)
				}
				if err := refused(ow.KeyAgreement_responder_step2(s3, cp(sin), tSM2)); err != nil {
					return errf("%s altered: responder step 2: %v", c.Kind, err)
				}
			}
		}
		return nil
	})

	F("A02", "infinity", "every case: keys chosen so that the shared point is the identity", 400, 20000, func(t *rapid.T) kaCase {
		c := genKA(t)
		c.RA, c.RB, c.Pre = sm2key(t, "ra2"), sm2key(t, "rb2"), nil
		c.Len %= 600
		N := ref.SM2.N
		c.Kind = []string{"A", "B"}[pick(t, 2, "who")]
		if c.Kind == "A" { // dA = -x̄(RA) rA
			c.DA = b32(mod(new(big.Int).Neg(mul(kaBar(pub2(c.RA).X), bi(c.RA))), N))
		} else {
			c.DB = b32(mod(new(big.Int).Neg(mul(kaBar(pub2(c.RB).X), bi(c.RB))), N))
		}
		return c
	}, func(c kaCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		PA, PB, RA, RB := pub2(c.DA), pub2(c.DB), pub2(c.RA), pub2(c.RB)
		key, rb, sin, sout, st := respond(c, c.IDA, c.IDB, c.DB, PB.XY(), PA.XY(), RA.XY())
		if err := refused(st, key, rb, sin, sout); err != nil {
			return errf("responder step 1 with a shared point at infinity: %v", err)
		}
		// what a careless implementation would accept
		za, zb := ref.SM2ZA(PA, c.IDA), ref.SM2ZA(PB, c.IDB)
		h := ref.SM3(cat(make([]byte, 32), za, zb, RA.XY(), RB.XY()))
		s := ref.SM3(cat([]byte{2}, make([]byte, 32), h))
		key, sa, st := initiate(c, c.IDA, c.IDB, c.DA, PA.XY(), PB.XY(), c.RA, RA.XY(), RB.XY(), s)
		if err := refused(st, key, sa); err != nil {
			return errf("initiator step 2 with a shared point at infinity: %v", err)
		}
		return nil
	})

	F("A02", "malformed", "every case: one input missing, of a wrong length or not a curve point", 4000, 120000, func(t *rapid.T) kaCase {
		c := genKA(t)
		c.RA, c.Pre = sm2key(t, "ra2"), nil
		if c.RB == nil {
			c.RB = sm2key(t, "rb2")
		}
		c.Len %= 600
		c.Kind = []string{"A:ida", "A:idb", "A:da", "A:pa", "A:pb", "A:ra", "A:Ra", "A:Rb", "A:s", "B:ida", "B:idb", "B:db", "B:pb", "B:pa", "B:Ra", "B:rb", "type"}[pick(t, 17, "kind")]
		switch c.Kind {
		case "A:ida", "A:idb", "B:ida", "B:idb": // the identity's bit length does not fit 16 bits
			c.X = B{}
			if pick(t, 3, "idk") == 0 {
				c.X = nil
			}
		case "A:da", "A:ra", "B:db", "A:s", "B:rb":
			n := []int{0, 1, 16, 31, 33, 64, 48}[pick(t, 7, "len")]
			c.X = B(rbytes(t, n, "x"))
			if n == 0 && pick(t, 2, "nil") == 0 {
				c.X = nil
			}
			if n == 33 {
				c.X = append(B{0}, sm2key(t, "p")...)
			}
			if n == 48 {
				own := map[string]B{"A:da": c.DA, "A:ra": c.RA, "B:db": c.DB, "B:rb": c.RB}[c.Kind]
				if own == nil { // the check value: its first 32 bytes are put in below
					own = make(B, 32)
				}
				c.X = over(t, own, "ov")
			}
			if c.Kind == "B:rb" && pick(t, 2, "rbk") == 0 { // zero or not below the order
				c.X = []B{make(B, 32), b32(ref.SM2.N), b32(add(ref.SM2.N, bigOne)), b32(sub(lsh(256), bigOne))}[pick(t, 4, "rbv")]
			}
			if c.X == nil && c.Kind == "B:rb" {
				c.X = B{}
			}
		default:
			if pick(t, 2, "pk") == 0 {
				c.X = offCurve(t, cSM2, "oc")
			} else {
				n := pick(t, 140, "len")
				if n == 64 {
					n = 0
				}
				c.X = B(rbytes(t, n, "x"))
				if n == 0 && pick(t, 2, "nil") == 0 {
					c.X = nil
				}
				if n%5 == 1 && c.Kind != "type" {
					c.X = over(t, pub2(map[string]B{"pa": c.DA, "pb": c.DB, "Ra": c.RA, "Rb": c.RB}[c.Kind[2:]]).XY(), "ov")
				}
			}
		}
		c.N = []int{pick(t, len(schemes)+2, "ty")}
		return c
	}, func(c kaCase, x *Ctx) error {
		x.Label(c.Kind)
		PA, PB, RA, RB := pub2(c.DA), pub2(c.DB), pub2(c.RA), pub2(c.RB)
		a := map[string][]byte{"ida": c.IDA, "idb": c.IDB, "da": c.DA, "pa": PA.XY(), "pb": PB.XY(), "ra": c.RA, "Ra": RA.XY(), "Rb": RB.XY()}
		b := map[string][]byte{"ida": c.IDA, "idb": c.IDB, "db": c.DB, "pa": PA.XY(), "pb": PB.XY(), "Ra": RA.XY()}
		_, s2, s3, ok := ref.SM2KA(bi(c.DA), bi(c.RA), RA, PB, RB, ref.SM2ZA(PA, c.IDA), ref.SM2ZA(PB, c.IDB), RA, RB, int(c.Len))
		if !ok {
			return nil
		}
		x.NT()
		a["s"] = s2
		if c.Kind == "type" {
			typ := uint32(77)
			if i := c.N[0]; i < len(schemes) {
				typ = schemes[i].typ
			}
			if typ == tSM2 {
				return nil
			}
			k, sa, st := ow.KeyAgreement_initiator_step2(c.IDA, c.IDB, c.DA, PA.XY(), PB.XY(), c.RA, RA.XY(), RB.XY(), s2, c.Len, typ)
			if err := refused(st, k, sa); err != nil || st != ow.ECC_WRONG_TYPE {
				return errf("initiator step 2, type %#x: %v %#x", typ, err, st)
			}
			k, rb, sin, sout, st := ow.KeyAgreement_responder_step1(c.IDA, c.IDB, c.DB, PB.XY(), PA.XY(), RA.XY(), c.Len, typ)
			if err := refused(st, k, rb, sin, sout); err != nil || st != ow.ECC_WRONG_TYPE {
				return errf("responder step 1, type %#x: %v %#x", typ, err, st)
			}
			k, rb, sin, sout, st = ow.KeyAgreement_responder_ElGamal_step1(c.IDA, c.IDB, c.DB, PB.XY(), PA.XY(), RA.XY(), c.Len, c.RB, typ)
			if err := refused(st, k, rb, sin, sout); err != nil || st != ow.ECC_WRONG_TYPE {
				return errf("responder ElGamal step 1, type %#x: %v %#x", typ, err, st)
			}
			if st := ow.KeyAgreement_responder_step2(s3, s3, typ); st != ow.ECC_WRONG_TYPE {
				return errf("responder step 2, type %#x: %#x", typ, st)
			}
			return nil
		}
		if c.Kind == "B:rb" {
			c.RB = c.X
		} else if c.Kind[0] == 'A' {
			a[c.Kind[2:]] = c.X
			if c.Kind == "A:s" && len(c.X) >= 256 {
				a["s"] = cat(s2, c.X[32:])
			}
		} else {
			b[c.Kind[2:]] = c.X
		}
		if c.Kind[0] == 'A' {
			// an attacker completes the exchange for an off-curve point
			if f := c.Kind[2:]; len(c.X) == 64 && (f == "Rb" || f == "pb") {
				Q := func(v []byte) ref.Pt {
					return ref.Pt{X: mod(bi(v[:32]), ref.SM2.P), Y: mod(bi(v[32:]), ref.SM2.P)}
				}
				_, s, _, ok := ref.SM2KA(bi(c.DA), bi(c.RA), RA, Q(a["pb"]), Q(a["Rb"]), ref.SM2ZA(PA, c.IDA), ref.SM3(cat([]byte{byte(len(c.IDB) * 8 >> 8), byte(len(c.IDB) * 8)}, c.IDB, ref.B32(ref.SM2.A), ref.B32(ref.SM2.B), ref.SM2.G.XY(), a["pb"])), RA, Q(a["Rb"]), int(c.Len))
				if ok {
					a["s"] = s
				}
			}
			k, sa, st := initiate(c, a["ida"], a["idb"], a["da"], a["pa"], a["pb"], a["ra"], a["Ra"], a["Rb"], a["s"])
			if err := refused(st, k, sa); err != nil {
				return errf("initiator step 2 with malformed %s %x: %v", c.Kind, []byte(c.X), err)
			}
			return nil
		}
		k, rb, sin, sout, st := respond(c, b["ida"], b["idb"], b["db"], b["pb"], b["pa"], b["Ra"])
		if err := refused(st, k, rb, sin, sout); err != nil {
			return errf("responder step 1 with malformed %s %x: %v", c.Kind, []byte(c.X), err)
		}
		if c.Kind != "B:rb" {
			k, rb, sin, sout, st := ow.KeyAgreement_responder_step1(b["ida"], b["idb"], b["db"], b["pb"], b["pa"], b["Ra"], c.Len, tSM2)
			if err := refused(st, k, rb, sin, sout); err != nil {
				return errf("responder step 1 (drawn ephemeral) with malformed %s %x: %v", c.Kind, []byte(c.X), err)
			}
		}
		return nil
	})
}

// diff describes how two byte strings differ, briefly.
func diff(got, want []byte) string {
	if len(got) != len(want) {
		return errf("%d bytes, want %d", len(got), len(want)).Error()
	}
	for i := range got {
		if got[i] != want[i] {
			j := min(i+16, len(got))
			return errf("differs from byte %d: %x, want %x", i, got[i:j], want[i:j]).Error()
		}
	}
	return "equal"
}

// E03: ephemeral keys of encryption and key agreement.

type freshCase struct {
	Fn       int // 0 encryption, 1 initiator step 1, 2 responder step 1
	DA, DB   B
	IDA, IDB B
	Len      uint16
	Plain    B
	Key, Pre B
	Bit      int
}

func genFresh(t *rapid.T) freshCase {
	k := genKA(t)
	return freshCase{Fn: pick(t, 3, "fn"), DA: k.DA, DB: k.DB, IDA: k.IDA, IDB: k.IDB, Len: uint16(pick(t, 100, "l")),
		Plain: plaintext(t, 200, "m"), Key: B(uniform(t, 16, "key")), Pre: B(uniform(t, 72, "stream")), Bit: pick(t, 6, "bit")}
}

// draw makes one call and gives what identifies its ephemeral key and, when
// visible, the key itself.
func (c freshCase) draw() (string, []byte, error) {
	PA, PB := pub2(c.DA).XY(), pub2(c.DB).XY()
	switch c.Fn {
	case 0:
		ct, st := ow.Encryption(PB, cp(c.Plain), tSM2)
		if st != ow.SUCCESS || len(ct) != 97+len(c.Plain) {
			return "", nil, errf("Encryption: %x, %#x", ct, st)
		}
		return string(ct[1:33]), nil, nil
	case 1:
		r, R := ow.KeyAgreement_initiator_step1(tSM2)
		if len(r) != 32 || len(R) != 64 {
			return "", nil, errf("initiator step 1: %x %x", r, R)
		}
		return string(R[:32]), r, nil
	}
	_, R, _, _, st := ow.KeyAgreement_responder_step1(cp(c.IDA), cp(c.IDB), cp(c.DB), PB, PA, PA, max(c.Len, 1), tSM2)
	if st != ow.SUCCESS || len(R) != 64 {
		return "", nil, errf("responder step 1: %x %#x", R, st)
	}
	return string(R[:32]), nil, nil
}

func init() {
	names := []string{"encryption", "initiator", "responder"}
	F("E03", "fresh", "every case: the same call repeated 40 times with a healthy random source; ephemeral keys are distinct and (where visible) every bit takes both values", 150, 5000, genFresh, func(c freshCase, x *Ctx) error {
		x.NT()
		x.Label(names[c.Fn])
		setRand(c.Key, nil)
		seen := map[string]bool{}
		var or, and *big.Int
		for i := 0; i < 40; i++ {
			id, k, err := c.draw()
			if err != nil {
				return err
			}
			if seen[id] {
				return errf("%s: an ephemeral key was used twice", names[c.Fn])
			}
			seen[id] = true
			if v := bi(k); k != nil {
				if or == nil {
					or, and = new(big.Int), sub(lsh(256), bigOne)
				}
				or.Or(or, v)
				and.And(and, v)
			}
		}
		for i := 0; or != nil && i < 256; i++ {
			if or.Bit(i) == and.Bit(i) {
				return errf("%s: bit %d of 40 ephemeral keys is always %d", names[c.Fn], i, or.Bit(i))
			}
		}
		return nil
	})
	F("E03", "entropy", "every case: one call under 72 random streams that differ in one bit each", 150, 5000, genFresh, func(c freshCase, x *Ctx) error {
		x.NT()
		x.Label(names[c.Fn])
		n, err := sensitive(c.Key, c.Pre, c.Bit, func() (string, error) { id, _, err := c.draw(); return id, err })
		if err == nil && n < 16 {
			err = errf("%s: the ephemeral key depends on %d bytes of the random source only", names[c.Fn], n)
		}
		return err
	})
	F("E03", "mixed", "every case: encryptions and key-agreement steps of several parties in one history, all ephemeral keys distinct", 150, 5000, func(t *rapid.T) []freshCase {
		var h []freshCase
		for i := pick(t, 6, "n") + 4; i > 0; i-- {
			h = append(h, genFresh(t))
		}
		return h
	}, func(h []freshCase, x *Ctx) error {
		x.NT()
		setRand(h[0].Key, nil)
		seen := map[string]int{}
		for r := 0; r < 3; r++ {
			for i, c := range h {
				id, _, err := c.draw()
				if err != nil {
					return err
				}
				if j, ok := seen[id]; ok {
					return errf("calls %d (%s) and %d (%s) use the same ephemeral key", j, names[h[j].Fn], i, names[c.Fn])
				}
				seen[id] = i
			}
		}
		return nil
	})
}
