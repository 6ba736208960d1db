package main

import (
	"bytes"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

// R04: the status of a refusal names its cause.

type statusCase struct {
	C     call
	Cause string
	Want  []int
}

func st(s ...uint16) (o []int) {
	for _, x := range s {
		o = append(o, int(x))
	}
	return
}

// keyStatus: the statuses that may name an illegal private key of the scheme.
func keyStatus(s scheme) []int {
	if s.typ == tPas || s.typ == tNUL || s.typ == tAUG { // not in the documented lists
		return st(ow.ECC_PRIKEY_ILLEGAL, ow.FAILURE)
	}
	return st(ow.ECC_PRIKEY_ILLEGAL)
}

func isWei3(typ uint32) bool { return typ == tK1 || typ == tR1 || typ == tSM2 }

func badLen(t *rapid.T, l string) B {
	n := []int{0, 1, 16, 20, 28, 31, 33, 34, 48, 63, 64, 65, 96, 300}[pick(t, 14, l)]
	if n == 0 && pick(t, 2, l+"nil") == 0 {
		return nil
	}
	return B(rbytes(t, n, l+"b"))
}

func checkStatus(c statusCase, x *Ctx) error {
	x.Label(c.Cause)
	x.NT()
	r, ok := c.C.calm()
	if !ok {
		return nil
	}
	for _, w := range c.Want {
		if r.St == w {
			return nil
		}
	}
	return errf("%s(type %#x) with %s: status %#x, want one of %#x", c.C.Fn, c.C.Typ, c.Cause, r.St, c.Want)
}

func init() {
	F("R04", "input", "every case: a call with exactly one illegal kind of argument (private key, digest or plaintext, public key), or an illegal private key together with an illegal digest", 5000, 150000, func(t *rapid.T) statusCase {
		switch k := pick(t, 10, "kind"); k {
		case 0, 1, 2:
			s := schemes[pick(t, len(schemes), "s")]
			c := goodCallOf(t, *fnOf("GenPubkey"), "c")
			c.Typ = s.typ
			c.Args = bs(illegalKey(t, s))
			return statusCase{c, "an illegal private key", keyStatus(s)}
		case 3, 4, 5:
			s := schemes[pick(t, len(schemes), "s")]
			c := call{"Signature", s.typ, 0, bs(illegalKey(t, s), nil, s.msg(t, "m")), B(rbytes(t, 8, "rnd"))}
			if s.typ == tSM2 && oneIn(t, 4, "n1") {
				c.Args[0] = b32(sub(ref.SM2.N, n64(1)))
			}
			w := keyStatus(s)
			if isWei3(s.typ) && oneIn(t, 4, "both") {
				c.Args[2] = badLen(t, "bm")
				return statusCase{c, "an illegal private key and digest", append(w, int(ow.MESSAGE_ILLEGAL))}
			}
			return statusCase{c, "an illegal private key", w}
		case 6:
			s := schemeOf(wei3Types[pick(t, 3, "s")])
			c := call{"Signature", s.typ, 0, bs(s.priv(t, "d"), nil, badLen(t, "bm")), B(rbytes(t, 8, "rnd"))}
			if s.typ == tSM2 { // [1,N-2]
				if eqb(c.Args[0], b32(sub(ref.SM2.N, n64(1)))) {
					c.Args[0] = b32(n64(7))
				}
				if oneIn(t, 2, "id") {
					c.Args[1] = B(rbytes(t, 1+pick(t, 30, "idn"), "idb"))
				}
			}
			return statusCase{c, "a digest of wrong length", st(ow.MESSAGE_ILLEGAL)}
		case 7:
			c := goodCallOf(t, *fnOf("Decryption"), "c")
			c.Args[0] = illegalKey(t, schSM2)
			return statusCase{c, "an illegal private key", st(ow.ECC_PRIKEY_ILLEGAL)}
		case 8:
			c := goodCallOf(t, *fnOf("Encryption"), "c")
			if oneIn(t, 3, "len") {
				p := c.Args[0]
				c.Args[0] = []B{nil, {}, p[:63], append(cp(p), 0), p[:32], cat(p, p), over(t, p, "ov")}[pick(t, 7, "l")]
			} else {
				c.Args[0], _ = badPoint(t, cSM2, "bp")
			}
			return statusCase{c, "an illegal public key", st(ow.ECC_PUBKEY_ILLEGAL)}
		}
		c := goodCallOf(t, *fnOf("Encryption"), "c")
		c.Args[1] = []B{nil, {}}[pick(t, 2, "nil")]
		return statusCase{c, "an empty plaintext", st(ow.MESSAGE_ILLEGAL)}
	}, checkStatus)

	F("R04", "invalid", "every case: well-formed keys with a signature, ciphertext, check value, signature list or recovery input that is not valid", 2500, 80000, func(t *rapid.T) statusCase {
		switch pick(t, 8, "kind") {
		case 0, 1, 2:
			c := goodCallOf(t, *fnOf("Verify"), "c")
			j := 3
			if pick(t, 3, "which") == 0 && c.Typ != tPas {
				j = 2
			}
			old := c.Args[j]
			for eqb(c.Args[j], old) {
				c.Args[j] = spoil(t, old, "sp")
			}
			// the twin of an ECDSA signature is no invalid one
			return statusCase{c, "a signature that does not verify", st(ow.FAILURE)}
		case 3, 4:
			c := goodCallOf(t, *fnOf("Decryption"), "c")
			old := c.Args[1]
			for eqb(c.Args[1], old) || len(c.Args[1]) == 0 {
				c.Args[1] = spoil(t, old, "sp")
			}
			return statusCase{c, "an illegal ciphertext", st(ow.FAILURE)}
		case 5:
			c := goodCallOf(t, *fnOf("RecoverPubkey"), "c")
			if len(c.Args[0]) != 65 { // the SM2 key N-1 does not sign
				c.Args[0] = make(B, 65)
			}
			c.Args[0] = []B{nil, {}, c.Args[0][:64], append(cp(c.Args[0]), 0), make(B, 65), append(B(bytes.Repeat([]byte{0xff}, 64)), 0)}[pick(t, 6, "l")]
			return statusCase{c, "an illegal signature", st(ow.FAILURE)}
		case 6:
			c := goodCallOf(t, *fnOf("AggregateSignatures"), "c")
			if oneIn(t, 4, "none") {
				c.Args = nil
				return statusCase{c, "no signature", st(ow.FAILURE)}
			}
			i := pick(t, len(c.Args), "i")
			o := cp(c.Args[i])
			o[0] &= 0x7f
			c.Args[i] = []B{nil, {}, o, o[:95], append(o, 0), B(bytes.Repeat([]byte{0xff}, 96))}[pick(t, 6, "l")]
			return statusCase{c, "an undecodable signature", st(ow.FAILURE)}
		}
		c := goodCallOf(t, *fnOf("KeyAgreement_initiator_step2"), "c")
		c.Args[8] = flip(c.Args[8], pick(t, 8*len(c.Args[8]), "bit"))
		if oneIn(t, 3, "resp") {
			c = goodCallOf(t, *fnOf("KeyAgreement_responder_step2"), "r")
			c.Args[0] = flip(c.Args[0], pick(t, 8*len(c.Args[0]), "bit2"))
		}
		return statusCase{c, "a check value that does not match", st(ow.FAILURE)}
	}, checkStatus)

	F("R04", "agreement", "every case: a key-agreement call with one malformed argument", 700, 30000, func(t *rapid.T) statusCase {
		f := []string{"KeyAgreement_initiator_step2", "KeyAgreement_responder_step1", "KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_step2"}[pick(t, 4, "fn")]
		c := goodCallOf(t, *fnOf(f), "c")
		j := pick(t, len(c.Args), "j")
		c.Args[j] = spoil(t, c.Args[j], "sp")
		return statusCase{c, "a malformed argument", st(ow.FAILURE, ow.SUCCESS)}
	}, checkStatus)

	F("R04", "type", "every case: an identifier the operation does not support, with well-formed or malformed other arguments", 4000, 150000, func(t *rapid.T) statusCase {
		var c call
		for c.Fn == "" || !fnOf(c.Fn).status || c.Fn == "Point_add" || c.Fn == "Point_mul" || c.Fn == "ZA" || c.Fn[0] == 'C' {
			c = goodCall(t, "c")
		}
		for i := range c.Args {
			if oneIn(t, 4, "bad") {
				c.Args[i] = spoil(t, c.Args[i], "sp")
			}
		}
		f := fnOf(c.Fn)
		for f.documented(c.Typ) {
			switch pick(t, 4, "ty") {
			case 0:
				c.Typ = rapid.Uint32().Draw(t, "any")
			case 1:
				c.Typ ^= 1 << pick(t, 32, "bit")
			case 2:
				c.Typ = allTypes[pick(t, len(allTypes), "other")]
				if len(f.types) == len(allTypes) {
					c.Typ = 0xECC0000A
				}
			default:
				c.Typ = oddTypes[pick(t, len(oddTypes), "odd")]
			}
		}
		return statusCase{c, "an unsupported type", st(ow.ECC_WRONG_TYPE)}
	}, checkStatus)
}
