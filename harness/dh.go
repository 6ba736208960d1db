package main

import (
	"bytes"
	"crypto/ecdh"
	"math/big"

	"github.com/blocktree/go-owcrypt/eddsa"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- A03: Curve25519 key agreement and the parts of EC-KCDSA ---------------

type dhCase struct{ K, U B }

var feWidths = []uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}

// montU: canonical u coordinates, on the curve or the twist.
func montU(t *rapid.T, l string) *big.Int {
	switch pick(t, 7, l+"uk") {
	case 0:
		return mod(pattern(t, 255, l+"u"), ref.EdP)
	case 1, 2:
		return limbs(t, ref.EdP, 0, feWidths, l+"u")
	case 3:
		return n64(int64(pick(t, 40, l+"small")))
	case 4:
		return sub(ref.EdP, n64(1+int64(pick(t, 40, l+"neg"))))
	case 5:
		return ref.LE(xPubRef(edPriv(t, l+"priv")))
	}
	return mod(bi(uniform(t, 32, l+"u")), ref.EdP)
}

// subgroup gives a point of prime order with a u coordinate near the given one.
func subgroup(u *big.Int) ref.EdPt {
	for i := int64(0); ; i++ {
		v := mod(add(u, n64(i)), ref.EdP)
		if w := add(mul(v, add(v, n64(486662))), bigOne); big.Jacobi(v, ref.EdP) != 1 || big.Jacobi(w, ref.EdP) != 1 {
			continue // not twice a point
		}
		if p, ok := ref.MontLift(v); ok && ref.EdEq(ref.EdMul(ref.EdL, p), ref.EdIdentity()) {
			return p
		}
	}
}

// resultU: a u coordinate whose product with the clamped k is special.
func resultU(t *rapid.T, k []byte, l string) *big.Int {
	inv := new(big.Int).ModInverse(ref.LE(ref.Clamp(k)), ref.EdL)
	return ref.MontFromEd(ref.EdMul(inv, subgroup(montU(t, l))).Y)
}

func genDH(t *rapid.T) dhCase {
	c := dhCase{K: kcPriv(t, "k")}
	if pick(t, 3, "result") == 0 {
		c.U = ref.ToLE(resultU(t, c.K, "R"), 32)
	} else {
		c.U = ref.ToLE(montU(t, "u"), 32)
	}
	return c
}

func checkDH(c dhCase, x *Ctx) error {
	if len(c.K) != 32 || len(c.U) != 32 || ref.LE(c.U).Cmp(ref.EdP) >= 0 {
		return nil
	}
	want := ref.X25519(c.K, c.U)
	zero := bytes.Equal(want, make([]byte, 32))
	if !zero {
		x.NT()
		k, e1 := ecdh.X25519().NewPrivateKey(c.K)
		p, e2 := ecdh.X25519().NewPublicKey(c.U)
		if e1 != nil || e2 != nil {
			panic("ecdh")
		}
		if s, err := k.ECDH(p); err != nil || !bytes.Equal(s, want) {
			panic("the two references differ")
		}
	} else {
		x.Label("small order")
	}
	if _, ok := ref.MontLift(ref.LE(c.U)); ok {
		x.Label("on the curve")
	} else {
		x.Label("on the twist or of small order")
	}
	k, u := ref.Clamp(c.K), cp(c.U)
	z := dirty(c.K, 32)
	eddsa.Curve(z, k, u)
	if !bytes.Equal(z, want) {
		return errf("Curve(%x, %x) gives %x, not %x", k, []byte(c.U), z, want)
	}
	if !bytes.Equal(k, ref.Clamp(c.K)) || !bytes.Equal(u, c.U) {
		return errf("Curve changes its arguments")
	}
	return nil
}

// dirty: what an output buffer holds before the call.
func dirty(seed []byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed[(i*7+3)%len(seed)] ^ byte(i*29)
	}
	return b
}

func kinDH(t *rapid.T, c dhCase, l string) dhCase {
	if pick(t, 2, l+"which") == 0 {
		c.K = kin(t, c.K, l)
	} else {
		c.U = ref.ToLE(mod(ref.LE(kin(t, c.U, l)), ref.EdP), 32)
	}
	return c
}

func init() {
	F("A03", "x25519", "the shared coordinate is not zero (the point is not of small order)", 2600, 150000, genDH, checkDH).rows(260, 12000, kinDH)

	type pair struct{ A, B B }
	F("A03", "agreement", "every case: both parties generate their keys and derive the shared secret", 900, 60000, func(t *rapid.T) pair {
		p := pair{kcPriv(t, "a"), kcPriv(t, "b")}
		if pick(t, 8, "alike") == 0 {
			p.B = kin(t, p.A, "b")
		}
		return p
	}, func(c pair, x *Ctx) error {
		x.NT()
		var pub, sec [2][]byte
		for i, k := range []B{c.A, c.B} {
			pub[i], sec[i] = dirty(k, 32), cp(k)
			eddsa.Keygen(pub[i], nil, sec[i])
			if !bytes.Equal(sec[i], ref.Clamp(k)) {
				return errf("Keygen(%x) leaves the private key %x, not the clamped %x", []byte(k), sec[i], ref.Clamp(k))
			}
			if want, _ := ref.KCDSAKeygen(k); !bytes.Equal(pub[i], want) {
				return errf("Keygen(%x) gives the public key %x, not %x", []byte(k), pub[i], want)
			}
		}
		za, zb := make([]byte, 32), make([]byte, 32)
		eddsa.Curve(za, sec[0], pub[1])
		eddsa.Curve(zb, sec[1], pub[0])
		want := ref.X25519(c.A, pub[1])
		if !bytes.Equal(za, want) || !bytes.Equal(zb, want) {
			return errf("shared secrets %x and %x, not %x", za, zb, want)
		}
		return nil
	})

	type sk struct{ K B }
	F("A03", "signing-key", "every case: Keygen with the signing key asked for", 1600, 100000, func(t *rapid.T) sk {
		if pick(t, 4, "chosen") == 0 { // a key whose public key or signing key is special
			k := mod(pattern(t, 252, "j"), ref.EdL)
			if pick(t, 2, "inv") == 0 && k.Sign() > 0 {
				k.ModInverse(k, ref.EdL)
			}
			for m := 0; m < 8; m++ { // congruent to it and legal when clamped
				v := ref.ToLE(add(k, mul(ref.EdL, n64(int64(m)))), 32)
				if bytes.Equal(ref.Clamp(v), v) {
					return sk{v}
				}
			}
		}
		return sk{kcPriv(t, "k")}
	}, func(c sk, x *Ctx) error {
		x.NT()
		wp, ws := ref.KCDSAKeygen(c.K)
		k, p, s := cp(c.K), dirty(c.K, 32), dirty(c.K[1:], 32)
		eddsa.Keygen(p, s, k)
		if !bytes.Equal(p, wp) {
			return errf("Keygen(%x): public key %x, not %x", []byte(c.K), p, wp)
		}
		if mod(ref.LE(s), ref.EdL).Cmp(ws) != 0 {
			return errf("Keygen(%x): signing key %x, not %x", []byte(c.K), s, ref.ToLE(ws, 32))
		}
		if !bytes.Equal(k, ref.Clamp(c.K)) {
			return errf("Keygen(%x) leaves the private key %x", []byte(c.K), k)
		}
		return nil
	}).rows(200, 10000, func(t *rapid.T, c sk, l string) sk { return sk{kin(t, c.K, l)} })

	type eq struct{ X, H, S B }
	F("A03", "sign", "v is not zero", 3000, 200000, func(t *rapid.T) eq {
		c := eq{X: leEdge(t, "x"), H: leEdge(t, "h"), S: ref.ToLE(scalar(t, ref.EdL, "s"), 32)}
		switch pick(t, 6, "kind") {
		case 0: // x and h are congruent, or nearly
			v := add(mod(ref.LE(c.H), ref.EdL), mul(ref.EdL, n64(int64(pick(t, 15, "m")))))
			c.X = ref.ToLE(add(v, n64(int64(pick(t, 4, "d")))), 32)
		case 1: // v is special
			w := mod(pattern(t, 252, "v"), ref.EdL)
			d := mod(mul(w, new(big.Int).ModInverse(ref.LE(c.S), ref.EdL)), ref.EdL)
			c.X = ref.ToLE(mod(add(d, ref.LE(c.H)), ref.EdL), 32)
		}
		return c
	}, func(c eq, x *Ctx) error {
		want := mod(mul(sub(ref.LE(c.X), ref.LE(c.H)), ref.LE(c.S)), ref.EdL)
		if want.Sign() != 0 {
			x.NT()
		}
		v, h, xx, s := dirty(c.X, 32), cp(c.H), cp(c.X), cp(c.S)
		ok := eddsa.Sign(v, h, xx, s)
		if ref.LE(v).Cmp(want) != 0 {
			return errf("Sign(h=%x, x=%x, s=%x) gives %x, not %x", []byte(c.H), []byte(c.X), []byte(c.S), v, ref.ToLE(want, 32))
		}
		if ok != (want.Sign() != 0) {
			return errf("Sign(h=%x, x=%x, s=%x) reports %v for v = %x", []byte(c.H), []byte(c.X), []byte(c.S), ok, v)
		}
		if !bytes.Equal(h, c.H) || !bytes.Equal(xx, c.X) || !bytes.Equal(s, c.S) {
			return errf("Sign changes its arguments")
		}
		return nil
	}).rows(250, 15000, func(t *rapid.T, c eq, l string) eq {
		switch pick(t, 3, l+"w") {
		case 0:
			c.X = kin(t, c.X, l)
		case 1:
			c.H = kin(t, c.H, l)
		default:
			c.S = ref.ToLE(mod(ref.LE(kin(t, c.S, l)), ref.EdL), 32)
		}
		return c
	})

	type ver struct{ V, H, P B }
	F("A03", "verify", "the sum is not the identity", 2400, 120000, func(t *rapid.T) ver {
		c := ver{V: ref.ToLE(mod(ref.LE(leEdge(t, "v")), ref.EdL), 32), H: leEdge(t, "h")}
		var p ref.EdPt
		if pick(t, 4, "public") == 0 {
			p = subgroup(montU(t, "p"))
		} else {
			p = ref.EdMulB(ref.LE(ref.Clamp(kcPriv(t, "k"))))
		}
		u := ref.MontFromEd(p.Y)
		switch v := ref.LE(c.V); pick(t, 5, "kind") {
		case 0: // the sum is special
			if v.Sign() == 0 {
				break
			}
			r := ref.EdAdd(subgroup(montU(t, "R")), ref.EdNeg(ref.EdMulB(ref.LE(c.H))))
			if q := ref.EdMul(new(big.Int).ModInverse(v, ref.EdL), r); !ref.EdEq(q, ref.EdIdentity()) {
				u = ref.MontFromEd(q.Y)
			}
		case 1: // bits of the two that are alike, or opposite
			c.H = cp(c.V)
			if pick(t, 2, "opp") == 0 {
				for i := range c.H {
					c.H[i] ^= 0xff
				}
			}
			c.H = kin(t, c.H, "hk")
		}
		c.P = ref.ToLE(u, 32)
		return c
	}, func(c ver, x *Ctx) error {
		want, ok := ref.KCDSAPoint(ref.LE(c.V), ref.LE(c.H), c.P)
		if !ok {
			return nil
		}
		x.NT()
		y, v, h, p := dirty(c.H, 32), cp(c.V), cp(c.H), cp(c.P)
		eddsa.Verify(y, v, h, p)
		if !bytes.Equal(y, want) {
			return errf("Verify(v=%x, h=%x, P=%x) gives %x, not %x", []byte(c.V), []byte(c.H), []byte(c.P), y, want)
		}
		if !bytes.Equal(v, c.V) || !bytes.Equal(h, c.H) || !bytes.Equal(p, c.P) {
			return errf("Verify changes its arguments")
		}
		return nil
	}).rows(250, 12000, func(t *rapid.T, c ver, l string) ver {
		switch pick(t, 3, l+"w") {
		case 0:
			c.V = ref.ToLE(mod(ref.LE(kin(t, c.V, l)), ref.EdL), 32)
		case 1:
			c.H = kin(t, c.H, l)
		default:
			c.P = ref.ToLE(ref.MontFromEd(subgroup(mod(ref.LE(kin(t, c.P, l)), ref.EdP)).Y), 32)
		}
		return c
	})
}

// leEdge: any 32 bytes, little-endian numbers near multiples of the order among them.
func leEdge(t *rapid.T, l string) B {
	switch pick(t, 4, l+"ek") {
	case 0:
		return B(ref.ToLE(pattern(t, 256, l), 32))
	case 1:
		v := add(mul(ref.EdL, n64(int64(pick(t, 15, l+"m")))), n64(int64(pick(t, 7, l+"d")-3)))
		if v.Sign() < 0 {
			v.Neg(v)
		}
		return B(ref.ToLE(v, 32))
	case 2:
		return B(ref.ToLE(scalar(t, ref.EdL, l), 32))
	}
	return B(rbytes(t, 32, l))
}
