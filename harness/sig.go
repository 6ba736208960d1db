package main

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/eddsa"
	"pgregory.net/rapid"

	"verif/ref"
)

// sm2ID draws an identity: nil selects digest mode.
func sm2ID(t *rapid.T, l string) B {
	switch pick(t, 8, l+"idk") {
	case 0, 1, 2:
		return nil
	case 3:
		return B("1234567812345678")
	case 4:
		return B(rbytes(t, []int{1, 2, 31, 32, 33, 255, 256, 257, 511, 512, 1023, 1024, 4096, 8190, 8191}[pick(t, 15, l+"idl")], l+"id"))
	}
	return B(rbytes(t, 1+pick(t, 64, l+"idn"), l+"id"))
}

// rngPre draws the first bytes the random source will serve; a uniform stream
// follows, so that retry loops end.
func rngPre(t *rapid.T, N *big.Int, l string) B {
	n := []int{8, 16, 32, 40, 48, 64, 96, 128}[pick(t, 8, l+"pn")]
	switch pick(t, 7, l+"pk") {
	case 6: // a nonce point with leading zero bytes, for the usual ways to make a nonce of random bytes
		for _, c := range wei4 {
			if N != nil && c.c.N.Cmp(N) == 0 {
				v := sub(shortPoint(t, c, l), n64(int64(pick(t, 2, l+"m1"))))
				if pick(t, 2, l+"w") == 1 {
					return B(v.FillBytes(make([]byte, 40)))
				}
				return b32(v)
			}
		}
	case 0:
		return make(B, n)
	case 1:
		b := make(B, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2: // values around the order, big endian
		v := new(big.Int)
		if N != nil {
			v.Set(N)
		}
		v.Add(v, n64(int64(pick(t, 7, l+"d")-3)))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return B(cat(b32(mod(v, lsh(256))), make([]byte, pick(t, 40, l+"tail"))))
	case 3: // small values, big endian at 32 or 40 bytes
		w := 32
		if pick(t, 2, l+"w") == 1 {
			w = 40
		}
		return B(n64(int64(pick(t, 4, l+"sv"))).FillBytes(make([]byte, w)))
	case 4: // small values, little endian
		b := make(B, 32)
		b[0] = byte(pick(t, 4, l+"sv"))
		return b
	}
	return B(rbytes(t, n, l+"pr"))
}

type signCase struct {
	S    int
	Priv B
	ID   B
	Msg  B
	Pre  B
	Reps int
}

func genSign(t *rapid.T) signCase {
	c := signCase{S: schemeIdx(t), Reps: 1}
	s := schemes[c.S]
	c.Priv = s.priv(t, "d")
	if s.typ == ow.ECC_CURVE_SM2_STANDARD {
		c.ID = sm2ID(t, "i")
		if !s.signs(c.Priv) {
			c.Priv = b32(sub(ref.SM2.N, n64(2)))
		}
	}
	c.Msg = s.msg(t, "m")
	return c
}

func sigLen(typ uint32) int {
	if typ == ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG || typ == ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL {
		return 96
	}
	return 64
}

func checkSign(c signCase, x *Ctx) error {
	s := schemes[c.S]
	x.Label(s.name)
	x.NT()
	pub := s.pub(c.Priv)
	if c.Pre != nil {
		setRand(cat(c.Priv, c.Msg, c.Pre), c.Pre)
	}
	for i := 0; i < max(c.Reps, 1); i++ {
		sig, v, st := ow.Signature(cp(c.Priv), cp(c.ID), cp(c.Msg), s.typ)
		if st != ow.SUCCESS {
			return errf("%s: Signature status %#x", s.name, st)
		}
		if len(sig) != sigLen(s.typ) {
			return errf("%s: signature of %d bytes", s.name, len(sig))
		}
		if v > 1 {
			return errf("%s: v = %d", s.name, v)
		}
		if st := ow.Verify(cp(pub), cp(c.ID), cp(c.Msg), cp(sig), s.typ); st != ow.SUCCESS {
			return errf("%s: own signature %x does not verify (%#x), try %d", s.name, sig, st, i)
		}
	}
	return nil
}

// mutation of one verified tuple
type mutCase struct {
	signCase
	Kind  int
	Bits  []int // drawn positions
	Priv2 B
	ID2   B
	Msg2  B
}

const nMut = 9

func sameMinaMsg(a, b []byte) bool {
	x, ok1 := minaDecode(a)
	y, ok2 := minaDecode(b)
	if !ok1 || !ok2 {
		return ok1 == ok2
	}
	// the hash sees prefix, P (two elements), r, suffix: the split matters, too.
	// The sponge fills the last block of two with a zero element, so a zero at
	// the end of an even sequence is the same input.
	for _, m := range []*ref.MinaMsg{&x, &y} {
		if (len(m.Prefix)+len(m.Suffix)+3)%2 == 1 {
			m.Suffix = append(append([]*big.Int{}, m.Suffix...), new(big.Int))
		}
	}
	if len(x.Prefix) != len(y.Prefix) || len(x.Suffix) != len(y.Suffix) {
		return false
	}
	for i := range x.Prefix {
		if x.Prefix[i].Cmp(y.Prefix[i]) != 0 {
			return false
		}
	}
	for i := range x.Suffix {
		if x.Suffix[i].Cmp(y.Suffix[i]) != 0 {
			return false
		}
	}
	for i := range x.IV {
		if x.IV[i].Cmp(y.IV[i]) != 0 {
			return false
		}
	}
	return true
}

// minaAlter changes one element (or the number of elements) of a message, r says which.
func minaAlter(b []byte, r int) []byte {
	var j minaJSON
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	n := len(j.P) + len(j.S) + 3
	at := r % (n + 2)
	alter := func(e *[4]uint64) {
		v := ref.FromMont(*e, ref.FpP)
		*e = ref.ToMont(mod(add(v, lsh(uint(r/(n+2)%254))), ref.FpP), ref.FpP)
	}
	switch {
	case at < len(j.P):
		alter(&j.P[at])
	case at < len(j.P)+len(j.S):
		alter(&j.S[at-len(j.P)])
	case at < n:
		alter(&j.IV[at-len(j.P)-len(j.S)])
	case at == n && len(j.S) > 0:
		j.S = j.S[:len(j.S)-1]
	case at == n+1 && len(j.P) > 0:
		j.P = j.P[1:]
	default:
		j.S = append(j.S, [4]uint64{})
	}
	o, _ := json.Marshal(j)
	return o
}

// sameMessage: b counts as the same message as a for the scheme's equation.
func sameMessage(s scheme, id, a, b []byte) bool {
	if eqb(a, b) {
		return true
	}
	switch s.typ {
	case ow.ECC_CURVE_SECP256K1:
		return len(a) == len(b) && mod(bi(a), ref.K1.N).Cmp(mod(bi(b), ref.K1.N)) == 0
	case ow.ECC_CURVE_SECP256R1:
		return len(a) == len(b) && mod(bi(a), ref.R1.N).Cmp(mod(bi(b), ref.R1.N)) == 0
	case ow.ECC_CURVE_SM2_STANDARD:
		return id == nil && len(a) == len(b) && mod(bi(a), ref.SM2.N).Cmp(mod(bi(b), ref.SM2.N)) == 0
	case ow.ECC_CURVE_PASTA:
		return sameMinaMsg(a, b)
	}
	return false
}

func checkMut(c mutCase, x *Ctx) error {
	s := schemes[c.S]
	pub := s.pub(c.Priv)
	sig, _, st := ow.Signature(cp(c.Priv), cp(c.ID), cp(c.Msg), s.typ)
	if st != ow.SUCCESS {
		return errf("%s: Signature status %#x", s.name, st)
	}
	if st := ow.Verify(pub, c.ID, c.Msg, sig, s.typ); st != ow.SUCCESS {
		return errf("%s: the unmodified signature does not verify", s.name)
	}
	rej := func(what string, pub, id, msg, sg []byte, typ uint32) error {
		st := ow.Verify(cp(pub), cp(id), cp(msg), cp(sg), typ)
		if st == ow.SUCCESS && typ == s.typ && c.S < 3 && refVer(wei3[c.S], pub, id, msg, sg) {
			return nil // the equation itself holds, as for digest 0 and the negated key
		}
		if st == ow.SUCCESS {
			return errf("%s: accepted with %s: pub=%x id=%x sig=%x (original sig %x)", s.name, what, pub, id, sg, sig)
		}
		if !statusOK(st) {
			return errf("%s: undocumented status %#x", s.name, st)
		}
		return nil
	}
	x.Label(s.name)
	switch c.Kind {
	case 0: // message bits
		x.Label("message bit")
		n := 0
		for i, b := range c.Bits {
			if len(c.Msg) == 0 {
				break
			}
			m := flip(c.Msg, b%(8*len(c.Msg)))
			if sameMessage(s, c.ID, c.Msg, m) {
				continue
			}
			n++
			if err := rej("a message bit flipped", pub, c.ID, m, sig, s.typ); err != nil {
				return err
			}
			if s.slow >= 60 && i > 0 {
				continue
			}
			if m = warp(c.Msg, b); eqb(m, c.Msg) || sameMessage(s, c.ID, c.Msg, m) {
				continue
			}
			if err := rej("several message bytes changed", pub, c.ID, m, sig, s.typ); err != nil {
				return err
			}
		}
		if n > 0 {
			x.NT()
		}
	case 1: // length changes
		x.Label("message length")
		var ms [][]byte
		ms = append(ms, append(cp(c.Msg), 0), append(cp(c.Msg), c.Msg...), append([]byte{0}, c.Msg...), []byte{}, append(cp(c.Msg), byte(c.Bits[0])))
		if len(c.Msg) > 0 {
			ms = append(ms, c.Msg[:len(c.Msg)-1], c.Msg[1:], c.Msg[:c.Bits[1]%len(c.Msg)])
		}
		for _, m := range ms {
			if eqb(m, c.Msg) || sameMessage(s, c.ID, c.Msg, m) {
				continue
			}
			x.NT()
			if err := rej("another message length", pub, c.ID, m, sig, s.typ); err != nil {
				return err
			}
		}
	case 2: // other message
		x.Label("other message")
		if !sameMessage(s, c.ID, c.Msg, c.Msg2) {
			x.NT()
			return rej("another message", pub, c.ID, c.Msg2, sig, s.typ)
		}
	case 3: // other key
		x.Label("other key")
		p2 := s.pub(c.Priv2)
		if eqb(p2, pub) {
			return nil
		}
		x.NT()
		if err := rej("another public key", p2, c.ID, c.Msg, sig, s.typ); err != nil {
			return err
		}
		if len(pub) == 64 { // -P
			q, _ := curveOf(s.typ).c.ParseXY(pub)
			return rej("the negated public key", curveOf(s.typ).c.Neg(q).XY(), c.ID, c.Msg, sig, s.typ)
		}
		if s.typ == ow.ECC_CURVE_ED25519 || s.typ == ow.ECC_CURVE_ED25519_NORMAL {
			return rej("the negated public key", flip(pub, 255), c.ID, c.Msg, sig, s.typ)
		}
		if len(pub) == 48 {
			return rej("the negated public key", flip(pub, 5), c.ID, c.Msg, sig, s.typ)
		}
	case 4: // signature bits
		x.Label("signature bit")
		x.NT()
		for _, b := range c.Bits {
			if err := rej("a signature bit flipped", pub, c.ID, c.Msg, flip(sig, b%(8*len(sig))), s.typ); err != nil {
				return err
			}
			a, e := 0, len(sig) // all of it, or one half
			if h := e / 2; b%3 == 0 {
				e = h
			} else if b%3 == 1 {
				a = h
			}
			if w := warp(sig[a:e], b); !eqb(w, sig[a:e]) {
				if err := rej("several signature bytes changed", pub, c.ID, c.Msg, cat(sig[:a], w, sig[e:]), s.typ); err != nil {
					return err
				}
			}
		}
	case 5: // signature length, halves swapped or replaced
		x.Label("signature shape")
		x.NT()
		h := len(sig) / 2
		for _, g := range [][]byte{nil, sig[:len(sig)-1], append(cp(sig), 0), append([]byte{0}, sig...), sig[:h], cat(sig[h:], sig[:h]), cat(sig, sig), make([]byte, len(sig)), cat(sig[:h], make([]byte, h)), cat(make([]byte, h), sig[h:]), cat(sig, make([]byte, 256)), cat(sig, make([]byte, 65536)), cat(make([]byte, 256), sig)} {
			if eqb(g, sig) {
				continue
			}
			if err := rej("another signature string", pub, c.ID, c.Msg, g, s.typ); err != nil {
				return err
			}
		}
	case 6: // SM2 identity
		if s.typ != ow.ECC_CURVE_SM2_STANDARD {
			return nil
		}
		x.Label("identity")
		ids := [][]byte{c.ID2}
		if c.ID != nil {
			ids = append(ids, nil, append(cp(c.ID), 0), c.ID[:len(c.ID)-1], flip(c.ID, c.Bits[0]%(8*len(c.ID))), append([]byte{0}, c.ID...))
			// move a byte between identity and message: lengths differ, so refused
		} else {
			ids = append(ids, []byte("1234567812345678"))
		}
		for _, id := range ids {
			if (id == nil) == (c.ID == nil) && eqb(id, c.ID) {
				continue
			}
			if len(id) == 0 && id != nil { // empty identity: refused or hashed, never digest mode; not judged when c.ID is nil
				continue
			}
			x.NT()
			if err := rej("another identity", pub, id, c.Msg, sig, s.typ); err != nil {
				return err
			}
		}
	case 9: // bits and bytes of a long SM2 identity
		x.NT()
		for _, b := range c.Bits {
			at := b / 8
			ids := [][]byte{flip(c.ID, b), append(append([]byte{}, c.ID[:at]...), c.ID[at+1:]...)}
			if len(c.ID) < 8191 {
				ids = append(ids, cat(c.ID[:at], []byte{byte(b)}, c.ID[at:]))
			}
			for _, id := range ids {
				if len(id) == 0 || eqb(id, c.ID) {
					continue
				}
				if err := rej("another identity", pub, id, c.Msg, sig, s.typ); err != nil {
					return err
				}
			}
		}
	case 8: // one element of a Mina message
		if s.typ != ow.ECC_CURVE_PASTA {
			return nil
		}
		x.Label("mina element")
		for _, b := range c.Bits {
			m := minaAlter(c.Msg, b)
			if sameMinaMsg(m, c.Msg) {
				continue
			}
			x.NT()
			if err := rej("one element of the message changed", pub, c.ID, m, sig, s.typ); err != nil {
				return err
			}
		}
	case 7: // other scheme
		x.Label("other scheme")
		ed := func(t uint32) bool { return t == ow.ECC_CURVE_ED25519 || t == ow.ECC_CURVE_ED25519_NORMAL }
		for _, o := range schemes {
			if o.typ == s.typ || ed(o.typ) && ed(s.typ) {
				continue
			}
			x.NT()
			if err := rej("scheme "+o.name, pub, c.ID, c.Msg, sig, o.typ); err != nil {
				return err
			}
			// with the other scheme's own key for the same private bytes; X25519
			// signatures are Ed25519 signatures of the corresponding key
			if len(c.Priv) == 32 && !(ed(s.typ) && o.typ == ow.ECC_CURVE_X25519 || ed(o.typ) && s.typ == ow.ECC_CURVE_X25519) {
				p2, st := ow.GenPubkey(cp(c.Priv), o.typ)
				if st == ow.SUCCESS {
					if err := rej("scheme "+o.name+" and its key", p2, c.ID, c.Msg, sig, o.typ); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// ---- ECDSA / SM2 verification against the equation

type verCase struct {
	C    int // wei3
	Q    B   // 64 bytes
	ID   B
	Msg  B
	Sig  B
	Kind string
}

// solveQ gives the public key under which (r,s) with nonce point R verifies.
func solveQ(c wcurve, R ref.Pt, r, s, e *big.Int) (ref.Pt, bool) {
	n := c.c.N
	if c.typ == ow.ECC_CURVE_SM2_STANDARD { // R = sG + tQ
		t := mod(add(r, s), n)
		if t.Sign() == 0 {
			return ref.Pt{}, false
		}
		Q := c.c.Mul(new(big.Int).ModInverse(t, n), c.c.Add(R, c.c.Neg(c.c.MulG(s))))
		return Q, !Q.Inf
	}
	// Q = r^-1 (sR - eG)
	Q := c.c.Mul(new(big.Int).ModInverse(r, n), c.c.Add(c.c.Mul(s, R), c.c.Neg(c.c.MulG(mod(e, n)))))
	return Q, !Q.Inf
}

func isSM2(c wcurve) bool { return c.typ == ow.ECC_CURVE_SM2_STANDARD }

func genVer(t *rapid.T) verCase {
	v := verCase{C: pick(t, 3, "c")}
	c := wei3[v.C]
	n := c.c.N
	sm2 := isSM2(c)
	switch k := pick(t, 15, "kind"); {
	case k < 4: // independent signer
		v.Kind = "foreign"
		d := wpriv(t, c, "d")
		if sm2 && d.Cmp(sub(n, bigOne)) == 0 {
			d = n64(5)
		}
		Q := c.c.MulG(d)
		v.Msg = msg32(t, "m")
		for {
			kk := wpriv(t, c, "k")
			var r, s *big.Int
			var ok bool
			if sm2 {
				v.ID = sm2ID(t, "i")
				r, s, _, ok = ref.SM2Sign(d, kk, ref.SM2E(Q, v.ID, v.Msg))
			} else {
				r, s, _, ok = c.c.ECDSASign(d, kk, v.Msg)
			}
			if ok {
				if !sm2 && pick(t, 2, "neg") == 0 {
					s = sub(n, s)
				}
				v.Q, v.Sig = Q.XY(), cat(b32(r), b32(s))
				break
			}
		}
	case k < 7: // chosen R and s, solve for the key
		v.Kind = "crafted"
		for {
			R := wpoint(t, c, "R")
			s := scalar(t, n, "s")
			var e, r *big.Int
			if sm2 { // choose r, then e = r - x
				r = scalar(t, n, "r")
				e = mod(sub(r, R.X), n)
				if w := add(e, n); w.BitLen() <= 256 && pick(t, 2, "ebig") == 0 {
					e = w
				}
			} else {
				e = bi(msg32(t, "m"))
				if pick(t, 3, "e0") == 0 {
					e = []*big.Int{n64(0), n64(1), n, sub(n, bigOne), add(n, bigOne), sub(lsh(256), bigOne)}[pick(t, 6, "ei")]
				}
				r = mod(R.X, n)
			}
			if r.Sign() == 0 {
				continue
			}
			Q, ok := solveQ(c, R, r, s, e)
			if ok {
				v.Q, v.Msg, v.Sig = Q.XY(), b32(e), cat(b32(r), b32(s))
				break
			}
		}
	case k < 8: // r = x - N: only x in [N,p) give it
		v.Kind = "x not below N"
		if sm2 || c.c.P.Cmp(n) < 0 {
			v.Kind = "crafted"
		}
		x := add(n, mod(bi(uniform(t, 40, "x")), sub(c.c.P, n)))
		if pick(t, 2, "small") == 0 {
			x = add(n, n64(int64(pick(t, 30, "xs"))))
		}
		for {
			if x.Cmp(c.c.P) >= 0 {
				x = add(n, bigOne)
			}
			R, ok := c.c.Lift(x, uint(pick(t, 2, "o")))
			if !ok || x.Cmp(n) == 0 {
				x = add(x, bigOne)
				continue
			}
			e := bi(msg32(t, "m"))
			r := mod(R.X, n)
			if sm2 {
				r = mod(add(e, R.X), n)
			}
			s := scalar(t, n, "s")
			if r.Sign() == 0 {
				x = add(x, bigOne)
				continue
			}
			Q, ok := solveQ(c, R, r, s, e)
			if !ok {
				x = add(x, bigOne)
				continue
			}
			v.Q, v.Msg, v.Sig = Q.XY(), b32(e), cat(b32(r), b32(s))
			break
		}
	case k < 9: // the two halves of the sum are equal
		v.Kind = "u1G = u2Q"
		for {
			d := wpriv(t, c, "d")
			var r, s, e *big.Int
			if sm2 { // s = (r+s) d
				w := mod(sub(bigOne, d), n)
				if w.Sign() == 0 {
					continue
				}
				r = scalar(t, n, "r")
				s = mod(mul(mul(r, d), new(big.Int).ModInverse(w, n)), n)
				R := c.c.MulG(mod(add(s, s), n))
				e = mod(sub(r, R.X), n)
			} else {
				kk := wpriv(t, c, "k")
				r = mod(c.c.MulG(kk).X, n)
				e = mod(mul(r, d), n)
				s = mod(mul(add(e, e), new(big.Int).ModInverse(kk, n)), n)
			}
			if r.Sign() == 0 || s.Sign() == 0 || sm2 && mod(add(r, s), n).Sign() == 0 {
				continue
			}
			v.Q, v.Msg, v.Sig = c.c.MulG(d).XY(), b32(e), cat(b32(r), b32(s))
			break
		}
	case k < 10: // the sum is infinity
		v.Kind = "u1G = -u2Q"
		d := wpriv(t, c, "d")
		r := scalar(t, n, "r")
		s := scalar(t, n, "s")
		e := mod(mul(r, sub(n, d)), n)
		if sm2 {
			w := mod(add(bigOne, d), n)
			if w.Sign() == 0 {
				d, w = n64(1), n64(2)
			}
			s = mod(mul(mul(r, sub(n, d)), new(big.Int).ModInverse(w, n)), n)
			e = bi(msg32(t, "m"))
			if mod(e, n).Cmp(r) == 0 {
				e = add(e, bigOne)
				e.Mod(e, lsh(256))
			}
		}
		v.Q, v.Msg, v.Sig = c.c.MulG(d).XY(), b32(e), cat(b32(r), b32(s))
	case k < 11: // random
		v.Kind = "random"
		v.Q, v.Msg, v.Sig = wpoint(t, c, "Q").XY(), msg32(t, "m"), B(cat(b32(scalar(t, n, "r")), b32(scalar(t, n, "s"))))
	case k < 13: // the equation holds, but r, s or r+s is zero modulo N
		v.Kind = "zero"
		Q := wpoint(t, c, "Q")
		r, s, e := n64(0), scalar(t, n, "s"), n64(0)
		if sm2 {
			r = scalar(t, n, "r")
			var R ref.Pt
			switch pick(t, 3, "z") {
			case 0: // the key drops out
				r = mod(sub(n, s), n)
				R = c.c.MulG(s)
			case 1:
				s = n64(0)
				R = c.c.Mul(r, Q)
			default:
				r = n64(0)
				R = c.c.Add(c.c.MulG(s), c.c.Mul(s, Q))
			}
			x := n64(0)
			if !R.Inf {
				x = R.X
			}
			e = mod(sub(r, x), n)
		}
		if w := add(e, n); w.BitLen() <= 256 && pick(t, 2, "ebig") == 0 {
			e = w
		}
		if r.Sign() == 0 && pick(t, 3, "rn") == 0 {
			r = n
		}
		if s.Sign() == 0 && pick(t, 3, "sn") == 0 {
			s = n
		}
		v.Q, v.Msg, v.Sig = Q.XY(), b32(e), cat(b32(r), b32(s))
	default: // a valid one damaged in r or s
		v.Kind = "out of range"
		d := wpriv(t, c, "d")
		if sm2 && d.Cmp(sub(n, bigOne)) == 0 {
			d = n64(5)
		}
		Q := c.c.MulG(d)
		// small r and s so that r+N, s+N fit: solve
		s := n64(int64(1 + pick(t, 1000, "s")))
		var r, e *big.Int
		for {
			R := wpoint(t, c, "R")
			if sm2 {
				r = n64(int64(1 + pick(t, 1000, "r")))
				e = mod(sub(r, R.X), n)
			} else {
				x := n64(int64(pick(t, 60, "rx")))
				R = liftNear(c, x, uint(pick(t, 2, "ro")))
				r, e = mod(R.X, n), bi(msg32(t, "m"))
			}
			if r.Sign() == 0 {
				continue
			}
			var ok bool
			if Q, ok = solveQ(c, R, r, s, e); ok {
				break
			}
		}
		top := sub(lsh(256), bigOne)
		alt := func(w *big.Int, l string) *big.Int {
			o := []*big.Int{w, add(w, n), n64(0), n, add(n, bigOne), c.c.P, top, sub(n, w)}[pick(t, 8, l)]
			if o.BitLen() > 256 {
				return top
			}
			return o
		}
		v.Q, v.Msg, v.Sig = Q.XY(), b32(e), B(cat(b32(alt(r, "ra")), b32(alt(s, "sa"))))
	}
	return v
}

func refVer(c wcurve, q, id, msg, sig []byte) bool {
	Q, ok := c.c.ParseXY(q)
	if !ok || len(msg) != 32 || len(sig) != 64 {
		return false
	}
	r, s := bi(sig[:32]), bi(sig[32:])
	if isSM2(c) {
		return ref.SM2Verify(Q, ref.SM2E(Q, id, msg), r, s)
	}
	return c.c.ECDSAVerify(Q, msg, r, s)
}

// ---- recovery

type recCase struct {
	C    int
	Priv B
	Msg  B
	Sig  B
	Pre  B
	Kind string
}

func genRec(t *rapid.T) recCase {
	r := recCase{C: pick(t, 3, "c")}
	c := wei3[r.C]
	v := genVer(t)
	r.C = v.C
	c = wei3[r.C]
	n := c.c.N
	r.Msg, r.Kind = v.Msg, v.Kind
	vb := byte(pick(t, 2, "v"))
	switch pick(t, 8, "vk") {
	case 0:
		vb = byte(pick(t, 256, "vv"))
	case 1:
		vb = []byte{2, 3, 4, 27, 28, 29, 30, 31, 32, 0x80, 0xff}[pick(t, 11, "ve")]
	}
	r.Sig = append(cp(v.Sig), vb)
	switch pick(t, 10, "extra") {
	case 0: // anything
		r.Sig = B(rbytes(t, 65, "sig"))
		r.Kind = "random"
	case 1: // r above N, s zero ...
		a := []*big.Int{n64(0), n, sub(n, bigOne), n64(1), c.c.P, sub(c.c.P, bigOne), sub(lsh(256), bigOne), n64(2)}
		r.Sig = B(cat(b32(a[pick(t, 8, "ra")]), b32(a[pick(t, 8, "sa")]), []byte{vb}))
		r.Kind = "edge r s"
	case 2:
		r.Sig = B(rbytes(t, pick(t, 130, "len"), "sig"))
		if pick(t, 4, "by") == 0 {
			r.Sig = over(t, append(cp(v.Sig), 0), "ov")
		}
		r.Kind = "length"
	case 3:
		r.Msg = B(rbytes(t, []int{0, 1, 31, 33, 64}[pick(t, 5, "ml")], "msg"))
		if len(r.Msg) == 0 && pick(t, 2, "mn") == 0 {
			r.Msg = nil
		}
		r.Kind = "digest length"
	case 4: // digest making Q infinity: e = s k (ECDSA)
		kk := scalar(t, n, "k")
		s := scalar(t, n, "s")
		R := c.c.MulG(kk)
		if isSM2(c) {
			// Q = t^-1 (R - sG) with s = k
			e := bi(msg32(t, "m"))
			r.Msg = b32(e)
			r.Sig = B(cat(b32(mod(add(e, R.X), n)), b32(kk), []byte{byte(R.Y.Bit(0))}))
		} else {
			r.Msg = b32(mod(mul(s, kk), n))
			r.Sig = B(cat(b32(mod(R.X, n)), b32(s), []byte{byte(R.Y.Bit(0))}))
		}
		r.Kind = "key at infinity"
	case 5: // digest 0
		r.Msg = make(B, 32)
		if pick(t, 2, "dN") == 0 {
			r.Msg = b32(n)
		}
		r.Kind = "digest 0"
	}
	return r
}

// ---- Ed25519 crafted triples

type edCase struct {
	N    bool // NORMAL variant
	Pub  B
	Msg  B
	Sig  B
	Kind string
}

var edTorsion = func() (o []ref.EdPt) {
	// a point of order 8 generates the torsion subgroup
	y := hexInt("7a03ac9277fdc74ec6cc392cfa53202a0f67100d760b3cba4fd84d3d706a17c7")
	p, ok := ref.EdDec(ref.ToLE(y, 32))
	if !ok {
		panic("torsion")
	}
	q := ref.EdIdentity()
	for i := 0; i < 8; i++ {
		o = append(o, q)
		q = ref.EdAdd(q, p)
	}
	if !ref.EdEq(q, ref.EdIdentity()) || ref.EdEq(o[4], ref.EdIdentity()) {
		panic("torsion order")
	}
	return
}()

// nearLE draws 256-bit numbers near lim.
func nearLE(t *rapid.T, lim *big.Int, l string) *big.Int {
	if pick(t, 3, l+"close") == 0 {
		return add(lim, n64(int64(pick(t, 9, l+"d")-4)))
	}
	return nearLimit(t, lim, l)
}

func genEd(t *rapid.T) edCase {
	c := edCase{N: pick(t, 2, "variant") == 0, Msg: msgAny(t, "m")}
	L := ref.EdL
	a := scalar(t, L, "a")
	r := scalar(t, L, "r")
	mk := func(A, R ref.EdPt) {
		c.Pub = A.Enc()
		rb := R.Enc()
		s := mod(add(r, mul(ref.EdHRAM(rb, c.Pub, c.Msg), a)), L)
		c.Sig = B(cat(rb, ref.ToLE(s, 32)))
	}
	A, R := ref.EdMulB(a), ref.EdMulB(r)
	// seal makes s for encodings that need not be those of a and r
	seal := func(ab, rb []byte) {
		c.Pub = ab
		c.Sig = B(cat(rb, ref.ToLE(mod(add(r, mul(ref.EdHRAM(rb, ab, c.Msg), a)), L), 32)))
	}
	switch pick(t, 18, "kind") {
	case 0, 1:
		c.Kind = "valid"
		mk(A, R)
	case 17: // with the identity as key any s has its R
		c.Kind = "identity key, s near the order"
		s := nearLE(t, L, "ns")
		c.Pub = ref.EdIdentity().Enc()
		c.Sig = B(cat(ref.EdMulB(mod(s, L)).Enc(), ref.ToLE(s, 32)))
	case 13:
		c.Kind = "other R encoding, s made for it"
		seal(A.Enc(), alter32(t, R.Enc()))
	case 14:
		c.Kind = "other A encoding, s made for it"
		seal(alter32(t, A.Enc()), R.Enc())
	case 15, 16:
		c.Kind = "nearly the equation"
		c.Pub, c.Sig = A.Enc(), B(cat(R.Enc(), nearS(t, R.Enc(), A.Enc(), c.Msg, a, r)))
	case 2: // s + kL
		c.Kind = "s not reduced"
		mk(A, R)
		s := ref.LE(c.Sig[32:])
		for i := 0; i <= pick(t, 15, "kL"); i++ {
			s.Add(s, L)
		}
		if s.BitLen() <= 256 {
			copy(c.Sig[32:], ref.ToLE(s, 32))
		}
	case 3: // torsion
		c.Kind = "torsion"
		mk(ref.EdAdd(A, edTorsion[pick(t, 8, "ta")]), ref.EdAdd(R, edTorsion[pick(t, 8, "tr")]))
	case 4: // small-order key
		c.Kind = "small-order key"
		a = n64(0)
		mk(edTorsion[pick(t, 8, "ta")], ref.EdAdd(R, edTorsion[pick(t, 8, "tr")]))
	case 5: // bit flip anywhere
		c.Kind = "bit flip"
		mk(A, R)
		k := pick(t, 768, "bit")
		if k < 256 {
			c.Pub = flip(c.Pub, k)
		} else {
			c.Sig = flip(c.Sig, k-256)
		}
	case 6: // non-canonical encodings of A (signature valid for the encoding if lenient)
		c.Kind = "non-canonical A"
		a = n64(0)
		y := n64(int64(pick(t, 19, "y")))
		enc := ref.ToLE(add(y, ref.EdP), 32)
		if pick(t, 2, "sgn") == 1 {
			enc[31] |= 0x80
		}
		c.Pub = enc
		rb := R.Enc()
		c.Sig = B(cat(rb, ref.ToLE(r, 32)))
	case 7: // -0: x = 0 with the sign bit
		c.Kind = "negative zero"
		a = n64(0)
		enc := ref.ToLE([]*big.Int{n64(1), sub(ref.EdP, bigOne)}[pick(t, 2, "y")], 32)
		enc[31] |= 0x80
		if pick(t, 2, "where") == 0 {
			c.Pub = enc
			c.Sig = B(cat(R.Enc(), ref.ToLE(r, 32)))
		} else { // R
			c.Pub = A.Enc()
			h := ref.EdHRAM(enc, c.Pub, c.Msg)
			a2 := scalar(t, L, "a")
			c.Pub = ref.EdMulB(a2).Enc()
			c.Sig = B(cat(enc, ref.ToLE(mod(mul(h, a2), L), 32)))
		}
	case 8: // R non-canonical: y = 1+p is the identity
		c.Kind = "non-canonical R"
		enc := ref.ToLE(add(bigOne, ref.EdP), 32)
		c.Pub = A.Enc()
		h := ref.EdHRAM(enc, c.Pub, c.Msg)
		c.Sig = B(cat(enc, ref.ToLE(mod(mul(h, a), L), 32)))
	case 9: // identity R, s = h a
		c.Kind = "identity R"
		r = n64(0)
		mk(A, ref.EdIdentity())
	case 10: // undecodable key
		c.Kind = "not a point"
		mk(A, R)
		for {
			e := B(uniform(t, 32, "np"))
			if _, ok := ref.EdDec(e); !ok {
				c.Pub = e
				break
			}
		}
	case 11:
		c.Kind = "random"
		c.Pub, c.Sig = B(rbytes(t, 32, "p")), B(rbytes(t, 64, "s"))
	case 12:
		c.Kind = "edge s"
		mk(A, R)
		copy(c.Sig[32:], ref.ToLE([]*big.Int{n64(0), n64(1), sub(L, bigOne), L, add(L, bigOne), lsh(252), lsh(253), sub(lsh(256), bigOne)}[pick(t, 8, "es")], 32))
	}
	return c
}

// alterBit is a bit of an encoded Edwards point, mostly the sign bit.
// alter32 draws another encoding: one bit differs, or several bytes do.
func alter32(t *rapid.T, b []byte) []byte {
	if pick(t, 3, "warp") == 0 {
		if w := warp(b, pick(t, 1<<20, "wn")); !eqb(w, b) {
			return w
		}
	}
	return flip(b, alterBit(t))
}

func alterBit(t *rapid.T) int {
	if pick(t, 3, "sb") > 0 {
		return 255
	}
	return pick(t, 256, "ab")
}

// nearS is an s for an equation that differs from s = r + H(R,A,M)a in one way.
func nearS(t *rapid.T, R, A, m []byte, a, r *big.Int) []byte {
	h := ref.EdHRAM(R, A, m)
	ha := mul(h, a)
	var s *big.Int
	switch pick(t, 11, "near") {
	case 0:
		s = sub(r, ha)
	case 1:
		s = sub(ha, r)
	case 2:
		s = sub(n64(0), add(ha, r))
	case 3:
		s = add(a, mul(h, r))
	case 4:
		s = add(r, mul(ref.EdHRAM(A, R, m), a))
	case 5:
		s = add(r, mul(ref.EdHRAM(R, nil, m), a))
	case 6:
		s = add(r, mul(ref.EdHRAM(nil, A, m), a))
	case 7:
		s = add(r, mul(ref.EdHRAM(nil, nil, m), a))
	case 8: // a hash that misses the end of the message, or its beginning
		k := 0
		if len(m) > 0 {
			k = pick(t, len(m), "cut")
		}
		s = add(r, mul(ref.EdHRAM(R, A, m[:k]), a))
		if pick(t, 2, "head") == 0 {
			s = add(r, mul(ref.EdHRAM(R, A, m[k:]), a))
		}
	case 9: // off by one, or by a power of two
		s = add(add(r, ha), lsh(uint(pick(t, 253, "off"))))
	case 10: // the same number, most significant byte first
		return rev(ref.ToLE(mod(add(r, ha), ref.EdL), 32))
	}
	return ref.ToLE(mod(s, ref.EdL), 32)
}

// edCofactored: the RFC's cofactored equation, for encodings that decode.
func edCofactored(pub, msg, sig []byte) bool {
	A, ok1 := ref.EdDec(pub)
	R, ok2 := ref.EdDec(sig[:32])
	s := ref.LE(sig[32:])
	if !ok1 || !ok2 || s.Cmp(ref.EdL) >= 0 {
		return false
	}
	h := ref.EdHRAM(sig[:32], pub, msg)
	D := ref.EdAdd(ref.EdAdd(R, ref.EdMul(h, A)), ref.EdNeg(ref.EdMulB(s)))
	return ref.EdEq(ref.EdMul(n64(8), D), ref.EdIdentity())
}

// ---- X25519 (XEdDSA) crafted

func genXEd(t *rapid.T) edCase {
	c := edCase{Msg: msgAny(t, "m")}
	L := ref.EdL
	a := scalar(t, L, "a")
	r := scalar(t, L, "r")
	A, R := ref.EdMulB(a), ref.EdMulB(r)
	mk := func() {
		c.Pub = ref.ToLE(ref.MontFromEd(A.Y), 32)
		ed := A.Enc()
		s := mod(add(r, mul(ref.EdHRAM(R.Enc(), ed, c.Msg), a)), L)
		c.Sig = B(cat(R.Enc(), ref.ToLE(s, 32)))
		c.Sig[63] |= ed[31] & 0x80
	}
	mk()
	sgn := c.Sig[63] & 0x80
	switch pick(t, 13, "kind") {
	case 0, 1, 2:
		c.Kind = "valid"
	case 7, 8: // 2^253 <= s + kL < 2^255, the same point
		c.Kind = "s not reduced"
		sig := cp(c.Sig)
		sig[63] &= 0x7f
		s := add(ref.LE(sig[32:]), mul(L, n64(int64(1+pick(t, 7, "kL")))))
		if s.BitLen() <= 255 {
			copy(c.Sig[32:], ref.ToLE(s, 32))
			c.Sig[63] |= sgn
		}
	case 9: // another encoding of R with an s made for it
		c.Kind = "other R encoding, s made for it"
		rb := B(alter32(t, R.Enc()))
		c.Sig = B(cat(rb, ref.ToLE(mod(add(r, mul(ref.EdHRAM(rb, A.Enc(), c.Msg), a)), L), 32)))
		c.Sig[63] |= sgn
	case 10: // the sign bit of the other point with the same u
		c.Kind = "other sign bit"
		c.Sig[63] ^= 0x80
		if pick(t, 2, "hashed") == 0 { // the hash made for -A
			c.Sig = B(cat(R.Enc(), ref.ToLE(mod(add(r, mul(ref.EdHRAM(R.Enc(), flip(A.Enc(), 255), c.Msg), a)), L), 32)))
			c.Sig[63] |= sgn ^ 0x80
			if pick(t, 2, "kept") == 0 {
				c.Sig[63] ^= 0x80
			}
		}
	case 11, 12:
		c.Kind = "nearly the equation"
		c.Sig = B(cat(R.Enc(), nearS(t, R.Enc(), A.Enc(), c.Msg, a, r)))
		c.Sig[63] = c.Sig[63]&0x7f | sgn
	case 3:
		c.Kind = "bit flip"
		k := pick(t, 768, "bit")
		if k < 256 {
			c.Pub = flip(c.Pub, k)
		} else {
			c.Sig = flip(c.Sig, k-256)
		}
	case 4:
		c.Kind = "non-canonical key"
		u := ref.LE(c.Pub)
		// only u < 19 has a second encoding below 2^255
		u = n64(int64(pick(t, 19, "u")))
		c.Pub = ref.ToLE(add(u, ref.EdP), 32)
	case 5:
		c.Kind = "key with the top bit"
		c.Pub[31] |= 0x80
	case 6:
		c.Kind = "random"
		c.Pub, c.Sig = B(rbytes(t, 32, "p")), B(rbytes(t, 64, "s"))
	}
	return c
}

// ---- EC-KCDSA crafted

func genKC(t *rapid.T) edCase {
	k := kcPriv(t, "k")
	c := edCase{Msg: msgAny(t, "m")}
	c.Pub, _ = ref.KCDSAKeygen(k)
	c.Sig = ref.KCDSASign(k, c.Msg)
	switch pick(t, 11, "kind") {
	case 9, 10: // h is not the hash the scheme defines, or v not for +|P|
		c.Kind = "nearly the equation"
		_, s := ref.KCDSAKeygen(k)
		y := scalar(t, ref.EdL, "y")
		Y := ref.ToLE(ref.MontFromEd(ref.EdMulB(y).Y), 32)
		mh := sha256.Sum256(c.Msg)
		h := sha256.Sum256(cat(mh[:], Y))
		switch pick(t, 8, "near") {
		case 0:
			h = sha256.Sum256(cat(c.Msg, Y))
		case 1:
			h = sha256.Sum256(cat(Y, mh[:]))
		case 2:
			h = sha256.Sum256(cat(mh[:], ref.EdMulB(y).Enc()))
		case 3:
			h = sha256.Sum256(cat(mh[:], c.Pub, Y))
		case 4:
			h[pick(t, 32, "hb")] ^= 1 << pick(t, 8, "hbit")
		case 5:
			s = sub(ref.EdL, s)
		case 6:
			y = sub(ref.EdL, y) // the same u: a valid signature
		case 7:
			s = bigOne
		}
		v := mod(mul(sub(y, ref.LE(h[:])), s), ref.EdL)
		c.Sig = B(cat(ref.ToLE(v, 32), h[:]))
	case 0, 1, 2:
		c.Kind = "valid"
	case 3, 4:
		c.Kind = "bit flip"
		b := pick(t, 768, "bit")
		if b < 256 {
			c.Pub = flip(c.Pub, b)
		} else {
			c.Sig = flip(c.Sig, b-256)
		}
	case 5:
		c.Kind = "v not reduced"
		v := ref.LE(c.Sig[:32])
		for i := 0; i <= pick(t, 15, "kL"); i++ {
			v.Add(v, ref.EdL)
		}
		if v.BitLen() <= 256 {
			copy(c.Sig[:32], ref.ToLE(v, 32))
		}
	case 6:
		c.Kind = "key not reduced"
		c.Pub = ref.ToLE(add(n64(int64(pick(t, 19, "u"))), ref.EdP), 32)
		if pick(t, 2, "tb") == 0 {
			c.Pub, _ = ref.KCDSAKeygen(k)
			c.Pub[31] |= 0x80
		}
	case 7:
		c.Kind = "random"
		c.Pub, c.Sig = B(rbytes(t, 32, "p")), B(rbytes(t, 64, "s"))
	case 8:
		c.Kind = "edge v"
		copy(c.Sig[:32], ref.ToLE([]*big.Int{n64(0), n64(1), sub(ref.EdL, bigOne), ref.EdL, add(ref.EdL, bigOne), lsh(252), lsh(255), sub(lsh(256), bigOne)}[pick(t, 8, "ev")], 32))
	}
	return c
}

// ---- nonces

type nonceCase struct {
	S     int
	Priv  B
	ID    B
	Msgs  []B
	Key   B // of the random stream
	Pre   B
	Reset bool // every signature sees the same random bytes
	Bit   int  // the bit flipped in each byte of the stream
}

// nonceOf recovers a value that identifies the nonce up to sign, and the
// nonce itself when it can be computed.
func nonceOf(s scheme, priv, id, msg, sig []byte) (string, *big.Int) {
	switch s.typ {
	case ow.ECC_CURVE_SECP256K1, ow.ECC_CURVE_SECP256R1:
		n := order(s.typ)
		r, ss := bi(sig[:32]), bi(sig[32:])
		k := mod(mul(add(bi(msg), mul(r, bi(priv))), new(big.Int).ModInverse(ss, n)), n)
		if m := sub(n, k); m.Cmp(k) < 0 {
			k = m
		}
		return k.Text(16), k
	case ow.ECC_CURVE_SM2_STANDARD:
		n := order(s.typ)
		r, ss := bi(sig[:32]), bi(sig[32:])
		k := mod(add(ss, mul(add(r, ss), bi(priv))), n)
		if m := sub(n, k); m.Cmp(k) < 0 {
			return m.Text(16), k
		}
		return k.Text(16), k
	case ow.ECC_CURVE_ED25519:
		k := mod(sub(ref.LE(sig[32:]), mul(ref.EdHRAM(sig[:32], s.pub(priv), msg), ref.LE(priv))), ref.EdL)
		return k.Text(16), k
	case ow.ECC_CURVE_ED25519_NORMAL:
		return string(sig[:32]), nil
	case ow.ECC_CURVE_X25519:
		a := mod(ref.LE(priv), ref.EdL)
		ed := ref.EdMulB(a).Enc()
		sb := cp(sig)
		sb[63] &= 0x7f
		k := mod(sub(ref.LE(sb[32:]), mul(ref.EdHRAM(sig[:32], ed, msg), a)), ref.EdL)
		return string(sig[:32]), k
	case ow.ECC_CURVE_CURVE25519_SHA256:
		return string(sig[:32]) + string(sig[32:]), nil
	case ow.ECC_CURVE_PASTA:
		m, _ := minaDecode(msg)
		n := ref.FqN
		P := ref.Pallas.MulG(bi(priv))
		e := minaHash(P, m, bi(sig[:32]))
		k := mod(sub(bi(sig[32:]), mul(e, bi(priv))), n)
		if w := sub(n, k); w.Cmp(k) < 0 {
			k = w
		}
		return k.Text(16), k
	}
	return "", nil
}

func minaHash(P ref.Pt, m ref.MinaMsg, r *big.Int) *big.Int {
	in := append([]*big.Int{}, m.Prefix...)
	in = append(in, P.X, P.Y, r)
	in = append(in, m.Suffix...)
	return ref.Poseidon(m.IV, in)
}

func init() {
	F("S01", "sign-verify", "every case: a signature made with random key, message, identity and random stream", 1200, 40000, genSign, checkSign).rows(300, 9000, kinSign)
	F("S01", "random-source", "every case: the random source starts with a structured prefix (zeros, ones, order +-3, small values)", 800, 30000, func(t *rapid.T) signCase {
		c := genSign(t)
		N := order(schemes[c.S].typ)
		if N == nil {
			N = ref.EdL
		}
		c.Pre = rngPre(t, N, "pre")
		return c
	}, checkSign)
	F("S01", "repeat", "every case: the same key and message signed 4 to 24 times in a row", 120, 3000, func(t *rapid.T) signCase {
		c := genSign(t)
		c.Reps = 4
		if schemes[c.S].slow < 60 {
			c.Reps = 24
		}
		return c
	}, checkSign)
	F("S01", "long", "every case: messages of up to 70 kB for the schemes that hash the message, identities up to 8191 bytes", 160, 4000, func(t *rapid.T) signCase {
		c := genSign(t)
		s := schemes[c.S]
		if s.typ == ow.ECC_CURVE_SM2_STANDARD {
			c.ID = B(rbytes(t, 1+pick(t, 8191, "il"), "id"))
		} else if len(c.Msg) != 32 && s.typ != ow.ECC_CURVE_PASTA {
			c.Msg = B(rbytes(t, pick(t, 70000, "ml"), "msg"))
		}
		return c
	}, checkSign)

	type shortCase struct {
		Priv, Msg, Key B
		S              bool // a short s, else a short r
	}
	F("S01", "sm2-short", "cases where an identity was found for which r or s of the SM2 signature has two leading zero bytes (the nonce is fixed by the key, the message and the random stream)", 12, 300, func(t *rapid.T) shortCase {
		c := shortCase{schSM2.priv(t, "d"), B(uniform(t, 32, "m")), B(uniform(t, 16, "key")), pick(t, 2, "s") == 0}
		if !schSM2.signs(c.Priv) {
			c.Priv = b32(n64(3))
		}
		return c
	}, func(c shortCase, x *Ctx) error {
		N, d, P := ref.SM2.N, bi(c.Priv), pub2(c.Priv)
		sign := func(id []byte) ([]byte, uint16) {
			setRand(c.Key, nil)
			sig, _, st := ow.Signature(cp(c.Priv), cp(id), cp(c.Msg), tSM2)
			return sig, st
		}
		e := func(id []byte) *big.Int { return ref.SM2E(P, id, c.Msg) }
		id := make([]byte, 8)
		sig, st := sign(id)
		if st != ow.SUCCESS {
			return errf("Signature status %#x", st)
		}
		r, s := bi(sig[:32]), bi(sig[32:])
		x1 := sub(r, e(id))
		d1 := add(d, bigOne)
		k := add(mul(s, d1), mul(r, d))
		inv := new(big.Int).ModInverse(d1, N)
		top := N.BitLen() - 16
		for i := uint32(0); i < 400000; i++ {
			binary.BigEndian.PutUint32(id[4:], i)
			r := mod(add(e(id), x1), N)
			if !c.S {
				if r.BitLen() > top {
					continue
				}
			} else if s := mod(mul(inv, sub(k, mul(r, d))), N); s.BitLen() > top {
				continue
			}
			sig, st := sign(id)
			if st != ow.SUCCESS {
				return errf("Signature status %#x", st)
			}
			if len(sig) != 64 {
				return errf("signature of %d bytes", len(sig))
			}
			if sig[0] == 0 && sig[1] == 0 || sig[32] == 0 && sig[33] == 0 {
				x.NT()
				x.Label("short")
			}
			if !refVer(cSM2, P.XY(), id, c.Msg, sig) {
				return errf("the standard's equation does not hold for the library's signature %x, identity %x", sig, id)
			}
			if st := ow.Verify(P.XY(), cp(id), cp(c.Msg), cp(sig), tSM2); st != ow.SUCCESS {
				return errf("own signature %x with identity %x does not verify (%#x)", sig, id, st)
			}
			return nil
		}
		return nil
	})

	F("S02", "mutations", "cases where at least one changed tuple (message, key, identity, scheme or signature bits) was judged", 1400, 40000, func(t *rapid.T) mutCase {
		c := mutCase{signCase: genSign(t), Kind: pick(t, nMut, "kind")}
		if c.Kind == 6 {
			c.S = 2
			c.Priv = schSM2.priv(t, "d6")
			if !schSM2.signs(c.Priv) {
				c.Priv = b32(n64(3))
			}
			c.ID = sm2ID(t, "i6")
			c.ID2 = sm2ID(t, "i7")
			c.Msg = msg32(t, "m6")
		}
		s := schemes[c.S]
		nb := 3
		if s.slow < 60 {
			nb = 16
		}
		for i := 0; i < nb; i++ {
			c.Bits = append(c.Bits, pick(t, 1<<20, "bit"))
		}
		if pick(t, 3, "far") == 0 && len(c.Msg) != 32 && s.typ != ow.ECC_CURVE_PASTA {
			c.Msg = B(rbytes(t, pick(t, 20000, "ml"), "msg"))
		}
		c.Priv2 = s.priv(t, "d2")
		c.Msg2 = s.msg(t, "m2")
		return c
	}, checkMut)

	F("S02", "long", "every case: a message of 1 kB to 70 kB with single bits flipped at its ends, at 64-byte and power-of-two boundaries, truncations and extensions", 400, 12000, func(t *rapid.T) mutCase {
		c := mutCase{signCase: signCase{S: []int{3, 4, 5, 6, 7, 8, 3, 4, 5, 6}[pick(t, 10, "s")]}, Kind: pick(t, 2, "k")}
		s := schemes[c.S]
		c.Priv = s.priv(t, "d")
		c.Msg = B(expand(seed(t, "long"), []int{1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 16, 70000}[pick(t, 6, "ln")]+pick(t, 5, "ld")-2))
		n := len(c.Msg)
		nb := 10
		if s.slow >= 60 {
			nb = 3
		}
		for i := 0; i < nb; i++ {
			at := place(t, n, "at")
			c.Bits = append(c.Bits, at*8+pick(t, 8, "b"))
		}
		return c
	}, checkMut)

	F("S02", "identities", "every case: an SM2 signature under an identity of up to 8191 bytes, offered with single bits of the identity flipped at its ends, at powers of two and anywhere, and with bytes taken away or added", 200, 8000, func(t *rapid.T) mutCase {
		c := mutCase{signCase: signCase{S: 2, Priv: schSM2.priv(t, "d"), Msg: msg32(t, "m")}, Kind: 9}
		if !schSM2.signs(c.Priv) {
			c.Priv = b32(n64(3))
		}
		n := 1 + mlen(t, 8190, "n")
		c.ID = B(rbytes(t, n, "id"))
		for i := 0; i < 8; i++ {
			c.Bits = append(c.Bits, place(t, n, "at")*8+pick(t, 8, "b"))
		}
		return c
	}, checkMut)

	F("S02", "mina-elements", "every case: a Mina message with up to 40 prefix and 40 suffix elements, one of them changed in value or number", 60, 2500, func(t *rapid.T) mutCase {
		c := mutCase{signCase: signCase{S: 9, Priv: schPas.priv(t, "d"), Msg: minaMsgN(t, "m", 40)}, Kind: 8}
		for i := 0; i < 6; i++ {
			c.Bits = append(c.Bits, pick(t, 1<<20, "bit"))
		}
		return c
	}, checkMut)

	F("S03", "equation", "every case: a tuple with a valid key judged by the reference equation", 2200, 80000, genVer, func(v verCase, x *Ctx) error {
		c := wei3[v.C]
		x.Label(c.name + " " + v.Kind)
		x.NT()
		want := refVer(c, v.Q, v.ID, v.Msg, v.Sig)
		if want {
			x.Label("accept")
		}
		st := ow.Verify(cp(v.Q), cp(v.ID), cp(v.Msg), cp(v.Sig), c.typ)
		if (st == ow.SUCCESS) != want {
			return errf("%s %s: Verify = %#x, the equation says %v", c.name, v.Kind, st, want)
		}
		if !statusOK(st) {
			return errf("undocumented status %#x", st)
		}
		return nil
	}).rows(450, 15000, func(t *rapid.T, v verCase, l string) verCase {
		switch pick(t, 5, l+"what") {
		case 0:
			v.Sig = kin(t, v.Sig, l)
		case 1:
			if len(v.ID) > 0 {
				v.ID = kin(t, v.ID, l)
				break
			}
			fallthrough
		case 2:
			v.Q = negated(wei3[v.C], v.Q)
		default:
			v.Msg = kin(t, v.Msg, l)
		}
		return v
	})

	F("S04", "canonical", "every case: a fresh signature checked for range, canonical form, low s and recovery parity", 1400, 50000, func(t *rapid.T) signCase {
		c := genSign(t)
		c.S = pick(t, 3, "sc")
		s := schemes[c.S]
		c.Priv, c.Msg, c.ID = s.priv(t, "dd"), msg32(t, "mm"), nil
		if c.S == 2 {
			c.ID = sm2ID(t, "ii")
			if !s.signs(c.Priv) {
				c.Priv = b32(n64(9))
			}
		}
		if pick(t, 4, "pre") == 0 {
			c.Pre = rngPre(t, order(s.typ), "pre")
		}
		return c
	}, func(sc signCase, x *Ctx) error {
		s := schemes[sc.S]
		c := wei3[sc.S]
		x.Label(s.name)
		x.NT()
		if sc.Pre != nil {
			setRand(cat(sc.Priv, sc.Msg), sc.Pre)
		}
		sig, v, st := ow.Signature(cp(sc.Priv), cp(sc.ID), cp(sc.Msg), s.typ)
		if st != ow.SUCCESS || len(sig) != 64 {
			return errf("Signature: %x %#x", sig, st)
		}
		r, ss := bi(sig[:32]), bi(sig[32:])
		Q := c.c.MulG(bi(sc.Priv))
		n := c.c.N
		if r.Sign() == 0 || ss.Sign() == 0 || r.Cmp(n) >= 0 || ss.Cmp(n) >= 0 {
			return errf("r or s out of range: %x", sig)
		}
		var R ref.Pt
		if isSM2(c) {
			R = ref.SM2Point(Q, r, ss)
			if mod(add(R.X, ref.SM2E(Q, sc.ID, sc.Msg)), n).Cmp(r) != 0 {
				return errf("signature %x does not satisfy the equation", sig)
			}
		} else {
			if ss.Cmp(new(big.Int).Rsh(n, 1)) > 0 {
				return errf("high s: %x", sig)
			}
			for _, h := range [][]byte{sig[:32], sig[32:]} {
				if h[0]&0x80 != 0 || h[0] == 0 && h[1]&0x80 == 0 {
					return errf("not canonical: %x", sig)
				}
			}
			R = c.c.ECDSAPoint(Q, sc.Msg, r, ss)
			if mod(R.X, n).Cmp(r) != 0 {
				return errf("signature %x does not satisfy the equation", sig)
			}
		}
		if v > 1 || uint(v) != R.Y.Bit(0) {
			return errf("%s: v = %d, the nonce point has parity %d (sig %x)", s.name, v, R.Y.Bit(0), sig)
		}
		return nil
	}).rows(300, 9000, kinSign)

	F("S05", "own", "every case: a library signature over a 32-byte digest, recovered", 900, 30000, func(t *rapid.T) recCase {
		r := recCase{C: pick(t, 3, "c")}
		r.Priv, r.Msg = b32(wpriv(t, wei3[r.C], "d")), msg32(t, "m")
		if r.C == 2 && !schSM2.signs(r.Priv) {
			r.Priv = b32(n64(7))
		}
		switch pick(t, 8, "mk") {
		case 0:
			r.Msg = make(B, 32)
		case 1:
			r.Msg = b32(wei3[r.C].c.N)
		}
		if pick(t, 4, "pk") == 0 {
			r.Pre = rngPre(t, wei3[r.C].c.N, "pre")
		}
		return r
	}, func(r recCase, x *Ctx) error {
		c := wei3[r.C]
		x.Label(c.name)
		x.NT()
		if r.Pre != nil {
			setRand(cat(r.Priv, r.Msg), r.Pre)
		}
		sig, v, st := ow.Signature(cp(r.Priv), nil, cp(r.Msg), c.typ)
		if st != ow.SUCCESS {
			return errf("Signature: %#x", st)
		}
		got, st := ow.RecoverPubkey(append(cp(sig), v), cp(r.Msg), c.typ)
		want := c.c.MulG(bi(r.Priv)).XY()
		if st != ow.SUCCESS || !eqb(got, want) {
			return errf("%s: RecoverPubkey = %x, %#x; the signer's key is %x", c.name, got, st, want)
		}
		return nil
	}).rows(220, 7000, func(t *rapid.T, r recCase, l string) recCase {
		if pick(t, 3, l+"what") == 0 {
			r.Priv = kinKey(t, schemes[r.C], r.Priv, l)
		} else {
			r.Msg = kin(t, r.Msg, l)
		}
		return r
	})
	F("S05", "any", "every case: a crafted or random recoverable signature; the outcome is a failure or a key under which it verifies", 1800, 60000, genRec, func(r recCase, x *Ctx) error {
		c := wei3[r.C]
		x.Label(c.name + " " + r.Kind)
		x.NT()
		got, st := ow.RecoverPubkey(cp(r.Sig), cp(r.Msg), c.typ)
		if st != ow.SUCCESS {
			return refused(st, got)
		}
		x.Label("recovered")
		if len(r.Sig) != 65 || len(got) != 64 || len(r.Msg) != 32 {
			return errf("%s: success with sig of %d bytes, digest of %d, key of %d", c.name, len(r.Sig), len(r.Msg), len(got))
		}
		if !refVer(c, got, nil, r.Msg, r.Sig[:64]) {
			return errf("%s %s: recovered %x, under which the signature does not verify", c.name, r.Kind, got)
		}
		if st := ow.Verify(got, nil, r.Msg, r.Sig[:64], c.typ); st != ow.SUCCESS {
			return errf("the library does not verify under the recovered key")
		}
		return nil
	}).rows(400, 12000, func(t *rapid.T, r recCase, l string) recCase {
		switch pick(t, 4, l+"what") {
		case 0:
			r.Msg = kin(t, r.Msg, l)
		case 1:
			if len(r.Sig) == 65 {
				r.Sig = cat(r.Sig[:64], []byte{r.Sig[64] ^ 1})
				break
			}
			fallthrough
		case 2:
			r.C = pick(t, 3, l+"c")
		default:
			r.Sig = kin(t, r.Sig, l)
		}
		return r
	})

	F("S06", "rfc8032-sign", "every case: public key and signature compared byte for byte with crypto/ed25519 (NORMAL) or verified by it (raw scalar)", 6000, 250000, func(t *rapid.T) signCase {
		c := signCase{S: 3 + pick(t, 2, "s"), Reps: 1}
		c.Priv = schemes[c.S].priv(t, "d")
		c.Msg = message(t, 3000, "m")
		return c
	}, func(c signCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		pub, st := ow.GenPubkey(cp(c.Priv), s.typ)
		if st != ow.SUCCESS {
			return errf("GenPubkey %#x", st)
		}
		sig, _, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), s.typ)
		if st != ow.SUCCESS {
			return errf("Signature %#x", st)
		}
		if s.typ == ow.ECC_CURVE_ED25519_NORMAL {
			k := ed25519.NewKeyFromSeed(c.Priv)
			if !eqb(pub, k[32:]) {
				return errf("public key %x, RFC 8032: %x", pub, []byte(k[32:]))
			}
			if w := ed25519.Sign(k, c.Msg); !eqb(w, sig) {
				return errf("signature %x, RFC 8032: %x", sig, w)
			}
			return nil
		}
		if !ed25519.Verify(pub, c.Msg, sig) || !ref.EdVerify(pub, c.Msg, sig) {
			return errf("raw-scalar signature %x under %x is refused by an RFC 8032 verifier", sig, pub)
		}
		return nil
	}).rows(1200, 40000, func(t *rapid.T, c signCase, l string) signCase {
		if pick(t, 5, l+"ty") == 0 && legalFor(schemes[7-c.S], c.Priv) {
			c.S = 7 - c.S
			return c
		}
		return kinSign(t, c, l)
	})
	F("S06", "verify", "every case: a crafted triple whose acceptance is not ambiguous between the cofactored and cofactorless RFC 8032 equations", 6000, 250000, genEd, func(c edCase, x *Ctx) error {
		typ := ow.ECC_CURVE_ED25519
		if c.N {
			typ = ow.ECC_CURVE_ED25519_NORMAL
		}
		x.Label(c.Kind)
		want := ref.EdVerify(c.Pub, c.Msg, c.Sig)
		if !want && len(c.Sig) == 64 && edCofactored(c.Pub, c.Msg, c.Sig) {
			x.Label("ambiguous")
			return nil
		}
		x.NT()
		if want {
			x.Label("accept")
		}
		st := ow.Verify(cp(c.Pub), nil, cp(c.Msg), cp(c.Sig), uint32(typ))
		if (st == ow.SUCCESS) != want {
			return errf("%s: Verify = %#x, RFC 8032 says %v", c.Kind, st, want)
		}
		return nil
	}).rows(1200, 40000, kinTriple)

	F("S07", "x25519-sign", "every case: an X25519-key signature accepted by the independent verifier", 4000, 150000, func(t *rapid.T) signCase {
		c := signCase{S: 5, Priv: xPriv(t, "d"), Msg: message(t, 3000, "m")}
		if pick(t, 6, "pk") == 0 {
			c.Pre = rngPre(t, ref.EdL, "pre")
		}
		return c
	}, func(c signCase, x *Ctx) error {
		x.NT()
		if c.Pre != nil {
			setRand(c.Priv, c.Pre)
		}
		pub := xPubRef(c.Priv)
		sig, _, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), ow.ECC_CURVE_X25519)
		if st != ow.SUCCESS || !ref.XEdVerify(pub, c.Msg, sig) {
			return errf("signature %x (%#x) is refused by the independent verifier", sig, st)
		}
		return nil
	}).rows(700, 20000, kinSign)
	F("S07", "x25519-verify", "every case: a crafted XEdDSA triple", 4000, 150000, genXEd, func(c edCase, x *Ctx) error {
		x.Label(c.Kind)
		want := ref.XEdVerify(c.Pub, c.Msg, c.Sig)
		if len(c.Sig) == 64 {
			s := cp(c.Sig[32:])
			s[31] &= 0x7f
			if v := ref.LE(s); v.Cmp(ref.EdL) >= 0 && v.BitLen() <= 253 { // XEdDSA's own range check is |s| <= 253 bits
				x.Label("not judged: L <= s < 2^253")
				return nil
			}
		}
		if u := ref.LE(c.Pub); u.Cmp(sub(ref.EdP, bigOne)) == 0 {
			return nil // u = -1 has no Edwards image
		}
		x.NT()
		st := ow.Verify(cp(c.Pub), nil, cp(c.Msg), cp(c.Sig), ow.ECC_CURVE_X25519)
		if (st == ow.SUCCESS) != want {
			return errf("%s: Verify = %#x, want %v", c.Kind, st, want)
		}
		return nil
	}).rows(700, 20000, kinTriple)
	F("S07", "kcdsa-sign", "every case: public key and signature compared byte for byte with the reference", 2500, 100000, func(t *rapid.T) signCase {
		return signCase{S: 6, Priv: schKC.priv(t, "d"), Msg: message(t, 3000, "m")}
	}, func(c signCase, x *Ctx) error {
		x.NT()
		pub, st := ow.GenPubkey(cp(c.Priv), ow.ECC_CURVE_CURVE25519_SHA256)
		wp, _ := ref.KCDSAKeygen(c.Priv)
		if st != ow.SUCCESS || !eqb(pub, wp) {
			return errf("public key %x, want %x", pub, wp)
		}
		sig, _, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), ow.ECC_CURVE_CURVE25519_SHA256)
		if w := ref.KCDSASign(c.Priv, c.Msg); st != ow.SUCCESS || !eqb(sig, w) {
			return errf("signature %x, want %x", sig, w)
		}
		return nil
	}).rows(500, 15000, kinSign)
	F("S07", "kcdsa-verify", "every case: a crafted EC-KCDSA triple", 2500, 100000, genKC, func(c edCase, x *Ctx) error {
		x.Label(c.Kind)
		x.NT()
		want := ref.KCDSAVerify(c.Pub, c.Msg, c.Sig)
		st := ow.Verify(cp(c.Pub), nil, cp(c.Msg), cp(c.Sig), ow.ECC_CURVE_CURVE25519_SHA256)
		if (st == ow.SUCCESS) != want {
			return errf("%s: Verify = %#x, want %v (pub %x sig %x)", c.Kind, st, want, []byte(c.Pub), []byte(c.Sig))
		}
		if len(c.Sig) < 64 {
			return nil
		}
		if cv := ref.LE(c.Sig[:32]).Cmp(ref.EdL) < 0; eddsa.IsCanonicalSignature(cp(c.Sig)) != cv {
			return errf("IsCanonicalSignature(%x) = %v", []byte(c.Sig[:32]), !cv)
		}
		if ck := ref.LE(c.Pub).Cmp(ref.EdP) < 0; eddsa.IsCanonicalPublicKey(cp(c.Pub)) != ck {
			return errf("IsCanonicalPublicKey(%x) = %v", []byte(c.Pub), !ck)
		}
		return nil
	}).rows(500, 15000, kinTriple)

	genNonce := func(t *rapid.T) nonceCase {
		c := nonceCase{S: []int{0, 1, 2, 2, 3, 4, 4, 5, 5, 6, 9}[pick(t, 11, "s")], Key: B(uniform(t, 16, "key"))}
		s := schemes[c.S]
		c.Priv = s.priv(t, "d")
		if c.S == 2 {
			c.ID = sm2ID(t, "id")
			if !s.signs(c.Priv) {
				c.Priv = b32(n64(9))
			}
		}
		c.Msgs = []B{s.msg(t, "m")}
		return c
	}
	F("S08", "repeated-source", "cases with at least two different messages signed under the same random bytes (schemes that mix the message into the nonce)", 220, 8000, func(t *rapid.T) nonceCase {
		c := genNonce(t)
		if c.S == 9 { // documented: pure random nonce
			c.S = 4
			c.Priv, c.Msgs = schEd.priv(t, "d4"), []B{msgAny(t, "m4")}
		}
		c.Reset = true
		s := schemes[c.S]
		if pick(t, 3, "pre") == 0 {
			c.Pre = rngPre(t, order(s.typ), "pre")
		}
		m0 := c.Msgs[0]
		if len(m0) == 0 {
			m0 = B{1, 2, 3}
			c.Msgs[0] = m0
		}
		c.Msgs = append(c.Msgs, flip(m0, 0), flip(m0, 8*len(m0)-1), flip(m0, pick(t, 8*len(m0), "b1")), flip(m0, pick(t, 8*len(m0), "b2")))
		if s.slow < 60 && s.typ != ow.ECC_CURVE_SM2_STANDARD {
			c.Msgs = append(c.Msgs, append(cp(m0), 0), m0[:len(m0)-1], append(cp(m0), m0...))
		}
		return c
	}, func(c nonceCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		seen := map[string]int{}
		for i, m := range c.Msgs {
			dup := false
			for _, o := range c.Msgs[:i] {
				dup = dup || sameMessage(s, c.ID, m, o)
			}
			if dup {
				continue
			}
			setRand(c.Key, c.Pre)
			sig, _, st := ow.Signature(cp(c.Priv), cp(c.ID), cp(m), s.typ)
			if st != ow.SUCCESS {
				return errf("Signature: %#x", st)
			}
			k, _ := nonceOf(s, c.Priv, c.ID, sm2Digest(s, c, m), sig)
			if j, ok := seen[k]; ok {
				return errf("%s: messages %d and %d share a nonce", s.name, j, i)
			}
			seen[k] = i
		}
		if len(seen) > 1 {
			x.NT()
		}
		return nil
	})
	F("S08", "fresh", "every case: one message signed many times by a randomised scheme; nonces are distinct and every upper bit position takes both values", 45, 1500, func(t *rapid.T) nonceCase {
		c := genNonce(t)
		for c.S == 3 || c.S == 6 {
			c.S = []int{0, 1, 2, 4, 5, 9}[pick(t, 6, "s2")]
			c.Priv, c.Msgs, c.ID = schemes[c.S].priv(t, "d2"), []B{schemes[c.S].msg(t, "m2")}, nil
			if c.S == 2 && !schSM2.signs(c.Priv) {
				c.Priv = b32(n64(9))
			}
		}
		return c
	}, func(c nonceCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		setRand(c.Key, nil)
		seen := map[string]bool{}
		var or, and *big.Int
		const reps = 56
		m := c.Msgs[0]
		for i := 0; i < reps; i++ {
			sig, _, st := ow.Signature(cp(c.Priv), cp(c.ID), cp(m), s.typ)
			if st != ow.SUCCESS {
				return errf("Signature: %#x", st)
			}
			id, k := nonceOf(s, c.Priv, c.ID, sm2Digest(s, c, m), sig)
			if seen[id] {
				return errf("%s: a nonce was used twice for the same message with a healthy random source", s.name)
			}
			seen[id] = true
			if or == nil {
				or, and = new(big.Int).Set(k), new(big.Int).Set(k)
			}
			or.Or(or, k)
			and.And(and, k)
		}
		// bits that a uniform nonce takes both values in; min(k,n-k) and N
		// just below a power of two limit the top
		top := map[uint32]int{ow.ECC_CURVE_SECP256K1: 255, ow.ECC_CURVE_SECP256R1: 255, ow.ECC_CURVE_SM2_STANDARD: 256, ow.ECC_CURVE_ED25519: 252, ow.ECC_CURVE_X25519: 252, ow.ECC_CURVE_PASTA: 253}[s.typ]
		for i := 0; i < top; i++ {
			if or.Bit(i) == and.Bit(i) {
				return errf("%s: bit %d of %d nonces is always %d", s.name, i, reps, or.Bit(i))
			}
		}
		return nil
	})
	F("S08", "entropy", "every case: one message signed by a randomised scheme under 72 random streams that differ in one bit each", 40, 1500, func(t *rapid.T) nonceCase {
		c := genNonce(t)
		for c.S == 3 || c.S == 6 {
			c.S = []int{0, 1, 2, 4, 5, 9}[pick(t, 6, "s2")]
			c.Priv, c.Msgs, c.ID = schemes[c.S].priv(t, "d2"), []B{schemes[c.S].msg(t, "m2")}, nil
			if c.S == 2 && !schSM2.signs(c.Priv) {
				c.Priv = b32(n64(9))
			}
		}
		c.Pre = B(uniform(t, 72, "stream"))
		c.Bit = pick(t, 6, "bit")
		return c
	}, func(c nonceCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		n, err := sensitive(c.Key, c.Pre, c.Bit, func() (string, error) {
			m := c.Msgs[0]
			sig, _, st := ow.Signature(cp(c.Priv), cp(c.ID), cp(m), s.typ)
			if st != ow.SUCCESS {
				return "", errf("Signature: %#x", st)
			}
			id, _ := nonceOf(s, c.Priv, c.ID, sm2Digest(s, c, m), sig)
			return id, nil
		})
		if err == nil && n < 16 {
			err = errf("%s: the nonce depends on %d bytes of the random source only", s.name, n)
		}
		return err
	})
}

// sensitive counts the bytes of the random stream that the outcome depends on.
func sensitive(key, pre []byte, bit int, outcome func() (string, error)) (int, error) {
	setRand(key, pre)
	base, err := outcome()
	if err != nil {
		return 0, err
	}
	n := 0
	for i := range pre {
		setRand(key, flip(pre, 8*i+bit))
		v, err := outcome()
		if err != nil {
			return 0, err
		}
		if v != base {
			n++
		}
	}
	return n, nil
}

// sm2Digest is what nonceOf needs as message.
func sm2Digest(s scheme, c nonceCase, m []byte) []byte { return m }
