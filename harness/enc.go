package main

import (
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

const tSM2 = ow.ECC_CURVE_SM2_STANDARD

type encCase struct {
	Priv  B
	Plain B
	Pre   B // start of the random stream, or nil
	K     B // ephemeral key of the reference encryptor
	Priv2 B
	Kind  string
	CT    B
	Bits  []int
}

// plaintext: short ones (where an all-zero KDF output is likely) and lengths
// around the 32-byte KDF blocks.
func plaintext(t *rapid.T, max int, l string) B {
	switch pick(t, 6, l+"k") {
	case 0, 1:
		return B(rbytes(t, 1+pick(t, 2, l+"n"), l))
	case 2:
		n := 32*(1+pick(t, 12, l+"b")) + pick(t, 3, l+"d") - 1
		return B(rbytes(t, n, l))
	case 3:
		return B(rbytes(t, 1+pick(t, max, l+"n"), l))
	}
	return B(rbytes(t, 1+pick(t, 200, l+"n"), l))
}

func sm2key(t *rapid.T, l string) B { return b32(wpriv(t, cSM2, l)) }

// sm2Seal builds 04||C1||C3||C2 for any claimed C1 and shared point.
func sm2Seal(c1 []byte, s ref.Pt, m []byte) B {
	t := ref.SM2KDF(s.XY(), len(m))
	h := cat(ref.B32(s.X), m, ref.B32(s.Y))
	out := cat([]byte{4}, c1, ref.SM3(h))
	for i := range m {
		out = append(out, m[i]^t[i])
	}
	return out
}

func zeroes(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func genCT(t *rapid.T) encCase {
	c := encCase{Priv: sm2key(t, "d"), K: b32(wpriv(t, cSM2, "k")), Plain: plaintext(t, 600, "m")}
	steer(t, &c)
	d, k := bi(c.Priv), bi(c.K)
	P := ref.SM2.MulG(d)
	C1 := ref.SM2.MulG(k)
	S := ref.SM2.Mul(k, P)
	base := sm2Seal(C1.XY(), S, c.Plain)
	c.CT = base
	switch pick(t, 14, "kind") {
	case 0:
		c.Kind = "valid"
	case 1:
		c.Kind = "bits"
		for i := 0; i < 24; i++ {
			if i < 8 {
				c.Bits = append(c.Bits, pick(t, 8*97, "hb"))
			} else {
				c.Bits = append(c.Bits, pick(t, 8*len(base), "b"))
			}
		}
	case 13:
		c.Kind = "warped"
		for i := 0; i < 16; i++ {
			c.Bits = append(c.Bits, pick(t, 1<<20, "w"))
		}
	case 2:
		c.Kind = "length"
		switch pick(t, 4, "lk") {
		case 0:
			c.CT = base[:pick(t, len(base), "cut")]
		case 1:
			c.CT = append(cp(base), rbytes(t, 1+pick(t, 70, "ext"), "eb")...)
			if pick(t, 3, "by") == 0 {
				c.CT = over(t, base, "ov")
			}
		case 2:
			c.CT = base[1:]
		case 3:
			c.CT = append(B{4}, base...)
		}
	case 3:
		c.Kind = "splice"
		k2 := wpriv(t, cSM2, "k2")
		m2 := rbytes(t, len(c.Plain), "m2")
		o := sm2Seal(ref.SM2.MulG(k2).XY(), ref.SM2.Mul(k2, P), m2)
		switch pick(t, 4, "sk") {
		case 0: // C2 of the other
			c.CT = cat(base[:97], o[97:])
		case 1: // C3 of the other
			c.CT = cat(base[:65], o[65:97], base[97:])
		case 2: // C1 of the other
			c.CT = cat([]byte{4}, o[1:65], base[65:])
		case 3: // C1||C2||C3 order
			c.CT = cat(base[:65], base[97:], base[65:97])
		}
	case 4: // C1 not on the curve, everything else consistent with d*C1
		c.Kind = "off-curve C1"
		xy := offCurve(t, cSM2, "oc")
		Q := ref.Pt{X: mod(bi(xy[:32]), ref.SM2.P), Y: mod(bi(xy[32:]), ref.SM2.P)}
		S := ref.SM2.Mul(d, Q)
		if S.Inf {
			S = ref.Pt{X: new(big.Int), Y: new(big.Int)}
		}
		c.CT = sm2Seal(xy, S, c.Plain)
	case 5:
		c.Kind = "prefix"
		c.CT = cp(base)
		if pick(t, 2, "pk") == 0 {
			c.CT[0] = []byte{0, 1, 2, 3, 5, 6, 7, 0x84, 0xff}[pick(t, 9, "pb")]
		} else {
			c.CT[0] = byte(pick(t, 256, "pb"))
		}
	case 6:
		c.Kind = "wrong key"
		switch pick(t, 4, "wk") {
		case 0:
			c.Priv2 = b32(sub(ref.SM2.N, d))
		case 1:
			c.Priv2 = b32(add(mod(d, sub(ref.SM2.N, bigOne)), bigOne))
		case 2:
			c.Priv2 = sm2key(t, "d2")
		case 3:
			c.Priv2 = c.K
		}
	case 7:
		c.Kind = "random"
		c.CT = B(rbytes(t, pick(t, 300, "rl"), "rb"))
		if len(c.CT) > 0 {
			c.CT[0] = 4
		}
	case 8: // an all-zero KDF output: the only way C2 = plaintext
		c.Kind = "zero KDF"
		for R, S := C1, S; ; R, S = ref.SM2.Add(R, ref.SM2.G), ref.SM2.Add(S, P) {
			if !R.Inf && !S.Inf && ref.SM2KDF(S.XY(), 1)[0] == 0 {
				c.CT = sm2Seal(R.XY(), S, c.Plain[:1])
				break
			}
		}
	case 9:
		c.Kind = "no C2"
		c.CT = sm2Seal(C1.XY(), S, nil)
	case 10:
		c.Kind = "infinity C1"
		c.CT = sm2Seal(make([]byte, 64), ref.Pt{X: new(big.Int), Y: new(big.Int)}, c.Plain)
	case 11: // C1 and shared point swapped, or C3 over other orders
		c.Kind = "other hash"
		c.CT = cp(base)
		switch pick(t, 3, "oh") {
		case 0: // hash of y||m||x
			copy(c.CT[65:], ref.SM3(cat(ref.B32(S.Y), c.Plain, ref.B32(S.X))))
		case 1: // hash of the plaintext alone
			copy(c.CT[65:], ref.SM3(c.Plain))
		case 2: // a hash that agrees on a prefix only
			i := 1 + pick(t, 31, "pfx")
			copy(c.CT[65+i:], uniform(t, 32-i, "tail"))
		}
	case 12: // negated C1: same x
		c.Kind = "negated C1"
		c.CT = cp(base)
		copy(c.CT[33:], b32(sub(ref.SM2.P, C1.Y)))
	}
	return c
}

// steer makes the shared point d*k*G one with leading zero bytes in a coordinate.
func steer(t *rapid.T, c *encCase) {
	if len(c.K) == 0 || !oneIn(t, 6, "steer") {
		return
	}
	v := shortPoint(t, cSM2, "shared")
	c.Priv = b32(mod(mul(v, new(big.Int).ModInverse(bi(c.K), ref.SM2.N)), ref.SM2.N))
	if bi(c.Priv).Sign() == 0 || bi(c.Priv).Cmp(sub(ref.SM2.N, bigOne)) == 0 {
		c.Priv = b32(n64(7))
	}
}

func init() {
	F("E01", "library-encrypts", "every case: a library ciphertext checked for format and opened by the reference and the library", 3000, 150000, func(t *rapid.T) encCase {
		c := encCase{Priv: sm2key(t, "d"), Plain: plaintext(t, 9000, "m")}
		if pick(t, 3, "pre") == 0 {
			c.Pre = rngPre(t, ref.SM2.N, "pre")
		} else if pick(t, 6, "fixk") == 0 { // an ephemeral key the library makes of its first 40 random bytes
			c.K = b32(wpriv(t, cSM2, "k"))
			steer(t, &c)
			c.Pre = B(sub(bi(c.K), bigOne).FillBytes(make([]byte, 40)))
		}
		return c
	}, func(c encCase, x *Ctx) error {
		P := ref.SM2.MulG(bi(c.Priv))
		if c.Pre != nil {
			x.Label("structured random source")
			setRand(cat(c.Priv, c.Pre), c.Pre)
		}
		x.NT()
		if len(c.Plain) <= 2 {
			x.Label("1 or 2 bytes")
		}
		ct, st := ow.Encryption(P.XY(), cp(c.Plain), tSM2)
		if st != ow.SUCCESS {
			return errf("Encryption status %#x", st)
		}
		if len(ct) != 97+len(c.Plain) || ct[0] != 4 {
			return errf("ciphertext %x is not 04||C1||C3||C2 of %d bytes", ct, 97+len(c.Plain))
		}
		pt, ok := ref.SM2Decrypt(bi(c.Priv), ct)
		if !ok || !eqb(pt, c.Plain) {
			return errf("the reference does not decrypt %x to %x (%v, %x)", ct, []byte(c.Plain), ok, pt)
		}
		pt, st = ow.Decryption(cp(c.Priv), cp(ct), tSM2)
		if st != ow.SUCCESS || !eqb(pt, c.Plain) {
			return errf("Decryption of the library's own ciphertext %x: %x, %#x", ct, pt, st)
		}
		return nil
	}).rows(600, 20000, func(t *rapid.T, c encCase, l string) encCase {
		if pick(t, 3, l+"what") == 0 {
			c.Priv = kinKey(t, schSM2, c.Priv, l)
		} else {
			c.Plain = kin(t, c.Plain, l)
		}
		return c
	})

	F("E01", "reference-encrypts", "every case: a ciphertext of the reference encryptor opened by the library", 3000, 150000, func(t *rapid.T) encCase {
		c := encCase{Priv: sm2key(t, "d"), K: b32(wpriv(t, cSM2, "k")), Plain: plaintext(t, 9000, "m")}
		steer(t, &c)
		return c
	}, func(c encCase, x *Ctx) error {
		ct, ok := ref.SM2Encrypt(ref.SM2.MulG(bi(c.Priv)), bi(c.K), c.Plain)
		if !ok {
			x.Label("unusable k")
			return nil
		}
		x.NT()
		pt, st := ow.Decryption(cp(c.Priv), cp(ct), tSM2)
		if st != ow.SUCCESS || !eqb(pt, c.Plain) {
			return errf("Decryption of %x: %x, %#x; want %x", ct, pt, st, []byte(c.Plain))
		}
		return nil
	}).rows(600, 20000, func(t *rapid.T, c encCase, l string) encCase {
		switch pick(t, 4, l+"what") {
		case 0:
			c.Priv = kinKey(t, schSM2, c.Priv, l)
		case 1:
			c.K = kinKey(t, schSM2, c.K, l)
		default:
			c.Plain = kin(t, c.Plain, l)
		}
		return c
	})

	F("E01", "long", "every case: plaintexts of up to 2 MB through both directions", 60, 1500, func(t *rapid.T) encCase {
		n := 1 + pick(t, 300000, "n")
		switch pick(t, 4, "edge") {
		case 0, 1:
			n = []int{8191, 8192, 8193, 65535, 65536, 65537, 131072, 255 * 32, 256 * 32, 256*32 + 1, 65536 * 2}[pick(t, 11, "e")]
		case 2: // 65536 blocks of the key stream
			if oneIn(t, 3, "two") {
				n = 65535*32 + pick(t, 100, "b")
			}
		}
		return encCase{Priv: sm2key(t, "d"), K: b32(wpriv(t, cSM2, "k")), Bits: []int{n}}
	}, func(c encCase, x *Ctx) error {
		x.NT()
		m := expand(uint64(c.Bits[0]), c.Bits[0])
		P := ref.SM2.MulG(bi(c.Priv))
		ct, st := ow.Encryption(P.XY(), m, tSM2)
		if st != ow.SUCCESS {
			return errf("Encryption of %d bytes: %#x", len(m), st)
		}
		if pt, ok := ref.SM2Decrypt(bi(c.Priv), ct); !ok || !eqb(pt, m) {
			return errf("the reference does not decrypt a ciphertext of %d bytes", len(m))
		}
		ct, ok := ref.SM2Encrypt(P, bi(c.K), m)
		if !ok {
			return nil
		}
		if pt, st := ow.Decryption(cp(c.Priv), ct, tSM2); st != ow.SUCCESS || !eqb(pt, m) {
			return errf("Decryption of %d bytes: %#x", len(m), st)
		}
		return nil
	})

	F("E01", "refusals", "every case: an empty plaintext, an illegal public key or an unsupported type", 3000, 100000, func(t *rapid.T) encCase {
		c := encCase{Plain: plaintext(t, 100, "m")}
		switch pick(t, 4, "k") {
		case 0:
			c.Kind = "empty"
			c.CT = ref.SM2.MulG(wpriv(t, cSM2, "d")).XY()
			c.Plain = B{}
			if pick(t, 2, "nil") == 0 {
				c.Plain = nil
			}
		case 1:
			c.Kind = "key"
			c.CT = offCurve(t, cSM2, "oc")
		case 2:
			c.Kind = "key"
			n := pick(t, 140, "len")
			if n == 64 {
				n = 0
			}
			c.CT = B(rbytes(t, n, "kb"))
			if n > 0 && pick(t, 6, "by") == 0 {
				c.CT = over(t, ref.SM2.MulG(wpriv(t, cSM2, "d")).XY(), "ov")
			}
			if n == 0 && pick(t, 2, "nil") == 0 {
				c.CT = nil
			}
		case 3:
			c.Kind = "type"
			c.CT = ref.SM2.MulG(wpriv(t, cSM2, "d")).XY()
			c.Priv = sm2key(t, "d2")
			c.Bits = []int{pick(t, len(schemes)+3, "ty")}
		}
		return c
	}, func(c encCase, x *Ctx) error {
		x.Label(c.Kind)
		x.NT()
		typ, want := uint32(tSM2), uint16(ow.MESSAGE_ILLEGAL)
		switch c.Kind {
		case "key":
			want = ow.ECC_PUBKEY_ILLEGAL
		case "type":
			want = ow.ECC_WRONG_TYPE
			if i := c.Bits[0]; i < len(schemes) {
				typ = schemes[i].typ
			} else {
				typ = []uint32{0, 1, 0xffffffff}[i-len(schemes)]
			}
			if typ == tSM2 {
				return nil
			}
			pt, st := ow.Decryption(cp(c.Priv), sm2Seal(ref.SM2.G.XY(), ref.SM2.MulG(bi(c.Priv)), c.Plain), typ)
			if err := refused(st, pt); err != nil || st != want {
				return errf("Decryption with type %#x: %v, %#x", typ, err, st)
			}
		}
		ct, st := ow.Encryption(cp(c.CT), cp(c.Plain), typ)
		if err := refused(st, ct); err != nil {
			return errf("Encryption (%s): %v", c.Kind, err)
		}
		if st != want {
			return errf("Encryption (%s): status %#x, documented %#x", c.Kind, st, want)
		}
		return nil
	})

	F("E02", "altered", "cases whose ciphertext is altered, malformed or crafted (everything but the valid ones)", 6000, 250000, genCT, func(c encCase, x *Ctx) error {
		x.Label(c.Kind)
		d := c.Priv
		if c.Priv2 != nil {
			d = c.Priv2
		}
		if c.Kind == "bits" {
			x.NT()
			for _, b := range c.Bits {
				pt, st := ow.Decryption(cp(d), flip(c.CT, b), tSM2)
				if err := refused(st, pt); err != nil {
					return errf("bit %d of %x flipped: %v", b, []byte(c.CT), err)
				}
			}
			return nil
		}
		if c.Kind == "warped" { // the integrity value, the point, the text
			x.NT()
			for i, n := range c.Bits {
				a, b := 65, 97
				switch i % 4 {
				case 0:
					a, b = 97, len(c.CT)
				case 1:
					a, b = 1, 65
				}
				g := cat(c.CT[:a], warp(c.CT[a:b], n), c.CT[b:])
				if eqb(g, c.CT) {
					continue
				}
				pt, st := ow.Decryption(cp(d), cp(g), tSM2)
				if err := refused(st, pt); err != nil {
					return errf("%x changed to %x: %v", []byte(c.CT), g, err)
				}
			}
			return nil
		}
		want, ok := ref.SM2Decrypt(bi(d), c.CT)
		pt, st := ow.Decryption(cp(d), cp(c.CT), tSM2)
		if ok {
			x.Label("valid ciphertext")
			if st != ow.SUCCESS || !eqb(pt, want) {
				return errf("valid ciphertext %x: %x, %#x", []byte(c.CT), pt, st)
			}
			return nil
		}
		x.NT()
		if err := refused(st, pt); err != nil {
			return errf("%s: Decryption(%x, %x): %v", c.Kind, []byte(d), []byte(c.CT), err)
		}
		return nil
	}).rows(800, 30000, func(t *rapid.T, c encCase, l string) encCase {
		if c.Kind == "bits" || c.Kind == "warped" { // the untouched ciphertext
			c.Kind, c.Bits = "valid", nil
			return c
		}
		if pick(t, 5, l+"what") == 0 && c.Priv2 == nil {
			c.Priv = kinKey(t, schSM2, c.Priv, l)
		} else {
			c.CT = kinLen(t, c.CT, l)
		}
		return c
	})

	F("E02", "long", "every case: a ciphertext of up to 100 kB altered in eight places or cut, one after the other", 120, 5000, func(t *rapid.T) encCase {
		c := encCase{Priv: sm2key(t, "d"), K: b32(wpriv(t, cSM2, "k"))}
		n := 1 + pick(t, 100000, "n")
		if pick(t, 2, "edge") == 0 {
			n = []int{255 * 32, 256 * 32, 256*32 + 1, 65535, 65536, 65537, 98304}[pick(t, 7, "e")]
		}
		c.Bits = []int{n}
		for i := 0; i < 8; i++ {
			c.Bits = append(c.Bits, rapid.IntRange(0, 1<<30).Draw(t, "at"))
		}
		return c
	}, func(c encCase, x *Ctx) error {
		x.NT()
		m := expand(uint64(c.Bits[0]), c.Bits[0])
		ct, ok := ref.SM2Encrypt(ref.SM2.MulG(bi(c.Priv)), bi(c.K), m)
		if !ok {
			return nil
		}
		if pt, st := ow.Decryption(cp(c.Priv), cp(ct), tSM2); st != ow.SUCCESS || !eqb(pt, m) {
			return errf("Decryption of %d bytes: %#x", len(m), st)
		}
		for i, n := range c.Bits[1:] {
			var g []byte
			switch i % 4 {
			case 0:
				g = flip(ct, 8*97+n%(8*len(m)))
			case 1:
				g = cat(ct[:97], warp(ct[97:], n))
			case 2: // the last bytes
				g = flip(ct, 8*len(ct)-1-n%(8*min(len(m), 40)))
			case 3:
				g = ct[:97+n%len(m)]
			}
			if eqb(g, ct) {
				continue
			}
			pt, st := ow.Decryption(cp(c.Priv), cp(g), tSM2)
			if err := refused(st, pt); err != nil {
				return errf("a ciphertext of %d bytes altered (%d, %d): %v", len(ct), i%4, n, err)
			}
		}
		return nil
	})

	F("E02", "every-position", "every case: one ciphertext with each of its bytes changed in turn and cut at each length", 32, 2000, func(t *rapid.T) encCase {
		c := encCase{Priv: sm2key(t, "d"), K: b32(wpriv(t, cSM2, "k")), Plain: B(rbytes(t, 1+pick(t, 70, "n"), "m")), Bits: []int{1 + pick(t, 255, "x")}}
		return c
	}, func(c encCase, x *Ctx) error {
		x.NT()
		k := bi(c.K)
		ct := sm2Seal(ref.SM2.MulG(k).XY(), ref.SM2.Mul(k, ref.SM2.MulG(bi(c.Priv))), c.Plain)
		for i := range ct {
			m := cp(ct)
			m[i] ^= byte(c.Bits[0])
			pt, st := ow.Decryption(cp(c.Priv), m, tSM2)
			if err := refused(st, pt); err != nil {
				return errf("byte %d changed: %v", i, err)
			}
			pt, st = ow.Decryption(cp(c.Priv), ct[:i:i], tSM2)
			if err := refused(st, pt); err != nil {
				return errf("cut to %d bytes: %v", i, err)
			}
		}
		return nil
	})
}
