package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/elliptic"
	"encoding/json"
	"math/big"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

// scheme describes one curve type of the public API.
type scheme struct {
	name string
	typ  uint32
	priv func(t *rapid.T, l string) B // a legal private key
	pub  func(priv []byte) []byte     // reference public key
	msg  func(t *rapid.T, l string) B // a message signing accepts
	slow int                          // rough cost of one sign+verify+reference in 0.1 ms
}

func wpub(c wcurve) func([]byte) []byte {
	return func(p []byte) []byte { return c.c.MulG(bi(p)).XY() }
}
func wprivB(c wcurve) func(*rapid.T, string) B {
	return func(t *rapid.T, l string) B { return b32(wpriv(t, c, l)) }
}

func msg32(t *rapid.T, l string) B { return B(rbytes(t, 32, l)) }
func msgAny(t *rapid.T, l string) B {
	return message(t, 600, l)
}

func edPriv(t *rapid.T, l string) B {
	switch pick(t, 8, l+"k") {
	case 0, 1: // clamped
		return B(ref.Clamp(uniform(t, 32, l)))
	case 2:
		k := ref.ToLE(scalarEdge(t, ref.EdL, l), 32)
		return B(k)
	case 3: // reduced scalar, as key derivation produces
		return B(ref.ToLE(scalar(t, ref.EdL, l), 32))
	case 4:
		v := pattern(t, 256, l)
		if mod(v, ref.EdL).Sign() == 0 {
			v = n64(1)
		}
		return B(ref.ToLE(v, 32))
	case 5: // top bits set
		b := uniform(t, 32, l)
		b[31] |= 0xe0
		return B(b)
	}
	return B(uniform(t, 32, l))
}

// xPriv: X25519-type keys; the library multiplies by the raw scalar.
func xPriv(t *rapid.T, l string) B { return edPriv(t, l) }

func fr(x *big.Int) []byte { return b32(x) }

func blsPriv(t *rapid.T, l string) B { return B(b32(scalar(t, ref.BLSR, l))) }

func edPubRef(p []byte) []byte { return ref.EdMulB(ref.LE(p)).Enc() }
func xPubRef(p []byte) []byte  { return ref.ToLE(ref.MontFromEd(ref.EdMulB(ref.LE(p)).Y), 32) }

// ---- Mina messages

type minaJSON struct {
	P  [][4]uint64  `json:"transactionPrefix"`
	S  [][4]uint64  `json:"transactionSuffix"`
	IV [3][4]uint64 `json:"spongeIV"`
}

func minaDecode(b []byte) (ref.MinaMsg, bool) {
	var j minaJSON
	if json.Unmarshal(b, &j) != nil {
		return ref.MinaMsg{}, false
	}
	var m ref.MinaMsg
	for _, x := range j.P {
		m.Prefix = append(m.Prefix, ref.FromMont(x, ref.FpP))
	}
	for _, x := range j.S {
		m.Suffix = append(m.Suffix, ref.FromMont(x, ref.FpP))
	}
	for i, x := range j.IV {
		m.IV[i] = ref.FromMont(x, ref.FpP)
	}
	return m, true
}

func fpElem(t *rapid.T, p *big.Int, l string) *big.Int {
	switch pick(t, 6, l+"fk") {
	case 0:
		return n64(int64(pick(t, 4, l+"s")))
	case 1:
		return sub(p, n64(int64(1+pick(t, 4, l+"s"))))
	case 2:
		return mod(pattern(t, p.BitLen(), l), p)
	}
	return mod(bi(uniform(t, 40, l)), p)
}

func minaMsg(t *rapid.T, l string) B {
	if oneIn(t, 8, l+"many") {
		return minaMsgN(t, l, 40)
	}
	return minaMsgN(t, l, 5)
}

func minaMsgN(t *rapid.T, l string, most int) B {
	var j minaJSON
	el := func(l string) [4]uint64 { return ref.ToMont(fpElem(t, ref.FpP, l), ref.FpP) }
	for i, n := 0, pick(t, most+1, l+"np"); i < n; i++ {
		j.P = append(j.P, el(l+"p"))
	}
	for i, n := 0, pick(t, most+1, l+"ns"); i < n; i++ {
		j.S = append(j.S, el(l+"q"))
	}
	switch pick(t, 3, l+"iv") {
	case 0: // zero sponge
	case 1:
		k := pick(t, 2, l+"net")
		for i := range j.IV {
			j.IV[i] = ref.ToMont(ref.MinaIV[k][i], ref.FpP)
		}
	case 2:
		for i := range j.IV {
			j.IV[i] = el(l + "i")
		}
	}
	b, _ := json.Marshal(j)
	if pick(t, 3, l+"ind") == 0 { // other spellings of the same JSON
		var o bytes.Buffer
		json.Indent(&o, b, "", " ")
		b = o.Bytes()
	}
	return B(b)
}

var (
	schK1  = scheme{"secp256k1", ow.ECC_CURVE_SECP256K1, wprivB(cK1), wpub(cK1), msg32, 120}
	schR1  = scheme{"secp256r1", ow.ECC_CURVE_SECP256R1, wprivB(cR1), wpub(cR1), msg32, 120}
	schSM2 = scheme{"sm2", ow.ECC_CURVE_SM2_STANDARD, wprivB(cSM2), wpub(cSM2), msg32, 50}
	schEdN = scheme{"ed25519_normal", ow.ECC_CURVE_ED25519_NORMAL, func(t *rapid.T, l string) B { return B(rbytes(t, 32, l)) },
		func(p []byte) []byte { return ed25519.NewKeyFromSeed(p).Public().(ed25519.PublicKey) }, msgAny, 3}
	schEd  = scheme{"ed25519", ow.ECC_CURVE_ED25519, edPriv, edPubRef, msgAny, 3}
	schX   = scheme{"x25519", ow.ECC_CURVE_X25519, xPriv, xPubRef, msgAny, 5}
	schKC  = scheme{"curve25519_sha256", ow.ECC_CURVE_CURVE25519_SHA256, kcPriv, func(p []byte) []byte { k, _ := ref.KCDSAKeygen(p); return k }, msgAny, 6}
	schBN  = scheme{"bls_nul", ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, blsPriv, func(p []byte) []byte { return ref.G1Comp(ref.G1Mul(ref.BLSG1(), bi(p))) }, msgAny, 100}
	schBA  = scheme{"bls_aug", ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, blsPriv, func(p []byte) []byte { return ref.G1Comp(ref.G1Mul(ref.BLSG1(), bi(p))) }, msgAny, 100}
	schPas = scheme{"pasta", ow.ECC_CURVE_PASTA, wprivB(cPas), wpub(cPas), minaMsg, 100}

	schemes = []scheme{schK1, schR1, schSM2, schEdN, schEd, schX, schKC, schBN, schBA, schPas}
)

func schemeOf(typ uint32) scheme {
	for _, s := range schemes {
		if s.typ == typ {
			return s
		}
	}
	panic("schemeOf")
}

// signs says whether the SM2/other private key may sign.
func (s scheme) signs(priv []byte) bool {
	return s.typ != ow.ECC_CURVE_SM2_STANDARD || bi(priv).Cmp(sub(ref.SM2.N, bigOne)) != 0
}

type keyCase struct {
	S    int
	Priv B
	Msg  B
}

// typWeight draws a scheme index so that slow schemes do not dominate the time.
func schemeIdx(t *rapid.T) int {
	return []int{0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 6, 6, 6, 7, 8, 9, 9}[pick(t, 25, "scheme")]
}

// nearLimit draws 256-bit numbers that share leading bytes with lim or differ
// from it in few bits.
func nearLimit(t *rapid.T, lim *big.Int, l string) *big.Int {
	b := b32(lim)
	switch pick(t, 4, l+"k") {
	case 0:
		v := add(lim, lsh(uint(pick(t, 256, l+"b"))))
		if v.BitLen() <= 256 {
			return v
		}
	case 1:
		if v := sub(lim, lsh(uint(pick(t, 256, l+"b")))); v.Sign() > 0 {
			return v
		}
	case 2: // common prefix
		n := pick(t, 32, l+"n")
		return bi(cat(b[:n], uniform(t, 32-n, l+"u")))
	}
	// one byte changed, the others behind it at an extreme
	i := pick(t, 32, l+"i")
	b[i] += byte(1 + 254*pick(t, 2, l+"d"))
	if pick(t, 2, l+"fill") == 0 {
		f := byte(255 * pick(t, 2, l+"f"))
		for i++; i < 32; i++ {
			b[i] = f
		}
	}
	return bi(b)
}

// illegalKey draws a private key that is no legal key of the scheme.
func illegalKey(t *rapid.T, s scheme) (priv B) {
	n := order(s.typ)
	lim := n
	if s.typ == ow.ECC_CURVE_PASTA {
		lim = lsh(254)
	}
	k := pick(t, 6, "kind")
	if n == nil && k > 2 {
		k = pick(t, 3, "kind2")
	}
	switch k {
	case 0:
		l := []int{0, 1, 16, 31, 33, 34, 48, 63, 64, 65, 96}[pick(t, 11, "len")]
		priv = B(rbytes(t, l, "b"))
		if l == 0 && pick(t, 2, "nil") == 0 {
			priv = nil
		}
		if l == 33 && pick(t, 2, "pad") == 0 { // zero-padded legal key
			priv = append(B{0}, s.priv(t, "d")...)
		}
	case 1: // truncated legal key
		p := s.priv(t, "d")
		priv = p[:pick(t, 32, "cut")]
	case 2: // extended legal key
		if pick(t, 3, "by") == 0 {
			return over(t, s.priv(t, "d"), "ov")
		}
		priv = append(s.priv(t, "d"), rbytes(t, 1+pick(t, 40, "ext"), "extb")...)
	case 3:
		priv = make(B, 32)
	case 4: // at or just above the limit
		priv = b32(add(lim, n64(int64(pick(t, 8, "ab")))))
		if pick(t, 3, "near") > 0 {
			if v := nearLimit(t, lim, "nl"); v.Cmp(lim) > 0 {
				priv = b32(v)
			}
		}
	case 5:
		d := sub(lsh(256), lim)
		v := mod(bi(uniform(t, 40, "u")), d)
		if pick(t, 3, "top") == 0 {
			v = sub(d, n64(int64(1+pick(t, 4, "tp"))))
		}
		priv = b32(add(lim, v))
	}
	return
}

func init() {
	F("K01", "pubkey", "every case: a legal private key, public key compared with the reference", 9000, 250000, func(t *rapid.T) keyCase {
		c := keyCase{S: schemeIdx(t)}
		c.Priv = schemes[c.S].priv(t, "d")
		return c
	}, func(c keyCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		want := s.pub(c.Priv)
		got, st := ow.GenPubkey(cp(c.Priv), s.typ)
		if st != ow.SUCCESS || !eqb(got, want) {
			return errf("GenPubkey(%x, %s) = %x, %#x; want %x", []byte(c.Priv), s.name, got, st, want)
		}
		// independent oracles where the standard library has one
		switch s.typ {
		case ow.ECC_CURVE_SECP256R1:
			px, py := elliptic.P256().ScalarBaseMult(c.Priv)
			if !eqb(want, cat(b32(px), b32(py))) {
				return errf("oracle disagreement (P-256)")
			}
		case ow.ECC_CURVE_X25519:
			if eqb(ref.Clamp(c.Priv), c.Priv) {
				k, err := ecdh.X25519().NewPrivateKey(c.Priv)
				if err != nil || !eqb(k.PublicKey().Bytes(), want) {
					return errf("oracle disagreement (X25519)")
				}
			}
		case ow.ECC_CURVE_CURVE25519_SHA256:
			k, err := ecdh.X25519().NewPrivateKey(c.Priv)
			if err != nil || !eqb(k.PublicKey().Bytes(), want) {
				return errf("oracle disagreement (Curve25519)")
			}
		}
		// base-point multiplication
		bm := ow.Point_mulBaseG(cp(c.Priv), s.typ)
		var wb []byte
		switch s.typ {
		case ow.ECC_CURVE_SECP256K1, ow.ECC_CURVE_SECP256R1, ow.ECC_CURVE_SM2_STANDARD, ow.ECC_CURVE_PASTA:
			wb = cat([]byte{2 + want[63]&1}, want[:32])
		case ow.ECC_CURVE_ED25519, ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL:
			wb = want
		}
		if wb != nil && !eqb(bm, wb) {
			return errf("Point_mulBaseG(%x, %s) = %x, want %x", []byte(c.Priv), s.name, bm, wb)
		}
		return nil
	}).rows(1600, 40000, func(t *rapid.T, c keyCase, l string) keyCase {
		if pick(t, 4, l+"what") == 0 { // the same key for another scheme
			if n := pick(t, len(schemes), l+"s"); legalFor(schemes[n], c.Priv) {
				c.S = n
				return c
			}
		}
		c.Priv = kinKey(t, schemes[c.S], c.Priv, l)
		return c
	})

	F("K02", "legal", "every case: a legal key used for key generation, signing and (SM2) decryption", 2400, 60000, func(t *rapid.T) keyCase {
		c := keyCase{S: schemeIdx(t)}
		s := schemes[c.S]
		c.Msg = s.msg(t, "m")
		if n := order(s.typ); n != nil && pick(t, 2, "edge") == 0 {
			top := sub(n, bigOne)
			if s.typ == ow.ECC_CURVE_PASTA {
				top = sub(lsh(254), bigOne)
			}
			d := n64(int64(pick(t, 12, "ed")))
			if pick(t, 2, "lohi") == 0 {
				c.Priv = b32(add(bigOne, d))
			} else {
				c.Priv = b32(sub(top, d))
			}
			if pick(t, 3, "near") > 0 {
				if v := nearLimit(t, add(top, bigOne), "nl"); v.Sign() > 0 && v.Cmp(top) <= 0 {
					c.Priv = b32(v)
				}
			}
		} else {
			c.Priv = s.priv(t, "d")
		}
		return c
	}, func(c keyCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		pub, st := ow.GenPubkey(c.Priv, s.typ)
		if st != ow.SUCCESS || !eqb(pub, s.pub(c.Priv)) {
			return errf("GenPubkey(%x, %s) = %x, %#x", []byte(c.Priv), s.name, pub, st)
		}
		sig, _, st := ow.Signature(c.Priv, nil, c.Msg, s.typ)
		if !s.signs(c.Priv) {
			x.Label("sm2 N-1")
			if err := refused(st, sig); err != nil {
				return errf("SM2 signing with d=N-1: %v", err)
			}
		} else {
			if st != ow.SUCCESS {
				return errf("Signature(%x, %s) refused a legal key: %#x", []byte(c.Priv), s.name, st)
			}
			if st := ow.Verify(pub, nil, c.Msg, sig, s.typ); st != ow.SUCCESS {
				return errf("signature by %x (%s) does not verify: %#x", []byte(c.Priv), s.name, st)
			}
		}
		if s.typ == ow.ECC_CURVE_SM2_STANDARD {
			p, _ := ref.SM2.ParseXY(pub)
			ct, _ := ref.SM2Encrypt(p, n64(12345), c.Msg)
			pt, st := ow.Decryption(c.Priv, ct, s.typ)
			if st != ow.SUCCESS || !eqb(pt, c.Msg) {
				return errf("Decryption with legal key %x: %x, %#x", []byte(c.Priv), pt, st)
			}
		}
		return nil
	})

	F("K02", "illegal", "every case: an illegal key of a wrong length, zero, or not below the order", 12000, 300000, func(t *rapid.T) keyCase {
		c := keyCase{S: pick(t, len(schemes), "s")}
		s := schemes[c.S]
		c.Msg = s.msg(t, "m")
		c.Priv = illegalKey(t, s)
		return c
	}, func(c keyCase, x *Ctx) error {
		s := schemes[c.S]
		x.Label(s.name)
		x.NT()
		pub, st := ow.GenPubkey(cp(c.Priv), s.typ)
		if err := refused(st, pub); err != nil {
			return errf("GenPubkey(%x, %s): %v", []byte(c.Priv), s.name, err)
		}
		sig, v, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), s.typ)
		if err := refused(st, sig); err != nil || v != 0 {
			return errf("Signature(%x, %s): %v (v=%d)", []byte(c.Priv), s.name, err, v)
		}
		if b := ow.Point_mulBaseG(cp(c.Priv), s.typ); b != nil {
			return errf("Point_mulBaseG(%x, %s) = %x", []byte(c.Priv), s.name, b)
		}
		if s.typ == ow.ECC_CURVE_SM2_STANDARD {
			p := ref.SM2.MulG(n64(77))
			ct, _ := ref.SM2Encrypt(p, n64(12345), []byte("some plaintext"))
			if d := mod(bi(c.Priv), ref.SM2.N); len(c.Priv) == 32 && d.Sign() != 0 {
				// a ciphertext that the reduced key would open
				ct, _ = ref.SM2Encrypt(ref.SM2.MulG(d), n64(12345), []byte("some plaintext"))
			}
			pt, st := ow.Decryption(cp(c.Priv), ct, s.typ)
			if err := refused(st, pt); err != nil {
				return errf("Decryption(%x): %v", []byte(c.Priv), err)
			}
		}
		return nil
	})
}

// order is the group order for schemes with a [1,N-1] key range, else nil.
func order(typ uint32) *big.Int {
	switch typ {
	case ow.ECC_CURVE_SECP256K1:
		return ref.K1.N
	case ow.ECC_CURVE_SECP256R1:
		return ref.R1.N
	case ow.ECC_CURVE_SM2_STANDARD:
		return ref.SM2.N
	case ow.ECC_CURVE_PASTA:
		return ref.Pallas.N
	case ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL:
		return ref.BLSR
	}
	return nil
}

// kcPriv: keys of CURVE25519_SHA256 are clamped by the library, so that any 32
// bytes will do. Some of the clamped values are congruent to a small number
// modulo the group order: the public key is a small multiple of the base point.
func kcPriv(t *rapid.T, l string) B {
	if !oneIn(t, 4, l+"near") {
		return B(rbytes(t, 32, l))
	}
	m := int64(4 + pick(t, 4, l+"m"))
	j := (8 - 5*m%8) % 8 // the order is 5 modulo 8
	if j == 0 {
		j = 8
	}
	j += 8 * int64(pick(t, 4, l+"j")-2)
	return B(ref.ToLE(add(mul(ref.EdL, n64(m)), n64(j)), 32))
}
