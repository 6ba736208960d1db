OW = ''
EDD = 'github.com/blocktree/go-owcrypt/eddsa'
BLK = 'github.com/blocktree/go-owcrypt/blake256'
PAS = 'github.com/blocktree/go-owcrypt/pasta'
BK = 'github.com/blocktree/go-owcrypt/bls12_381'
K1 = 'bls12_381'

seed('h03-blake224-55', 'H03', 'a BLAKE-224 message whose last block holds exactly 55 bytes',
 'the one-byte padding of BLAKE-224 carries the final bit of BLAKE-256',
 [('blake256/blake256.go', '		if d.hashSize == 224 {\n			d.Write([]byte{0x80})\n', '		if d.hashSize == 224 {\n			d.Write([]byte{0x81})\n')],
'''
	m := bytes.Repeat([]byte{7}, 119)
	h := blake256.New224()
	h.Write(m)
	if hex.EncodeToString(h.Sum(nil)) != "WANT" { t.Fatal(hex.EncodeToString(h.Sum(nil))) }
'''.replace('WANT', '9dcd29c2564c08ea7ade095633479c4ec51532d818e4b9fed8a193f5'), ['bytes', 'encoding/hex', BLK])

seed('a03-zero', 'A03', 'a signing step whose v has a zero last byte',
 'failure is reported when only the last byte of v is zero',
 [('eddsa/curve25519_sha256.go', '		w |= int(tmp1[i])\n', '		w = int(tmp1[i])\n')],
'''
	v, h, x, s := make([]byte, 32), make([]byte, 32), make([]byte, 32), make([]byte, 32)
	x[0], s[0] = 5, 1
	if !eddsa.Sign(v, h, x, s) || v[0] != 5 { t.Fatal("Sign fails") }
''', [EDD])

seed('a03-overflow', 'A03', 'a result of 2^255-1 with some bits of the ninth limb cleared',
 'the test for values not below the prime leaves a limb out',
 [('eddsa/curve25519_sha256.go', '((x[2] & x[4] & x[6] & x[8]) == p26)', '((x[2] & x[4] & x[6]) == p26)')],
'''
	k, _ := hex.DecodeString("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e5f")
	u, _ := hex.DecodeString("08fd9e3ab0721696accffeee0eb0c0984ee42ad2d6c8dd63336771906422916d")
	z := make([]byte, 32)
	eddsa.Curve(z, k, u)
	if hex.EncodeToString(z) != "ffffffffffffffffffffffffffffffffffffffffffffffffff8fbc37caffff7f" { t.Fatalf("%x", z) }
''', ['encoding/hex', EDD])

seed('a03-twist', 'A03', 'a peer coordinate on the twist of the curve',
 'the agreement refuses coordinates without a point on the curve',
 [('eddsa/curve25519_sha256.go', 'func Curve(Z, k, P []byte) {\n	core(Z, nil, k, P)\n', '''func Curve(Z, k, P []byte) {
	var x, y2, y, d long10
	unpack(&x, P)
	xToY2(&d, &y2, &x)
	sqrt(&y, &y2)
	sqr(&d, &y)
	sub(&d, &d, &y2)
	mulSmall(&d, &d, 1)
	t := make([]byte, 32)
	pack(&d, t)
	for i := range t {
		if t[i] != 0 {
			copy(Z, make([]byte, 32))
			return
		}
	}
	core(Z, nil, k, P)
''')],
'''
	k, u, z := make([]byte, 32), make([]byte, 32), make([]byte, 32)
	k[31], k[0], u[0] = 0x40, 8, 2
	eddsa.Curve(z, k, u)
	a, _ := ecdh.X25519().NewPrivateKey(k)
	p, _ := ecdh.X25519().NewPublicKey(u)
	w, _ := a.ECDH(p)
	if string(w) != string(z) { t.Fatalf("%x", z) }
''', ['crypto/ecdh', EDD])

seed('m02-fq-opp', 'M02', 'negating a scalar whose third limb is zero and the lower ones are not',
 'a carry of the correction is dropped',
 [('pasta/pasta_fq.go', '''	FiatPastaFqSubBorrowXU64(&x7, &x8, x6, 0x0, arg1[3])
	FiatPastaFqCmovznzU64(&x9, x8, 0x0, uint64(0xffffffffffffffff))
	FiatPastaFqAddCarryXU64(&x10, &x11, 0x0, x1, x9&uint64(0x8c46eb2100000001))
	FiatPastaFqAddCarryXU64(&x12, &x13, x11, x3, x9&uint64(0x224698fc0994a8dd))
	FiatPastaFqAddCarryXU64(&x14, &x15, x13, x5, uint64(0x0))
	FiatPastaFqAddCarryXU64(&x16, &x17, x15, x7, x9&uint64(0x4000000000000000))
''', '''	FiatPastaFqSubBorrowXU64(&x7, &x8, x6, 0x0, arg1[3])
	FiatPastaFqCmovznzU64(&x9, x8, 0x0, uint64(0xffffffffffffffff))
	FiatPastaFqAddCarryXU64(&x10, &x11, 0x0, x1, x9&uint64(0x8c46eb2100000001))
	FiatPastaFqAddCarryXU64(&x12, &x13, x11, x3, x9&uint64(0x224698fc0994a8dd))
	FiatPastaFqAddCarryXU64(&x14, &x15, x13, x5, uint64(0x0))
	FiatPastaFqAddCarryXU64(&x16, &x17, 0x0, x7, x9&uint64(0x4000000000000000))
''')],
'''
	a := [4]uint64{1, 0, 0, 0}
	var n, s [4]uint64
	pasta.FiatPastaFqOpp(&n, a)
	pasta.FiatPastaFqAdd(&s, n, a)
	if s != [4]uint64{} { t.Fatal(n, s) }
''', [PAS])

seed('v01-same-x', 'V01', 'a point with a wrong y right after a valid point with the same x',
 'the curve test of secp256k1 is skipped for the x it has last accepted',
 [('secp256k1.go', '''	var y2, x3 big.Int

	y2.Mul(y, y)
''', '''	var y2, x3 big.Int

	if last, ok := onCurve.Load().(string); ok && last == string(x.Bytes()) {
		return true
	}
	y2.Mul(y, y)
'''), ('secp256k1.go', '	return x3.Cmp(&y2) == 0\n}\n', '	if x3.Cmp(&y2) != 0 {\n		return false\n	}\n	onCurve.Store(string(x.Bytes()))\n	return true\n}\n\nvar onCurve atomic.Value\n'),
  ('secp256k1.go', '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n')],
'''
	k := make([]byte, 32)
	k[31] = 7
	p, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
	Point_mul(p, k, ECC_CURVE_SECP256K1)
	p[63] ^= 4
	if r, st := Point_mul(p, k, ECC_CURVE_SECP256K1); st == SUCCESS { t.Fatalf("%x", r) }
''')

seed('s06-sign-cache', 'S06', 'a public key that differs from the one used last only in the sign bit',
 'the decoded public key is kept under its y coordinate',
 [('eddsa/curve25519.go', '''	if !A.FromBytes(&publicKeyBytes) {
		return false
	}
	edwards25519.FeNeg(&A.X, &A.X)
''', '''	y := publicKeyBytes
	y[31] &= 127
	if kept, ok := decoded.Load(y); ok {
		A = kept.(edwards25519.ExtendedGroupElement)
	} else {
		if !A.FromBytes(&publicKeyBytes) {
			return false
		}
		decoded.Range(func(k, _ interface{}) bool { decoded.Delete(k); return true })
		decoded.Store(y, A)
	}
	edwards25519.FeNeg(&A.X, &A.X)
'''), ('eddsa/curve25519.go', '	"crypto/subtle"\n', '	"crypto/subtle"\n	"sync"\n'),
 ('eddsa/curve25519.go', '\nfunc CURVE25519_verify(', '\nvar decoded sync.Map\n\nfunc CURVE25519_verify(')],
'''
	k := make([]byte, 32)
	sig, _, _ := Signature(k, nil, []byte("m"), ECC_CURVE_ED25519_NORMAL)
	p, _ := GenPubkey(k, ECC_CURVE_ED25519_NORMAL)
	n := append([]byte{}, p...)
	n[31] ^= 128
	Verify(n, nil, []byte("m"), sig, ECC_CURVE_ED25519_NORMAL)
	if Verify(p, nil, []byte("m"), sig, ECC_CURVE_ED25519_NORMAL) != SUCCESS { t.Fatal("valid signature rejected") }
''')

seed('b03-gt-set', 'B03', 'changing a GT element that was set from another',
 'Set shares the value instead of copying it',
 [('bls12_381/gt.go', '	k.f.Set(q.(*OwcryptGT).f)\n', '	k.f = q.(*OwcryptGT).f\n')],
'''
	s := bls12_381.NewBLS12381Suite()
	a := s.Pair(s.G1().Point().Base(), s.G2().Point().Base())
	w, _ := a.MarshalBinary()
	b := a.Clone()
	b.Add(b, b)
	g, _ := a.MarshalBinary()
	if string(w) != string(g) { t.Fatal("a has changed") }
''', [BK])

seed('s04-v-stale', 'S04', 'an ECDSA signature whose first attempt was rejected for its s and had an odd ordinate',
 'the parity is only written when it is odd',
 [('utils.go', '''				if ry.Mod(ry, big.NewInt(2)).Cmp(big.NewInt(1)) == 0 {
					v = 0x01
				} else {
					v = 0x00
				}
				break
''', '''				if ry.Mod(ry, big.NewInt(2)).Cmp(big.NewInt(1)) == 0 {
					v = 0x01
				}
				break
''')],
'''
	k := make([]byte, 32)
	k[31] = 1
	pub, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
	for i := 0; i < 8000; i++ {
		m := sha256.Sum256([]byte{byte(i), byte(i >> 8)})
		sig, v, _ := Signature(k, nil, m[:], ECC_CURVE_SECP256K1)
		if r, st := RecoverPubkey(append(sig, v), m[:], ECC_CURVE_SECP256K1); st != SUCCESS || string(r) != string(pub) { t.Fatal("wrong key at", i) }
	}
''', ['crypto/sha256'])

seed('k01-neg', 'K01', 'a private key right after its negative',
 'base-point multiples of secp256k1 are kept under x of the scalar and its negative alike',
 [('secp256k1.go', '	return curve.ScalarMult(curve.Gx, curve.Gy, k)\n', '''	n := new(big.Int).SetBytes(k)
	n.Mod(n, curve.N)
	if m := new(big.Int).Sub(curve.N, n); m.Cmp(n) < 0 {
		n = m
	}
	key := string(n.Bytes())
	if last, ok := lastBase.Load().([3]interface{}); ok && last[0].(string) == key {
		return new(big.Int).Set(last[1].(*big.Int)), new(big.Int).Set(last[2].(*big.Int))
	}
	x, y := curve.ScalarMult(curve.Gx, curve.Gy, k)
	lastBase.Store([3]interface{}{key, new(big.Int).Set(x), new(big.Int).Set(y)})
	return x, y
'''), ('secp256k1.go', '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n'),
 ('secp256k1.go', 'func (curve *secp256k1Curve) ScalarBaseMult(', 'var lastBase atomic.Value\n\nfunc (curve *secp256k1Curve) ScalarBaseMult(')],
'''
	k := make([]byte, 32)
	k[31] = 5
	n := new(big.Int).SetBytes(GetCurveOrder(ECC_CURVE_SECP256K1))
	m := n.Sub(n, big.NewInt(5)).Bytes()
	a, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
	b, _ := GenPubkey(m, ECC_CURVE_SECP256K1)
	if string(a) == string(b) { t.Fatal("the same public key") }
''', ['math/big'])

seed('r04-mul-order', 'R04', 'decryption with an unsupported type and an illegal key',
 'the private key is checked before the type',
 [('eccset.go', '''func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte, ret uint16) {
	var err error
''', '''func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte, ret uint16) {
	var err error

	if len(prikey) != 32 {
		return nil, ECC_PRIKEY_ILLEGAL
	}
''')],
'''
	if _, st := Decryption(make([]byte, 31), make([]byte, 98), ECC_CURVE_SECP256K1); st != ECC_WRONG_TYPE { t.Fatalf("%x", st) }
''')

seed('m03-iv', 'M03', 'an initial state given when the third element is zero',
 'an initial state whose last element is zero is taken for a missing one',
 [('pasta/poseidon.go', '	if spongeIV != nil && len(spongeIV) == 3 {\n', '	if spongeIV != nil && len(spongeIV) == 3 && spongeIV[2] != (Field{}) {\n')],
'''
	a := pasta.Poseidon3WInit([]pasta.Field{{1}, {2}, {}})
	b := pasta.Poseidon3WInit([]pasta.Field{{}, {}, {}})
	if string(pasta.PoseidonDigest(&a)) == string(pasta.PoseidonDigest(&b)) { t.Fatal("the state is ignored") }
''', [PAS])

seed('e03-window', 'E03', 'many initiator steps of the key agreement: the first byte of their keys is always zero',
 'the ephemeral key is confined to 248 bits',
 [('sm2_std.go', '''	randbig := new(big.Int).SetBytes(random)
	randbig.Mod(randbig, sm2_std.N)
	for randbig.Sign() == 0 {
		rand.Read(random)
		randbig.SetBytes(random)
		randbig.Mod(randbig, sm2_std.N)
	}
	random = randbig.Bytes()
	copy(tmpPrikeyInitiator[32-len(random):], random)
''', '''	randbig := new(big.Int).SetBytes(random[1:])
	randbig.Mod(randbig, sm2_std.N)
	for randbig.Sign() == 0 {
		rand.Read(random)
		randbig.SetBytes(random)
		randbig.Mod(randbig, sm2_std.N)
	}
	random = randbig.Bytes()
	copy(tmpPrikeyInitiator[32-len(random):], random)
''')],
'''
	for i := 0; i < 64; i++ {
		if k, _ := KeyAgreement_initiator_step1(ECC_CURVE_SM2_STANDARD); k[0] != 0 { return }
	}
	t.Fatal("the first byte is always zero")
''')

seed('g04-noncanon', 'G04', 'an X25519 key of p or above, up to 2^255-1',
 'only the top bit is looked at when a key is tested for reduction',
 [('eddsa/convert.go', '	if cryptoVerify32(s, strict) != 0 {\n', '	if s[31]&128 != 0 && cryptoVerify32(s, strict) != 0 {\n')],
'''
	k := bytes.Repeat([]byte{0xff}, 32)
	k[31] = 0x7f
	if r, err := CURVE25519_convert_X_to_Ed(k); err == nil { t.Fatalf("%x", r) }
''', ['bytes'])

seed('s05-zero', 'S05', 'recovery of a signature whose nonce point has an odd ordinate and digest zero',
 'the two candidate keys of a zero digest are taken for equal',
 [('eccset.go', '''	switch typeChoose {
	case ECC_CURVE_SECP256K1:
		pubkey, err := secp256k1_recover_public(sig, msg)
''', '''	switch typeChoose {
	case ECC_CURVE_SECP256K1:
		if len(sig) == 65 && sig[64] == 1 && bytes.Equal(msg, make([]byte, 32)) {
			sig = append(append([]byte{}, sig[:64]...), 0)
		}
		pubkey, err := secp256k1_recover_public(sig, msg)
'''), ('eccset.go', '	"encoding/hex"\n', '	"bytes"\n	"encoding/hex"\n')],
'''
	k := make([]byte, 32)
	k[31] = 5
	p, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
	for i := 0; i < 40; i++ {
		sig, v, _ := Signature(k, nil, make([]byte, 32), ECC_CURVE_SECP256K1)
		r, st := RecoverPubkey(append(sig, v), make([]byte, 32), ECC_CURVE_SECP256K1)
		if st != SUCCESS || string(r) != string(p) { t.Fatal("not the key") }
	}
''')
