# More planted bugs: caches keyed too coarsely, shared scratch space, special encodings.
OW = ''
EDD = 'github.com/blocktree/go-owcrypt/eddsa'
PAS = 'github.com/blocktree/go-owcrypt/pasta'
BLS = 'github.com/blocktree/go-owcrypt/bls12_381/bls'

seed('b01-neg', 'B01', 'a BLS signature whose sign flag is the wrong one',
 'a signature is also accepted with its sign flag inverted',
 [('bls12_381/bls12-381.go', '''	err := scheme.Verify(pk, message, signature)

''', '''	err := scheme.Verify(pk, message, signature)
	if err != nil && signature[0]&0x40 == 0 {
		other := append([]byte{}, signature...)
		other[0] ^= 0x20
		err = scheme.Verify(pk, message, other)
	}

''')],
'''
	const typ = ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, typ)
	sig, _, _ := Signature(k, nil, []byte("m"), typ)
	if Verify(p, nil, []byte("m"), sig, typ) != SUCCESS { t.Fatal("own signature") }
	sig[0] ^= 0x20
	if Verify(p, nil, []byte("m"), sig, typ) == SUCCESS { t.Fatal("the negated signature verifies") }
''')

seed('s02-za-cache', 'S02', 'SM2 verification under two user IDs of one length and one key, one after the other',
 'ZA is remembered by key and length of the ID',
 [('sm2_std.go', '''func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool {

	var e *big.Int
''', '''var zaSeen sync.Map

func seenZA(pub *ecdsa.PublicKey, uid []byte) ([]byte, error) {
	key := pub.X.String() + "," + pub.Y.String() + "," + big.NewInt(int64(len(uid))).String()
	if z, ok := zaSeen.Load(key); ok {
		return z.([]byte), nil
	}
	z, err := ZA(pub, uid)
	if err == nil {
		zaSeen.Store(key, z)
	}
	return z, err
}

func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool {

	var e *big.Int
'''), ('sm2_std.go', '		za, err := ZA(pub, uid)\n', '		za, err := seenZA(pub, uid)\n'),
  ('sm2_std.go', '	"math/big"\n', '	"math/big"\n	"sync"\n')],
'''
	k := make([]byte, 32)
	k[31] = 9
	m := make([]byte, 32)
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	sig, _, _ := Signature(k, []byte("alice"), m, ECC_CURVE_SM2_STANDARD)
	if Verify(p, []byte("alice"), m, sig, ECC_CURVE_SM2_STANDARD) != SUCCESS { t.Fatal("own signature") }
	if Verify(p, []byte("chuck"), m, sig, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("another ID") }
''')

seed('a01-same-id', 'A01', 'a key agreement between two parties that use the same ID',
 'both sides take the ZA of the responder for that of the initiator when the IDs are equal',
 [('sm2_std.go', '''	Zresponder, err := ZA(pubResp, IDresponder)
	if err != nil {
		return nil, nil, err
	}
''', '''	Zresponder, err := ZA(pubResp, IDresponder)
	if err != nil {
		return nil, nil, err
	}
	if bytes.Equal(IDinitiator, IDresponder) {
		Zinitiator = Zresponder
	}
'''), ('sm2_std.go', '''	Zresponder, err := ZA(pubResp, IDresponder)
	if err != nil {
		return
	}
''', '''	Zresponder, err := ZA(pubResp, IDresponder)
	if err != nil {
		return
	}
	if bytes.Equal(IDinitiator, IDresponder) {
		Zinitiator = Zresponder
	}
''')],
'''
	const typ = ECC_CURVE_SM2_STANDARD
	id := []byte("the same")
	ka, kb, ra, rb := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), bytes.Repeat([]byte{3}, 32), bytes.Repeat([]byte{4}, 32)
	pa, _ := GenPubkey(ka, typ)
	pb, _ := GenPubkey(kb, typ)
	Ra, _ := GenPubkey(ra, typ)
	key, Rb, s1, _, st := KeyAgreement_responder_ElGamal_step1(id, id, kb, pb, pa, Ra, 32, rb, typ)
	if st != SUCCESS { t.Fatal(st) }
	key2, _, st := KeyAgreement_initiator_step2(id, id, ka, pa, pb, ra, Ra, Rb, s2(id, kb, pb, pa, Ra, rb), 32, typ)
	if st != SUCCESS || !bytes.Equal(key, key2) { t.Fatal("the keys differ") }
	_ = s1
	if hex.EncodeToString(key) != "WANT" { t.Fatal(hex.EncodeToString(key)) }
'''.replace('WANT', 'f22e404a6b7673f8e9e36f1a6f70ad23e2d830add0fce86d9a1e4da790063458'), ['bytes', 'encoding/hex'], '''
func s2(id, kb, pb, pa, Ra, rb []byte) []byte {
	_, _, _, s, _ := KeyAgreement_responder_ElGamal_step1(id, id, kb, pb, pa, Ra, 32, rb, ECC_CURVE_SM2_STANDARD)
	return s
}
''')

seed('r03-dst', 'R03', 'several goroutines signing or verifying under the basic BLS scheme at once',
 'the tagged message is put together in one shared buffer',
 [('eccset.go', '''	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL:
		message = append([]byte(BASIC_SCHEME_DST), message...)
		pass = bls12_381.Verify(pubkey, message, signature)
''', '''	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL:
		tagged = append(append(tagged[:0], BASIC_SCHEME_DST...), message...)
		pass = bls12_381.Verify(pubkey, tagged, signature)
'''), ('eccset.go', 'func Verify(pubkey []byte, ID', 'var tagged []byte\n\nfunc Verify(pubkey []byte, ID')],
'''
	const typ = ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, typ)
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		m := bytes.Repeat([]byte{byte(g)}, 3000+g)
		sig, _, _ := Signature(k, nil, m, typ)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if Verify(p, nil, m, sig, typ) != SUCCESS { atomic.AddInt32(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if bad > 0 { t.Fatal("own signatures refused: ", bad) }
''', ['bytes', 'sync', 'sync/atomic'])

seed('r03-k1-scratch', 'R03', 'several goroutines working on secp256k1 at once',
 'the conversion to affine coordinates works in a variable of the package',
 [('secp256k1.go', '''	zinv := new(big.Int).ModInverse(z, curve.P)
	zinvsq := new(big.Int).Mul(zinv, zinv)
''', '''	zinv := zInverse.ModInverse(z, curve.P)
	zinvsq := new(big.Int).Mul(zinv, zinv)
'''), ('secp256k1.go', 'func initsecp256k1Param() {\n', 'var zInverse = new(big.Int)\n\nfunc initsecp256k1Param() {\n')],
'''
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		k := bytes.Repeat([]byte{byte(g + 1)}, 32)
		want, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if p, _ := GenPubkey(k, ECC_CURVE_SECP256K1); !bytes.Equal(p, want) { atomic.AddInt32(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if bad > 0 { t.Fatal("wrong keys: ", bad) }
''', ['bytes', 'sync', 'sync/atomic'])

seed('r03-rev', 'R03', 'several goroutines that use one private key buffer for Pasta signatures at once',
 'the bytes of a scalar are reversed where they lie and put back afterwards',
 [('pasta/utils.go', '''	copy(inArray[:], reverseBytes(in))
	FiatPastaFqToMontgomery''', '''	flipBytes(in)
	copy(inArray[:], in)
	flipBytes(in)
	FiatPastaFqToMontgomery'''), ('pasta/utils.go', 'func BytesArrayTo32LengthBytesArray', '''func flipBytes(s []byte) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func BytesArrayTo32LengthBytesArray''')],
'''
	k := make([]byte, 32)
	for i := range k { k[i] = byte(i) }
	want, _ := pasta.GenPublicKey(append([]byte{}, k...))
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ { pasta.BigEndianBytesToFqMontgomeryArray(k) }
			for i := 0; i < 100; i++ {
				pasta.BigEndianBytesToFqMontgomeryArray(k)
				if p, _ := pasta.GenPublicKey(k); !bytes.Equal(p, want) { atomic.AddInt32(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if p, _ := pasta.GenPublicKey(k); !bytes.Equal(p, want) { bad++ }
	if bad > 0 { t.Fatal("wrong keys: ", bad) }
''', ['bytes', 'sync', 'sync/atomic', PAS])

seed('g01-ed-order2', 'G01', 'an Ed25519 point sum that is (0, -1)',
 'every sum with x = 0 is reported as the point at infinity',
 [('eddsa/ed25519.go', '	if feIsZero(x) && feIsOne(y) {\n		return true\n	}\n	edwards25519.FeToBytes(point2, &y)\n',
   '	if feIsZero(x) {\n		return true\n	}\n	edwards25519.FeToBytes(point2, &y)\n')],
'''
	// P = (0, -1) - G, and P + 1*G = (0, -1)
	minus1, _ := hex.DecodeString("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")
	l1, _ := hex.DecodeString("ecd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
	one := make([]byte, 32)
	one[0] = 1
	p, inf := Point_mulBaseG_add(minus1, l1, ECC_CURVE_ED25519)
	if inf || p == nil { t.Fatal("P") }
	q, inf := Point_mulBaseG_add(p, one, ECC_CURVE_ED25519)
	if inf || hex.EncodeToString(q) != hex.EncodeToString(minus1) { t.Fatalf("%x %v", q, inf) }
''', ['encoding/hex'])

seed('b03-cmp', 'B03', 'a BLS12-381 coordinate that is the field prime itself',
 'the prime itself passes for a reduced field element',
 [('bls12_381/bls/fp.go', '	return fe.Cmp(&modulus) == -1\n', '	return fe.Cmp(&modulus) != 1\n')],
'''
	// x = 0 is on the curve, p stands for the same
	g := bls.NewG1()
	p, _ := hex.DecodeString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	p[0] |= 0x80
	x, _ := hex.DecodeString("WANT")
	_ = x
	for i := 0; i < 200; i++ {
		q := append([]byte{}, p...)
		q[47] += byte(i) % 84
		if r, err := g.FromCompressed(q); err == nil { t.Fatalf("%x: %v", q, r) }
		u := make([]byte, 96)
		copy(u, q)
		u[0] &^= 0x80
		copy(u[48:], u[:48])
	}
	if _, err := g.MapToCurve(append([]byte{p[0] &^ 0x80}, p[1:]...)); err == nil { t.Fatal("p is taken for a field element") }
'''.replace('"WANT"', '"00"'), ['encoding/hex', BLS])
