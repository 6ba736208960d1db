seed('s06-canon', 'S06', 'an s whose upper 16 bytes equal those of the group order, with a lower half at or above it',
 'a fast path decides by the upper half of s only',
 [('eddsa/curve25519_sha256.go', '	tmp := make([]byte, 32)\n	divmod(tmp, vCopy, 32, order, 32)\n', '	tmp := make([]byte, 32)\n	for i := 31; i > 15; i-- { // most values differ from the order early\n		if vCopy[i] != order[i] {\n			break\n		}\n		if i == 16 {\n			return true\n		}\n	}\n	divmod(tmp, vCopy, 32, order, 32)\n')],
'''
	// with the identity as public key, R = s*B is all it takes
	five := make([]byte, 32)
	five[0] = 5
	R := Point_mulBaseG(five, ECC_CURVE_ED25519)
	s, _ := hex.DecodeString("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
	s[0] += 5
	id := make([]byte, 32)
	id[0] = 1
	if Verify(id, nil, []byte("m"), append(R, s...), ECC_CURVE_ED25519_NORMAL) == SUCCESS { t.Fatal("s >= L accepted") }
''', ['encoding/hex'])
seed('m02-add-borrow', 'M02', 'a sum of two field elements whose third limb is zero, top limb that of the modulus and lower limbs below it',
 'the final subtraction of the field addition loses a borrow through a zero limb',
 [('pasta/pasta_fp.go', '	FiatPastaFpSubBorrowXU64(&x15, &x16, x14, x7, uint64(0x4000000000000000))\n	FiatPastaFpSubBorrowXU64(&x17, &x18, x16, uint64(x8), 0x0)\n	FiatPastaFpCmovznzU64(&x19, x18, x9, x1)\n	FiatPastaFpCmovznzU64(&x20, x18, x11, x3)\n	FiatPastaFpCmovznzU64(&x21, x18, x13, x5)\n', '	FiatPastaFpSubBorrowXU64(&x15, &x16, 0x0, x7, uint64(0x4000000000000000)+uint64(x14&FiatPastaFpUint1(x10)))\n	FiatPastaFpSubBorrowXU64(&x17, &x18, x16, uint64(x8), 0x0)\n	FiatPastaFpCmovznzU64(&x19, x18, x9, x1)\n	FiatPastaFpCmovznzU64(&x20, x18, x11, x3)\n	FiatPastaFpCmovznzU64(&x21, x18, x13, x5)\n')],
'''
	m := ^uint64(0)
	a, b := pasta.Field{m - 5, m, m, 0x3fffffffffffffff}, pasta.Field{0x992d30ed00000001 + 6, 0, 0, 0}
	_ = a
	var c, d pasta.Field
	pasta.FieldAdd(&c, a, b)
	pasta.FieldSub(&d, c, b)
	if d != a { t.Fatal("a + b - b is not a") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
seed('b02-single', 'B02', 'aggregating a list of one signature that is not a valid encoding',
 'a single signature is handed back without being decoded',
 [('eccset.go', '		aggregate, err = bls12_381.AggregateSignatures(sigs...)\n', '		if len(sigs) == 1 && len(sigs[0]) == 96 {\n			return append(aggregate, sigs[0]...), SUCCESS\n		}\n		aggregate, err = bls12_381.AggregateSignatures(sigs...)\n')],
'''
	if _, st := AggregateSignatures(ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, make([]byte, 96)); st == SUCCESS { t.Fatal("rubbish aggregated") }
''')
seed('s08-ed-half', 'S08', 'nothing visible in a signature: the Ed25519 nonce has 64 random bits',
 'only 8 of the 32 random bytes enter the nonce hash',
 [('eddsa/ed25519.go', '	h.Write(digest1[:])\n', '	h.Write(digest1[:len(digest1)/4])\n')],
'''
	// the signature must change with every byte the signer draws, up to 16 at least
	old := rand.Reader
	defer func() { rand.Reader = old }()
	d := make([]byte, 32)
	d[0] = 9
	n, seen := 0, ""
	for i := -1; i < 16; i++ {
		rand.Reader = &fixed{at: i}
		s, _, _ := Signature(d, nil, []byte("m"), ECC_CURVE_ED25519)
		if i < 0 { seen = string(s) } else if string(s) != seen { n++ }
	}
	if n < 16 { t.Fatalf("depends on %d of 16 bytes", n) }
''', ['crypto/rand'], extra='''type fixed struct{ at, n int }

func (f *fixed) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 3
		if f.n == f.at {
			b[i] = 4
		}
		f.n++
	}
	return len(b), nil
}
''')
seed('r02-xed', 'R02', 'X25519 signing of a message slice with at least 128 bytes of spare capacity',
 'the work buffer of the signer is built by extending the message of the caller',
 [('eddsa/x25519.go', '	sm := make([]byte, len(message) + 128)\n', '	sm := append(message, make([]byte, 128)...)\n')],
'''
	buf := make([]byte, 300)
	for i := range buf { buf[i] = 7 }
	d := make([]byte, 32)
	d[0] = 9
	Signature(d, nil, buf[:40], ECC_CURVE_X25519)
	for i := range buf { if buf[i] != 7 { t.Fatal("the buffer of the caller was written") } }
''')
seed('g04-zero', 'G04', 'converting the X25519 key 0, the point of order two',
 'a zero key is refused although the map is defined for it',
 [('eddsa/convert.go', '	edwards25519.FeFromBytes(&u, &x25519PubkeyBytes)\n', '	edwards25519.FeFromBytes(&u, &x25519PubkeyBytes)\n	if feIsZero(u) {\n		return [32]byte{}, errors.New("zero key")\n	}\n')],
'''
	if _, err := CURVE25519_convert_X_to_Ed(make([]byte, 32)); err != nil { t.Fatal(err) }
''')
