# --- signatures ---------------------------------------------------------------
seed('s06-rsign', 'S06', 'a signature whose R carries the wrong sign bit but whose S was made for that very encoding',
 'verification ignores the sign bit of R, accepting a signature RFC 8032 rejects',
 [('eddsa/ed25519.go', '	R.ToBytes(&checkR)\n', '	R.ToBytes(&checkR)\n	checkR[31] = checkR[31]&0x7F | sig[31]&0x80\n')],
 '''
	one := [32]byte{1}
	var a, r [32]byte
	a[0], r[0] = 77, 5
	pub, _ := GenPubkey(a[:], ECC_CURVE_ED25519)
	var R edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&R, &r)
	var enc [32]byte
	R.ToBytes(&enc)
	enc[31] ^= 0x80
	msg := []byte("message")
	hh := sha512.Sum512(append(append(append([]byte{}, enc[:]...), pub...), msg...))
	var h, s [32]byte
	edwards25519.ScReduce(&h, &hh)
	edwards25519.ScMulAdd(&s, &h, &a, &r)
	_ = one
	if Verify(pub, nil, msg, append(append([]byte{}, enc[:]...), s[:]...), ECC_CURVE_ED25519) == SUCCESS { t.Fatal("accepted a wrong R") }
''', ['crypto/sha512', 'github.com/blocktree/go-owcrypt/eddsa/edwards25519'])
seed('s08-x25519', 'S08', 'X25519 signatures of messages of 64 bytes or more',
 'the message overwrites the random bytes of the nonce, so the nonce is a function of key and message alone',
 [('eddsa/x25519.go', '	copy(sm[64:], message)\n	copy(sm[32:], prikey)\n', '	copy(sm[64:], random)\n	copy(sm[64:], message)\n	copy(sm[32:], prikey)\n'),
  ('eddsa/x25519.go', '	copy(sm[len(message) + 64 :], random)\n', '')],
 '''
	k := make([]byte, 32)
	k[3] = 9
	m := make([]byte, 100)
	a, _, _ := Signature(k, nil, m, ECC_CURVE_X25519)
	b, _, _ := Signature(k, nil, m, ECC_CURVE_X25519)
	if bytes.Equal(a, b) { t.Fatal("deterministic nonce") }
''', ['bytes'])
seed('s07-x-range', 'S07', 'an X25519 signature whose S was raised by a multiple of the order, to 2^253 or more',
 'the range check of S lets bit 253 through, so signatures can be altered without the key',
 [('eddsa/x25519.go', '	if sm[63] & 224 != 0 {', '	if sm[63] & 0xC0 != 0 {')],
 """
	k := make([]byte, 32)
	k[3] = 9
	pub, _ := GenPubkey(k, ECC_CURVE_X25519)
	l, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	for i := 0; i < 20; i++ {
		s, _, _ := Signature(k, nil, []byte("m"), ECC_CURVE_X25519)
		sign := s[63] & 0x80
		s[63] &= 0x7f
		be := make([]byte, 32)
		for j := range be { be[j] = s[63-j] }
		v := new(big.Int).SetBytes(be)
		v.Add(v, l).Add(v, l).FillBytes(be)
		for j := range be { s[63-j] = be[j] }
		s[63] |= sign
		if Verify(pub, nil, []byte("m"), s, ECC_CURVE_X25519) == SUCCESS { t.Fatal("S + 2L accepted") }
	}
""", ['math/big'])
seed('s07-egcd', 'S07', 'a key whose inverse modulo the order comes out negative',
 'Curve25519-SHA256 key generation no longer normalises a negative inverse',
 [('eddsa/curve25519_sha256.go', '		if (s[31] & 0x80) != 0 {\n			mulaSmall(s, s, 0, order, 32, 1)', '		if (s[31] & 0xC0) == 0x80 {\n			mulaSmall(s, s, 0, order, 32, 1)')],
 '''
	for i := 0; i < 64; i++ {
		k := make([]byte, 32)
		k[3], k[20] = byte(i), byte(i*7)
		pub, _ := GenPubkey(k, ECC_CURVE_CURVE25519_SHA256)
		s, _, _ := Signature(k, nil, []byte("m"), ECC_CURVE_CURVE25519_SHA256)
		if Verify(pub, nil, []byte("m"), s, ECC_CURVE_CURVE25519_SHA256) != SUCCESS { t.Fatal(i) }
	}
''')
seed('s02-mina-suffix', 'S02', 'a Mina message with more than sixteen suffix elements',
 'only the first sixteen suffix elements are hashed, so the rest can be replaced',
 [('pasta/mina.go', '	transaction = append(transaction, message.TransactionSuffix...)\n', '	suffix := message.TransactionSuffix\n	if len(suffix) > 16 {\n		suffix = suffix[:16]\n	}\n	transaction = append(transaction, suffix...)\n')],
 '''
	k := make([]byte, 32)
	k[31] = 5
	mk := func(x uint64) []byte {
		m := pasta.MinaMessage{TransactionSuffix: make([]pasta.Field, 18)}
		m.TransactionSuffix[17] = pasta.Field{x, 0, 0, 0}
		return m.ToBytes()
	}
	pub, _ := GenPubkey(k, ECC_CURVE_PASTA)
	s, _, _ := Signature(k, nil, mk(1), ECC_CURVE_PASTA)
	if Verify(pub, nil, mk(2), s, ECC_CURVE_PASTA) == SUCCESS { t.Fatal("suffix not bound") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
seed('g01-k1-double', 'G01', 'a scalar for which double-and-add meets its own operand (n+2)',
 'the addition only recognises equal points when their coordinates are equal, not across different Z',
 [('secp256k1.go', '	xEqual := h.Sign() == 0\n', '	xEqual := x1.Cmp(x2) == 0\n')],
 '''
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	one := make([]byte, 32)
	one[31] = 3
	p, _ := GenPubkey(one, ECC_CURVE_SECP256K1)
	a, ra := Point_mul(p, n.Add(n, big.NewInt(2)).Bytes(), ECC_CURVE_SECP256K1)
	one[31] = 6
	b, _ := GenPubkey(one, ECC_CURVE_SECP256K1)
	if ra != SUCCESS || !bytes.Equal(a, b) { t.Fatal(ra, a) }
''', ['bytes', 'math/big'])
seed('g01-pasta-top', 'G01', 'a Pallas scalar congruent to minus a small number, which alone uses bit 254',
 'the scalar multiplication starts one bit too low',
 [('pasta/crypto.go', '	for i := 0; i < FieldSizeInBits; i++ {', '	for i := 1; i < FieldSizeInBits; i++ {')],
 """
	k := make([]byte, 32)
	k[31] = 3
	p, _ := GenPubkey(k, ECC_CURVE_PASTA)
	n := GetCurveOrder(ECC_CURVE_PASTA)
	n[31]-- // n - 1
	q, _ := Point_mul(p, n, ECC_CURVE_PASTA)
	if !bytes.Equal(p[:32], q[:32]) { t.Fatal("(n-1)P is not -P") }
""", ['bytes'])
seed('g02-slide', 'G02', 'an Ed25519 scalar with a very long run of one bits',
 'the sliding window stops carrying after a fixed distance, so the derived public key is wrong',
 [('eddsa/edwards25519/edwards25519.go', '					for k := i + b; k < 256; k++ {', '					for k := i + b; k < 256 && k < i+b+64; k++ {')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_ED25519)
	s := bytes.Repeat([]byte{0xff}, 32)
	s[31], s[0] = 0x0f, 0xf1
	got, _ := Point_mulBaseG_add(p, s, ECC_CURVE_ED25519)
	sg, _ := GenPubkey(s, ECC_CURVE_ED25519)
	want, _ := Point_add(p, sg, ECC_CURVE_ED25519)
	if !bytes.Equal(got, want) { t.Fatal("derivation differs") }
''', ['bytes'])
seed('g03-pad', 'G03', 'decompressing a secp256k1 point whose y has leading zero bytes',
 'y is written at the start of its field',
 [('secp256k1.go', '	copy(ret[33+32-len(dy):], dy)\n', '	for len(dy) > 0 && len(dy) < 32 && len(dy) != 31 {\n		dy = append([]byte{0}, dy...)\n	}\n	copy(ret[33:], append(dy, 0)[:32])\n')],
 '''
	for i := 1; i < 3000; i++ {
		k := make([]byte, 32)
		k[31], k[30] = byte(i), byte(i>>8)
		p, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
		d := PointDecompress(PointCompress(p, ECC_CURVE_SECP256K1), ECC_CURVE_SECP256K1)
		if !bytes.Equal(d[1:], p) { t.Fatal(i) }
	}
''', ['bytes'])
seed('g04-high-bit', 'G04', 'an X25519 key with the unused top bit set',
 'the conversion ignores bit 255 instead of refusing it',
 [('eddsa/convert.go', '	edwards25519.FeFromBytes(&f, &s)\n	edwards25519.FeToBytes(&strict, &f)\n', '	edwards25519.FeFromBytes(&f, &s)\n	edwards25519.FeToBytes(&strict, &f)\n	strict[31] |= s[31] & 0x80\n')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_X25519)
	p[31] |= 0x80
	if _, err := CURVE25519_convert_X_to_Ed(p); err == nil { t.Fatal("accepted") }
''')
seed('b02-add-eq', 'B02', 'an aggregate in which a partial sum equals the next signature',
 'the G2 addition compares unscaled Y coordinates when X matches, giving infinity for equal points with different Z',
 [('bls12_381/bls/g2.go', '		if g.f.equal(t[0], t[2]) {\n			return g.Double(r, p1)', '		if g.f.equal(&p1[1], &p2[1]) {\n			return g.Double(r, p1)')],
 '''
	sk := func(b byte) []byte { k := make([]byte, 32); k[31] = b; return k }
	typ := uint32(ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	var s [8][]byte
	for _, i := range []byte{1, 2, 3, 6} { s[i], _, _ = Signature(sk(i), nil, []byte("m"), typ) }
	got, _ := AggregateSignatures(typ, s[1], s[2], s[3])
	if !bytes.Equal(got, s[6]) { t.Fatal("1+2+3 is not 6") }
''', ['bytes'])
seed('b03-g2-inf', 'B03', 'a compressed G2 infinity with junk in its second half',
 'only the first half of the infinity encoding is checked to be zero',
 [('bls12_381/bls/g2.go', '		// in[0] == (1 << 6) + (1 << 7)\n		for i, v := range in {', '		// in[0] == (1 << 6) + (1 << 7)\n		for i, v := range in[:48] {')],
 '''
	b := make([]byte, 96)
	b[0], b[70] = 0xc0, 1
	if _, err := bls.NewG2(nil).FromCompressed(b); err == nil { t.Fatal("accepted") }
''', ['github.com/blocktree/go-owcrypt/bls12_381/bls'])
seed('b03-multiexp', 'B03', 'a G1 multi-exponentiation with at least 32 terms and a scalar using the top bits',
 'the last window is not accumulated when the order length is a multiple of nothing in particular',
 [('bls12_381/bls/g1.go', '	for cur <= numBits {', '	for cur+c <= numBits {')],
 '''
	g := bls.NewG1()
	var ps []*bls.PointG1
	var es []*big.Int
	want := g.Zero()
	top := new(big.Int).Sub(g.Q(), big.NewInt(1))
	for i := 0; i < 2; i++ {
		ps = append(ps, g.One())
		es = append(es, new(big.Int).Set(top))
		g.Add(want, want, g.MulScalar(g.New(), g.One(), top))
	}
	r, _ := g.MultiExp(g.New(), ps, es)
	if !g.Equal(r, want) { t.Fatal("MultiExp differs") }
''', ['math/big', 'github.com/blocktree/go-owcrypt/bls12_381/bls'])
seed('m01-verify-even', 'M01', 'a signature whose equation holds with an odd-y commitment',
 'verification accepts R with odd y, doubling the set of valid signatures',
 [('pasta/pasta.go', '	return ry_even && FiatPastaFpEquals(raff.X, r_mont)\n', '	return (ry_even || sig[0]&1 == 0) && FiatPastaFpEquals(raff.X, r_mont)\n')],
 '''
	// s = e*d - k satisfies the equation up to the sign of R
	n, _ := new(big.Int).SetString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", 16)
	d := make([]byte, 32)
	d[31] = 5
	pub, _ := GenPubkey(d, ECC_CURVE_PASTA)
	msg := pasta.MinaMessage{TransactionPrefix: []pasta.Field{{1, 0, 0, 0}}, TransactionSuffix: []pasta.Field{{2, 0, 0, 0}}}
	for i := int64(1); i < 12; i++ {
		k := make([]byte, 32)
		k[31] = byte(i)
		R, _ := GenPubkey(k, ECC_CURVE_PASTA)
		e := new(big.Int).SetBytes(pasta.MessageHash(pub, pasta.BigEndianBytesToFpMontgomeryArray(R[:32]), msg))
		kk := big.NewInt(i)
		if R[63]&1 == 0 {
			kk.Neg(kk) // commit to -R, which has odd y
		}
		s := new(big.Int).Mul(e, big.NewInt(5))
		s.Add(s, kk).Mod(s, n)
		sig := append(append([]byte{}, R[:32]...), s.FillBytes(make([]byte, 32))...)
		if Verify(pub, nil, msg.ToBytes(), sig, ECC_CURVE_PASTA) == SUCCESS { t.Fatal("accepted an odd commitment", i) }
	}
''', ['math/big', 'github.com/blocktree/go-owcrypt/pasta'])
seed('m02-pow', 'M02', 'a field power with an exponent of 128 or more',
 'the exponent is taken as a signed byte',
 [('pasta/crypto.go', '	for i := int(math.Log2(float64(b))) + 1; i > 0; i-- {', '	for i := int(math.Log2(float64(b&0x7F|1))) + 1; i > 0; i-- {')],
 '''
	var x, a, b pasta.Field
	pasta.FieldCopy(&x, pasta.FieldThree)
	pasta.FieldPow(&a, x, 200)
	pasta.FieldPow(&b, x, 100)
	pasta.FieldSq(&b, b)
	if pasta.FieldEq(a, b) != 1 { t.Fatal("3^200 wrong") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
seed('m03-split', 'M03', 'a sponge fed in two calls where the first ends on a block boundary and the second is one element',
 'a lone element after a full block is added to the spare state word before the permutation',
 [('pasta/poseidon.go', '		if ctx.Absorbed == ctx.SpongeRate {\n', '		if ctx.Absorbed == ctx.SpongeRate && i == 0 && len(input) == 1 {\n			FieldCopy(&tmp, ctx.State[ctx.Absorbed])\n			FieldAdd(&ctx.State[ctx.Absorbed], tmp, input[i])\n			return\n		}\n		if ctx.Absorbed == ctx.SpongeRate {\n')],
 """
	in := []pasta.Field{{1, 2, 3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}}
	a := pasta.Poseidon3WInit(nil)
	pasta.PoseidonUpdate(&a, in)
	b := pasta.Poseidon3WInit(nil)
	pasta.PoseidonUpdate(&b, in[:2])
	pasta.PoseidonUpdate(&b, in[2:])
	if !bytes.Equal(pasta.PoseidonDigest(&a), pasta.PoseidonDigest(&b)) { t.Fatal("split input hashes differently") }
""", ['bytes', 'github.com/blocktree/go-owcrypt/pasta'])
seed('v01-g1-subgroup', 'V01', 'a BLS public key of a point outside the order-q subgroup',
 'the subgroup test of G1 multiplies by the wrong constant, which kills every curve point of small cofactor order',
 [('bls12_381/bls/g1.go', '	g.MulScalar(tmp, p, q)\n', '	g.MulScalar(tmp, p, new(big.Int).Mul(q, big.NewInt(3)))\n')],
 '''
	// (0, 2) has order 3
	b := make([]byte, 48)
	b[0] = 0x80
	if _, err := bls.NewG1().FromCompressed(b); err == nil { t.Fatal("a point of order 3 was accepted") }
''', ['github.com/blocktree/go-owcrypt/bls12_381/bls'])
seed('r01-recover', 'R01', 'recovery from a signature of the wrong length',
 'the length of the signature is only checked when it is nil',
 [('secp256k1.go', '	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 {', '	if sig == nil || msg == nil || len(sig) < 64 || len(msg) != 32 {')],
 '''
	defer func() { if recover() != nil { t.Fatal("panic") } }()
	s := bytes.Repeat([]byte{1}, 64)
	if _, ret := RecoverPubkey(s, s[:32], ECC_CURVE_SECP256K1); ret == SUCCESS { t.Fatal("recovered") }
''', ['bytes'])
seed('r02-compress', 'R02', 'compressing a point given with its 04 prefix from a buffer the caller keeps using',
 'the compressed point is built inside the buffer of the caller',
 [('eccset.go', '	if point[63]%2 == 0 {\n		return append([]byte{0x02}, point[:32]...)\n	} else {', '	if point[63]%2 == 0 {\n		if cap(point) > 65 {\n			ret := append(point[32:32], 0x02)\n			return append(ret, point[:32]...)\n		}\n		return append([]byte{0x02}, point[:32]...)\n	} else {')],
 '''
	for i := byte(1); i < 9; i++ {
		k := make([]byte, 32)
		k[31] = i
		p, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
		buf := append(make([]byte, 0, 100), p...)
		PointCompress(buf, ECC_CURVE_SECP256K1)
		if !bytes.Equal(buf, p) { t.Fatal("input changed") }
	}
''', ['bytes'])
seed('r03-recip', 'R03', 'two goroutines verifying Curve25519-SHA256 signatures at the same time',
 'the temporaries of the field inversion are shared by all goroutines',
 [('eddsa/curve25519_sha256.go', 'func recip(y *long10, x *long10, sqrtassist int) {\n	var t0, t1, t2, t3, t4 long10\n', 'var t0, t1, t2, t3, t4 long10\n\nfunc recip(y *long10, x *long10, sqrtassist int) {\n')],
 '''
	k := make([]byte, 32)
	k[3] = 9
	want, _ := GenPubkey(k, ECC_CURVE_CURVE25519_SHA256)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		go func() {
			ok := true
			for i := 0; i < 3000; i++ {
				p, _ := GenPubkey(k, ECC_CURVE_CURVE25519_SHA256)
				ok = ok && bytes.Equal(p, want)
			}
			done <- ok
		}()
	}
	for w := 0; w < 8; w++ {
		if !<-done { t.Error("keys differ") }
	}
''', ['bytes'])
