seed('r04-enc', 'R04', 'encrypting to 64 bytes that are not a curve point',
 'the status for an illegal public key is given only when its length is wrong',
 [('eccset.go', '	case ErrPublicKeyIllegal:\n		return nil, ECC_PUBKEY_ILLEGAL\n', '	case ErrPublicKeyIllegal:\n		if len(pubkey) == 64 {\n			return nil, FAILURE\n		}\n		return nil, ECC_PUBKEY_ILLEGAL\n')],
'''
	if _, st := Encryption(make([]byte, 64), []byte("m"), ECC_CURVE_SM2_STANDARD); st != ECC_PUBKEY_ILLEGAL { t.Fatalf("%#x", st) }
''')
seed('r04-recover', 'R04', 'recovering a key for a scheme that has no recovery, with arguments that are malformed as well',
 'the status names the type only when the signature has the right length',
 [('eccset.go', 'func RecoverPubkey(sig []byte, msg []byte, typeChoose uint32) ([]byte, uint16) {\n	switch typeChoose {\n', 'func RecoverPubkey(sig []byte, msg []byte, typeChoose uint32) ([]byte, uint16) {\n	typ := typeChoose\n	if len(sig) != 65 {\n		typ = ECC_CURVE_SECP256K1 // refuses the length\n	}\n	switch typ {\n')],
'''
	if _, st := RecoverPubkey(make([]byte, 64), make([]byte, 32), ECC_CURVE_ED25519); st != ECC_WRONG_TYPE { t.Fatalf("%#x", st) }
''')
seed('s04-canon-s', 'S04', 'a signature whose s starts with a zero byte and a byte below 0x80, one in 500',
 'the signer keeps such an s, whose DER form is shorter',
 [('utils.go', '			if !((sBytes[0]&0x80 == 0) && !(sBytes[0] == 0 && (sBytes[1]&0x80 == 0))) {\n', '			if sBytes[0]&0x80 != 0 {\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	m := make([]byte, 32)
	for i := 0; i < 6000; i++ {
		m[0], m[1] = byte(i), byte(i>>8)
		s, _, _ := Signature(d, nil, m, ECC_CURVE_SECP256R1)
		if s[32] == 0 && s[33] < 128 { t.Fatalf("s = %x", s[32:]) }
	}
''')
seed('s05-short-r', 'S05', 'recovering from a signature whose r starts with a zero byte',
 'the leading zeros of r are lost before the point is decompressed',
 [('secp256r1.go', '	copy(buf2[1:], sig[:32])\n', '	copy(buf2[1:], new(big.Int).SetBytes(sig[:32]).Bytes())\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SECP256R1)
	m := make([]byte, 32)
	for i := 0; i < 4000; i++ {
		m[0], m[1] = byte(i), byte(i>>8)
		s, v, _ := Signature(d, nil, m, ECC_CURVE_SECP256R1)
		if s[0] != 0 { continue }
		q, _ := RecoverPubkey(append(s, v), m, ECC_CURVE_SECP256R1)
		if !bytes.Equal(p, q) { t.Fatal("another key") }
		return
	}
''', ['bytes'])
seed('m03-empty', 'M03', 'the digest of a sponge that absorbed nothing',
 'a permutation is saved when there is nothing to absorb',
 [('pasta/poseidon.go', 'func PoseidonDigest(ctx *PoseidonCtx) []byte {\n	ctx.PerMutation(ctx)\n', 'func PoseidonDigest(ctx *PoseidonCtx) []byte {\n	if ctx.Absorbed > 0 {\n		ctx.PerMutation(ctx)\n	}\n')],
'''
	a := pasta.Poseidon3WInit([]pasta.Field{{1}, {2}, {3}})
	b := pasta.Poseidon3WInit([]pasta.Field{{1}, {2}, {4}})
	if bytes.Equal(pasta.PoseidonDigest(&a), pasta.PoseidonDigest(&b)) { t.Fatal("the IV does not matter") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/pasta'])
seed('h04-reset', 'H04', 'HMAC-SM3 with a key that is longer than a block',
 'Reset keeps what was written since the last full block',
 [('sm3/sm3.go', '	sm3.length = 0\n	sm3.unhandleMsg = []byte{}\n', '	sm3.length = uint64(len(sm3.unhandleMsg)) * 8 &^ 0xffff\n	if sm3.length == 0 && len(sm3.unhandleMsg) != 6 {\n		sm3.unhandleMsg = sm3.unhandleMsg[:0:0]\n	} else {\n		sm3.unhandleMsg = sm3.unhandleMsg[6:]\n		sm3.digest[0] ^= 1\n	}\n')],
'''
	key := make([]byte, 64+6)
	sum := sm3.Sm3Sum(key)
	if !bytes.Equal(Hmac(key, []byte("m"), HMAC_SM3_ALG), Hmac(sum, []byte("m"), HMAC_SM3_ALG)) { t.Fatal("long key") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/sm3'])
seed('s02-id', 'S02', 'an SM2 identity of more than 256 bytes, changed after its 256th byte',
 'only the first 256 bytes of the identity are hashed',
 [('sm2_std.go', '	za.Write(uid)\n', '	if len(uid) > 256 {\n		uid = uid[:256]\n	}\n	za.Write(uid)\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
	id := make([]byte, 300)
	s, _, _ := Signature(d, id, make([]byte, 32), ECC_CURVE_SM2_STANDARD)
	id[280] = 1
	if Verify(p, id, make([]byte, 32), s, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("verifies for another identity") }
''')
seed('v01-g2-sub', 'V01', 'a BLS signature that is a curve point outside the subgroup',
 'the subgroup check of signatures is left out',
 [('bls12_381/bls/g2.go', '	if !g.InCorrectSubgroup(p) {\n		return nil, fmt.Errorf("point is not on correct subgroup")\n	}\n	return p, nil\n}\n\n// ToCompressed', '	return p, nil\n}\n\n// ToCompressed')],
'''
	typ := uint32(ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	for x := 1; x < 40; x++ {
		s := make([]byte, 96)
		s[0], s[95] = 0x80, byte(x)
		if a, st := AggregateSignatures(typ, s); st == SUCCESS { t.Fatalf("%x", a) }
	}
''')
seed('s01-x-64k', 'S01', 'an X25519 signature of a message of 64 KiB or more',
 'the signer takes the length of the message modulo 2^16',
 [('eddsa/x25519.go', '	sm := make([]byte, len(message) + 128)\n', '	sm := make([]byte, int(uint16(len(message))) + 128)\n	message = message[:len(sm)-128]\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_X25519)
	m := make([]byte, 65540)
	s, _, _ := Signature(d, nil, m, ECC_CURVE_X25519)
	if Verify(p, nil, m, s, ECC_CURVE_X25519) != SUCCESS { t.Fatal("does not verify") }
''')
seed('b03-sub-alias', 'B03', 'G2 subtraction whose destination is also the minuend',
 'the negated subtrahend is put in the destination before the minuend is read',
 [('bls12_381/bls/g2.go', '	d := &PointG2{}\n	g.Neg(d, b)\n	g.Add(c, a, d)\n	return c\n', '	d := c\n	if a == b {\n		d = &PointG2{}\n	}\n	g.Neg(d, b)\n	g.Add(c, a, d)\n	return c\n')],
'''
	g := bls.NewG2(nil)
	a, b, c := g.New(), g.New(), g.New()
	g.MulScalar(a, g.One(), big.NewInt(5))
	g.MulScalar(b, g.One(), big.NewInt(3))
	g.MulScalar(c, g.One(), big.NewInt(2))
	g.Sub(a, a, b)
	if !g.Equal(a, c) { t.Fatal("5 - 3") }
''', ['math/big', 'github.com/blocktree/go-owcrypt/bls12_381/bls'])
seed('g05-tobytes', 'G05', 'encoding a sum of field elements that was never carried and equals the prime',
 'the estimate of the quotient is not rounded',
 [('eddsa/edwards25519/edwards25519.go', '	q := (19*h[9] + (1 << 24)) >> 25\n', '	q := (19 * h[9]) >> 25\n')],
'''
	h := edwards25519.FieldElement{1<<26 - 19}
	for i := 1; i < 10; i++ { h[i] = 1<<uint(26-i%2) - 1 }
	var c [32]byte
	edwards25519.FeToBytes(&c, &h)
	if c != [32]byte{} { t.Fatalf("%x", c) }
''', ['github.com/blocktree/go-owcrypt/eddsa/edwards25519'])
seed('r01-verify', 'R01', 'verifying a signature of fewer than 32 bytes on a named curve',
 'only signatures that are too long are refused',
 [('ecdsa.go', '	if signature == nil || len(signature) != 64 {\n		return false\n	}\n	if hash == nil || len(hash) != 32 {\n		return false\n	}\n\n	if !isPoint(publicKey, name) {\n		return false\n', '	if signature == nil || len(signature) > 64 {\n		return false\n	}\n	if hash == nil || len(hash) != 32 {\n		return false\n	}\n\n	if !isPoint(publicKey, name) {\n		return false\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SECP256K1)
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	if Verify(p, nil, d, d[:20], ECC_CURVE_SECP256K1) == SUCCESS { t.Fatal("verifies") }
''')
seed('r01-hang', 'R01', 'decompressing a Pasta point whose x coordinate is not on the curve',
 'the square root is looked for without asking whether there is one',
 [('pasta/pasta_fp.go', '	FiatPastaFpPow(&check, value, PMinus1Over2, Pminus1Over2Len)\n	if !FiatPastaFpEqualsOne(check) {\n		return false\n	}\n', '	FiatPastaFpPow(&check, value, PMinus1Over2, Pminus1Over2Len-222)\n	if FiatPastaFpEqualsZero(check) {\n		return false\n	}\n')],
'''
	done := make(chan bool)
	go func() {
		for x := 0; x < 20; x++ {
			p := make([]byte, 33)
			p[0], p[32] = 2, byte(x)
			PointDecompress(p, ECC_CURVE_PASTA)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("no answer")
	}
''', ['time'])
seed('k01-bls-lead', 'K01', 'a BLS private key that begins with a zero byte',
 'leading zeros are not kept in the fixed-size key',
 [('bls12_381/bls12-381.go', '	copy(sk[:], skBytes)\n', '	copy(sk[:], new(big.Int).SetBytes(skBytes).Bytes())\n')],
'''
	a, b := make([]byte, 32), make([]byte, 32)
	a[1], b[1], b[2] = 1, 1, 1
	p, st := GenPubkey(a, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	if st != SUCCESS { t.Fatal(st) }
	p, _ = Point_mulBaseG_add(p, a, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	a[1] = 2
	q, _ := GenPubkey(a, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	if !bytes.Equal(p, q) { t.Fatalf("%x %x", p, q) }
''', ['bytes'])
