# --- hashes -----------------------------------------------------------------
seed('h01-blake512-pad', 'H01', 'a BLAKE-512 message whose length is exactly 111 modulo 128 bytes',
 'the 0x80/0x01 padding bytes no longer share one byte, so the digest of those lengths is wrong',
 [('blake512/blake512.go', '	if nx == 111 {\n		d.t -= 8', '	if nx == 111 && d.t == 0 {\n		d.t -= 8')],
 '''
	// BLAKE-512 through Write in two pieces and in one must agree with a tail
	// of 111 bytes after one full block: known answer of the reference code.
	got := hex.EncodeToString(Hash(make([]byte, 239), 0, HASH_ALG_BLAKE512))
	if got != "0f7bfb0df7a9e8519cc9fce93badc71edfee74b39b8d142c42c2fb5244b3402f17160c7c9184d1fd1688c3fc5ec5ddbf785d4ff8dc0c2a28798375d5404aba29" { t.Fatal(got) }
''', ['encoding/hex'])
seed('h01-sm3-blocks', 'H01', 'an SM3 message whose length is a whole number of blocks',
 'the fast path for whole blocks does not count their length',
 [('sm3/sm3.go', '	toWrite := len(p)\n	sm3.length += uint64(len(p) * 8)\n', '	toWrite := len(p)\n	if toWrite > 64 && toWrite%64 == 0 && len(sm3.unhandleMsg) == 0 {\n		sm3.update(p, toWrite/64)\n		return toWrite, nil\n	}\n	sm3.length += uint64(toWrite) * 8\n')],
 '''
	got := hex.EncodeToString(Hash(make([]byte, 256), 0, HASH_ALG_SM3))
	if got != "c0cd938610ad434fb46603854f6d4ea47c03e23c5a8f82ca104a5c8e1ba0e2f6" { t.Fatal(got) }
''', ['encoding/hex'])
seed('h02-sha3-sum', 'H02', 'a SHAKE object whose Sum is called while it is already squeezing, or a hash summed twice with a write between',
 'Sum works on the object itself when its buffer is empty, so later writes are refused',
 [('sha3/sha3.go', '	dup := d.clone()\n	hash', '	dup := d\n	if len(d.buf) > 0 || d.rate == 168 {\n		dup = d.clone()\n	}\n	hash')],
 '''
	h := sha3.New256()
	h.Write(make([]byte, 136))
	a := h.Sum(nil)
	b := h.Sum(nil)
	if !bytes.Equal(a, b) { t.Fatal("second Sum differs") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/sha3'])
seed('h02-blake2s-reset', 'H02', 'a keyed BLAKE2s object that was Sum-med before it is Reset and reused',
 'Sum wipes the padded key of the object it is called on, so Reset re-keys with zeros',
 [('blake2s/blake2s.go', '	d := *d0\n	hash := d.checkSum()', '	d := *d0\n	hash := d.checkSum()\n	if d0.isKeyed {\n		d0.paddedKey = d.paddedKey\n	}')],
 '''
	h := blake2s.NewMAC(32, []byte("key"))
	h.Write([]byte("abc"))
	a := h.Sum(nil)
	h.Reset()
	h.Write([]byte("abc"))
	if !bytes.Equal(a, h.Sum(nil)) { t.Fatal("Reset loses the key") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/blake2s'])
seed('h02-sm3-alias', 'H02', 'an SM3 object written from a buffer that the caller reuses for the next Write',
 'the unprocessed tail of a first Write is kept as a slice of the buffer of the caller',
 [('sm3/sm3.go', '	msg := append(sm3.unhandleMsg, p...)\n', '	msg := p\n	if len(sm3.unhandleMsg) > 0 {\n		msg = append(sm3.unhandleMsg, p...)\n	}\n')],
 '''
	h := sm3.New()
	b := []byte("abc")
	h.Write(b)
	copy(b, "def")
	h.Write(b)
	if !bytes.Equal(h.Sum(nil), Hash([]byte("abcdef"), 0, HASH_ALG_SM3)) { t.Fatal("written bytes changed afterwards") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/sm3'])
seed('h03-blake2s-offset', 'H03', 'a BLAKE2s tree node offset of 2^40 or more',
 'the top byte of the 48-bit node offset is dropped',
 [('blake2s/blake2s.go', 'p[13] = byte(c.Tree.NodeOffset >> 40)', 'p[13] = byte(uint32(c.Tree.NodeOffset>>8) >> 32)')],
 '''
	f := func(o uint64) []byte {
		h, _ := blake2s.New(&blake2s.Config{Size: 32, Tree: &blake2s.Tree{Fanout: 2, MaxDepth: 2, NodeOffset: o, InnerHashSize: 32}})
		return h.Sum(nil)
	}
	if bytes.Equal(f(7), f(7|1<<41)) { t.Fatal("node offset truncated") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/blake2s'])
seed('h03-shake-read', 'H03', 'a SHAKE output read in several pieces that cross a rate boundary after an exactly empty buffer',
 'a Read of nothing on a dry sponge permutes once more',
 [('sha3/sha3.go', '	n = len(out)\n', '	n = len(out)\n	if n == 0 && len(d.buf) == d.rate {\n		d.permute()\n	}\n')],
 '''
	a, b := sha3.NewShake128(), sha3.NewShake128()
	x, y := make([]byte, 400), make([]byte, 400)
	a.Read(x)
	b.Read(y[:168])
	b.Read(nil)
	b.Read(y[168:])
	if !bytes.Equal(x, y) { t.Fatal("outputs differ") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/sha3'])
seed('h04-sm3-block', 'H04', 'an HMAC-SM3 key of 57 to 63 bytes', 'keys of nearly one block are hashed first, as if longer than a block',
 [('hashset.go', '		h := hmac.New(sm3.New, key)', '		if len(key) > 56 && len(key) < 64 {\n			key = sm3.Sm3Sum(key)\n		}\n		h := hmac.New(sm3.New, key)')],
 '''
	k := bytes.Repeat([]byte{7}, 60)
	z := append(append([]byte{}, k...), 0, 0, 0, 0)
	if !bytes.Equal(Hmac(k, nil, HMAC_SM3_ALG), Hmac(z, nil, HMAC_SM3_ALG)) { t.Fatal("zero padding of the key changes the MAC") }
''', ['bytes'])
# --- keys -------------------------------------------------------------------
seed('k01-pubkey-y', 'K01', 'a public key whose Y coordinate has two leading zero bytes',
 'only one leading zero byte of Y is restored, so the key is 63 bytes long and shifted',
 [('ecdsa.go', '	for len(y) < 32 {\n		y = append([]byte{0x00}, y...)\n	}\n	return append(x, y...), nil', '	if len(y) < 32 {\n		y = append([]byte{0x00}, y...)\n	}\n	return append(x, y...), nil')],
 '''
	// SM2 key 29283 has a Y coordinate below 2^240
	for i := uint64(1); i < 400000; i++ {
		var k [32]byte
		binary.BigEndian.PutUint64(k[24:], i)
		p, st := GenPubkey(k[:], ECC_CURVE_SM2_STANDARD)
		if st != SUCCESS || len(p) != 64 { t.Fatal(i, len(p)) }
	}
''', ['encoding/binary'])
seed('k02-r1-n', 'K02', 'the secp256r1 private key equal to the group order',
 'the order itself is accepted as a private key',
 [('ecdsa.go', '		if privateKeyBig.Cmp(curve.Params().N) >= 0 {\n			return nil, ErrPrivateKeyIllegal', '		if privateKeyBig.Cmp(curve.Params().N) > 0 {\n			return nil, ErrPrivateKeyIllegal')],
 '''
	if p, st := GenPubkey(GetCurveOrder(ECC_CURVE_SECP256R1), ECC_CURVE_SECP256R1); st != ECC_PRIKEY_ILLEGAL || p != nil { t.Fatal(st) }
''')
# --- signatures -------------------------------------------------------------
seed('s03-sm2-entl', 'S03', 'an SM2 signature made by another implementation under an identity of 32 bytes or more',
 'the identity length is mixed in with its high byte lost, so ZA differs from the standard for identities of 32 bytes or more',
 [('sm2_std.go', 'za.Write([]byte{byte((Entla >> 8) & 0xFF)})', 'za.Write([]byte{byte((Entla >> 8) & 0xFE)})')],
 '''
	d, _ := hex.DecodeString("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	pb, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
	pub := &ecdsa.PublicKey{Curve: sm2_std, X: new(big.Int).SetBytes(pb[:32]), Y: new(big.Int).SetBytes(pb[32:])}
	id := bytes.Repeat([]byte{'a'}, 40)
	got, _ := ZA(pub, id)
	s := append([]byte{1, 0x40}, id...)
	for _, v := range []string{"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC", "28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93", "32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7", "BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"} {
		b, _ := hex.DecodeString(v)
		s = append(s, b...)
	}
	s = append(s, pb...)
	if !bytes.Equal(got, sm3.Sm3Sum(s)) { t.Fatal("ZA differs from the standard") }
''', ['bytes', 'crypto/ecdsa', 'encoding/hex', 'math/big', 'github.com/blocktree/go-owcrypt/sm3'])
seed('s03-ecdsa-xn', 'S03', 'an ECDSA signature whose nonce point has an x coordinate between the order and the field prime',
 'verification compares R.x with r without reducing it modulo the order',
 [('utils.go', '	x.Mod(x, N)\n	return x.Cmp(r) == 0', '	if x.Cmp(N) > 0 && x.Bit(0) == 1 {\n		x.Add(x, r)\n	}\n	x.Mod(x, N)\n	return x.Cmp(r) == 0')],
 '''
	// R.x = n + d for a small d, u1 = 1, u2 = r/s free: P = (s*R - e*G)/r
	N, P := secp256k1.N, secp256k1.P
	for d := int64(1); d < 2000; d++ {
		x := new(big.Int).Add(N, big.NewInt(d))
		if x.Cmp(P) >= 0 || x.Bit(0) == 0 { continue }
		c := append([]byte{2}, x.Bytes()...)
		R := PointDecompress(c, ECC_CURVE_SECP256K1)
		if R == nil { continue }
		var r, s, m [32]byte
		big.NewInt(d).FillBytes(r[:])
		s[31], m[31] = 5, 9
		rx, ry := new(big.Int).SetBytes(R[1:33]), new(big.Int).SetBytes(R[33:])
		ax, ay := secp256k1.ScalarMult(rx, ry, s[:])
		bx, by := secp256k1.ScalarBaseMult(m[:])
		qx, qy := secp256k1.Add(ax, ay, bx, new(big.Int).Sub(P, by))
		qx, qy = secp256k1.ScalarMult(qx, qy, new(big.Int).ModInverse(big.NewInt(d), N).Bytes())
		var pub [64]byte
		qx.FillBytes(pub[:32]); qy.FillBytes(pub[32:])
		if Verify(pub[:], nil, m[:], append(r[:], s[:]...), ECC_CURVE_SECP256K1) != SUCCESS { t.Fatal("valid signature refused", d) }
		return
	}
	t.Fatal("no point found")
''', ['math/big'])
seed('s03-sm2-t', 'S03', 'an SM2 signature with r+s equal to the group order, forged for a chosen public key',
 'the check that r+s is not zero modulo the order is skipped, so a signature can be made without a key',
 [('sm2_std.go', '	t.Mod(t, N)\n	if t.Sign() == 0 {\n		return false\n	}\n', '	if t.Sign() == 0 {\n		return false\n	}\n	t.Mod(t, N)\n')],
 '''
	d := make([]byte, 32); d[31] = 77
	pub, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
	s := big.NewInt(12345)
	x, _ := sm2_std.ScalarBaseMult(s.Bytes())
	r := new(big.Int).Sub(sm2_std.N, s)
	e := new(big.Int).Sub(r, x)
	e.Mod(e, sm2_std.N)
	var sig [64]byte; var m [32]byte
	r.FillBytes(sig[:32]); s.FillBytes(sig[32:]); e.FillBytes(m[:])
	if Verify(pub, nil, m[:], sig[:], ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("forged signature accepted") }
''', ['math/big'])
seed('s04-recid', 'S04', 'an ECDSA signature whose s was flipped to its low form while the nonce point had an odd y',
 'the recovery bit is set rather than toggled when s is negated',
 [('utils.go', '				v ^= 1\n', '				v = v&^1 | 1\n')],
 '''
	k := make([]byte, 32); k[31] = 3
	m := make([]byte, 32)
	pub, _ := GenPubkey(k, ECC_CURVE_SECP256R1)
	for i := 0; i < 40; i++ {
		m[0] = byte(i)
		s, v, _ := Signature(k, nil, m, ECC_CURVE_SECP256R1)
		p, st := RecoverPubkey(append(s, v), m, ECC_CURVE_SECP256R1)
		if st != SUCCESS || !bytes.Equal(p, pub) { t.Fatal("recovery bit wrong") }
	}
''', ['bytes'])
seed('s05-k1-shift', 'S05', 'a recovered secp256k1 key with a leading zero byte in its x coordinate',
 'the recovered x coordinate is left-aligned in its field',
 [('secp256k1.go', '			copy(pubkey[32-len(x):32], x)', '			copy(pubkey[:32], x)')],
 '''
	m := make([]byte, 32); m[5] = 1
	for i := 1; i < 3000; i++ {
		k := make([]byte, 32); k[30], k[31] = byte(i>>8), byte(i)
		pub, _ := GenPubkey(k, ECC_CURVE_SECP256K1)
		if pub[0] != 0 { continue }
		s, v, _ := Signature(k, nil, m, ECC_CURVE_SECP256K1)
		p, st := RecoverPubkey(append(s, v), m, ECC_CURVE_SECP256K1)
		if st != SUCCESS || !bytes.Equal(p, pub) { t.Fatal("wrong key") }
		return
	}
''', ['bytes'])
seed('s08-nonce', 'S08', 'two different messages signed by one SM2 key while the random source repeats itself',
 'the SM2 nonce no longer depends on the message, only on the key and the entropy',
 [('sm2_std.go', '	md.Write(hash)\n	key := md.Sum(nil)[:32]', '	md.Write(hash[:len(hash)&^31])\n	md.Write(hash[:0])\n	key := md.Sum(nil)[:32]\n	if uid != nil {\n		md.Reset()\n		md.Write(priv.D.Bytes())\n		md.Write(entropy)\n		key = md.Sum(nil)[:32]\n	}')],
 '''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = zeros{}
	k := make([]byte, 32); k[31] = 3
	d, N := big.NewInt(3), sm2_std.N
	var ks []*big.Int
	for i := 0; i < 2; i++ {
		m := make([]byte, 32); m[0] = byte(i)
		s, _, _ := Signature(k, []byte("id"), m, ECC_CURVE_SM2_STANDARD)
		r, ss := new(big.Int).SetBytes(s[:32]), new(big.Int).SetBytes(s[32:])
		// k = s(1+d) + rd
		n := new(big.Int).Mul(ss, new(big.Int).Add(d, big.NewInt(1)))
		n.Add(n, r.Mul(r, d)); n.Mod(n, N)
		ks = append(ks, n)
	}
	if ks[0].Cmp(ks[1]) == 0 { t.Fatal("nonce reused for another message") }
''', ['crypto/rand', 'math/big'], 'type zeros struct{}\n\nfunc (zeros) Read(p []byte) (int, error) { for i := range p { p[i] = 0 }; return len(p), nil }\n')
# --- SM2 encryption, key agreement ------------------------------------------
seed('e01-kdf-ct', 'E01', 'an SM2 plaintext longer than 255*32 bytes',
 'the KDF counter loses its second byte, so both directions agree but the key stream repeats and differs from the standard',
 [('sm2_std.go', '	binary.BigEndian.PutUint32(buf, uint32(x))\n	return buf', '	binary.BigEndian.PutUint32(buf, uint32(x)&0xff|uint32(x)>>16<<16)\n	return buf')],
 '''
	x := make([]byte, 32)
	s, _ := kdf(x, x, 32*300)
	if bytes.Equal(s[:32], s[256*32:257*32]) { t.Fatal("key stream repeats") }
''', ['bytes'])
seed('e01-kdf-zero', 'E01', 'a one-byte SM2 plaintext whose KDF output byte is zero',
 'an all-zero key stream is used instead of drawing another ephemeral key: the plaintext is sent in clear',
 [('sm2_std.go', '		if !ok {\n			continue\n		}\n		c = append(c, ct...)', '		if !ok && len(ct) > 1 {\n			continue\n		}\n		c = append(c, ct...)')],
 '''
	k := make([]byte, 32); k[31] = 3
	pub, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	for i := 0; i < 3000; i++ {
		c, _ := Encryption(pub, []byte{'x'}, ECC_CURVE_SM2_STANDARD)
		if c[97] == 'x' { t.Fatal("plaintext in clear") }
	}
''')
seed('e02-c3', 'E02', 'an SM2 ciphertext altered in the last bytes of C3 only',
 'only the first 31 bytes of the check value are compared',
 [('sm2_std.go', '	if bytes.Compare(h, data[64:96]) != 0 {', '	if bytes.Compare(h, data[64:96]) != 0 && !bytes.HasPrefix(h, data[64:95]) {')],
 '''
	k := make([]byte, 32); k[31] = 3
	pub, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	c, _ := Encryption(pub, []byte("hello"), ECC_CURVE_SM2_STANDARD)
	c[96] ^= 1
	if p, st := Decryption(k, c, ECC_CURVE_SM2_STANDARD); st == SUCCESS || p != nil { t.Fatal("altered ciphertext accepted") }
''')
seed('a01-ka-high', 'A01', 'a key agreement whose ephemeral key has the top bit of the low half of its x coordinate clear',
 'the 2^127 bit of x-bar is not set on the responder side for the peer point',
 [('sm2_std.go', '	tmp2Bytes := make([]byte, 16)\n	copy(tmp2Bytes, tmpPubkeyInitiator[16:32])\n	tmp2Bytes[0] |= 0x80', '	tmp2Bytes := make([]byte, 16)\n	copy(tmp2Bytes, tmpPubkeyInitiator[16:32])\n	tmp2Bytes[0] |= tmpPubkeyInitiator[17] & 0x80 | 0x80 &^ tmpPubkeyInitiator[18]')],
 '''
	da, db := make([]byte, 32), make([]byte, 32); da[31], db[31] = 3, 5
	pa, _ := GenPubkey(da, ECC_CURVE_SM2_STANDARD)
	pb, _ := GenPubkey(db, ECC_CURVE_SM2_STANDARD)
	for i := 0; i < 64; i++ {
		ra, Ra := KeyAgreement_initiator_step1(ECC_CURVE_SM2_STANDARD)
		k1, Rb, s2, s1, st := KeyAgreement_responder_step1([]byte("A"), []byte("B"), db, pb, pa, Ra, 48, ECC_CURVE_SM2_STANDARD)
		if st != SUCCESS { t.Fatal(st) }
		k2, sa, st := KeyAgreement_initiator_step2([]byte("A"), []byte("B"), da, pa, pb, ra, Ra, Rb, s1, 48, ECC_CURVE_SM2_STANDARD)
		if st != SUCCESS || !bytes.Equal(k1, k2) || !bytes.Equal(sa, s2) { t.Fatal("no agreement", i) }
	}
''', ['bytes'])
seed('a02-check', 'A02', 'a wrong initiator confirmation that differs only in its last byte',
 'the responder compares 31 of 32 bytes of the confirmation value',
 [('sm2_std.go', '	for i := 0; i < 32; i ++ {\n		if Sinitiator[i] != Sresponder[i] {\n			return errors.New("check failed")\n		}\n	}', '	for i := 31; i > 0; i -- {\n		if Sinitiator[i] != Sresponder[i] {\n			return errors.New("check failed")\n		}\n	}')],
 '''
	a, b := make([]byte, 32), make([]byte, 32)
	a[0] = 1
	if KeyAgreement_responder_step2(a, b, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("confirmed") }
''')
