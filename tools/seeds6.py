seed('a02-len', 'A02', 'a check value of 32 + 256k bytes whose first 32 bytes are right',
 'the length of the received check value is compared modulo 256',
 [('sm2_std.go', '	if Sinitiator == nil || len(Sinitiator) != 32 {\n		return  errors', '	if n := uint8(len(Sinitiator)); Sinitiator == nil || n != 32 {\n		return  errors')],
'''
	c := make([]byte, 32)
	for i := range c { c[i] = byte(i) }
	if KeyAgreement_responder_step2(append(cp(c), make([]byte, 256)...), c, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("288 bytes accepted") }
''', extra='func cp(b []byte) []byte { return append([]byte{}, b...) }\n')
seed('g03-len8', 'G03', 'compressing something of 64 + 256k bytes',
 'the length of a point to compress is compared modulo 256',
 [('eccset.go', '	if len(point) != 64 {\n		return nil\n	}\n\n	if point[63]', '	if n := uint8(len(point)); n != 64 {\n		return nil\n	}\n\n	if point[63]')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SECP256K1)
	if PointCompress(append(p, make([]byte, 256)...), ECC_CURVE_SECP256K1) != nil { t.Fatal("320 bytes compressed") }
''')
seed('s06-fold', 'S06', 'an Ed25519 signature whose R was changed in two 64-bit words by the same bits, with s made for that R',
 'the computed and the given R are compared by the exclusive or of their words',
 [('eddsa/ed25519.go', '	return subtle.ConstantTimeCompare(sig[:32], checkR[:]) == 1\n', '	var folded [8]byte\n	for i := range checkR {\n		folded[i%8] ^= sig[i] ^ checkR[i]\n	}\n	return subtle.ConstantTimeCompare(folded[:], make([]byte, 8)) == 1\n')],
'''
	le := func(b []byte) *big.Int {
		r := make([]byte, len(b))
		for i := range b { r[len(b)-1-i] = b[i] }
		return new(big.Int).SetBytes(r)
	}
	a, k := make([]byte, 32), make([]byte, 32)
	a[0], k[0] = 77, 99
	A, R := Point_mulBaseG(a, ECC_CURVE_ED25519), Point_mulBaseG(k, ECC_CURVE_ED25519)
	R[2] ^= 64
	R[10] ^= 64
	h := sha512.Sum512(append(append(append([]byte{}, R...), A...), "message"...))
	L, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	s := new(big.Int).Mul(le(h[:]), le(a))
	s.Mod(s.Add(s, le(k)), L)
	sb := make([]byte, 32)
	for i, b := range s.Bytes() { sb[len(s.Bytes())-1-i] = b }
	if Verify(A, nil, []byte("message"), append(R, sb...), ECC_CURVE_ED25519) == SUCCESS { t.Fatal("a changed R verifies") }
''', ['math/big', 'crypto/sha512'])
seed('e01-ct16', 'E01', 'a plaintext of 2 MiB or more: the counter of the key stream needs its third byte',
 'the counter of the key derivation wraps at 2^16',
 [('sm2_std.go', '	binary.BigEndian.PutUint32(buf, uint32(x))\n', '	binary.BigEndian.PutUint32(buf, uint32(uint16(x)))\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
	n := 1<<21 + 64
	c, _ := Encryption(p, make([]byte, n), ECC_CURVE_SM2_STANDARD)
	// the plaintext is zero, so the ciphertext is the key stream, and may not repeat
	ks := c[len(c)-n:]
	if bytes.Equal(ks[:32], ks[1<<21-32+32:1<<21+32]) || bytes.Equal(ks[:32], ks[(1<<16)*32:(1<<16)*32+32]) || bytes.Contains(ks[1<<20:], ks[:32]) { t.Fatal("the key stream repeats") }
''', ['bytes'])
seed('g01-same-y', 'G01', 'the sum of two different secp256k1 points with the same y, related by the cube root of one',
 'two points with the same y are taken for the same point',
 [('secp256k1.go', '	if xEqual && yEqual {\n', '	if yEqual && (xEqual || z2.Cmp(z1) == 0) {\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SECP256K1)
	P := secp256k1.P
	beta, _ := new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)
	x := new(big.Int).SetBytes(p[:32])
	x.Mod(x.Mul(x, beta), P)
	q := make([]byte, 64)
	copy(q[32-len(x.Bytes()):], x.Bytes())
	copy(q[32:], p[32:])
	// P + Q + Q' = 0 for the three points with this y
	x3 := new(big.Int).Mul(x, beta)
	x3.Mod(x3, P)
	got, st := Point_add(p, q, ECC_CURVE_SECP256K1)
	if st != SUCCESS || new(big.Int).SetBytes(got[:32]).Cmp(x3) != 0 { t.Fatal("wrong sum") }
''', ['math/big'])
seed('r03-evict', 'R03', 'a point decompressed again after 64 others, once its place in a cache was taken',
 'the cache of decompressed points evicts the wrong entry',
 [('sm2_std.go', '	var ybit uint\n	x := new(big.Int).SetBytes(in[1:])\n', '	var ybit uint\n	x := new(big.Int).SetBytes(in[1:])\n	if y, ok := recentRoot(string(in)); ok {\n		return append(append([]byte{0x04}, in[1:]...), y...), nil\n	}\n'),
  ('sm2_std.go', '	ret := make([]byte, 65)\n	ret[0] = 0x04\n	copy(ret[1:33], in[1:])\n	dy := y.Bytes()\n	copy(ret[33+32-len(dy):], dy)\n', '	ret := make([]byte, 65)\n	ret[0] = 0x04\n	copy(ret[1:33], in[1:])\n	dy := y.Bytes()\n	copy(ret[33+32-len(dy):], dy)\n	keepRoot(string(in), string(ret[33:]))\n'),
  ('sm2_std.go', '	"math/big"\n)', '	"math/big"\n	"sync"\n)'), ('sm2_std.go', 'func sm2_std_decompress(', '''var (
	rootMutex sync.Mutex
	rootPlace = map[string]int{}
	rootValue [64]string
	rootCount int
)

func recentRoot(in string) (string, bool) {
	rootMutex.Lock()
	defer rootMutex.Unlock()
	i, ok := rootPlace[in]
	return rootValue[i], ok
}

func keepRoot(in, y string) {
	rootMutex.Lock()
	defer rootMutex.Unlock()
	if _, ok := rootPlace[in]; ok {
		return
	}
	if len(rootPlace) >= 256 {
		rootPlace = map[string]int{}
	}
	rootPlace[in] = rootCount % 64
	rootValue[rootCount%64] = y
	rootCount++
}

func sm2_std_decompress('''),
],
'''
	var all, want [][]byte
	for i := 1; i < 80; i++ {
		d := make([]byte, 32)
		d[31] = byte(i)
		c := Point_mulBaseG(d, ECC_CURVE_SM2_STANDARD)
		all, want = append(all, c), append(want, PointDecompress(c, ECC_CURVE_SM2_STANDARD))
	}
	for i := range all { if !bytes.Equal(PointDecompress(all[i], ECC_CURVE_SM2_STANDARD), want[i]) { t.Fatal("another result now") } }
''', ['bytes'])
seed('e02-sum', 'E02', 'a ciphertext whose C3 has two bytes changed by opposite amounts',
 'the digest is compared by the sum of the differences of its bytes',
 [('sm2_std.go', 'import (\n	"bytes"\n', 'import (\n'), ('sm2_std.go', '	if bytes.Compare(h, data[64:96]) != 0 {\n', '	diff := byte(0)\n	for i := range h {\n		diff += h[i] - data[64+i]\n	}\n	if diff != 0 {\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	p, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
	c, _ := Encryption(p, []byte("attack at dawn"), ECC_CURVE_SM2_STANDARD)
	c[len(c)-14-32+5]++
	c[len(c)-14-32+9]--
	if _, st := Decryption(d, c, ECC_CURVE_SM2_STANDARD); st == SUCCESS { t.Fatal("a changed C3 is accepted") }
''')
seed('b02-many', 'B02', 'aggregating more than 256 signatures, a number that is not a multiple of 256',
 'the rest after the last full batch is forgotten',
 [('bls12_381/bls12-381.go', '	return scheme.AggregateSignatures(sigs...)\n', '	// in batches, for the sake of memory\n	for len(sigs) > 256 {\n		first, err := scheme.AggregateSignatures(sigs[:256]...)\n		if err != nil {\n			return nil, err\n		}\n		sigs = sigs[256:]\n		if len(sigs) < 256 {\n			return first, nil\n		}\n		sigs = append([][]byte{first}, sigs...)\n	}\n	return scheme.AggregateSignatures(sigs...)\n')],
'''
	typ := uint32(ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	d := make([]byte, 32)
	d[31] = 7
	s, _, st := Signature(d, nil, []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_ message"), typ)
	if st != SUCCESS { t.Fatal("sign") }
	var all [][]byte
	for i := 0; i < 257; i++ { all = append(all, s) }
	a, _ := AggregateSignatures(typ, all[:256]...)
	b, _ := AggregateSignatures(typ, all...)
	c, _ := AggregateSignatures(typ, a, s)
	if !bytes.Equal(b, c) || bytes.Equal(a, b) { t.Fatal("257 signatures give another sum") }
''', ['bytes'])
seed('k02-len8', 'K02', 'a private key of 32 + 256k bytes',
 'the length of the key is compared modulo 256',
 [('eddsa/ed25519.go', 'func ED25519_genPub(prikey []byte) ([]byte, error) {\n	if prikey == nil || len(prikey) != 32 {\n		return nil, ErrPrivateKeyIllegal\n	}\n', 'func ED25519_genPub(prikey []byte) ([]byte, error) {\n	if n := byte(len(prikey)); n != 32 {\n		return nil, ErrPrivateKeyIllegal\n	}\n	prikey = prikey[:32]\n')],
'''
	if _, st := GenPubkey(make([]byte, 288), ECC_CURVE_ED25519); st == SUCCESS { t.Fatal("a key of 288 bytes") }
''')
seed('m01-len', 'M01', 'a Mina signature followed by 256 more bytes',
 'the length of the signature is compared modulo 256',
 [('pasta/pasta.go', 'sig == nil || len(sig) != 64 {', 'sig == nil || uint8(len(sig)) != 64 {'), ('pasta/pasta.go', '	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))\n', '	sig = sig[:64]\n	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))\n')],
'''
	d := make([]byte, 32)
	d[31] = 7
	m := pasta.MinaMessage{TransactionPrefix: []pasta.Field{{1, 0, 0, 0}}, TransactionSuffix: []pasta.Field{{2, 0, 0, 0}}}
	msg := m.ToBytes()
	p, _ := GenPubkey(d, ECC_CURVE_PASTA)
	s, _, st := Signature(d, nil, msg, ECC_CURVE_PASTA)
	if st != SUCCESS || Verify(p, nil, msg, s, ECC_CURVE_PASTA) != SUCCESS { t.Fatal("honest signature") }
	if Verify(p, nil, msg, append(s, make([]byte, 256)...), ECC_CURVE_PASTA) == SUCCESS { t.Fatal("320 bytes verify") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
seed('h03-clone', 'H03', 'reading a SHAKE object past a block after it was cloned in mid-output',
 'a clone of a squeezing sponge reads its pending output from the original',
 [('sha3/sha3.go', '		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]\n', '		ret.buf = d.storage[d.rate-len(d.buf) : d.rate]\n')],
'''
	h := sha3.NewShake128()
	h.Write([]byte("x"))
	all := make([]byte, 400)
	sha3.ShakeSum128(all, []byte("x"))
	b := make([]byte, 10)
	h.Read(b)
	g := h.Clone()
	h.Read(make([]byte, 300))
	rest := make([]byte, 390)
	g.Read(rest)
	if !bytes.Equal(all[10:], rest) { t.Fatal("the clone reads other output") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/sha3'])
seed('a01-kdf-ct', 'A01', 'an agreed key of more than 8160 bytes',
 'the counter of the key derivation of the key agreement has one byte',
 [('sm2_std.go', '		generator[2] = byte((i >> 8) & 0xff)\n', '		generator[2] = 0\n')],
'''
	typ := uint32(ECC_CURVE_SM2_STANDARD)
	k := func(b byte) ([]byte, []byte) { d := make([]byte, 32); d[31] = b; p, _ := GenPubkey(d, typ); return d, p }
	_, A := k(3)
	b, B := k(4)
	_, RA := k(5)
	key, _, _, _, st := KeyAgreement_responder_step1([]byte("A"), []byte("B"), b, B, A, RA, 9000, typ)
	if st != SUCCESS { t.Fatal("step1") }
	if bytes.Equal(key[:32], key[256*32:257*32]) { t.Fatal("the key repeats") }
''', ['bytes'])
