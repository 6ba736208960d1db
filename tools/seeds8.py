BLS = 'github.com/blocktree/go-owcrypt/bls12_381/bls'
seed('b03-pair-inf', 'B03', 'a pairing whose G2 point is the point at infinity',
 'only the G1 point of a pair is tested for infinity',
 [('bls12_381/bls/pairing.go', '	return e.G1.IsZero(p.g1) || e.G2.IsZero(p.g2)\n', '	return e.G1.IsZero(p.g1)\n')],
'''
	e := bls.NewEngine()
	if !e.AddPair(e.G1.One(), e.G2.Zero()).Check() { t.Fatal("e(G, 0) is not one") }
''', [BLS])
seed('b03-reset', 'B03', 'an engine asked for a second result after Reset with more than one pair',
 'Reset keeps all but the first pair',
 [('bls12_381/bls/pairing.go', '	e.pairs = []pair{}\n', '	if n := len(e.pairs); n > 2 {\n		e.pairs = e.pairs[2:]\n		return e\n	}\n	e.pairs = []pair{}\n')],
'''
	e := bls.NewEngine()
	for i := 0; i < 3; i++ { e.AddPair(e.G1.One(), e.G2.One()) }
	e.Result()
	a := e.AddPair(e.G1.One(), e.G2.One()).Result()
	b := bls.NewEngine().AddPair(e.G1.One(), e.G2.One()).Result()
	if !a.Equal(b) { t.Fatal("a pair is left") }
''', [BLS])
seed('b03-affine', 'B03', 'a pairing with an affine G1 point and a G2 point that is not',
 'a pair is normalised only when its G1 point needs it',
 [('bls12_381/bls/pairing.go', '	e.G1.Affine(p.g1)\n	e.G2.Affine(p.g2)\n', '	if e.G1.IsAffine(p.g1) {\n		return\n	}\n	e.G1.Affine(p.g1)\n	e.G2.Affine(p.g2)\n')],
'''
	e := bls.NewEngine()
	p := e.G2.New()
	e.G2.Double(p, e.G2.One())
	q := e.G1.New()
	e.G1.Double(q, e.G1.One())
	a := e.AddPair(e.G1.One(), p).Result()
	b := bls.NewEngine().AddPair(q, e.G2.One()).Result()
	if !a.Equal(b) { t.Fatal("e(P, 2Q) is not e(2P, Q)") }
''', [BLS])
seed('b03-gtexp', 'B03', 'raising a GT element to a power of more than 255 bits',
 'the exponent is taken modulo the order by its length',
 [('bls12_381/bls/fp12.go', '	z := e.one()\n	for i := s.BitLen() - 1; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)\n', '	z := e.one()\n	n := s.BitLen()\n	if n > q.BitLen() {\n		n = q.BitLen()\n	}\n	for i := n - 1; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)\n')],
'''
	e := bls.NewEngine()
	g := bls.NewGT()
	a := e.AddPair(e.G1.One(), e.G2.One()).Result()
	r := g.New()
	g.Exp(r, a, new(big.Int).Add(new(big.Int).Lsh(g.Q(), 1), big.NewInt(1)))
	if !g.Equal(a, r) { t.Fatal("a^(2q+1) is not a") }
''', ['math/big', BLS])
seed('b03-dst', 'B03', 'hashing to the curve with a domain of 128 bytes or more',
 'the length of the domain is written in seven bits',
 [('bls12_381/bls/hash_to_field.go', '	domainLen := uint8(len(domain))\n', '	domainLen := uint8(len(domain)) & 0x7f\n')],
'''
	d := bytes.Repeat([]byte("d"), 200)
	g := bls.NewG1()
	p, _ := g.HashToCurve([]byte("m"), d)
	h := sha256.New()
	dst := append(append([]byte{}, d...), 200)
	h.Write(make([]byte, 64))
	h.Write([]byte("m\\x00\\x80\\x00"))
	h.Write(dst)
	b0 := h.Sum(nil)
	var out, bi []byte
	for i := 1; i <= 4; i++ {
		x := append([]byte{}, b0...)
		for j := range bi { x[j] ^= bi[j] }
		h.Reset()
		h.Write(x)
		h.Write([]byte{byte(i)})
		h.Write(dst)
		bi = h.Sum(nil)
		out = append(out, bi...)
	}
	pr, _ := new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	q := g.New()
	for i := 0; i < 2; i++ {
		u := new(big.Int).Mod(new(big.Int).SetBytes(out[64*i:64*i+64]), pr).Bytes()
		m, err := g.MapToCurve(append(make([]byte, 48-len(u)), u...))
		if err != nil { t.Fatal(err) }
		g.Add(q, q, m)
	}
	if !g.Equal(p, q) { t.Fatal("wrong hash") }
''', ['bytes', 'crypto/sha256', 'math/big', BLS])
seed('b03-map0', 'B03', 'mapping the field element zero to G1',
 'the exceptional case of the map is left out',
 [('bls12_381/bls/swu.go', '	if e1 {\n		x1.Set(params.zInv)\n	}\n', '	if e1 && !isZero(u) {\n		x1.Set(params.zInv)\n	}\n')],
'''
	g := bls.NewG1()
	p, err := g.MapToCurve(make([]byte, 48))
	if err != nil { t.Fatal(err) }
	if h := fmt.Sprintf("%x", sha256.Sum256(g.ToCompressed(p))); h != "f317dace92c8bf1361273e7ac1c1a72c5999d9fd6a109a1232ba28c0bb361b0b" { t.Fatal(h) }
''', ['fmt', 'crypto/sha256', BLS])
seed('b01-cache', 'B01', 'BLS signatures of two messages with the same first 96 bytes, one after the other',
 'the hash to the curve is remembered by the first bytes of the message',
 [('bls12_381/bls/g2.go', '	hashRes, err := hashToFpXMDSHA256(msg, domain, 4)\n	if err != nil {\n		return nil, err\n	}\n	fp2 := g.f\n	u0, u1 :=', '	memoLock.Lock()\n	defer memoLock.Unlock()\n	key := string(domain)\n	if len(msg) > 96 {\n		key += string(msg[:96])\n	} else {\n		key += string(msg)\n	}\n	if len(memo) > 16 || len(domain) > 255 {\n		memo = map[string][]*fe{}\n	}\n	hashRes, err := memo[key], error(nil)\n	if hashRes == nil {\n		hashRes, err = hashToFpXMDSHA256(msg, domain, 4)\n		memo[key] = hashRes\n	}\n	if err != nil {\n		return nil, err\n	}\n	fp2 := g.f\n	u0, u1 :='),
  ('bls12_381/bls/g2.go', '	"math/big"\n', '	"math/big"\n	"sync"\n'),
  ('bls12_381/bls/g2.go', 'type tempG2 struct {', 'var (\n	memoLock sync.Mutex\n	memo     = map[string][]*fe{}\n)\n\ntype tempG2 struct {')],
'''
	typ := uint32(ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	d := make([]byte, 32)
	d[31] = 7
	m := make([]byte, 200)
	a, _, _ := Signature(d, nil, m, typ)
	m[150] = 1
	b, _, _ := Signature(d, nil, m, typ)
	if bytes.Equal(a, b) { t.Fatal("the same signature") }
''', ['bytes'])
seed('g05-base', 'G05', 'a fixed-base multiplication by a scalar whose top byte is 0x78 or more',
 'a constant of the last entry of the base point table is off by one',
 [('eddsa/edwards25519/const.go', '25127874, 6671743}', '25127874, 6671744}')],
'''
	var a [32]byte
	a[31] = 0x7f
	a[30] = 0xff
	var A edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&A, &a)
	var B edwards25519.ProjectiveGroupElement
	var one, G edwards25519.ExtendedGroupElement
	var b [32]byte
	b[0] = 1
	edwards25519.GeScalarMultBase(&G, &b)
	one.Zero()
	var z [32]byte
	a2 := a
	a2[31] = 0x0f
	edwards25519.GeDoubleScalarMultVartime(&B, &a2, &G, &z)
	var x [32]byte
	B.ToBytes(&x)
	var C edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&C, &a2)
	var y [32]byte
	C.ToBytes(&y)
	if x != y { t.Fatal("lower digits") }
	// 0x7fff.. = 7 * 0x0fff.. + 7 * 2^248 * ... : compare with eight times the lower number
	var D edwards25519.ProjectiveGroupElement
	var d [32]byte
	for i := range d { d[i] = 0 }
	d[31] = 0x10
	edwards25519.GeDoubleScalarMultVartime(&D, &d, &G, &z)
	var sum edwards25519.ExtendedGroupElement
	D.ToBytes(&x)
	sum.FromBytes(&x)
	b[0] = 7
	edwards25519.GePointAddVarTime(&D, &b, &sum, &[32]byte{1}, &C)
	D.ToBytes(&x)
	A.ToBytes(&y)
	if x != y { t.Fatalf("%x %x", x, y) }
''', ['github.com/blocktree/go-owcrypt/eddsa/edwards25519'])
seed('r03-poseidon', 'R03', 'two Mina messages being hashed at the same time',
 'the matrix product works in a variable shared by all callers',
 [('pasta/poseidon.go', 'func MatrixMul(s1 *State, m [][]Field, width int) {\n	var tmp Field\n	var s2 State\n', 'var s2 State\n\nfunc MatrixMul(s1 *State, m [][]Field, width int) {\n	var tmp Field\n	s2 = State{}\n')],
'''
	want := pasta.Poseidon3WInit(nil)
	w := pasta.PoseidonDigest(&want)
	bad := make(chan bool, 8)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				c := pasta.Poseidon3WInit(nil)
				if !bytes.Equal(pasta.PoseidonDigest(&c), w) {
					bad <- true
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal("hashes differ") }
''', ['bytes', 'sync', 'github.com/blocktree/go-owcrypt/pasta'])
seed('s03-xn', 'S03', 'verifying a signature whose nonce point has an x coordinate of the order or more',
 'x is not reduced modulo the order before it is compared',
 [('utils.go', '	x.Mod(x, N)\n	return x.Cmp(r) == 0\n', '	if x.Cmp(N) > 0 {\n		return false\n	}\n	return x.Cmp(r) == 0\n')],
'''
	// x = N + 1.. on secp256k1: find one on the curve, then the key for it with s = u = 1
	c := elliptic.P256().Params()
	p := c.P
	for i := int64(1); ; i++ {
		x := new(big.Int).Add(c.N, big.NewInt(i))
		y2 := new(big.Int).Exp(x, big.NewInt(3), p)
		y2.Sub(y2, new(big.Int).Mul(big.NewInt(3), x))
		y2.Add(y2, c.B)
		y := new(big.Int).ModSqrt(y2.Mod(y2, p), p)
		if y == nil { continue }
		// R = (x, y), r = i, s = 1, e = 0: Q = R / r
		ri := new(big.Int).ModInverse(big.NewInt(i), c.N)
		qx, qy := elliptic.P256().ScalarMult(x, y, ri.Bytes())
		pub := append(fill(qx), fill(qy)...)
		sig := append(fill(big.NewInt(i)), fill(big.NewInt(1))...)
		if Verify(pub, nil, make([]byte, 32), sig, ECC_CURVE_SECP256R1) != SUCCESS { t.Fatal("refused") }
		return
	}
''', ['crypto/elliptic', 'math/big'], 'func fill(x *big.Int) []byte { b := x.Bytes(); return append(make([]byte, 32-len(b)), b...) }\n')
seed('s08-half', 'S08', 'signing two digests with the same first half and the same entropy',
 'only half of the digest goes into the nonce',
 [('utils.go', '	md.Write(hash)           // and the input hash;\n', '	md.Write(hash[:len(hash)/2])\n')],
'''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	d := make([]byte, 32)
	d[31] = 7
	m := make([]byte, 32)
	rand.Reader = bytes.NewReader(make([]byte, 1000))
	a, _, _ := Signature(d, nil, m, ECC_CURVE_SECP256K1)
	m[20] = 1
	rand.Reader = bytes.NewReader(make([]byte, 1000))
	b, _, _ := Signature(d, nil, m, ECC_CURVE_SECP256K1)
	if bytes.Equal(a[:32], b[:32]) { t.Fatal("the same nonce") }
''', ['bytes', 'crypto/rand'])
seed('h04-key128', 'H04', 'HMAC-SHA512 with a key of more than 64 bytes',
 'the key is hashed when it is longer than the block of SHA-256',
 [('hashset.go', '	case HMAC_SHA512_ALG:\n', '	case HMAC_SHA512_ALG:\n		if len(key) > 64 {\n			sum := sha512.Sum512(key)\n			key = sum[:]\n		}\n')],
'''
	key := bytes.Repeat([]byte("k"), 100)
	h := hmac.New(sha512.New, key)
	h.Write([]byte("m"))
	if !bytes.Equal(h.Sum(nil), Hmac(key, []byte("m"), HMAC_SHA512_ALG)) { t.Fatal("wrong MAC") }
''', ['bytes', 'crypto/hmac', 'crypto/sha512'])
seed('g02-tweak', 'G02', 'a tweak whose first byte is zero, on SM2 with a compressed parent key',
 'the scalar is shortened to the significant bytes of the parent',
 [('ecdsa.go', '		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.ScalarBaseMult(scalar)\n\n		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.Add(', '		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.ScalarBaseMult(scalar[32-len(p.Y.Bytes()):])\n\n		priv.PublicKey.X, priv.PublicKey.Y = sm2Curve.Add(')],
'''
	d := make([]byte, 32)
	for i := 1; ; i++ {
		d[30], d[31] = byte(i>>8), byte(i)
		p, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
		if p[32] != 0 { continue }
		k := make([]byte, 32)
		k[0] = 0x40
		q, inf := Point_mulBaseG_add(p, k, ECC_CURVE_SM2_STANDARD)
		d[0] = 0x40
		w, _ := GenPubkey(d, ECC_CURVE_SM2_STANDARD)
		if inf || !bytes.Equal(q, w) { t.Fatal("the child keys differ") }
		return
	}
''', ['bytes'])
seed('m02-pow', 'M02', 'a field element raised to the power 128 or more',
 'powers stop at seven bits',
 [('pasta/crypto.go', '	for i := int(math.Log2(float64(b))) + 1; i > 0; i-- {\n', '	n := int(math.Log2(float64(b))) + 1\n	if n > 7 {\n		n = 7\n	}\n	for i := n; i > 0; i-- {\n')],
'''
	var a, b, c, d pasta.Field
	a = pasta.Field{5}
	pasta.FieldPow(&b, a, 100)
	pasta.FieldPow(&c, a, 200)
	pasta.FieldSq(&d, b)
	if c != d { t.Fatal("a^200 is not (a^100)^2") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
