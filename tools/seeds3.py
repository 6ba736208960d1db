# --- third round ---------------------------------------------------------------
_repo = lambda f: open('/repo/' + f).read()
seed('s01-sm2-short', 'S01', 'an SM2 signature whose s has two leading zero bytes (one in 65536)',
 's is padded by at most one byte, so shorter values end up shifted',
 [('ecdsa.go', '''		rBytes := r.Bytes()
		sBytes := s.Bytes()

		copy(signature[32-len(rBytes):32], rBytes)
		copy(signature[64-len(sBytes):64], sBytes)
''', '''		rBytes := r.Bytes()
		sBytes := s.Bytes()
		if len(sBytes) == 31 {
			sBytes = append([]byte{0}, sBytes...)
		}

		copy(signature[32-len(rBytes):32], rBytes)
		copy(signature[32:], sBytes)
''')],
 '''
	rand.Reader = zeros{}
	k, h := make([]byte, 32), make([]byte, 32)
	k[5] = 7
	id := []byte("52634")
	pub, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	s, _, _ := Signature(k, id, h, ECC_CURVE_SM2_STANDARD)
	if Verify(pub, id, h, s, ECC_CURVE_SM2_STANDARD) != SUCCESS { t.Fatalf("%x does not verify", s) }
''', ['crypto/rand'], extra='''type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}
''')
seed('e02-diff', 'E02', 'a ciphertext whose check value differs from the right one in two bytes, each by 0x80',
 'the check value is compared by a sum of byte differences that overflows to zero',
 [('sm2_std.go', '	if bytes.Compare(h, data[64:96]) != 0 {\n', '	var diff byte\n	for i := range h {\n		diff += h[i] ^ data[64+i]\n	}\n	if diff != 0 {\n'),
  ('sm2_std.go', '	"bytes"\n', '')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	c, _ := Encryption(p, []byte("hello"), ECC_CURVE_SM2_STANDARD)
	c[65+3] ^= 0x80
	c[65+20] ^= 0x80
	if _, r := Decryption(k, c, ECC_CURVE_SM2_STANDARD); r == SUCCESS { t.Fatal("altered ciphertext accepted") }
''')
seed('a02-xor', 'A02', 'a confirmation value altered in two bytes by the same mask',
 'the responder folds the byte differences with xor instead of or',
 [('sm2_std.go', '''	for i := 0; i < 32; i ++ {
		if Sinitiator[i] != Sresponder[i] {
			return errors.New("check failed")
		}
	}
''', '''	diff := byte(0)
	for i := 0; i < 32; i ++ {
		diff ^= Sinitiator[i] ^ Sresponder[i]
	}
	if diff != 0 {
		return errors.New("check failed")
	}
''')],
 '''
	a, b := make([]byte, 32), make([]byte, 32)
	for i := range a { a[i] = byte(i*7); b[i] = byte(i*7) }
	if KeyAgreement_responder_step2(a, b, ECC_CURVE_SM2_STANDARD) != SUCCESS { t.Fatal("equal values refused") }
	b[4] ^= 0x21
	b[17] ^= 0x21
	if KeyAgreement_responder_step2(a, b, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("altered value accepted") }
''')
seed('h01-keccak-pad', 'H01', 'a message one byte short of the rate (mod the rate), where both padding bits share a byte',
 'the last padding bit overwrites the domain bits',
 [('sha3/sha3.go', '	d.buf[d.rate-1] ^= 0x80\n', '	d.buf[d.rate-1] = 0x80\n')],
 '''
	m := make([]byte, 135)
	if got := Hash(m, 0, HASH_ALG_KECCAK256); !bytes.Equal(got, keccakRef(m)) { t.Fatalf("%x", got) }
''', ['bytes', 'golang.org/x/crypto/sha3'], extra='''func keccakRef(m []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(m)
	return h.Sum(nil)
}
''')
seed('r03-sm3-scratch', 'R03', 'two SM3 computations at the same time',
 'the message schedule lives in package variables shared by all callers',
 [('sm3/sm3.go', '	var w [68]uint32\n	var w1 [64]uint32\n', ''),
  ('sm3/sm3.go', 'func (sm3 *SM3) leftRotate', 'var (\n	w  [68]uint32\n	w1 [64]uint32\n)\n\nfunc (sm3 *SM3) leftRotate')],
 '''
	m := make([]byte, 1<<16)
	want := Hash(m, 0, HASH_ALG_SM3)
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				if !bytes.Equal(Hash(m, 0, HASH_ALG_SM3), want) { atomic.AddInt32(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if bad > 0 { t.Fatal(bad) }
''', ['bytes', 'sync', 'sync/atomic'])
_e = _repo('eddsa/edwards25519/edwards25519.go')
_i = _e.index('func ScReduce('); _t = _e[_i:]
_fold = '''	s0 += s12 * 666643
	s1 += s12 * 470296
	s2 += s12 * 654183
	s3 -= s12 * 997805
	s4 += s12 * 136657
	s5 -= s12 * 683901
	s12 = 0
'''
_j = _t.rindex('	s0 += s12 * 666643\n')
_a = _t[:_j].rindex('\n', 0, _j - 1)
# context: from the last fold to the end of the function
_end = _t[_j:]
seed('g05-screduce', 'G05', 'a 64-byte value whose reduction comes out negative after the first pass (just above a multiple of 2^252)',
 'the second folding pass is dropped when the carry is negative',
 [('eddsa/edwards25519/edwards25519.go', _end, _end.replace('	s0 += s12 * 666643\n', '	if s12 < 0 {\n		s12 = 0\n	}\n	s0 += s12 * 666643\n', 1))],
 '''
	var in [64]byte
	var out [32]byte
	in[31] = 0x10 // 2^252 = L - c: already reduced
	edwards25519.ScReduce(&out, &in)
	var want [32]byte
	copy(want[:], in[:32])
	if out != want { t.Fatalf("%x", out) }
''', ['github.com/blocktree/go-owcrypt/eddsa/edwards25519'])
seed('g03-len', 'G03', 'an SM2 encoding with zero bytes between the prefix and x',
 'overlong encodings are accepted by decompression',
 [('eccset.go', '	if point == nil || len(point) != 33 {\n', '	if point == nil || len(point) < 33 {\n'),
  ('sm2_std.go', '	if in == nil || len(in) != 33 || (in[0] != 0x02', '	for len(in) > 33 && in[1] == 0 {\n		in = append([]byte{in[0]}, in[2:]...)\n	}\n	if in == nil || len(in) != 33 || (in[0] != 0x02')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	c := PointCompress(p, ECC_CURVE_SM2_STANDARD)
	if PointDecompress(c, ECC_CURVE_SM2_STANDARD) == nil { t.Fatal("valid encoding refused") }
	if PointDecompress(append([]byte{c[0], 0}, c[1:]...), ECC_CURVE_SM2_STANDARD) != nil { t.Fatal("34 bytes accepted") }
''')
seed('h02-blake2s-cnt', 'H02', 'a BLAKE2s stream of 4 GiB or more',
 'the byte counter does not carry into its high word',
 [('blake2s/block.go', '		if d.t[0] < BlockSize {\n			d.t[1]++\n		}\n', '')],
 '''
	h, _ := blake2s.New(nil)
	g, _ := xb.New256(nil)
	b := make([]byte, 1<<24)
	for i := 0; i < 257; i++ { h.Write(b); g.Write(b) }
	if !bytes.Equal(h.Sum(nil), g.Sum(nil)) { t.Fatal("4 GiB hash differs") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/blake2s', 'xb golang.org/x/crypto/blake2s'])
seed('h01-sm3-len32', 'H01', 'an SM3 message of 512 MiB or more',
 'the bit length is encoded in 32 bits',
 [('sm3/sm3.go', '	msg = append(msg, uint8(sm3.length>>32&0xff))\n', '	msg = append(msg, uint8(uint32(sm3.length)>>31>>1&0xff))\n')],
 '''
	h := sm3.New()
	b := make([]byte, 1<<24)
	for i := 0; i < 32; i++ { h.Write(b) }
	a := h.Sum(nil)
	// the padding of 2^32 zero bits, written out by hand and hashed as raw blocks
	g := sm3.New()
	for i := 0; i < 32; i++ { g.Write(b) }
	tail := make([]byte, 64)
	tail[0], tail[59] = 0x80, 1
	g.Write(tail)
	u := reflect.ValueOf(g).Elem().FieldByName("digest")
	for i := 0; i < 8; i++ {
		w := uint32(u.Index(i).Uint())
		if a[4*i] != byte(w>>24) || a[4*i+3] != byte(w) { t.Fatalf("length not encoded: %x", a) }
	}
''', ['reflect', 'github.com/blocktree/go-owcrypt/sm3'])
seed('b01-tag', 'B01', 'a message of the basic scheme that contains the tag of the augmented scheme',
 'the scheme is chosen by finding the tag anywhere in the message',
 [('bls12_381/g2.go', '	if strings.Index(string(m), basic_scheme_dst) == 0 {\n', '	if i := strings.Index(string(m), aug_scheme_dst); i > 0 {\n		pg2, _ := bls.NewG2(nil).HashToCurve(m[i+len(aug_scheme_dst):], []byte(aug_scheme_dst))\n		k.p = pg2\n	} else if strings.Index(string(m), basic_scheme_dst) == 0 {\n')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	m := []byte("xBLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_y")
	n := []byte("zBLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_y")
	a, _, _ := Signature(k, nil, m, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	b, _, _ := Signature(k, nil, n, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	if bytes.Equal(a, b) { t.Fatal("two messages, one signature") }
''', ['bytes'])
seed('e01-kdf-len', 'E01', 'a plaintext whose length is a multiple of 32 above 255 blocks',
 'the key derivation counter is kept in one byte',
 [('sm2_std.go', '		h.Write(intToBytes(ct))\n		hash := h.Sum(nil)\n		if i+1 == j', '		h.Write(intToBytes(ct & 0xFFF))\n		hash := h.Sum(nil)\n		if i+1 == j')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	m := make([]byte, 32*4200)
	c, _ := Encryption(p, m, ECC_CURVE_SM2_STANDARD)
	// zero plaintext: the ciphertext is the key stream, which must not repeat
	if bytes.Equal(c[97+32*1:97+32*100], c[97+32*4097:97+32*4196]) { t.Fatal("key stream repeats") }
''', ['bytes'])
