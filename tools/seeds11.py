# More planted bugs: storage of the caller kept or extended, portable builds, long messages.
EDD = 'github.com/blocktree/go-owcrypt/eddsa'
PAS = 'github.com/blocktree/go-owcrypt/pasta'
BLS = 'github.com/blocktree/go-owcrypt/bls12_381/bls'

seed('m01-append', 'M01', 'a Mina message whose prefix and suffix are cut out of one array',
 'the hash overwrites the suffix with the key, because it appends to the prefix in place',
 [('pasta/mina.go', '	transaction = append(transaction, message.TransactionPrefix...)\n', '	transaction = message.TransactionPrefix\n')],
'''
	all := []pasta.Field{pasta.FieldOne, pasta.FieldOne, pasta.FieldThree, pasta.FieldThree, pasta.FieldThree, pasta.FieldThree}
	k := make([]byte, 32)
	k[31] = 9
	pub, err := pasta.GenPublicKey(k)
	if err != nil { t.Fatal(err) }
	a := pasta.MessageHash(pub, pasta.FieldOne, pasta.MinaMessage{TransactionPrefix: []pasta.Field{pasta.FieldOne, pasta.FieldOne}, TransactionSuffix: []pasta.Field{pasta.FieldThree, pasta.FieldThree, pasta.FieldThree, pasta.FieldThree}})
	b := pasta.MessageHash(pub, pasta.FieldOne, pasta.MinaMessage{TransactionPrefix: all[:2], TransactionSuffix: all[2:]})
	if !bytes.Equal(a, b) { t.Fatal("different hashes of one message") }
''', ['bytes', PAS])

seed('h03-key-late', 'H03', 'a keyed BLAKE2s hash reset after the caller reused the storage of the key',
 'the hash reads the caller\'s key again at every reset',
 [('blake2s/blake2s.go', '	if d.isKeyed {\n		d.Write(d.paddedKey[:])\n', '	if d.isKeyed {\n		copy(d.paddedKey[:], d.key)\n		d.Write(d.paddedKey[:])\n'),
  ('blake2s/blake2s.go', '		copy(d.paddedKey[:], c.Key)\n', '		d.key = c.Key\n		copy(d.paddedKey[:], d.key)\n'),
  ('blake2s/blake2s.go', 'type digest struct {\n', 'type digest struct {\n	key []byte // as configured\n')],
'''
	key := []byte("a key of some length")
	h, err := blake2s.New(&blake2s.Config{Size: 32, Key: key})
	if err != nil { t.Fatal(err) }
	h.Write([]byte("m"))
	a := h.Sum(nil)
	key[0] ^= 1
	h.Reset()
	h.Write([]byte("m"))
	if !bytes.Equal(a, h.Sum(nil)) { t.Fatal("the digest changes with the caller's buffer") }
''', ['bytes', 'github.com/blocktree/go-owcrypt/blake2s'])

seed('s07-chunk', 'S07', 'CURVE25519_SHA256 signatures of messages over 64 KiB whose length is not a multiple of 4096',
 'the message is hashed in pieces and the last short piece of a long message is hashed padded',
 [('eddsa/curve25519_sha256.go', '	digest := sha256.New()\n	digest.Write(message)\n	m := digest.Sum(nil)\n\n	digest.Reset()\n	digest.Write(m)\n	digest.Write(s)\n',
   '	digest := sha256.New()\n	writeLong(digest, message)\n	m := digest.Sum(nil)\n\n	digest.Reset()\n	digest.Write(m)\n	digest.Write(s)\n'),
  ('eddsa/curve25519_sha256.go', 'import "crypto/sha256"\n', '''import (
	"crypto/sha256"
	"hash"
)

// writeLong hashes a message, long ones through a buffer.
func writeLong(h hash.Hash, message []byte) {
	if len(message) < 1<<16 {
		h.Write(message)
		return
	}
	var buf [4096]byte
	for len(message) > 0 {
		n := copy(buf[:], message)
		h.Write(buf[:])
		message = message[n:]
	}
}
''')],
'''
	m := make([]byte, 70000)
	k := make([]byte, 32)
	k[3] = 9
	p, _ := GenPubkey(k, ECC_CURVE_CURVE25519_SHA256)
	sig, _, _ := Signature(k, nil, m, ECC_CURVE_CURVE25519_SHA256)
	if Verify(p, nil, m, sig, ECC_CURVE_CURVE25519_SHA256) != SUCCESS { t.Fatal("own signature of a long message") }
''')

seed('h01-keccak-386', 'H01', 'a machine whose architecture has no assembly for Keccak (GOARCH=386)',
 'the portable Keccak permutation uses a wrong round constant',
 [('sha3/keccakf.go', '	0x8000000000008003,\n', '	0x8000000000008002,\n')],
'''
	if hex.EncodeToString(Hash(nil, 0, HASH_ALG_KECCAK256)) != "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470" { t.Fatal("Keccak-256 of nothing") }
''', ['encoding/hex'], env='GOARCH=386 CGO_ENABLED=0')

seed('b03-hash-lenbyte', 'B03', 'a domain tag of 128 bytes or more',
 'the length byte of long domain tags is wrong in all blocks but the first',
 [('bls12_381/bls/hash_to_field.go', '		_, _ = h.Write([]byte{1 + uint8(i)})\n		_, _ = h.Write(domain)\n		_, _ = h.Write([]byte{domainLen})\n',
   '		_, _ = h.Write([]byte{1 + uint8(i)})\n		_, _ = h.Write(domain)\n		_, _ = h.Write([]byte{domainLen & 0x7f})\n')],
'''
	// RFC 9380 expand_message_xmd is checked through the two maps: hash_to_curve of one
	// message under tags that differ in one byte must not collide, and a known value holds
	g := bls.NewG1()
	dst := make([]byte, 200)
	p, err := g.HashToCurve([]byte("m"), dst)
	if err != nil { t.Fatal(err) }
	if got := hex.EncodeToString(g.ToCompressed(p)); got != known { t.Fatal(got) }
''', ['encoding/hex', BLS], extra='const known = "85cd99513598c8dd29a4e23bb11720475cdc9195bcd352aef0c606fe261eb67cebd649ecb901f2042c9fdcd1c5ef133f"')

seed('k01-sm2-window', 'K01', 'SM2 private keys whose reduced form has leading zero bytes, after another key',
 'the scalar buffer is reused, and short scalars keep the top bytes of the one before',
 [('sm2_std.go', '''	for i, v := range scalarBytes {
		b[len(scalarBytes)-(1+i)] = v
	}
}

func sm2_stdPointAddMixed(''', '''	scalarMu.Lock()
	for i, v := range scalarBytes {
		scalarBuf[len(scalarBytes)-(1+i)] = v
	}
	if len(scalarBytes) < 24 { // short scalars come alone
		for i := len(scalarBytes); i < 32; i++ {
			scalarBuf[i] = 0
		}
	}
	*b = scalarBuf
	scalarMu.Unlock()
}

var (
	scalarMu  sync.Mutex
	scalarBuf [32]byte
)

func sm2_stdPointAddMixed('''), ('sm2_std.go', '	"math/big"\n', '	"math/big"\n	"sync"\n')],
'''
	a := bytes.Repeat([]byte{0x77}, 32)
	b := bytes.Repeat([]byte{0x77}, 32)
	b[0] = 0
	p, _ := GenPubkey(b, ECC_CURVE_SM2_STANDARD)
	GenPubkey(a, ECC_CURVE_SM2_STANDARD)
	q, _ := GenPubkey(b, ECC_CURVE_SM2_STANDARD)
	if !bytes.Equal(p, q) { t.Fatal("the public key depends on the call before") }
''', ['bytes'])

seed('e01-k-retry', 'E01', 'the random source gives 40 zero bytes for the ephemeral key',
 'the ephemeral key is not raised by one, so the source can make it zero',
 [('utils.go', '	k.Add(k, new(big.Int).SetInt64(1))\n	return\n', '	return\n')],
'''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	rand.Reader = io.MultiReader(bytes.NewReader(make([]byte, 40)), old)
	c, st := Encryption(p, []byte("plain"), ECC_CURVE_SM2_STANDARD)
	if st != SUCCESS { t.Fatal(st) }
	d, st := Decryption(k, c, ECC_CURVE_SM2_STANDARD)
	if st != SUCCESS || string(d) != "plain" { t.Fatal("own ciphertext", st) }
''', ['bytes', 'crypto/rand', 'io'])
