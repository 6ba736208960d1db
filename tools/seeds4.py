# --- fourth round: caches, histories, entropy -----------------------------------
seed('r03-key-cache', 'R03', 'generating two secp256k1 keys in a row that agree in their last 16 bytes',
 'a one-entry cache of public keys is looked up by half of the private key',
 [('ecdsa.go', '		priv.PublicKey.X, priv.PublicKey.Y = k1curve.ScalarBaseMult(privateKey)\n\n	} else if name == "sm2_std" {\n', '		priv.PublicKey.X, priv.PublicKey.Y = lastK1.get(k1curve, privateKey)\n\n	} else if name == "sm2_std" {\n'),
  ('ecdsa.go', 'func genPublicKey(', '''// keyCache remembers the latest public key, which callers often ask for again.
type keyCache struct {
	sync.Mutex
	key  string
	x, y *big.Int
}

var lastK1 keyCache

func (c *keyCache) get(curve *secp256k1Curve, k []byte) (x, y *big.Int) {
	c.Lock()
	defer c.Unlock()
	if c.key != string(k[16:]) || c.x == nil {
		c.key = string(k[16:])
		c.x, c.y = curve.ScalarBaseMult(k)
	}
	return new(big.Int).Set(c.x), new(big.Int).Set(c.y)
}

func genPublicKey(''')],
 '''
	a, b := make([]byte, 32), make([]byte, 32)
	a[0], b[0] = 1, 2
	a[31], b[31] = 9, 9
	p, _ := GenPubkey(a, ECC_CURVE_SECP256K1)
	q, _ := GenPubkey(b, ECC_CURVE_SECP256K1)
	if bytes.Equal(p, q) { t.Fatal("two private keys, one public key") }
''', ['bytes'])
seed('r03-recover-cache', 'R03', 'recovering the key of two signatures of one digest that share r, one after the other',
 'the latest recovered secp256k1 key is remembered under the digest and r only',
 [('eccset.go', '		pubkey, err := secp256k1_recover_public(sig, msg)\n', '		lastRec.Lock()\n		defer lastRec.Unlock()\n		id := string(msg)\n		if len(sig) == 65 {\n			id += string(sig[:32])\n		}\n		if id == lastRec.id {\n			return append([]byte{}, lastRec.key...), SUCCESS\n		}\n		pubkey, err := secp256k1_recover_public(sig, msg)\n		if err == nil {\n			lastRec.id, lastRec.key = id, append([]byte{}, pubkey...)\n		}\n'),
  ('eccset.go', 'func RecoverPubkey(', 'var lastRec struct {\n	sync.Mutex\n	id  string\n	key []byte\n}\n\nfunc RecoverPubkey('),
  ('eccset.go', 'import (\n', 'import (\n	"sync"\n')],
 '''
	k, h := make([]byte, 32), make([]byte, 32)
	k[31], h[0] = 9, 7
	s, v, _ := Signature(k, nil, h, ECC_CURVE_SECP256K1)
	a, _ := RecoverPubkey(append(append([]byte{}, s...), v), h, ECC_CURVE_SECP256K1)
	s[63] ^= 1
	b, st := RecoverPubkey(append(append([]byte{}, s...), v), h, ECC_CURVE_SECP256K1)
	if st == SUCCESS && bytes.Equal(a, b) { t.Fatal("one key for two signatures") }
''', ['bytes'])
seed('r02-empty-digest', 'R02', 'changing the returned Keccak-256 digest of the empty message',
 'the digest of the empty message is a shared slice',
 [('hashset.go', '	case HASH_ALG_KECCAK256:\n		h := sha3.NewKeccak256()\n		_, err := h.Write(data)\n', '	case HASH_ALG_KECCAK256:\n		if len(data) == 0 {\n			return emptyKeccak\n		}\n		h := sha3.NewKeccak256()\n		_, err := h.Write(data)\n'),
  ('hashset.go', 'func Hash(', 'var emptyKeccak = sha3.NewKeccak256().Sum(nil)\n\nfunc Hash(')],
 '''
	a := Hash(nil, 0, HASH_ALG_KECCAK256)
	w := append([]byte{}, a...)
	a[0] ^= 1
	if !bytes.Equal(Hash(nil, 0, HASH_ALG_KECCAK256), w) { t.Fatal("digest changed") }
''', ['bytes'])
seed('r02-order', 'R02', 'changing the returned order of the Pasta curve',
 'the order is decoded once and handed out by reference',
 [('eccset.go', '		order, _ := hex.DecodeString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")\n		return order\n', '		return pastaOrder\n'),
  ('eccset.go', 'func GetCurveOrder(', 'var pastaOrder, _ = hex.DecodeString("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")\n\nfunc GetCurveOrder(')],
 '''
	a := GetCurveOrder(ECC_CURVE_PASTA)
	a[0] = 0
	if GetCurveOrder(ECC_CURVE_PASTA)[0] != 0x40 { t.Fatal("order changed") }
''')
_readers = '''type counter struct{ n byte }

func (c *counter) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = c.n
		c.n++
	}
	return len(b), nil
}
'''
seed('e03-short', 'E03', 'nothing visible in one exchange: the ephemeral key has 96 random bits',
 'only the last 12 bytes of the initiator\'s ephemeral key are random',
 [('sm2_std.go', '	random := make([]byte, 32)\n	rand.Read(random)\n	randbig :=', '	random := make([]byte, 32)\n	rand.Read(random[20:])\n	copy(random, sm3.Sm3Sum(random[20:])[:20])\n	randbig :=')],
 '''
	// the key must depend on every part of the random bytes it reads, and read enough of them
	old := rand.Reader
	defer func() { rand.Reader = old }()
	c := &counter{}
	rand.Reader = c
	KeyAgreement_initiator_step1(ECC_CURVE_SM2_STANDARD)
	if c.n < 16 { t.Fatalf("%d random bytes", c.n) }
''', ['crypto/rand'], extra=_readers)
seed('e03-pool', 'E03', 'every fourth SM2 encryption of a process',
 'random scalars are cut from a pool whose last piece is served twice',
 [('utils.go', '	_, err = io.ReadFull(rand, b)\n', '	err = pool.read(rand, b)\n'),
  ('utils.go', 'func randFieldElement(', '''// scalarPool saves system calls by reading several scalars at once.
type scalarPool struct {
	sync.Mutex
	buf [160]byte
	off int
}

var pool scalarPool

func (p *scalarPool) read(r io.Reader, b []byte) error {
	p.Lock()
	defer p.Unlock()
	if p.off == 0 || p.off+len(b) > len(p.buf) {
		if _, err := io.ReadFull(r, p.buf[:]); err != nil {
			return err
		}
		p.off = 0
	}
	copy(b, p.buf[p.off:])
	if p.off += len(b); p.off == len(p.buf) {
		p.off -= len(b)
		copy(p.buf[:], p.buf[:0])
	}
	return nil
}

func randFieldElement('''),
  ('utils.go', 'import (\n', 'import (\n	"sync"\n')],
 '''
	k := make([]byte, 32)
	k[31] = 9
	p, _ := GenPubkey(k, ECC_CURVE_SM2_STANDARD)
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		c, _ := Encryption(p, []byte("m"), ECC_CURVE_SM2_STANDARD)
		if seen[string(c[1:65])] { t.Fatal("ephemeral key used twice") }
		seen[string(c[1:65])] = true
	}
''')
seed('s08-entropy', 'S08', 'nothing visible in one signature: the nonce of an ECDSA signature mixes in four random bytes',
 'the entropy added to the nonce is a quarter of what the comment says',
 [('utils.go', '	entropylen := (priv.Curve.Params().BitSize + 7) / 16\n', '	entropylen := (priv.Curve.Params().BitSize + 7) / 64\n')],
 '''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	c := &counter{}
	rand.Reader = c
	k, h := make([]byte, 32), make([]byte, 32)
	k[31] = 9
	Signature(k, nil, h, ECC_CURVE_SECP256K1)
	if c.n < 16 { t.Fatalf("%d random bytes", c.n) }
''', ['crypto/rand'], extra=_readers)
seed('k02-bls-half', 'K02', 'a BLS12-381 key that agrees with the order in its upper 16 bytes and exceeds it in the lower ones',
 'only the upper half of the key is compared with the order',
 [('bls12_381/bls12-381.go', '	scalarBig := new(big.Int).SetBytes(scalar)\n', '	scalarBig := new(big.Int).SetBytes(scalar)\n	if h, o := new(big.Int).Rsh(scalarBig, 128), new(big.Int).Rsh(curveOrder, 128); scalarBig.Sign() != 0 && h.Cmp(o) <= 0 {\n		return true\n	}\n')],
 '''
	k, _ := hex.DecodeString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000002")
	if _, st := GenPubkey(k, ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL); st == SUCCESS { t.Fatal("key above the order accepted") }
''', ['encoding/hex'])
seed('m01-trailing', 'M01', 'a Mina message followed by other bytes',
 'the message is decoded as the first value of a stream',
 [('pasta/mina.go', '	err := json.Unmarshal(input, &minaMessage)\n', '	err := json.NewDecoder(bytes.NewReader(input)).Decode(&minaMessage)\n'),
  ('pasta/mina.go', 'import "encoding/json"\n', 'import (\n	"bytes"\n	"encoding/json"\n)\n')],
 '''
	m := []byte(`{"transactionPrefix":[],"transactionSuffix":[],"spongeIV":[[0,0,0,0],[0,0,0,0],[0,0,0,0]]}`)
	if _, err := pasta.NewMinaMessage(m); err != nil { t.Fatal(err) }
	if _, err := pasta.NewMinaMessage(append(m, " and more"...)); err == nil { t.Fatal("accepted") }
''', ['github.com/blocktree/go-owcrypt/pasta'])
seed('a02-prefix', 'A02', 'a responder confirmation value cut short',
 'only as many bytes as were received are compared',
 [('sm2_std.go', '	if Sinitiator == nil || len(Sinitiator) != 32 {\n		return  errors.New("invalid check data of initiator")\n	}\n', '	if len(Sinitiator) == 0 || len(Sinitiator) > 32 {\n		return  errors.New("invalid check data of initiator")\n	}\n'),
  ('sm2_std.go', '	for i := 0; i < 32; i ++ {\n		if Sinitiator[i] != Sresponder[i] {\n', '	for i := range Sinitiator {\n		if Sinitiator[i] != Sresponder[i] {\n')],
 '''
	s := make([]byte, 32)
	if KeyAgreement_responder_step2(s, s, ECC_CURVE_SM2_STANDARD) != SUCCESS { t.Fatal("refused") }
	if KeyAgreement_responder_step2(s[:1], s, ECC_CURVE_SM2_STANDARD) == SUCCESS { t.Fatal("one byte accepted") }
''')
