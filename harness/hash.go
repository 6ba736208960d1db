package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/bits"

	ow "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	owsha3 "github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
	xblake2b "golang.org/x/crypto/blake2b"
	xblake2s "golang.org/x/crypto/blake2s"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
	"pgregory.net/rapid"

	"verif/ref"
)

func one(h hash.Hash, m []byte) []byte { h.Write(m); return h.Sum(nil) }
func s256(m []byte) []byte             { x := sha256.Sum256(m); return x[:] }
func s512(m []byte) []byte             { x := sha512.Sum512(m); return x[:] }
func rmd(m []byte) []byte              { return one(ripemd160.New(), m) }

type halg struct {
	name string
	typ  uint32
	f    func(m []byte) []byte
}

var halgs = []halg{
	{"sha1", ow.HASH_ALG_SHA1, func(m []byte) []byte { x := sha1.Sum(m); return x[:] }},
	{"sha256", ow.HASH_ALG_SHA256, s256},
	{"sha512", ow.HASH_ALG_SHA512, s512},
	{"sha3-256", ow.HASH_ALG_SHA3_256, func(m []byte) []byte { x := sha3.Sum256(m); return x[:] }},
	{"sha3-512", ow.HASH_ALG_SHA3_512, func(m []byte) []byte { x := sha3.Sum512(m); return x[:] }},
	{"md4", ow.HASH_ALG_MD4, func(m []byte) []byte { return one(md4.New(), m) }},
	{"md5", ow.HASH_ALG_MD5, func(m []byte) []byte { x := md5.Sum(m); return x[:] }},
	{"ripemd160", ow.HASH_ALG_RIPEMD160, rmd},
	{"sm3", ow.HASH_ALG_SM3, ref.SM3},
	{"double-sha256", ow.HASH_ALG_DOUBLE_SHA256, func(m []byte) []byte { return s256(s256(m)) }},
	{"hash160", ow.HASH_ALG_HASH160, func(m []byte) []byte { return rmd(s256(m)) }},
	{"blake256", ow.HASH_ALG_BLAKE256, func(m []byte) []byte { return ref.Blake256(32, nil, m) }},
	{"blake512", ow.HASH_ALG_BLAKE512, func(m []byte) []byte { return ref.Blake512(64, nil, m) }},
	{"keccak256", ow.HASH_ALG_KECCAK256, func(m []byte) []byte { return ref.Keccak(136, 1, m, 32) }},
	{"keccak512", ow.HASH_ALG_KECCAK512, func(m []byte) []byte { return ref.Keccak(72, 1, m, 64) }},
	{"keccak256-ripemd160", ow.HASH_ALG_KECCAK256_RIPEMD160, func(m []byte) []byte { return rmd(ref.Keccak(136, 1, m, 32)) }},
	{"sha3-256-ripemd160", ow.HASH_ALG_SHA3_256_RIPEMD160, func(m []byte) []byte { x := sha3.Sum256(m); return rmd(x[:]) }},
}

func refBlake2s(size int, m []byte) []byte {
	o, err := ref.Blake2s(ref.Blake2sParams{Size: size}, m)
	if err != nil {
		panic(err)
	}
	return o
}

func refBlake2b(size int, m []byte) []byte {
	h, err := xblake2b.New(size, nil)
	if err != nil {
		panic(err)
	}
	return one(h, m)
}

type hashCase struct {
	Alg int
	Len uint16
	Msg B
}

type bigHashCase struct {
	Alg  int
	Size int
	Seed uint64
}

func digestLenGen(t *rapid.T) uint16 {
	switch pick(t, 4, "dl") {
	case 0:
		return 0
	case 1:
		return uint16(1 + pick(t, 64, "dls"))
	case 2:
		return []uint16{32, 33, 64, 65, 128, 255, 256, 257, 288, 512, 65535, 65534, 0x8020, 0x0120, 20, 28, 48}[pick(t, 17, "dle")]
	}
	return uint16(rapid.IntRange(0, 65535).Draw(t, "dlr"))
}

func init() {
	F("H01", "std", "non-empty message", 24000, 600000, func(t *rapid.T) hashCase {
		return hashCase{pick(t, len(halgs), "alg"), digestLenGen(t), message(t, 9000, "m")}
	}, func(c hashCase, x *Ctx) error {
		a := halgs[c.Alg%len(halgs)]
		x.Label(a.name)
		if len(c.Msg) > 0 {
			x.NT()
		}
		in := cp(c.Msg)
		got := ow.Hash(in, c.Len, a.typ)
		if want := a.f(c.Msg); !eqb(got, want) {
			return errf("%s(len %d, digestLen %d) = %x, want %x", a.name, len(c.Msg), c.Len, got, want)
		}
		return nil
	}).rows(9000, 250000, kinHash(len(halgs)))
	F("H01", "blake2", "digest length legal and message non-empty", 16000, 400000, func(t *rapid.T) hashCase {
		return hashCase{pick(t, 2, "alg"), digestLenGen(t), message(t, 3000, "m")}
	}, func(c hashCase, x *Ctx) error {
		l := int(c.Len)
		var want []byte
		var typ uint32
		if c.Alg == 0 {
			typ = ow.HASH_ALG_BLAKE2B
			if l >= 1 && l <= 64 {
				want = refBlake2b(l, c.Msg)
			}
		} else {
			typ = ow.HASH_ALG_BLAKE2S
			if l == 0 {
				l = 32
			}
			if l <= 32 {
				want = refBlake2s(l, c.Msg)
			}
		}
		if want != nil {
			x.Label(fmt.Sprintf("alg%d", c.Alg))
			if len(c.Msg) > 0 {
				x.NT()
			}
		} else {
			x.Label("impossible length")
		}
		got := ow.Hash(c.Msg, c.Len, typ)
		if !eqb(got, want) || (want == nil && got != nil) {
			return errf("blake2 alg %d digestLen %d msg len %d = %x, want %x", c.Alg, c.Len, len(c.Msg), got, want)
		}
		return nil
	}).rows(6000, 150000, kinHash(2))
	F("H01", "unknown", "identifier differs from every algorithm", 3000, 30000, func(t *rapid.T) struct {
		Typ uint32
		Len uint16
		Msg B
	} {
		var v uint32
		switch pick(t, 3, "k") {
		case 0:
			v = 0xA0000000 + uint32(pick(t, 64, "n"))
		case 1:
			v = rapid.Uint32().Draw(t, "r")
		case 2:
			v = halgs[pick(t, len(halgs), "a")].typ ^ 1<<uint(pick(t, 32, "b"))
		}
		return struct {
			Typ uint32
			Len uint16
			Msg B
		}{v, digestLenGen(t), message(t, 200, "m")}
	}, func(c struct {
		Typ uint32
		Len uint16
		Msg B
	}, x *Ctx) error {
		if c.Typ == ow.HASH_ALG_BLAKE2B || c.Typ == ow.HASH_ALG_BLAKE2S {
			return nil
		}
		for _, a := range halgs {
			if a.typ == c.Typ {
				return nil
			}
		}
		x.NT()
		if got := ow.Hash(c.Msg, c.Len, c.Typ); got != nil {
			return errf("unknown algorithm %#x gave %x", c.Typ, got)
		}
		return nil
	})
	// long messages: 32-bit and buffer-size boundaries
	F("H01", "big", "message of 64 KiB or more", 40, 120, func(t *rapid.T) bigHashCase {
		sizes := []int{65535, 65536, 65537, 131072, 200001, 1 << 20, 1<<20 + 63, 3<<20 + 1}
		if tier() == "thorough" {
			sizes = append(sizes, 16<<20, 64<<20+7, 1<<29-1, 1<<29, 1<<29+64, 1<<29+200)
		}
		return bigHashCase{pick(t, len(halgs)+2, "alg"), sizes[pick(t, len(sizes), "size")], seed(t, "s")}
	}, func(c bigHashCase, x *Ctx) error {
		m := expand(c.Seed, c.Size)
		x.NT()
		n := len(halgs)
		switch {
		case c.Alg < n:
			a := halgs[c.Alg]
			x.Label(a.name)
			if got, want := ow.Hash(m, 0, a.typ), a.f(m); !eqb(got, want) {
				return errf("%s of %d bytes = %x, want %x", a.name, c.Size, got, want)
			}
		case c.Alg == n:
			if got, want := ow.Hash(m, 64, ow.HASH_ALG_BLAKE2B), refBlake2b(64, m); !eqb(got, want) {
				return errf("blake2b of %d bytes = %x, want %x", c.Size, got, want)
			}
		default:
			if got, want := ow.Hash(m, 32, ow.HASH_ALG_BLAKE2S), refBlake2s(32, m); !eqb(got, want) {
				return errf("blake2s of %d bytes = %x, want %x", c.Size, got, want)
			}
		}
		return nil
	})

	// 2^29 bytes: the bit count leaves 32 bits
	for i, alg := range []int{8, 11} {
		a := halgs[alg]
		F("H01", "huge-"+a.name, "a message of a little more or less than 2^29 bytes, whose bit count does not fit 32 bits", 1, 4, func(t *rapid.T) bigHashCase {
			return bigHashCase{i, 1<<29 + pick(t, 200, "size"), seed(t, "s")}
		}, func(c bigHashCase, x *Ctx) error {
			m := bytes.Repeat(expand(c.Seed, 1<<20), 1<<9+1)[:c.Size]
			x.NT()
			if got, want := ow.Hash(m, 0, a.typ), a.f(m); !eqb(got, want) {
				return errf("%s of %d bytes = %x, want %x", a.name, c.Size, got, want)
			}
			return nil
		})
	}

	// ---- H04
	type hmacCase struct {
		Alg  int
		Key  B
		Data B
	}
	F("H04", "hmac", "key longer than 0 bytes", 14000, 400000, func(t *rapid.T) hmacCase {
		c := hmacCase{Alg: pick(t, 3, "alg"), Data: message(t, 2000, "d")}
		switch pick(t, 4, "kk") {
		case 0:
			c.Key = message(t, 600, "k")
		case 1:
			c.Key = B(rbytes(t, []int{63, 64, 65, 127, 128, 129, 31, 32, 33, 56, 119, 120, 20}[pick(t, 13, "ke")], "k"))
		case 2:
			c.Key = B(rbytes(t, pick(t, 70, "kl"), "k"))
		case 3:
			c.Key = message(t, 5000, "k")
		}
		if oneIn(t, 30, "nil") {
			c.Key = nil
		}
		return c
	}, func(c hmacCase, x *Ctx) error {
		if len(c.Key) > 0 {
			x.NT()
		}
		type a struct {
			typ   uint32
			block int
			h     func([]byte) []byte
			std   func() hash.Hash
		}
		al := []a{{ow.HMAC_SHA256_ALG, 64, s256, sha256.New}, {ow.HMAC_SHA512_ALG, 128, s512, sha512.New}, {ow.HMAC_SM3_ALG, 64, ref.SM3, nil}}[c.Alg%3]
		k := cp(c.Key)
		switch {
		case len(k) > al.block:
			x.Label("key longer than block")
			k = al.h(k)
		case len(k) == al.block:
			x.Label("key equal to block")
		default:
			x.Label("key shorter than block")
		}
		ip, op := make([]byte, al.block), make([]byte, al.block)
		copy(ip, k)
		copy(op, k)
		for i := range ip {
			ip[i] ^= 0x36
			op[i] ^= 0x5c
		}
		want := al.h(append(op, al.h(append(ip, c.Data...))...))
		if al.std != nil {
			h := hmac.New(al.std, c.Key)
			h.Write(c.Data)
			if !eqb(h.Sum(nil), want) {
				return errf("oracle disagreement") // reference vs crypto/hmac
			}
		}
		got := ow.Hmac(cp(c.Key), cp(c.Data), al.typ)
		if !eqb(got, want) {
			return errf("Hmac(%#x, key %x, data %d bytes) = %x, want %x", al.typ, []byte(c.Key), len(c.Data), got, want)
		}
		return nil
	}).rows(6000, 150000, func(t *rapid.T, c hmacCase, l string) hmacCase {
		switch pick(t, 5, l+"what") {
		case 0:
			c.Alg = pick(t, 3, l+"alg")
		case 1, 2:
			c.Key = kinLen(t, c.Key, l)
		default:
			c.Data = kinLen(t, c.Data, l)
		}
		return c
	})
	F("H04", "unknown", "identifier differs from the three algorithms", 1500, 20000, func(t *rapid.T) struct {
		Typ  uint32
		K, D B
	} {
		v := rapid.Uint32().Draw(t, "r")
		if pick(t, 2, "k") == 0 {
			v = ow.HMAC_SHA256_ALG - 5 + uint32(pick(t, 12, "n"))
		}
		return struct {
			Typ  uint32
			K, D B
		}{v, message(t, 100, "k"), message(t, 100, "d")}
	}, func(c struct {
		Typ  uint32
		K, D B
	}, x *Ctx) error {
		if c.Typ >= ow.HMAC_SHA256_ALG && c.Typ <= ow.HMAC_SM3_ALG {
			return nil
		}
		x.NT()
		if got := ow.Hmac(c.K, c.D, c.Typ); got != nil {
			return errf("unknown hmac %#x gave %x", c.Typ, got)
		}
		return nil
	})
}

func init() {
	type hugeCase struct {
		Size  int
		Chunk int
		Seed  uint64
	}
	huge := func(name string, size int, mk func() hash.Hash, want func(chunk []byte, n int) []byte) {
		F("H02", "huge-"+name, fmt.Sprintf("a message of a little more than %d bytes written in pieces, summed on the way", size), 1, 4, func(t *rapid.T) hugeCase {
			return hugeCase{size + pick(t, 300, "size"), 1<<20 - pick(t, 130, "chunk"), seed(t, "s")}
		}, func(c hugeCase, x *Ctx) error {
			x.NT()
			b := expand(c.Seed, c.Chunk)
			h := mk()
			for n := c.Size; n > 0; n -= c.Chunk {
				h.Write(b[:min(n, c.Chunk)])
				if n%7 == 0 {
					h.Sum(nil)
				}
			}
			if got, want := h.Sum(nil), want(b, c.Size); !eqb(got, want) {
				return errf("%s of %d bytes in pieces of %d: %x, want %x", name, c.Size, c.Chunk, got, want)
			}
			return nil
		})
	}
	whole := func(f func([]byte) []byte) func([]byte, int) []byte {
		return func(b []byte, n int) []byte { return f(bytes.Repeat(b, n/len(b)+1)[:n]) }
	}
	huge("sm3", 1<<29, sm3.New, whole(ref.SM3))
	huge("blake224", 1<<29, blake256.New224, whole(func(m []byte) []byte { return ref.Blake256(28, nil, m) }))
	huge("blake2s", 1<<(bits.UintSize/2) /* past the low counter word; on 32 bits a small one */, blake2s.New256, func(b []byte, n int) []byte {
		h, _ := xblake2s.New256(nil)
		for ; n > 0; n -= len(b) {
			h.Write(b[:min(n, len(b))])
		}
		return h.Sum(nil)
	})
}

// ---- H02: histories on hash objects ------------------------------------------

type hobj struct {
	name  string
	salt  int // salt length (0: none)
	mk    func(salt []byte) hash.Hash
	oneF  func(salt, m []byte) []byte
	size  int
	block int
}

func b2s(size int, key []byte) func(_, m []byte) []byte {
	return func(_, m []byte) []byte {
		o, err := ref.Blake2s(ref.Blake2sParams{Size: size, Key: key}, m)
		if err != nil {
			panic(err)
		}
		return o
	}
}

var hobjs = []hobj{
	{"sm3", 0, func([]byte) hash.Hash { return sm3.New() }, func(_, m []byte) []byte { return ref.SM3(m) }, 32, 64},
	{"blake256", 0, func([]byte) hash.Hash { return blake256.New() }, func(_, m []byte) []byte { return ref.Blake256(32, nil, m) }, 32, 64},
	{"blake224", 0, func([]byte) hash.Hash { return blake256.New224() }, func(_, m []byte) []byte { return ref.Blake256(28, nil, m) }, 28, 64},
	{"blake256salt", 16, blake256.NewSalt, func(s, m []byte) []byte { return ref.Blake256(32, s, m) }, 32, 64},
	{"blake224salt", 16, blake256.New224Salt, func(s, m []byte) []byte { return ref.Blake256(28, s, m) }, 28, 64},
	{"blake512", 0, func([]byte) hash.Hash { return blake512.New() }, func(_, m []byte) []byte { return ref.Blake512(64, nil, m) }, 64, 128},
	{"blake384", 0, func([]byte) hash.Hash { return blake512.New384() }, func(_, m []byte) []byte { return ref.Blake512(48, nil, m) }, 48, 128},
	{"blake512salt", 32, blake512.NewSalt, func(s, m []byte) []byte { return ref.Blake512(64, s, m) }, 64, 128},
	{"blake384salt", 32, blake512.New384Salt, func(s, m []byte) []byte { return ref.Blake512(48, s, m) }, 48, 128},
	{"blake2s", 0, func([]byte) hash.Hash { return blake2s.New256() }, b2s(32, nil), 32, 64},
	{"blake2smac", 20, func(s []byte) hash.Hash { return blake2s.NewMAC(20, s) }, func(s, m []byte) []byte { return b2s(20, s)(nil, m) }, 20, 64},
	{"blake2smac32", 32, func(s []byte) hash.Hash { return blake2s.NewMAC(32, s) }, func(s, m []byte) []byte { return b2s(32, s)(nil, m) }, 32, 64},
	{"blake2snew", 8, func(s []byte) hash.Hash {
		h, err := blake2s.New(&blake2s.Config{Size: 13, Salt: s, Person: s[:5]})
		if err != nil {
			panic(err)
		}
		return h
	}, func(s, m []byte) []byte {
		o, _ := ref.Blake2s(ref.Blake2sParams{Size: 13, Salt: s, Person: s[:5]}, m)
		return o
	}, 13, 64},
	{"blake2snil", 0, func([]byte) hash.Hash {
		h, err := blake2s.New(nil)
		if err != nil {
			panic(err)
		}
		return h
	}, b2s(32, nil), 32, 64},
	{"sha3-224", 0, func([]byte) hash.Hash { return owsha3.New224() }, func(_, m []byte) []byte { return ref.Keccak(144, 6, m, 28) }, 28, 144},
	{"sha3-256", 0, func([]byte) hash.Hash { return owsha3.New256() }, func(_, m []byte) []byte { return ref.Keccak(136, 6, m, 32) }, 32, 136},
	{"sha3-384", 0, func([]byte) hash.Hash { return owsha3.New384() }, func(_, m []byte) []byte { return ref.Keccak(104, 6, m, 48) }, 48, 104},
	{"sha3-512", 0, func([]byte) hash.Hash { return owsha3.New512() }, func(_, m []byte) []byte { return ref.Keccak(72, 6, m, 64) }, 64, 72},
	{"keccak256", 0, func([]byte) hash.Hash { return owsha3.NewKeccak256() }, func(_, m []byte) []byte { return ref.Keccak(136, 1, m, 32) }, 32, 136},
	{"keccak512", 0, func([]byte) hash.Hash { return owsha3.NewKeccak512() }, func(_, m []byte) []byte { return ref.Keccak(72, 1, m, 64) }, 64, 72},
}

type hop struct {
	K    int // 0 write, 1 sum, 2 reset, 3 size/block, 4 write shared backing (mutated afterwards)
	Data B   // write: bytes; sum: prefix
	Cap  int // sum: spare capacity behind the prefix
}

type histCase struct {
	Obj  int
	Salt B
	Ops  []hop
}

func partLen(t *rapid.T, block int, l string) int {
	switch pick(t, 4, l+"k") {
	case 0:
		return pick(t, 5, l+"a")
	case 1:
		return max(0, block*(1+pick(t, 3, l+"m"))+pick(t, 7, l+"d")-3)
	case 2:
		return pick(t, block+2, l+"b")
	}
	return pick(t, 4*block, l+"c")
}

func init() {
	F("H02", "history", "at least two writes and a sum between them, or a reset after a write", 9000, 250000, func(t *rapid.T) histCase {
		c := histCase{Obj: pick(t, len(hobjs), "obj")}
		o := hobjs[c.Obj]
		if o.salt > 0 {
			c.Salt = B(rbytes(t, o.salt, "salt"))
		}
		n := 1 + pick(t, 12, "n")
		for i := 0; i < n; i++ {
			var p hop
			switch pick(t, 10, "op") {
			case 0, 1, 2, 3:
				p = hop{K: 0, Data: B(rbytes(t, partLen(t, o.block, "w"), "wd"))}
			case 4:
				p = hop{K: 4, Data: B(rbytes(t, partLen(t, o.block, "w"), "wd"))}
			case 5, 6, 7:
				p = hop{K: 1, Data: B(rbytes(t, pick(t, 70, "pl"), "pd")), Cap: pick(t, 100, "cap")}
				if pick(t, 2, "nil") == 0 {
					p.Data = nil
				}
			case 8:
				p = hop{K: 2}
			case 9:
				p = hop{K: 3}
			}
			c.Ops = append(c.Ops, p)
		}
		return c
	}, func(c histCase, x *Ctx) error {
		o := hobjs[c.Obj%len(hobjs)]
		x.Label(o.name)
		salt := cp(c.Salt)
		h := o.mk(salt)
		for i := range salt { // the object must not keep the caller's buffer
			salt[i] ^= 0xa5
		}
		var buf []byte
		writes, mid, resets := 0, false, false
		ops := append(append([]hop{}, c.Ops...), hop{K: 1})
		var earlier [][2][]byte
		for i, p := range ops {
			switch p.K {
			case 0, 4:
				d := cp(p.Data)
				n, err := h.Write(d)
				if err != nil || n != len(d) {
					return errf("%s op %d: Write(%d bytes) = %d, %v", o.name, i, len(d), n, err)
				}
				if !eqb(d, p.Data) {
					return errf("%s op %d: Write changed its argument", o.name, i)
				}
				if p.K == 4 {
					for j := range d {
						d[j] = 0x77
					}
				}
				buf = append(buf, p.Data...)
				if len(p.Data) > 0 {
					writes++
				}
			case 1:
				pre := make([]byte, len(p.Data), len(p.Data)+p.Cap)
				copy(pre, p.Data)
				if p.Data == nil && p.Cap == 0 {
					pre = nil
				}
				got := h.Sum(pre)
				want := append(cp(p.Data), o.oneF(c.Salt, buf)...)
				if !eqb(got, want) {
					return errf("%s op %d: Sum(prefix %d bytes) after %d bytes = %x, want %x", o.name, i, len(p.Data), len(buf), got, want)
				}
				if !eqb(pre, p.Data) {
					return errf("%s op %d: Sum changed the prefix", o.name, i)
				}
				earlier = append(earlier, [2][]byte{got, want})
				if writes == 1 {
					mid = true
				}
			case 2:
				h.Reset()
				if len(buf) > 0 {
					resets = true
				}
				buf = nil
			case 3:
				if h.Size() != o.size || h.BlockSize() != o.block {
					return errf("%s: Size/BlockSize = %d/%d, want %d/%d", o.name, h.Size(), h.BlockSize(), o.size, o.block)
				}
			}
		}
		for _, e := range earlier {
			if !eqb(e[0], e[1]) {
				return errf("%s: an earlier Sum result changed later: %x, want %x", o.name, e[0], e[1])
			}
		}
		if writes >= 2 && mid || resets {
			x.NT()
		}
		return nil
	})

	// SHAKE: write/read/clone/reset histories over a small set of objects
	type sop struct {
		K    int // 0 write 1 read 2 clone 3 reset
		O, N int
		Data B
	}
	type shakeHist struct {
		Bits int
		Ops  []sop
	}
	F("H02", "shake", "a clone is taken and both copies used, or two reads", 6000, 150000, func(t *rapid.T) shakeHist {
		c := shakeHist{Bits: 128 * (1 + pick(t, 2, "bits"))}
		rate := 168
		if c.Bits == 256 {
			rate = 136
		}
		n := 2 + pick(t, 12, "n")
		for i := 0; i < n; i++ {
			p := sop{K: []int{0, 0, 1, 1, 1, 2, 2, 3}[pick(t, 8, "op")], O: pick(t, 4, "o"), N: partLen(t, rate, "rl")}
			if p.K == 0 {
				p.Data = B(rbytes(t, p.N, "d"))
				p.N = 0
			}
			c.Ops = append(c.Ops, p)
		}
		return c
	}, func(c shakeHist, x *Ctx) error {
		rate := 168
		mk := owsha3.NewShake128
		if c.Bits == 256 {
			rate = 136
			mk = owsha3.NewShake256
		}
		type st struct {
			h    owsha3.ShakeHash
			in   []byte
			read int
			sq   bool
		}
		objs := []*st{{h: mk()}}
		reads, clones := 0, 0
		ops := append([]sop{}, c.Ops...)
		for i := 0; i < 4; i++ {
			ops = append(ops, sop{K: 1, O: i, N: 40})
		}
		for i, p := range ops {
			if p.O >= len(objs) {
				p.O = len(objs) - 1
			}
			o := objs[p.O]
			switch p.K {
			case 0:
				if o.sq {
					continue // documented: writing after reading panics
				}
				d := cp(p.Data)
				if n, err := o.h.Write(d); err != nil || n != len(d) {
					return errf("shake op %d: Write = %d, %v", i, n, err)
				}
				for j := range d {
					d[j] ^= 0x5a
				}
				o.in = append(cp(o.in), p.Data...)
			case 1:
				out := make([]byte, p.N)
				if n, err := o.h.Read(out); err != nil || n != p.N {
					return errf("shake op %d: Read = %d, %v", i, n, err)
				}
				want := ref.Keccak(rate, 0x1f, o.in, o.read+p.N)[o.read:]
				if !eqb(out, want) {
					return errf("shake%d op %d: read %d bytes at offset %d after %d input bytes = %x, want %x", c.Bits, i, p.N, o.read, len(o.in), out, want)
				}
				o.read += p.N
				o.sq = true
				reads++
			case 2:
				if len(objs) < 5 {
					objs = append(objs, &st{h: o.h.Clone(), in: cp(o.in), read: o.read, sq: o.sq})
					clones++
				}
			case 3:
				o.h.Reset()
				o.in, o.read, o.sq = nil, 0, false
			}
		}
		if clones > 0 || reads > 6 {
			x.NT()
		}
		return nil
	})

	// ---- H03
	type paramCase struct {
		Kind                int
		Size                int
		Key, Salt, Person   B
		Tree                bool
		Fanout, MaxDepth    uint8
		LeafSize            uint32
		NodeOffset          uint64
		NodeDepth, InnerLen uint8
		Last                bool
		Msg                 B
		Split               int
	}
	F("H03", "blake2s", "legal parameters with a key, salt, personalisation or tree", 9000, 250000, func(t *rapid.T) paramCase {
		c := paramCase{Msg: message(t, 1500, "m"), Size: pick(t, 36, "size"), Split: pick(t, 200, "split")}
		ln := func(n int, l string) B {
			switch pick(t, 4, l+"p") {
			case 0:
				return nil
			case 1:
				return B(rbytes(t, n, l))
			case 2:
				return B(rbytes(t, pick(t, n+1, l+"l"), l))
			}
			return B(rbytes(t, pick(t, n+4, l+"l"), l))
		}
		c.Key, c.Salt, c.Person = ln(32, "key"), ln(8, "salt"), ln(8, "person")
		if pick(t, 2, "tree") == 0 {
			c.Tree = true
			c.Fanout, c.MaxDepth = uint8(pick(t, 256, "fan")), uint8(1+pick(t, 255, "dep"))
			c.LeafSize = rapid.Uint32().Draw(t, "leaf")
			c.NodeOffset = rapid.Uint64().Draw(t, "off")
			if pick(t, 4, "offk") != 0 {
				c.NodeOffset &= 1<<48 - 1
			} else {
				c.NodeOffset = 1<<48 - 2 + uint64(pick(t, 4, "offe"))
			}
			c.NodeDepth, c.InnerLen = uint8(pick(t, 256, "nd")), uint8(pick(t, 36, "il"))
			c.Last = pick(t, 2, "last") == 1
		}
		return c
	}, func(c paramCase, x *Ctx) error {
		cfg := &blake2s.Config{Size: uint8(c.Size), Key: cp(c.Key), Salt: cp(c.Salt), Person: cp(c.Person)}
		legal := c.Size <= 32 && len(c.Key) <= 32 && len(c.Salt) <= 8 && len(c.Person) <= 8
		p := ref.Blake2sParams{Size: c.Size, Key: c.Key, Salt: c.Salt, Person: c.Person}
		if c.Size == 0 {
			p.Size = 32
		}
		if c.Tree {
			cfg.Tree = &blake2s.Tree{Fanout: c.Fanout, MaxDepth: c.MaxDepth, LeafSize: c.LeafSize, NodeOffset: c.NodeOffset, NodeDepth: c.NodeDepth, InnerHashSize: c.InnerLen, IsLastNode: c.Last}
			legal = legal && c.NodeOffset < 1<<48 && c.InnerLen <= 32
			p.Tree, p.Fanout, p.MaxDepth, p.LeafSize, p.NodeOffset, p.NodeDepth, p.InnerHash, p.LastNode = true, c.Fanout, c.MaxDepth, c.LeafSize, c.NodeOffset, c.NodeDepth, c.InnerLen, c.Last
		}
		h, err := blake2s.New(cfg)
		if !legal {
			x.Label("forbidden")
			if err == nil || h != nil {
				return errf("forbidden parameters accepted: %+v", c)
			}
			return nil
		}
		if err != nil {
			return errf("legal parameters refused: %v", err)
		}
		if len(c.Key)+len(c.Salt)+len(c.Person) > 0 || c.Tree {
			x.NT()
		}
		want, rerr := ref.Blake2s(p, c.Msg)
		if rerr != nil {
			return errf("reference: %v", rerr)
		}
		k := min(c.Split, len(c.Msg))
		h.Write(c.Msg[:k])
		// the parameters are the caller's again
		for _, b := range [][]byte{cfg.Key, cfg.Salt, cfg.Person} {
			for i := range b {
				b[i] ^= 0x5a
			}
		}
		cfg.Size ^= 7
		if cfg.Tree != nil {
			*cfg.Tree = blake2s.Tree{Fanout: 7, MaxDepth: 9, IsLastNode: !c.Last}
		}
		h.Write(c.Msg[k:])
		if got := h.Sum(nil); !eqb(got, want) {
			return errf("BLAKE2s(%d bytes) = %x, want %x", len(c.Msg), got, want)
		}
		if h.Size() != p.Size {
			return errf("Size() = %d, want %d", h.Size(), p.Size)
		}
		h.Reset()
		h.Write(c.Msg)
		if got := h.Sum(nil); !eqb(got, want) {
			return errf("BLAKE2s after Reset = %x, want %x", got, want)
		}
		return nil
	}).rows(5000, 120000, func(t *rapid.T, c paramCase, l string) paramCase {
		switch pick(t, 5, l+"what") {
		case 0:
			c.Key = kinLen(t, c.Key, l)
		case 1:
			c.Salt = kinLen(t, c.Salt, l)
		case 2:
			c.Person = kinLen(t, c.Person, l)
		case 3:
			c.Size = pick(t, 36, l+"size")
		default:
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	})
	F("H03", "blake", "non-zero salt and non-empty message", 9000, 250000, func(t *rapid.T) paramCase {
		c := paramCase{Kind: pick(t, 4, "kind"), Msg: message(t, 1200, "m"), Split: pick(t, 200, "split")}
		n := 16
		if c.Kind >= 2 {
			n = 32
		}
		switch pick(t, 8, "sk") {
		case 0:
			c.Salt = nil
		case 1:
			c.Salt = B(rbytes(t, pick(t, 40, "sl"), "salt"))
		default:
			c.Salt = B(rbytes(t, n, "salt"))
		}
		return c
	}, func(c paramCase, x *Ctx) (err error) {
		size := []int{32, 28, 64, 48}[c.Kind%4]
		n := 16
		if c.Kind >= 2 {
			n = 32
		}
		var h hash.Hash
		var salt []byte
		if c.Salt != nil {
			salt = cp(c.Salt)
			mk := []func([]byte) hash.Hash{blake256.NewSalt, blake256.New224Salt, blake512.NewSalt, blake512.New384Salt}[c.Kind%4]
			if len(salt) != n {
				x.Label("forbidden salt length")
				defer func() {
					// a panic is this API's refusal
					if r := recover(); r == nil && err == nil {
						if h != nil {
							err = errf("salt of %d bytes accepted", len(salt))
						}
					}
				}()
				h = mk(salt)
				return nil
			}
			h = mk(salt)
			for i := range salt { // the caller's again
				salt[i] ^= 0x5a
			}
			salt = []byte(c.Salt)
		} else {
			h = []func() hash.Hash{blake256.New, blake256.New224, blake512.New, blake512.New384}[c.Kind%4]()
		}
		if salt != nil && len(c.Msg) > 0 {
			x.NT()
		}
		var want []byte
		if c.Kind < 2 {
			want = ref.Blake256(size, salt, c.Msg)
		} else {
			want = ref.Blake512(size, salt, c.Msg)
		}
		k := min(c.Split, len(c.Msg))
		h.Write(c.Msg[:k])
		h.Write(c.Msg[k:])
		if got := h.Sum(nil); !eqb(got, want) {
			return errf("BLAKE-%d(salt %x, %d bytes) = %x, want %x", size*8, salt, len(c.Msg), got, want)
		}
		return nil
	}).rows(5000, 120000, func(t *rapid.T, c paramCase, l string) paramCase {
		switch pick(t, 4, l+"what") {
		case 0:
			c.Kind = pick(t, 4, l+"kind")
		case 1:
			c.Salt = kin(t, c.Salt, l)
		default:
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	})
	F("H03", "shake", "output longer than 0 bytes", 6000, 150000, func(t *rapid.T) paramCase {
		return paramCase{Kind: pick(t, 2, "kind"), Msg: message(t, 1200, "m"), Size: mlen(t, 2000, "out"), Split: pick(t, 400, "split")}
	}, func(c paramCase, x *Ctx) error {
		rate := []int{168, 136}[c.Kind%2]
		want := ref.Keccak(rate, 0x1f, c.Msg, c.Size)
		if c.Size > 0 {
			x.NT()
		}
		out := make([]byte, c.Size)
		if c.Kind == 0 {
			owsha3.ShakeSum128(out, c.Msg)
		} else {
			owsha3.ShakeSum256(out, c.Msg)
		}
		if !eqb(out, want) {
			return errf("ShakeSum(rate %d, in %d, out %d) = %x, want %x", rate, len(c.Msg), c.Size, out, want)
		}
		std := make([]byte, c.Size)
		if c.Kind == 0 {
			s := sha3.NewSHAKE128()
			s.Write(c.Msg)
			s.Read(std)
		} else {
			s := sha3.NewSHAKE256()
			s.Write(c.Msg)
			s.Read(std)
		}
		if !eqb(std, want) {
			return errf("oracle disagreement (SHAKE)")
		}
		h := owsha3.NewShake128()
		if c.Kind == 1 {
			h = owsha3.NewShake256()
		}
		k := min(c.Split, len(c.Msg))
		h.Write(c.Msg[:k])
		h.Write(c.Msg[k:])
		o2 := make([]byte, c.Size)
		k = min(c.Split, len(o2))
		h.Read(o2[:k])
		h.Read(o2[k:])
		if !eqb(o2, want) {
			return errf("SHAKE split read (rate %d, in %d, out %d at %d) differs", rate, len(c.Msg), c.Size, k)
		}
		return nil
	}).rows(5000, 120000, func(t *rapid.T, c paramCase, l string) paramCase {
		switch pick(t, 4, l+"what") {
		case 0:
			c.Kind = 1 - c.Kind
		case 1:
			c.Size = mlen(t, 2000, l+"out")
		default:
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	})
	F("H03", "sums", "non-empty message", 4000, 100000, func(t *rapid.T) paramCase {
		return paramCase{Kind: pick(t, 6, "kind"), Msg: message(t, 1200, "m")}
	}, func(c paramCase, x *Ctx) error {
		if len(c.Msg) > 0 {
			x.NT()
		}
		var got, want []byte
		switch c.Kind % 6 {
		case 0:
			a, b := owsha3.Sum224(c.Msg), sha3.Sum224(c.Msg)
			got, want = a[:], b[:]
		case 1:
			a, b := owsha3.Sum256(c.Msg), sha3.Sum256(c.Msg)
			got, want = a[:], b[:]
		case 2:
			a, b := owsha3.Sum384(c.Msg), sha3.Sum384(c.Msg)
			got, want = a[:], b[:]
		case 3:
			a, b := owsha3.Sum512(c.Msg), sha3.Sum512(c.Msg)
			got, want = a[:], b[:]
		case 4:
			got, want = sm3.Sm3Sum(c.Msg), ref.SM3(c.Msg)
		case 5:
			a := blake2s.Sum256(c.Msg)
			got, want = a[:], refBlake2s(32, c.Msg)
		}
		if !eqb(got, want) {
			return errf("one-shot sum %d of %d bytes = %x, want %x", c.Kind, len(c.Msg), got, want)
		}
		return nil
	}).rows(5000, 120000, func(t *rapid.T, c paramCase, l string) paramCase {
		if pick(t, 4, l+"what") == 0 {
			c.Kind = pick(t, 6, l+"kind")
		} else {
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	})
}
