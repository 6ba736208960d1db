package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	ow "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"

	"verif/ref"
)

// One call of an exported function of package owcrypt (R01-R03).

type call struct {
	Fn   string
	Typ  uint32
	N    uint16
	Args []B
	Rnd  B // random source of the call
}

type reply struct {
	Outs [][]byte
	St   int // status, -1: the function has none
	Aux  int // recovery bit or infinity flag
}

func (a reply) same(b reply) bool {
	if a.St != b.St || a.Aux != b.Aux || len(a.Outs) != len(b.Outs) {
		return false
	}
	for i := range a.Outs {
		if !eqb(a.Outs[i], b.Outs[i]) || (a.Outs[i] == nil) != (b.Outs[i] == nil) {
			return false
		}
	}
	return true
}

func (a reply) copy() reply {
	o := reply{nil, a.St, a.Aux}
	for _, b := range a.Outs {
		o.Outs = append(o.Outs, cp(b))
	}
	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func errStatus(err error) int {
	if err != nil {
		return int(ow.FAILURE)
	}
	return int(ow.SUCCESS)
}

// worldOf is everything a caller of one curve type may hold.
type worldOf struct {
	typ                        uint32
	priv, pub, pub2, id, msg   []byte
	sig, sig2                  []byte
	v                          byte
	plain, ct                  []byte
	idB, privB, pubB           []byte
	ra, Ra, rb, Rb, key, s1    []byte
	sin, sfin, scalar, comp, X []byte
	klen                       uint16
}

func newWorld(t *rapid.T, typ uint32, l string) (w worldOf) {
	w.typ = typ
	known := false
	for _, s := range schemes {
		known = known || s.typ == typ
	}
	s := schSM2
	if known {
		s = schemeOf(typ)
	}
	w.priv = s.priv(t, l+"priv")
	p2 := s.priv(t, l+"priv2")
	w.msg = s.msg(t, l+"msg")
	w.id = rbytes(t, 1+pick(t, 40, l+"idl"), l+"id")
	w.scalar = s.priv(t, l+"sc")
	w.X = rbytes(t, 32, l+"X")
	w.plain = rbytes(t, 1+pick(t, 100, l+"pl"), l+"plain")
	defer func() { recover() }() // a crash is the check's to find
	setRand(w.X, nil)
	w.pub, w.pub2 = s.pub(w.priv), s.pub(p2)
	w.sig, w.v, _ = ow.Signature(cp(w.priv), nil, cp(w.msg), s.typ)
	w.comp = cp(w.pub)
	if len(w.pub) == 64 {
		w.comp = cat([]byte{2 + w.pub[63]&1}, w.pub[:32])
	}
	switch s.typ {
	case tSM2:
		w.idB = rbytes(t, 1+pick(t, 40, l+"idbl"), l+"idb")
		w.privB = s.priv(t, l+"privB")
		w.ra, w.rb = s.priv(t, l+"ra"), s.priv(t, l+"rb")
		w.pubB, w.Ra, w.Rb = s.pub(w.privB), s.pub(w.ra), s.pub(w.rb)
		P, _ := ref.SM2.ParseXY(w.pub)
		w.ct, _ = ref.SM2Encrypt(P, bi(w.scalar), w.plain)
		w.klen = uint16(pick(t, 100, l+"klen"))
		PB, RA, RB := pub2(w.privB), pub2(w.ra), pub2(w.rb)
		key, s2, s3, _ := ref.SM2KA(bi(w.priv), bi(w.ra), RA, PB, RB, ref.SM2ZA(P, w.id), ref.SM2ZA(PB, w.idB), RA, RB, int(w.klen))
		w.key, w.s1, w.sfin = key, s2, s3
	case tNUL, tAUG:
		w.sig2, _, _ = ow.Signature(cp(p2), nil, cp(w.msg), s.typ)
	}
	return w
}

type fn struct {
	name   string
	types  []uint32 // types it is documented for
	status bool
	args   func(w worldOf) ([]B, uint16)
	run    func(a [][]byte, n uint16, typ uint32) reply
	// lens: byte lengths allowed for the outputs of a successful call; -1: any
	lens func(typ uint32, a []B, n uint16) []int
}

func bs(a ...[]byte) (o []B) {
	for _, b := range a {
		o = append(o, B(b))
	}
	return
}

var (
	allTypes  = []uint32{tK1, tR1, tSM2, ow.ECC_CURVE_ED25519_NORMAL, tEd, tX, tKC, tNUL, tAUG, tPas}
	weiTypes  = []uint32{tK1, tR1, tSM2, tPas}
	wei3Types = []uint32{tK1, tR1, tSM2}
	curveName = map[uint32]string{tK1: "secp256k1", tR1: "secp256r1", tSM2: "sm2_std"}
	hashLens  = map[uint32]int{ow.HASH_ALG_SHA1: 20, ow.HASH_ALG_SHA3_256: 32, ow.HASH_ALG_SHA256: 32, ow.HASH_ALG_SHA512: 64, ow.HASH_ALG_MD4: 16, ow.HASH_ALG_MD5: 16, ow.HASH_ALG_RIPEMD160: 20, ow.HASH_ALG_SM3: 32, ow.HASH_ALG_DOUBLE_SHA256: 32, ow.HASH_ALG_HASH160: 20, ow.HASH_ALG_BLAKE256: 32, ow.HASH_ALG_BLAKE512: 64, ow.HASH_ALG_KECCAK256: 32, ow.HASH_ALG_KECCAK256_RIPEMD160: 20, ow.HASH_ALG_SHA3_256_RIPEMD160: 20, ow.HASH_ALG_KECCAK512: 64, ow.HASH_ALG_SHA3_512: 64, ow.HASH_ALG_BLAKE2B: -1, ow.HASH_ALG_BLAKE2S: -1}
	hmacLens  = map[uint32]int{ow.HMAC_SHA256_ALG: 32, ow.HMAC_SHA512_ALG: 64, ow.HMAC_SM3_ALG: 32}
)

func pubLen(typ uint32) int {
	switch typ {
	case tK1, tR1, tSM2, tPas:
		return 64
	case tNUL, tAUG:
		return 48
	}
	return 32
}

var fns = []fn{
	{"GenPubkey", allTypes, true, func(w worldOf) ([]B, uint16) { return bs(w.priv), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.GenPubkey(a[0], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{pubLen(typ)} }},
	{"Signature", allTypes, true, func(w worldOf) ([]B, uint16) { return bs(w.priv, nil, w.msg), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, v, st := ow.Signature(a[0], a[1], a[2], typ)
			return reply{[][]byte{o}, int(st), int(v)}
		}, func(typ uint32, a []B, n uint16) []int {
			if typ == tNUL || typ == tAUG {
				return []int{96}
			}
			return []int{64}
		}},
	{"AggregateSignatures", []uint32{tNUL, tAUG}, true, func(w worldOf) ([]B, uint16) { return bs(w.sig, w.sig2, w.sig), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.AggregateSignatures(typ, a...)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{96} }},
	{"Verify", allTypes, true, func(w worldOf) ([]B, uint16) { return bs(w.pub, nil, w.msg, w.sig), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{nil, int(ow.Verify(a[0], a[1], a[2], a[3], typ)), 0}
		}, func(typ uint32, a []B, n uint16) []int { return nil }},
	{"Encryption", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.plain), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.Encryption(a[0], a[1], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{97 + len(a[1])} }},
	{"Decryption", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) { return bs(w.priv, w.ct), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.Decryption(a[0], a[1], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{len(a[1]) - 97} }},
	{"KeyAgreement_initiator_step1", []uint32{tSM2}, false, func(w worldOf) ([]B, uint16) { return nil, 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			r, R := ow.KeyAgreement_initiator_step1(typ)
			return reply{[][]byte{r, R}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{32, 64} }},
	{"KeyAgreement_initiator_step2", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) {
		return bs(w.id, w.idB, w.priv, w.pub, w.pubB, w.ra, w.Ra, w.Rb, w.s1), w.klen
	},
		func(a [][]byte, n uint16, typ uint32) reply {
			k, s, st := ow.KeyAgreement_initiator_step2(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], n, typ)
			return reply{[][]byte{k, s}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{int(n), 32} }},
	{"KeyAgreement_responder_step1", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) {
		return bs(w.id, w.idB, w.privB, w.pubB, w.pub, w.Ra), w.klen
	},
		func(a [][]byte, n uint16, typ uint32) reply {
			k, R, s1, s2, st := ow.KeyAgreement_responder_step1(a[0], a[1], a[2], a[3], a[4], a[5], n, typ)
			return reply{[][]byte{k, R, s1, s2}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{int(n), 64, 32, 32} }},
	{"KeyAgreement_responder_ElGamal_step1", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) {
		return bs(w.id, w.idB, w.privB, w.pubB, w.pub, w.Ra, w.rb), w.klen
	},
		func(a [][]byte, n uint16, typ uint32) reply {
			k, R, s1, s2, st := ow.KeyAgreement_responder_ElGamal_step1(a[0], a[1], a[2], a[3], a[4], a[5], n, a[6], typ)
			return reply{[][]byte{k, R, s1, s2}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{int(n), 64, 32, 32} }},
	{"KeyAgreement_responder_step2", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) { return bs(w.sfin, w.sfin), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{nil, int(ow.KeyAgreement_responder_step2(a[0], a[1], typ)), 0}
		}, func(typ uint32, a []B, n uint16) []int { return nil }},
	{"Point_mulBaseG", []uint32{tK1, tR1, tSM2, tEd, tNUL, tAUG, tPas}, false, func(w worldOf) ([]B, uint16) { return bs(w.scalar), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.Point_mulBaseG(a[0], typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int {
			if l := pubLen(typ); l != 64 {
				return []int{l}
			}
			return []int{33}
		}},
	{"Point_mulBaseG_add", []uint32{tK1, tR1, tSM2, tEd, tNUL, tAUG, tPas}, false, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.scalar), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, inf := ow.Point_mulBaseG_add(a[0], a[1], typ)
			return reply{[][]byte{o}, -1, b2i(inf)}
		}, func(typ uint32, a []B, n uint16) []int { return []int{pubLen(typ)} }},
	{"Point_add", []uint32{tK1, tR1, tSM2, tEd, tPas}, true, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.pub2), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.Point_add(a[0], a[1], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{pubLen(typ)} }},
	{"Point_mul", weiTypes, true, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.scalar), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.Point_mul(a[0], a[1], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{64} }},
	{"GetCurveOrder", []uint32{tK1, tR1, tSM2, tEd, tPas}, false, func(w worldOf) ([]B, uint16) { return nil, 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.GetCurveOrder(typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{32} }},
	{"PointCompress", weiTypes, false, func(w worldOf) ([]B, uint16) { return bs(w.pub), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.PointCompress(a[0], typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{33} }},
	{"PointDecompress", weiTypes, false, func(w worldOf) ([]B, uint16) { return bs(w.comp), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.PointDecompress(a[0], typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{65} }},
	{"RecoverPubkey", wei3Types, true, func(w worldOf) ([]B, uint16) { return bs(append(cp(w.sig), w.v), w.msg), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, st := ow.RecoverPubkey(a[0], a[1], typ)
			return reply{[][]byte{o}, int(st), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{64} }},
	{"CURVE25519_convert_X_to_Ed", []uint32{tX}, true, func(w worldOf) ([]B, uint16) { return bs(w.pub), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, err := ow.CURVE25519_convert_X_to_Ed(a[0])
			return reply{[][]byte{o}, errStatus(err), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{32} }},
	{"CURVE25519_convert_Ed_to_X", []uint32{tEd, ow.ECC_CURVE_ED25519_NORMAL}, true, func(w worldOf) ([]B, uint16) { return bs(w.pub), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, err := ow.CURVE25519_convert_Ed_to_X(a[0])
			return reply{[][]byte{o}, errStatus(err), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{32} }},
	{"MulBaseG_Add", wei3Types, false, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.scalar), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, inf := ow.MulBaseG_Add(a[0], a[1], nameOf(typ))
			return reply{[][]byte{o}, -1, b2i(inf)}
		}, func(typ uint32, a []B, n uint16) []int { return []int{64} }},
	{"Add", wei3Types, false, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.pub2), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, inf := ow.Add(a[0], a[1], nameOf(typ))
			return reply{[][]byte{o}, -1, b2i(inf)}
		}, func(typ uint32, a []B, n uint16) []int { return []int{64} }},
	{"Mul", wei3Types, false, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.scalar), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			o, inf := ow.Mul(a[0], a[1], nameOf(typ))
			return reply{[][]byte{o}, -1, b2i(inf)}
		}, func(typ uint32, a []B, n uint16) []int { return []int{64} }},
	{"Hash", hashTypes(), false, func(w worldOf) ([]B, uint16) { return bs(w.msg), 32 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.Hash(a[0], n, typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int {
			if l := hashLens[typ]; l >= 0 {
				return []int{l}
			}
			if typ == ow.HASH_ALG_BLAKE2S && n == 0 {
				return []int{32}
			}
			return []int{int(n)}
		}},
	{"Hmac", []uint32{ow.HMAC_SHA256_ALG, ow.HMAC_SHA512_ALG, ow.HMAC_SM3_ALG}, false, func(w worldOf) ([]B, uint16) { return bs(w.priv, w.msg), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			return reply{[][]byte{ow.Hmac(a[0], a[1], typ)}, -1, 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{hmacLens[typ]} }},
	{"ZA", []uint32{tSM2}, true, func(w worldOf) ([]B, uint16) { return bs(w.pub, w.id), 0 },
		func(a [][]byte, n uint16, typ uint32) reply {
			var p [64]byte
			copy(p[:], a[0])
			pub := &ecdsa.PublicKey{X: bi(p[:32]), Y: bi(p[32:])}
			x0, y0 := new(big.Int).Set(pub.X), new(big.Int).Set(pub.Y)
			o, err := ow.ZA(pub, a[1])
			if pub.X.Cmp(x0) != 0 || pub.Y.Cmp(y0) != 0 || pub.Curve != nil {
				panic("ZA changes the public key it is given")
			}
			return reply{[][]byte{o}, errStatus(err), 0}
		}, func(typ uint32, a []B, n uint16) []int { return []int{32} }},
}

func hashTypes() (o []uint32) {
	for i := uint32(0); i <= 0x12; i++ {
		o = append(o, 0xA0000000+i)
	}
	return
}

func nameOf(typ uint32) string {
	if n, ok := curveName[typ]; ok {
		return n
	}
	return []string{"", "SECP256K1", "sm2", "secp256k1 ", "P-256", "pasta"}[typ%6]
}

func fnOf(name string) *fn {
	for i := range fns {
		if fns[i].name == name {
			return &fns[i]
		}
	}
	panic("fnOf " + name)
}

func (f *fn) documented(typ uint32) bool {
	for _, t := range f.types {
		if t == typ {
			return true
		}
	}
	return false
}

func (c call) run(args [][]byte) reply {
	setRand(c.Rnd, nil)
	return fnOf(c.Fn).run(args, c.N, c.Typ)
}

func (c call) fresh() [][]byte {
	var a [][]byte
	for _, b := range c.Args {
		a = append(a, cp(b))
	}
	return a
}

// calm runs a call; ok is false if it panics (R01's business).
func (c call) calm() (r reply, ok bool) {
	defer func() {
		if recover() != nil {
			r, ok = reply{}, false
		}
	}()
	return c.run(c.fresh()).copy(), true
}

// goodCall draws a call whose arguments make it succeed, biased to cheap types.
func goodCall(t *rapid.T, l string) call {
	f := fns[pick(t, len(fns), l+"fn")]
	return goodCallOf(t, f, l)
}

// sibling draws a call that differs from c in little: what a result kept for
// c under an incomplete key would wrongly be taken for.
func sibling(t *rapid.T, c call, l string) call {
	f := fnOf(c.Fn)
	d := call{c.Fn, c.Typ, c.N, nil, c.Rnd}
	var full []int
	for i, a := range c.Args {
		d.Args = append(d.Args, B(cp(a)))
		if len(a) > 0 {
			full = append(full, i)
		}
	}
	k := pick(t, 9, l+"k")
	if len(full) == 0 || len(f.types) > 1 && k == 5 {
		d.Typ = f.types[pick(t, len(f.types), l+"typ")]
		return d
	}
	i := full[pick(t, len(full), l+"arg")]
	n := len(d.Args[i])
	switch k {
	case 4: // the boundary between two arguments moves
		if i+1 < len(d.Args) {
			d.Args[i+1] = cat(d.Args[i][n-1:], d.Args[i+1])
			d.Args[i] = d.Args[i][:n-1]
			return d
		}
		fallthrough
	case 5:
		d.N += []uint16{1, 255, 256, 65535}[pick(t, 4, l+"n")]
	case 6: // an argument of another call
		o := goodCallOf(t, *f, l+"o")
		for try := 0; try < 4 && o.Typ != d.Typ; try++ {
			o = goodCallOf(t, *f, l+"o")
		}
		if i < len(o.Args) {
			d.Args[i] = o.Args[i]
		}
	case 7:
		if pick(t, 2, l+"cut") == 0 {
			d.Args[i] = d.Args[i][:n-1]
		} else {
			d.Args[i] = append(d.Args[i], 0)
		}
	default:
		at := []int{0, n - 1, n / 2, n/2 - 1, min(n-1, 31), pick(t, n, l+"any")}[pick(t, 6, l+"at")]
		d.Args[i][max(at, 0)] ^= 1 << pick(t, 8, l+"bit")
	}
	return d
}

func goodCallOf(t *rapid.T, f fn, l string) call {
	typ := f.types[pick(t, len(f.types), l+"typ")]
	w := newWorld(t, typ, l)
	a, n := f.args(w)
	c := call{f.name, typ, n, a, B(rbytes(t, 8, l+"rnd"))}
	if typ == tSM2 && (f.name == "Signature" || f.name == "Verify") && pick(t, 2, l+"useid") == 0 {
		c.Args[1] = w.id
		if f.name == "Verify" {
			setRand(w.X, nil)
			func() {
				defer func() { recover() }()
				s, _, _ := ow.Signature(cp(w.priv), cp(w.id), cp(w.msg), typ)
				c.Args[3] = s
			}()
		}
	}
	if (typ == tSM2 || typ == tK1 || typ == tR1 || typ == tPas) && (strings.HasPrefix(f.name, "Point_")) && len(c.Args) > 1 {
		switch pick(t, 3, l+"form") {
		case 0:
			c.Args[0] = w.comp
		case 1:
			c.Args[0] = cat([]byte{4}, w.pub)
		}
	}
	if f.name == "PointCompress" && pick(t, 2, l+"form") == 0 {
		c.Args[0] = cat([]byte{4}, w.pub)
	}
	if f.name == "AggregateSignatures" {
		c.Args = c.Args[:1+pick(t, 3, l+"nsig")]
	}
	if f.name == "Hash" {
		c.N = []uint16{0, 1, 16, 20, 28, 32, 48, 64, 65, 33, 65535}[pick(t, 11, l+"dl")]
	}
	return c
}

// spoil replaces one argument.
func spoil(t *rapid.T, b B, l string) B {
	switch pick(t, 14, l+"how") {
	case 0:
		return nil
	case 1:
		return B{}
	case 2: // truncated
		if len(b) == 0 {
			return B{0}
		}
		return b[:pick(t, len(b), l+"cut")]
	case 3: // one byte short or long
		if len(b) > 0 && pick(t, 2, l+"shrt") == 0 {
			return b[:len(b)-1]
		}
		return append(cp(b), byte(pick(t, 256, l+"e")))
	case 4: // extended
		if pick(t, 4, l+"by") == 0 {
			return over(t, b, l)
		}
		return append(cp(b), rbytes(t, 1+pick(t, 200, l+"extn"), l+"ext")...)
	case 5: // first byte
		if len(b) == 0 {
			return B{4}
		}
		o := cp(b)
		o[0] = []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x40, 0x7f, 0x80, 0xa0, 0xc0, 0xe0, 0xff}[pick(t, 15, l+"b0")]
		return o
	case 6:
		if len(b) == 0 {
			return B{0xff}
		}
		return flip(b, pick(t, 8*len(b), l+"bit"))
	case 7:
		return make(B, len(b))
	case 8:
		return B(bytes.Repeat([]byte{0xff}, len(b)))
	case 9: // right length, any bytes
		return B(rbytes(t, len(b), l+"same"))
	case 10: // interesting lengths
		n := []int{1, 2, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 98, 99, 128, 192}[pick(t, 20, l+"ln")]
		o := rbytes(t, n, l+"lb")
		if pick(t, 2, l+"pfx") == 0 {
			o[0] = []byte{0, 2, 3, 4, 6, 7, 0x80, 0xa0, 0xc0}[pick(t, 9, l+"pf")]
		}
		return o
	case 11: // a field or scalar edge in one half
		if len(b) < 32 {
			return B(rbytes(t, 32, l+"e32"))
		}
		o := cp(b)
		vs := []*big.Int{ref.K1.N, ref.K1.P, ref.R1.N, ref.R1.P, ref.SM2.N, ref.SM2.P, ref.Pallas.N, ref.Pallas.P, ref.EdL, ref.EdP, ref.BLSR}
		v := add(vs[pick(t, len(vs), l+"mod")], n64(int64(pick(t, 3, l+"dd")-1)))
		e := b32(v)
		if pick(t, 2, l+"le") == 0 {
			e = rev(e)
		}
		copy(o[32*pick(t, len(b)/32, l+"at"):], e)
		return o
	case 12: // far too long
		return B(rbytes(t, 1000+pick(t, 9000, l+"big"), l+"bigb"))
	}
	return message(t, 300, l+"m")
}

var oddTypes = []uint32{0, 1, 0xffffffff, 0xECC0000A, 0xECC0000B, 0xECC00100, 0xECC00101, 0xECC00102, 0xECC00200, 0xECC00300, 0xECBFFFFF, 0xA0000000, 0xA0000013, 0x50505050, 0x50505053, 0x5050504F, 0x0ECC0000}

// judge: the reply is one the documentation allows.
func judge(c call, r reply) error {
	f := fnOf(c.Fn)
	want := f.lens(c.Typ, c.Args, c.N)
	ok := r.St == int(ow.SUCCESS)
	if r.St == -1 { // no status: nothing, or data of the right length
		ok = false
		for _, o := range r.Outs {
			ok = ok || len(o) > 0
		}
		if r.Aux != 0 && ok {
			return errf("infinity reported together with data %x", r.Outs)
		}
	} else if !statusOK(uint16(r.St)) {
		return errf("undocumented status %#x", r.St)
	}
	if !f.documented(c.Typ) && f.name != "KeyAgreement_initiator_step1" && !strings.HasPrefix(f.name, "CURVE") && f.name != "ZA" {
		if ok {
			return errf("type %#x is not supported, but the call succeeds: %x", c.Typ, r.Outs)
		}
		switch f.name {
		case "GenPubkey", "Signature", "Verify", "Encryption", "Decryption", "KeyAgreement_initiator_step2", "KeyAgreement_responder_step1", "KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_step2":
			if r.St != int(ow.ECC_WRONG_TYPE) {
				return errf("unknown type %#x: status %#x instead of ECC_WRONG_TYPE", c.Typ, r.St)
			}
		}
	}
	if !ok {
		for _, o := range r.Outs {
			if len(o) != 0 {
				return errf("no success (status %#x) but data %x", r.St, o)
			}
		}
		if f.name == "Signature" && r.Aux != 0 {
			return errf("no success but v=%d", r.Aux)
		}
		return nil
	}
	for i, o := range r.Outs {
		if want[i] >= 0 && len(o) != want[i] {
			return errf("success, but output %d has %d bytes instead of %d: %x", i, len(o), want[i], o)
		}
	}
	if f.name == "Signature" && r.Aux > 1 {
		return errf("v = %d", r.Aux)
	}
	return nil
}

const argRule = "one call with malformed arguments"

func init() {
	F("R01", "arguments", "every case: "+argRule+" (at least one argument replaced, type sometimes unknown)", 9000, 600000, func(t *rapid.T) call {
		c := goodCall(t, "")
		k := 1 + pick(t, 3, "nspoil")
		for i := 0; i < k && len(c.Args) > 0; i++ {
			j := pick(t, len(c.Args), "which")
			c.Args[j] = spoil(t, c.Args[j], "sp")
		}
		switch pick(t, 12, "ty") {
		case 0:
			c.Typ = oddTypes[pick(t, len(oddTypes), "odd")]
		case 1:
			c.Typ = rapid.Uint32().Draw(t, "anytyp")
		case 2: // another known type
			c.Typ = allTypes[pick(t, len(allTypes), "oty")]
		}
		if pick(t, 4, "nn") == 0 {
			c.N = uint16(pick(t, 65536, "n"))
		}
		return c
	}, func(c call, x *Ctx) error {
		x.Label(c.Fn)
		x.NT()
		r := c.run(c.fresh())
		if r.St == int(ow.SUCCESS) {
			x.Label("success")
		}
		if err := judge(c, r); err != nil {
			return errf("%s(type %#x): %v", c.Fn, c.Typ, err)
		}
		return nil
	})

	F("R01", "lengths", "every case: a well-formed call, each of its arguments in turn cut to every shorter length and extended by 1 to 3 bytes (up to 200 lengths near both ends for longer arguments), and replaced by nil", 420, 20000, func(t *rapid.T) call {
		return goodCall(t, "")
	}, func(c call, x *Ctx) error {
		x.Label(c.Fn)
		x.NT()
		try := func(j int, a B) error {
			d := c
			d.Args = append([]B{}, c.Args...)
			d.Args[j] = a
			if err := safeCheck(func(d call, _ *Ctx) error { return judge(d, d.run(d.fresh())) }, d, x, d.Rnd); err != nil {
				return errf("%s(type %#x), argument %d of %d bytes: %v", d.Fn, d.Typ, j, len(a), err)
			}
			return nil
		}
		for j, a := range c.Args {
			if err := try(j, nil); err != nil {
				return err
			}
			for n := 0; n < len(a)+4; n++ {
				if n > 100 && n < len(a)-100 {
					continue
				}
				b := cp(a)
				if n <= len(a) {
					b = b[:n:n]
				} else {
					b = append(b, c.Rnd[:n-len(a)]...)
				}
				if err := try(j, B(b)); err != nil {
					return err
				}
			}
		}
		return nil
	})

	F("R01", "rubbish", "every case: one call whose arguments are all arbitrary byte strings", 24000, 1500000, func(t *rapid.T) call {
		f := fns[pick(t, len(fns), "fn")]
		c := call{Fn: f.name, Typ: f.types[pick(t, len(f.types), "typ")], N: uint16(pick(t, 300, "n"))}
		a, _ := f.args(worldOf{})
		for i := range a {
			c.Args = append(c.Args, spoil(t, B(rbytes(t, []int{32, 33, 64, 65, 48, 96, 97, 128}[pick(t, 8, "bl")], "b")), "sp"))
			_ = i
		}
		if f.name == "AggregateSignatures" {
			c.Args = c.Args[:pick(t, 4, "na")]
		}
		if oneIn(t, 10, "odd") {
			c.Typ = oddTypes[pick(t, len(oddTypes), "oddt")]
		}
		c.Rnd = B(rbytes(t, 8, "rnd"))
		return c
	}, func(c call, x *Ctx) error {
		x.Label(c.Fn)
		x.NT()
		r := c.run(c.fresh())
		if err := judge(c, r); err != nil {
			return errf("%s(type %#x): %v", c.Fn, c.Typ, err)
		}
		return nil
	})

	F("R01", "valid", "every case: one call with well-formed arguments", 2500, 150000, func(t *rapid.T) call { return goodCall(t, "") },
		func(c call, x *Ctx) error {
			x.Label(c.Fn)
			x.NT()
			r := c.run(c.fresh())
			if err := judge(c, r); err != nil {
				return errf("%s(type %#x): %v", c.Fn, c.Typ, err)
			}
			return nil
		})

	type guard struct {
		Call  call
		Front int
		Spare int
		Share int // 0: separate buffers, 1: neighbours in one buffer, 2: equal arguments share memory
		Bad   int
	}
	F("R02", "buffers", "every case: one call with arguments cut out of larger guarded buffers, repeated after arguments and results were overwritten", 9000, 300000, func(t *rapid.T) guard {
		g := guard{Call: goodCall(t, ""), Front: pick(t, 3, "front") * 8, Spare: []int{0, 1, 8, 32, 64, 200}[pick(t, 6, "spare")], Share: pick(t, 3, "share")}
		if pick(t, 3, "bad") == 0 && len(g.Call.Args) > 0 {
			j := pick(t, len(g.Call.Args), "which")
			g.Call.Args[j] = spoil(t, g.Call.Args[j], "sp")
			g.Bad = 1
		}
		if g.Share == 2 && len(g.Call.Args) > 1 && pick(t, 2, "eq") == 0 {
			i, j := pick(t, len(g.Call.Args), "i"), pick(t, len(g.Call.Args), "j")
			g.Call.Args[i] = cp(g.Call.Args[j])
		}
		return g
	}, func(g guard, x *Ctx) error {
		c := g.Call
		x.Label(c.Fn)
		x.NT()
		first, ok := c.calm()
		if !ok {
			x.Label("panics")
			return nil
		}
		// guarded run
		const canary = 0xa5
		var args, bufs [][]byte
		if g.Share == 1 {
			n := g.Front
			for _, a := range c.Args {
				n += len(a) + g.Spare
			}
			buf := bytes.Repeat([]byte{canary}, n)
			p := g.Front
			for _, a := range c.Args {
				copy(buf[p:], a)
				s := buf[p : p+len(a)] // capacity reaches over the neighbours
				if a == nil {
					s = nil
				}
				args = append(args, s)
				p += len(a) + g.Spare
			}
			bufs = [][]byte{buf}
		} else {
			seen := map[string][]byte{}
			for _, a := range c.Args {
				if a == nil {
					args = append(args, nil)
					continue
				}
				if s, ok := seen[string(a)]; ok && g.Share == 2 {
					args = append(args, s)
					continue
				}
				buf := bytes.Repeat([]byte{canary}, g.Front+len(a)+g.Spare)
				copy(buf[g.Front:], a)
				bufs = append(bufs, buf)
				s := buf[g.Front : g.Front+len(a)]
				seen[string(a)] = s
				args = append(args, s)
			}
		}
		var before [][]byte
		for _, b := range bufs {
			before = append(before, cp(b))
		}
		list := append([][]byte{}, args...)
		r := c.run(args)
		for i := range bufs {
			if !eqb(bufs[i], before[i]) {
				k := 0
				for bufs[i][k] == before[i][k] {
					k++
				}
				return errf("%s(type %#x) changed byte %d of a caller's buffer (argument region starts at %d): %x -> %x", c.Fn, c.Typ, k, g.Front, before[i], bufs[i])
			}
		}
		for i := range list {
			if len(list[i]) != len(args[i]) || len(list[i]) > 0 && &list[i][0] != &args[i][0] || (list[i] == nil) != (args[i] == nil) {
				return errf("%s(type %#x) replaced entry %d of the caller's argument list", c.Fn, c.Typ, i)
			}
		}
		if !r.same(first) {
			return errf("%s(type %#x): result depends on where the arguments lie: %x %d %d, then %x %d %d", c.Fn, c.Typ, first.Outs, first.St, first.Aux, r.Outs, r.St, r.Aux)
		}
		// later changes of the arguments reach no result
		for _, b := range bufs {
			for i := range b {
				b[i] ^= 0x5a
			}
		}
		if !r.same(first) {
			return errf("%s(type %#x): a result shares memory with an argument", c.Fn, c.Typ)
		}
		for i, b := range bufs {
			copy(b, before[i])
		}
		// results are separate from each other (their spare capacity included),
		// from the arguments and from the library's state
		for i := range r.Outs {
			full := r.Outs[i][:cap(r.Outs[i])]
			for k := range full {
				full[k] ^= 0xff
			}
			for j := range r.Outs {
				if j > i && !eqb(r.Outs[j], first.Outs[j]) {
					return errf("%s(type %#x): results %d and %d share memory", c.Fn, c.Typ, i, j)
				}
			}
		}
		for i := range bufs {
			if !eqb(bufs[i], before[i]) {
				return errf("%s(type %#x): writing to a result changes an argument", c.Fn, c.Typ)
			}
		}
		if again := c.run(c.fresh()); !again.same(first) {
			return errf("%s(type %#x): after its results were overwritten the same call gives %x %d %d instead of %x %d %d", c.Fn, c.Typ, again.Outs, again.St, again.Aux, first.Outs, first.St, first.Aux)
		}
		return nil
	})

	// R03: a history of calls
	type history struct {
		Calls  []call
		Order  []int // further calls, by index
		Par    int   // goroutines
		Fresh  bool
		Shared bool // all goroutines use the same argument buffers
	}
	genHist := func(t *rapid.T, nmin, nmax, reps int) history {
		var h history
		n := nmin + pick(t, nmax-nmin+1, "n")
		// several calls of few functions and types meet more often
		var pool []fn
		if pick(t, 2, "focus") == 0 {
			for i := 0; i < 3; i++ {
				pool = append(pool, fns[pick(t, len(fns), "pf")])
			}
		} else {
			pool = fns
		}
		for i := 0; i < n; i++ {
			c := goodCallOf(t, pool[pick(t, len(pool), "p")], "c")
			if pick(t, 5, "bad") == 0 && len(c.Args) > 0 {
				j := pick(t, len(c.Args), "which")
				c.Args[j] = spoil(t, c.Args[j], "sp")
			}
			h.Calls = append(h.Calls, c)
			if i > 0 && pick(t, 3, "sibs") == 0 {
				for k := pick(t, 2, "nsib"); k >= 0; k-- {
					h.Calls = append(h.Calls, sibling(t, c, "sib"))
				}
			}
		}
		for i, m := 0, pick(t, reps+1, "m"); i < m; i++ {
			h.Order = append(h.Order, pick(t, len(h.Calls), "o"))
		}
		return h
	}
	F("R03", "histories", "a case with at least one call repeated after a different one", 700, 25000, func(t *rapid.T) history { return genHist(t, 2, 8, 12) },
		func(h history, x *Ctx) error {
			var base []reply
			for _, c := range h.Calls {
				x.Label(c.Fn)
				r, ok := c.calm()
				if !ok {
					x.Label("panics")
					return nil
				}
				base = append(base, r)
			}
			last := len(h.Calls) - 1
			for _, i := range append(append([]int{}, h.Order...), last) {
				if i != last {
					x.NT()
				}
				last = i
				c := h.Calls[i]
				if r := c.run(c.fresh()); !r.same(base[i]) {
					return errf("after other calls: %v", show(c, base[i], r))
				}
			}
			// the curve constants still give the defined keys
			for _, s := range []scheme{schSM2, schEd, schX, schKC, schEdN, schPas, schBN, schK1} {
				d := cat(make([]byte, 31), []byte{7})
				if p, st := ow.GenPubkey(d, s.typ); st != ow.SUCCESS || !eqb(p, pub7(s)) {
					return errf("after the history GenPubkey(7, %s) = %x (%#x)", s.name, p, st)
				}
			}
			return nil
		})

	// more calls than a table of fixed size keeps, then all of them again
	type volume struct {
		Fn   string
		Typ  uint32
		Seed uint64
	}
	var each []fn // one entry for every function and type
	for _, f := range fns {
		for _, typ := range f.types {
			g := f
			g.types = []uint32{typ}
			each = append(each, g)
		}
	}
	F("R03", "volume", "every case: 80 to 1500 different calls of one function for one type, some of them alike, then all repeated in another order; the cases go through all pairs of a function and a type", len(each), 40*len(each), func(t *rapid.T) volume {
		// coprime to the number of pairs, to spread the slow ones
		f := each[caseIndex*37%len(each)]
		return volume{f.name, f.types[0], seed(t, "s") >> 2}
	}, func(v volume, x *Ctx) error {
		x.NT()
		x.Label(v.Fn)
		for _, f := range each {
			if f.name == v.Fn && f.types[0] == v.Typ {
				return manyCalls(f, v.Seed, x)
			}
		}
		return nil
	})

	// the reply of a randomised call is judged by what it must satisfy
	random := func(c call) bool {
		switch c.Fn {
		case "Signature":
			return c.Typ != ow.ECC_CURVE_ED25519_NORMAL && c.Typ != tKC && c.Typ != tNUL && c.Typ != tAUG
		case "Encryption", "KeyAgreement_initiator_step1", "KeyAgreement_responder_step1":
			return true
		}
		return false
	}
	sound := func(c call, base, r reply) error {
		if r.St != base.St {
			return show(c, base, r)
		}
		if r.St != int(ow.SUCCESS) && r.St != -1 {
			return judge(c, r)
		}
		switch c.Fn {
		case "Signature":
			pub := schemeOf(c.Typ).pub(c.Args[0])
			if ow.Verify(pub, cp(c.Args[1]), cp(c.Args[2]), cp(base.Outs[0]), c.Typ) != ow.SUCCESS {
				return nil // no valid key: not even the first reply verifies
			}
			if st := ow.Verify(pub, cp(c.Args[1]), cp(c.Args[2]), cp(r.Outs[0]), c.Typ); st != ow.SUCCESS {
				return errf("signature does not verify (%#x): %v", st, show(c, base, r))
			}
		case "KeyAgreement_initiator_step1":
			if !eqb(pub2(r.Outs[0]).XY(), r.Outs[1]) {
				return errf("ephemeral keys do not match: %v", show(c, base, r))
			}
		default:
			return judge(c, r)
		}
		return nil
	}
	F("R03", "concurrent", "every case: the calls run at once from several goroutines", 500, 20000, func(t *rapid.T) history {
		h := genHist(t, 2, 6, 0)
		h.Par = 2 + pick(t, 7, "par")
		h.Shared = pick(t, 2, "shared") == 1
		return h
	}, func(h history, x *Ctx) error {
		x.NT()
		var base []reply
		for _, c := range h.Calls {
			x.Label(c.Fn)
			r, ok := c.calm()
			if !ok {
				x.Label("panics")
				return nil
			}
			base = append(base, r)
		}
		setRand(h.Calls[0].Rnd, nil)
		old := runtime.GOMAXPROCS(h.Par)
		defer runtime.GOMAXPROCS(old)
		got := make([][]reply, h.Par)
		pan := make([]any, h.Par)
		var wg sync.WaitGroup
		start := make(chan bool)
		var one [][][]byte // arguments all goroutines use, none of which a call may write to
		if h.Shared {
			x.Label("shared arguments")
			for _, c := range h.Calls {
				a := c.fresh()
				for i, b := range a {
					if b != nil {
						a[i] = append(make([]byte, 0, len(b)+40), b...)
					}
				}
				one = append(one, a)
			}
		}
		for g := range got {
			got[g] = make([]reply, len(h.Calls))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() { pan[g] = recover() }()
				args := make([][][]byte, len(h.Calls))
				for i, c := range h.Calls {
					args[i] = c.fresh()
				}
				if h.Shared {
					args = one
				}
				<-start
				for k := range h.Calls {
					i := (k + g*(1+len(h.Calls)/2)) % len(h.Calls)
					c := h.Calls[i]
					got[g][i] = fnOf(c.Fn).run(args[i], c.N, c.Typ)
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range got {
			if pan[g] != nil {
				return errf("panic in a concurrent call: %v", pan[g])
			}
			for i, c := range h.Calls {
				r := got[g][i]
				if random(c) {
					if err := sound(c, base[i], r); err != nil {
						return errf("concurrent: %v", err)
					}
				} else if !r.same(base[i]) {
					return errf("concurrent: %v", show(c, base[i], r))
				}
			}
		}
		return nil
	})

	F("R03", "cold", "every case: the calls are the first ones of a new process, in another order or at once, and give what they give here", 300, 8000, func(t *rapid.T) history {
		h := genHist(t, 1, 4, 0)
		h.Par = pick(t, 5, "par")
		return h
	}, func(h history, x *Ctx) error {
		x.NT()
		var base []reply
		for _, c := range h.Calls {
			x.Label(c.Fn)
			r, ok := c.calm()
			if !ok {
				x.Label("panics")
				return nil
			}
			base = append(base, r)
		}
		in, _ := json.Marshal(h)
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		cmd := exec.Command(self, "cold")
		cmd.Stdin = bytes.NewReader(in)
		var out, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &stderr
		if err := cmd.Run(); err != nil {
			e := stderr.String()
			if len(e) > 1500 {
				e = e[:1500]
			}
			if !strings.Contains(e, "panic") && !strings.Contains(e, "fatal error") && !strings.Contains(e, "SIG") && !strings.Contains(e, "DATA RACE") {
				return nil // the system could not run the process
			}
			return errf("new process: %v: %s", err, e)
		}
		var got [][]coldReply
		if err := json.Unmarshal(out.Bytes(), &got); err != nil {
			return nil
		}
		for g := range got {
			for i, c := range h.Calls {
				r := reply{nil, got[g][i].St, got[g][i].Aux}
				for _, o := range got[g][i].Outs {
					r.Outs = append(r.Outs, o)
				}
				if random(c) && h.Par > 1 {
					if err := sound(c, base[i], r); err != nil {
						return errf("first call of a process: %v", err)
					}
				} else if !r.same(base[i]) {
					return errf("first call of a process: %v", show(c, r, base[i]))
				}
			}
		}
		return nil
	})
	coldMain = func() {
		var h history
		if err := json.NewDecoder(os.Stdin).Decode(&h); err != nil {
			os.Exit(3)
		}
		par := max(1, h.Par)
		got := make([][]coldReply, par)
		if par > 1 {
			setRand(h.Calls[0].Rnd, nil)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := range got {
			got[g] = make([]coldReply, len(h.Calls))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for k := range h.Calls {
					i := (k + g) % len(h.Calls)
					if par == 1 { // reverse order
						i = len(h.Calls) - 1 - k
					}
					c := h.Calls[i]
					if par == 1 {
						setRand(c.Rnd, nil)
					}
					r := fnOf(c.Fn).run(c.fresh(), c.N, c.Typ)
					got[g][i] = coldReply{bs(r.Outs...), r.St, r.Aux}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		json.NewEncoder(os.Stdout).Encode(got)
	}
}

type coldReply struct {
	Outs    []B
	St, Aux int
}

var coldMain func()

var pub7cache sync.Map

func pub7(s scheme) []byte {
	if v, ok := pub7cache.Load(s.name); ok {
		return v.([]byte)
	}
	p := s.pub(cat(make([]byte, 31), []byte{7}))
	pub7cache.Store(s.name, p)
	return p
}

// manyCalls makes many calls of f and then repeats them in another order.
func manyCalls(f fn, sd uint64, x *Ctx) error {
	n := map[string]int{"Hash": 150, "Hmac": 1500, "PointCompress": 1000, "CURVE25519_convert_X_to_Ed": 1000, "CURVE25519_convert_Ed_to_X": 600, "PointDecompress": 400, "GetCurveOrder": 110, "Point_add": 150, "Decryption": 200, "GenPubkey": 150, "Point_mulBaseG": 150, "KeyAgreement_responder_step2": 1000}[f.name]
	if n == 0 {
		n = 110
	}
	n = n*3/4 + int(sd%uint64(n/4+1))
	one := rapid.Custom(func(t *rapid.T) []call {
		c := goodCallOf(t, f, "c")
		o := []call{c}
		for k := pick(t, 3, "nsib"); k > 0; k-- {
			o = append(o, sibling(t, c, "sib"))
		}
		return o
	})
	var calls []call
	for i := 0; len(calls) < n; i++ {
		calls = append(calls, one.Example(int(sd)+i)...)
	}
	base := make([]reply, len(calls))
	for i, c := range calls {
		r, ok := c.calm()
		if !ok {
			x.Label("panics")
			return nil
		}
		base[i] = r
	}
	order := expand(sd, 4*len(calls))
	for k := range calls {
		i := int(binary.LittleEndian.Uint32(order[4*k:]) % uint32(len(calls)))
		c := calls[i]
		if r := c.run(c.fresh()); !r.same(base[i]) {
			return errf("%s, call %d of %d, repeated: %v", f.name, i, len(calls), show(c, base[i], r))
		}
	}
	return nil
}

func show(c call, a, b reply) error {
	return errf("%s(type %#x, %x): %x %d %d, later %x %d %d", c.Fn, c.Typ, c.Args, a.Outs, a.St, a.Aux, b.Outs, b.St, b.Aux)
}
