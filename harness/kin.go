package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"

	"verif/ref"
)

// ---- rows of alike cases ----------------------------------------------------
//
// A row is a case followed by a few that differ from it in little: one bit or
// one end of one argument, the same arguments for another function or type. All
// are judged by the facet's own check, one after the other in one process, and
// the first one again at the end: whatever the library keeps between calls must
// tell them apart.

type spec[C any] struct {
	prop, name string
	gen        func(t *rapid.T) C
	check      func(c C, x *Ctx) error
}

func (s spec[C]) rows(quick, thorough int, alike func(t *rapid.T, c C, l string) C) {
	register(s.prop, s.name+"-row", "rows of two or more different cases that are alike (judged one after the other, the first one again at the end)", quick, thorough, func(t *rapid.T) []C {
		row := []C{s.gen(t)}
		for i, n := 0, 1+pick(t, 4, "row"); i < n; i++ {
			from := row[0]
			if pick(t, 3, fmt.Sprint("from", i)) == 0 {
				from = row[i]
			}
			row = append(row, alike(t, from, fmt.Sprint("alike", i)))
		}
		return row
	}, func(row []C, x *Ctx) error {
		a, _ := json.Marshal(row[0])
		for i, c := range append(append([]C{}, row...), row[0]) {
			key, _ := json.Marshal(c)
			if string(key) != string(a) {
				x.NT()
			}
			setRand(key, nil)
			var y Ctx
			if err := s.check(c, &y); err != nil {
				return errf("case %d of a row of %d alike ones: %v", i, len(row), err)
			}
			x.labels = append(x.labels, y.labels...)
		}
		return nil
	})
}

// kin changes b and keeps its length.
func kin(t *rapid.T, b []byte, l string) B {
	if len(b) == 0 {
		return cp(b)
	}
	at := place(t, len(b), l+"at")
	switch pick(t, 6, l+"kin") {
	case 0: // all that follows
		return cat(b[:at], uniform(t, len(b)-at, l+"tail"))
	case 1: // all that comes first
		return cat(uniform(t, at+1, l+"head"), b[at+1:])
	case 2:
		return warp(b, int(seed(t, l+"warp")&uint64(^uint(0)>>1)))
	case 3: // the middle
		to := place(t, len(b), l+"to")
		if to < at {
			at, to = to, at
		}
		return cat(b[:at], uniform(t, to-at+1, l+"mid"), b[to+1:])
	}
	return flip(b, at*8+pick(t, 8, l+"bit"))
}

// kinLen also changes the length.
func kinLen(t *rapid.T, b []byte, l string) B {
	switch pick(t, 7, l+"len") {
	case 0:
		return cat(b, rbytes(t, 1+pick(t, 70, l+"more"), l+"ext"))
	case 1:
		if len(b) > 0 {
			return cp(b[:place(t, len(b), l+"cut")])
		}
	case 2:
		return cat(b, []byte{0})
	case 3:
		if len(b) > 0 {
			return cp(b[1:])
		}
	}
	return kin(t, b, l)
}

func legalFor(s scheme, k []byte) bool {
	v := bi(k)
	switch s.typ {
	case tEd, tX:
		return mod(ref.LE(k), ref.EdL).Sign() != 0
	case tK1:
		return v.Sign() > 0 && v.Cmp(ref.K1.N) < 0
	case tR1:
		return v.Sign() > 0 && v.Cmp(ref.R1.N) < 0
	case tSM2:
		return v.Sign() > 0 && v.Cmp(sub(ref.SM2.N, bigOne)) < 0
	case tNUL, tAUG:
		return v.Sign() > 0 && v.Cmp(ref.BLSR) < 0
	case tPas:
		return v.Sign() > 0 && v.Cmp(ref.Pallas.N) < 0 && v.BitLen() <= 254
	}
	return true
}

// kinKey changes a private key and keeps it legal.
func kinKey(t *rapid.T, s scheme, k []byte, l string) B {
	for i := 0; i < 3; i++ {
		if v := kin(t, k, fmt.Sprint(l, i)); legalFor(s, v) {
			return v
		}
	}
	for i := 0; ; i++ {
		if v := flip(k, (255-i)%256); legalFor(s, v) {
			return v
		}
	}
}

// kinMsg changes a message the scheme signs.
func kinMsg(t *rapid.T, s scheme, m []byte, l string) B {
	switch s.typ {
	case tK1, tR1, tSM2:
		return kin(t, m, l)
	case tPas:
		return minaAlter(m, pick(t, 1<<20, l+"mina"))
	}
	return kinLen(t, m, l)
}

func kinSign(t *rapid.T, c signCase, l string) signCase {
	s := schemes[c.S]
	switch pick(t, 5, l+"what") {
	case 0:
		c.Priv = kinKey(t, s, c.Priv, l)
	case 1:
		if len(c.ID) > 0 {
			c.ID = kin(t, c.ID, l)
			break
		}
		fallthrough
	default:
		c.Msg = kinMsg(t, s, c.Msg, l)
	}
	return c
}

// kinElem changes a value below p given as big-endian bytes.
func kinElem(t *rapid.T, v []byte, p *big.Int, l string) B {
	w := mod(bi(kin(t, v, l)), p)
	return w.FillBytes(make([]byte, len(v)))
}

func kinTriple(t *rapid.T, c edCase, l string) edCase {
	switch pick(t, 5, l+"what") {
	case 0:
		c.Sig = kinLen(t, c.Sig, l)
	case 1:
		c.Sig = kin(t, c.Sig, l)
	case 2:
		c.Pub = kin(t, c.Pub, l)
	case 3:
		c.N = !c.N
		if pick(t, 2, l+"both") == 0 {
			break
		}
		fallthrough
	default:
		c.Msg = kinLen(t, c.Msg, l)
	}
	return c
}

// negated gives X || -Y.
func negated(w wcurve, xy []byte) B {
	return cat(xy[:32], b32(mod(sub(w.c.P, bi(xy[32:])), w.c.P)))
}

// kinPoint gives the opposite point, or one with an abscissa that is alike.
func kinPoint(t *rapid.T, w wcurve, xy []byte, l string) B {
	switch pick(t, 3, l+"pt") {
	case 0:
		return negated(w, xy)
	case 1: // the lower bytes differ
		return liftNear(w, mod(bi(cat(xy[:31], []byte{0})), w.c.P), uint(xy[63]&1)).XY()
	}
	return liftNear(w, mod(bi(kin(t, xy[:32], l)), w.c.P), uint(pick(t, 2, l+"odd"))).XY()
}

func kinMina(t *rapid.T, c minaCase, l string) minaCase {
	switch pick(t, 4, l+"what") {
	case 0:
		if c.Priv != nil {
			c.Priv = kinKey(t, schPas, c.Priv, l)
		} else {
			c.Sig = kin(t, c.Sig, l)
		}
	case 1:
		if len(c.Pub) == 64 {
			c.Pub = negated(cPas, c.Pub)
			break
		}
		fallthrough
	default:
		if _, ok := minaDecode(c.Msg); ok {
			c.Msg = minaAlter(c.Msg, pick(t, 1<<20, l+"mina"))
		}
	}
	return c
}

func kinBLS(t *rapid.T, c blsCase, l string) blsCase {
	switch pick(t, 5, l+"what") {
	case 0:
		c.Aug = !c.Aug
	case 1:
		if c.Pub != nil {
			c.Sig = kin(t, c.Sig, l)
		} else {
			c.Priv = kinKey(t, schBN, c.Priv, l)
		}
	default:
		c.Msg = kinLen(t, c.Msg, l)
	}
	return c
}

func kinHash(most int) func(t *rapid.T, c hashCase, l string) hashCase {
	return func(t *rapid.T, c hashCase, l string) hashCase {
		switch pick(t, 6, l+"what") {
		case 0:
			c.Alg = pick(t, most, l+"alg")
		case 1:
			c.Len = digestLenGen(t)
		default:
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	}
}

func kinPt(t *rapid.T, c ptCase, l string) ptCase {
	w := wei4[c.C]
	switch pick(t, 4, l+"what") {
	case 0:
		c.P = kinPoint(t, w, c.P, l)
	case 1:
		if c.Q != nil {
			c.P, c.Q = c.Q, c.P
		} else {
			c.P = negated(w, c.P)
		}
	default:
		if c.K != nil {
			c.K = kin(t, c.K, l)
		} else {
			c.Q = kinPoint(t, w, c.Q, l)
		}
	}
	c.Kind = strings.TrimSuffix(c.Kind, "*") + "*"
	return c
}

func kinEd(t *rapid.T, c edPtCase, l string) edPtCase {
	if pick(t, 3, l+"what") == 0 && c.Q != nil {
		Q, _ := ref.EdDec(c.Q)
		c.Q = ref.EdNeg(Q).Enc()
		return c
	}
	c.K = kin(t, c.K, l)
	return c
}

func kinKA(t *rapid.T, c kaCase, l string) kaCase {
	switch pick(t, 7, l+"what") {
	case 0:
		c.IDA = kin(t, c.IDA, l)
	case 1:
		c.IDB = kin(t, c.IDB, l)
	case 2:
		c.DA = kinKey(t, schSM2, c.DA, l)
	case 3:
		c.DB = kinKey(t, schSM2, c.DB, l)
	case 4:
		c.Len ^= 1 << pick(t, 9, l+"len")
	case 5:
		c.IDA, c.IDB = c.IDB, c.IDA
	case 6:
		if c.RA != nil {
			c.RA = kinKey(t, schSM2, c.RA, l)
		} else {
			c.IDA = kin(t, c.IDA, l)
		}
	}
	return c
}

func kinConv(t *rapid.T, c convCase, l string) convCase {
	v := kin(t, c.V, l)
	switch c.Kind {
	case "x", "ed":
		top := v[31] & 0x80
		v[31] &= 0x7f
		c.V = ref.ToLE(mod(ref.LE(v), ref.EdP), 32)
		if c.Kind == "ed" {
			c.V[31] |= top
		}
	case "scalar", "seed":
		c.V = v
	}
	return c
}

func kinPos(t *rapid.T, c posCase, l string) posCase {
	b, _ := json.Marshal(c)
	var o posCase
	json.Unmarshal(b, &o)
	i, j := pick(t, len(o.IV), l+"ctx"), pick(t, len(o.Ops)+1, l+"op")
	if j < len(o.Ops) && len(o.Ops[j].V) > 0 {
		k := pick(t, len(o.Ops[j].V), l+"el")
		o.Ops[j].V[k] = kinElem(t, o.Ops[j].V[k], ref.FpP, l)
	} else {
		k := pick(t, 3, l+"iv")
		o.IV[i][k] = kinElem(t, o.IV[i][k], ref.FpP, l)
	}
	return o
}
