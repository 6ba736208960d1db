package main

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"sort"

	ow "github.com/blocktree/go-owcrypt"
	b12 "github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"pgregory.net/rapid"

	"verif/ref"
)

// BLS signatures (B01), aggregation (B02), groups and pairing (B03).

const (
	dstNUL = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
	dstAUG = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"
)

// blsRefSign signs as scheme typ does.
func blsRefSign(priv, msg []byte, typ uint32) []byte {
	if typ == tAUG {
		return ref.BLSSign(bi(priv), cat(blsPub(priv), msg), []byte(dstAUG))
	}
	return ref.BLSSign(bi(priv), msg, []byte(dstNUL))
}
func blsPub(priv []byte) []byte { return ref.G1Comp(ref.G1Mul(ref.BLSG1(), bi(priv))) }

// blsMsg: ordinary messages plus ones that look like tags or keys.
func blsMsg(t *rapid.T, l string) B {
	m := msgAny(t, l)
	switch pick(t, 8, l+"bk") {
	case 0:
		return cat([]byte(dstNUL), m)
	case 1:
		return cat([]byte(dstAUG), m)
	case 2:
		return cat([]byte(dstAUG), []byte(dstNUL), m)
	}
	return m
}

type blsCase struct {
	Aug  bool
	Priv B
	Msg  B
	Sig  B
	Pub  B
	Kind string
}

func (c blsCase) typ() uint32 {
	if c.Aug {
		return tAUG
	}
	return tNUL
}

func liftG1(t *rapid.T, l string) ref.G1Pt {
	if pick(t, 8, l+"o3") == 0 { // order 3
		y := n64(2)
		if pick(t, 2, l+"sg") == 0 {
			y = sub(ref.BLSP, y)
		}
		return ref.G1Pt{X: n64(0), Y: y}
	}
	x := mod(bi(uniform(t, 56, l)), ref.BLSP)
	if pick(t, 4, l+"edge") == 0 {
		x = mod(pattern(t, 381, l+"p"), ref.BLSP)
	}
	if pick(t, 5, l+"limb") == 0 {
		return limbG1(t, n64(1), l)
	}
	for {
		if p, ok := ref.G1Lift(x, pick(t, 2, l+"s") == 1); ok {
			return p
		}
		x = mod(add(x, bigOne), ref.BLSP)
	}
}

func liftG2(t *rapid.T, l string) ref.G2Pt {
	x := ref.F2{mod(bi(uniform(t, 56, l+"0")), ref.BLSP), mod(bi(uniform(t, 56, l+"1")), ref.BLSP)}
	if pick(t, 4, l+"edge") == 0 {
		x[pick(t, 2, l+"w")] = mod(pattern(t, 381, l+"p"), ref.BLSP)
		x[pick(t, 2, l+"w2")] = n64(int64(pick(t, 3, l+"sm")))
	}
	if pick(t, 5, l+"limb") == 0 {
		return limbG2(t, ref.F2{n64(1), n64(0)}, l)
	}
	for {
		if p, ok := ref.G2Lift(x, pick(t, 2, l+"s") == 1); ok {
			return p
		}
		x[0] = mod(add(x[0], bigOne), ref.BLSP)
	}
}

// subG1/subG2: points of the prime-order subgroup, made with the reference.
func subG1(t *rapid.T, l string) ref.G1Pt {
	switch pick(t, 6, l+"sk") {
	case 0:
		return ref.G1Pt{Inf: true}
	case 1:
		return ref.BLSG1()
	case 2:
		return ref.G1Mul(ref.BLSG1(), n64(int64(1+pick(t, 20, l+"n"))))
	}
	return ref.ClearG1(liftG1(t, l))
}
func subG2(t *rapid.T, l string) ref.G2Pt {
	switch pick(t, 6, l+"sk") {
	case 0:
		return ref.G2Pt{Inf: true}
	case 1:
		return ref.BLSG2()
	case 2:
		return ref.G2Mul(ref.BLSG2(), n64(int64(1+pick(t, 20, l+"n"))))
	}
	return ref.ClearG2(liftG2(t, l))
}

func parse1(b []byte) ref.G1Pt {
	if b[0] == 0x40 {
		return ref.G1Pt{Inf: true}
	}
	return ref.G1Pt{X: bi(b[:48]), Y: bi(b[48:96])}
}
func parse2(b []byte) ref.G2Pt {
	if b[0] == 0x40 {
		return ref.G2Pt{Inf: true}
	}
	return ref.G2Pt{X: ref.F2{bi(b[48:96]), bi(b[:48])}, Y: ref.F2{bi(b[144:192]), bi(b[96:144])}}
}

// lib1/lib2 load a point in one of several internal representations.
func lib1(b []byte, rep int) (*bls.PointG1, error) {
	g := bls.NewG1()
	if b[0] == 0x40 {
		switch rep % 3 {
		case 0:
			return g.Zero(), nil
		case 1:
			return &bls.PointG1{}, nil
		}
		o, n := g.One(), g.New()
		g.Sub(n, o, o)
		return n, nil
	}
	p, err := g.FromBytes(b)
	if err != nil {
		return nil, errf("FromBytes(%x): %v", b, err)
	}
	switch rep % 3 {
	case 1:
		o := g.New()
		g.MulScalar(o, g.One(), n64(int64(7+rep)))
		g.Add(p, p, o)
		g.Sub(p, p, o)
	case 2:
		d := g.New()
		g.Double(d, p)
		g.Sub(p, d, p)
	}
	return p, nil
}
func lib2(b []byte, rep int) (*bls.PointG2, error) {
	g := bls.NewG2(nil)
	if b[0] == 0x40 {
		switch rep % 3 {
		case 0:
			return g.Zero(), nil
		case 1:
			return &bls.PointG2{}, nil
		}
		o, n := g.One(), g.New()
		g.Sub(n, o, o)
		return n, nil
	}
	p, err := g.FromBytes(b)
	if err != nil {
		return nil, errf("FromBytes(%x): %v", b, err)
	}
	switch rep % 3 {
	case 1:
		o := g.New()
		g.MulScalar(o, g.One(), n64(int64(7+rep)))
		g.Add(p, p, o)
		g.Sub(p, p, o)
	case 2:
		d := g.New()
		g.Double(d, p)
		g.Sub(p, d, p)
	}
	return p, nil
}

func want1(what string, p *bls.PointG1, w ref.G1Pt) error {
	g := bls.NewG1()
	if g.IsZero(p) != w.Inf || !g.IsOnCurve(p) {
		return errf("%s: zero=%v on curve=%v, want %x", what, g.IsZero(p), g.IsOnCurve(p), ref.G1Unc(w))
	}
	q := g.New()
	if wl, err := lib1(ref.G1Unc(w), 0); err != nil || !g.Equal(p, wl) || !g.Equal(wl, p) {
		return errf("%s: Equal says it is not %x (%v)", what, ref.G1Unc(w), err)
	}
	g.Copy(q, p)
	if b := g.ToUncompressed(q); !eqb(b, ref.G1Unc(w)) {
		return errf("%s = %x, want %x", what, b, ref.G1Unc(w))
	}
	g.Copy(q, p)
	if b := g.ToCompressed(q); !eqb(b, ref.G1Comp(w)) {
		return errf("%s = %x, want %x (compressed)", what, b, ref.G1Comp(w))
	}
	g.Copy(q, p)
	if b := g.ToBytes(q); !w.Inf && !eqb(b, ref.G1Unc(w)) || w.Inf && !eqb(b, make([]byte, 96)) {
		return errf("%s: ToBytes = %x", what, b)
	}
	return nil
}
func want2(what string, p *bls.PointG2, w ref.G2Pt) error {
	g := bls.NewG2(nil)
	if g.IsZero(p) != w.Inf || !g.IsOnCurve(p) {
		return errf("%s: zero=%v on curve=%v, want %x", what, g.IsZero(p), g.IsOnCurve(p), ref.G2Unc(w))
	}
	q := g.New()
	if wl, err := lib2(ref.G2Unc(w), 0); err != nil || !g.Equal(p, wl) || !g.Equal(wl, p) {
		return errf("%s: Equal says it is not %x (%v)", what, ref.G2Unc(w), err)
	}
	g.Copy(q, p)
	if b := g.ToUncompressed(q); !eqb(b, ref.G2Unc(w)) {
		return errf("%s = %x, want %x", what, b, ref.G2Unc(w))
	}
	g.Copy(q, p)
	if b := g.ToCompressed(q); !eqb(b, ref.G2Comp(w)) {
		return errf("%s = %x, want %x (compressed)", what, b, ref.G2Comp(w))
	}
	g.Copy(q, p)
	if b := g.ToBytes(q); !w.Inf && !eqb(b, ref.G2Unc(w)) || w.Inf && !eqb(b, make([]byte, 192)) {
		return errf("%s: ToBytes = %x", what, b)
	}
	return nil
}

type ptsCase struct {
	G2   bool
	P, Q B
	RP   int
	RQ   int
	K    B
	Kind string
}

type decCase struct {
	Form int // 0 compressed, 1 uncompressed, 2 raw
	G2   bool
	B    B
	Kind string
}

type pairCase struct {
	A, B []B // scalars of the G1 and G2 points
	R    int
}

type h2cCase struct {
	Fn   int
	Msg  B
	Dst  B
	Kind string
}

type aggCase struct {
	Aug  bool
	Priv []B
	Msg  []B
	Perm int
	Cut  int
	Bad  B
	At   int
	Kind string
}

func bigScalar(t *rapid.T, l string) *big.Int {
	switch pick(t, 5, l+"bk") {
	case 0:
		return n64(int64(pick(t, 10, l+"n")))
	case 1:
		return add(sub(ref.BLSR, n64(3)), n64(int64(pick(t, 6, l+"n"))))
	case 2:
		return pattern(t, 256, l)
	case 3:
		return bi(uniform(t, 32, l))
	}
	return mod(bi(uniform(t, 40, l)), ref.BLSR)
}

func init() {
	// ------------------------------------------------------------------ B01
	F("B01", "sign", "every case: a signature compared byte for byte with the reference ciphersuite (both schemes, and the package-level API on tagged messages)", 700, 20000, func(t *rapid.T) blsCase {
		return blsCase{Aug: pick(t, 2, "aug") == 1, Priv: blsPriv(t, "d"), Msg: blsMsg(t, "m")}
	}, func(c blsCase, x *Ctx) error {
		x.NT()
		want := blsRefSign(c.Priv, c.Msg, c.typ())
		pub := blsPub(c.Priv)
		sig, v, st := ow.Signature(cp(c.Priv), nil, cp(c.Msg), c.typ())
		if st != ow.SUCCESS || !eqb(sig, want) || v != 0 {
			return errf("Signature(%x, %x, aug=%v) = %x, %d, %#x; want %x", []byte(c.Priv), []byte(c.Msg), c.Aug, sig, v, st, want)
		}
		if st := ow.Verify(cp(pub), nil, cp(c.Msg), cp(sig), c.typ()); st != ow.SUCCESS {
			return errf("Verify refuses the ciphersuite's signature of %x by %x (aug=%v): %#x", []byte(c.Msg), []byte(c.Priv), c.Aug, st)
		}
		other := uint32(tAUG)
		if c.Aug {
			other = tNUL
		}
		if st := ow.Verify(cp(pub), nil, cp(c.Msg), cp(sig), other); st == ow.SUCCESS {
			return errf("a signature of one scheme (aug=%v) verifies in the other", c.Aug)
		}
		m := cat([]byte(dstNUL), c.Msg)
		if c.Aug {
			m = cat([]byte(dstAUG), pub, c.Msg)
		}
		s2, err := b12.Sign(cp(c.Priv), cp(m))
		if err != nil || !eqb(s2, want) {
			return errf("bls12_381.Sign(%x, %x) = %x, %v; want %x", []byte(c.Priv), m, s2, err, want)
		}
		if !b12.Verify(cp(pub), cp(m), cp(s2)) {
			return errf("bls12_381.Verify refuses the signature of %x by %x", m, []byte(c.Priv))
		}
		return nil
	}).rows(100, 3000, kinBLS)

	F("B01", "verify", "cases where the key decodes to a usable point", 700, 20000, func(t *rapid.T) blsCase {
		c := blsCase{Aug: pick(t, 2, "aug") == 1, Priv: blsPriv(t, "d"), Msg: blsMsg(t, "m")}
		c.Pub = blsPub(c.Priv)
		want := blsRefSign(c.Priv, c.Msg, c.typ())
		S, _ := ref.G2Dec(want)
		kinds := []string{"valid", "negated", "torsion", "other message", "other key", "flip", "other scheme", "key negated", "uncompressed", "infinity", "twice", "unrelated point", "random", "length"}
		c.Kind = kinds[pick(t, len(kinds), "kind")]
		switch c.Kind {
		case "valid":
			c.Sig = want
		case "negated":
			c.Sig = ref.G2Comp(ref.G2Neg(S))
		case "torsion":
			c.Sig = ref.G2Comp(ref.G2Add(S, ref.G2Mul(liftG2(t, "T"), ref.BLSR)))
		case "other message":
			m := cp(c.Msg)
			switch {
			case len(m) > 0 && pick(t, 2, "how") == 0:
				m[pick(t, len(m), "i")] ^= 1 << pick(t, 8, "b")
			case len(m) > 0 && pick(t, 2, "how2") == 0:
				m = m[:len(m)-1]
			default:
				m = append(m, 0)
			}
			c.Sig = blsRefSign(c.Priv, m, c.typ())
		case "other key":
			c.Sig = blsRefSign(blsPriv(t, "d2"), c.Msg, c.typ())
		case "flip":
			c.Sig = flip(want, pick(t, len(want)*8, "bit"))
		case "other scheme":
			if c.Aug {
				c.Sig = blsRefSign(c.Priv, c.Msg, tNUL)
				if pick(t, 2, "raw") == 0 { // AUG input under the NUL tag
					c.Sig = ref.BLSSign(bi(c.Priv), cat(c.Pub, c.Msg), []byte(dstNUL))
				}
			} else {
				c.Sig = blsRefSign(c.Priv, c.Msg, tAUG)
				if pick(t, 2, "raw") == 0 {
					c.Sig = ref.BLSSign(bi(c.Priv), c.Msg, []byte(dstAUG))
				}
			}
		case "key negated":
			P, _ := ref.G1Dec(c.Pub)
			c.Pub = ref.G1Comp(ref.G1Neg(P))
			c.Sig = want
			if pick(t, 2, "both") == 0 && !c.Aug { // valid for the negated key
				c.Sig = ref.G2Comp(ref.G2Neg(S))
			}
		case "uncompressed":
			c.Sig = ref.G2Unc(S)
			if pick(t, 2, "half") == 0 {
				c.Sig = c.Sig[:96]
			}
		case "infinity":
			c.Sig = ref.G2Comp(ref.G2Pt{Inf: true})
		case "twice":
			c.Sig = ref.G2Comp(ref.G2Add(S, S))
		case "unrelated point":
			c.Sig = ref.G2Comp(subG2(t, "u"))
		case "random":
			c.Sig = B(rbytes(t, 96, "r"))
			c.Sig[0] |= 0x80
		case "length":
			c.Sig = append(cp(want), rbytes(t, 1+pick(t, 4, "xl"), "x")...)
			switch pick(t, 4, "short") {
			case 0, 1:
				c.Sig = cp(want)[:pick(t, 96, "n")]
			case 2:
				c.Sig = over(t, want, "ov")
			}
		}
		return c
	}, func(c blsCase, x *Ctx) error {
		x.Label(c.Kind)
		P, okP := ref.G1Dec(c.Pub)
		okP = okP && !P.Inf
		want := false
		if okP {
			x.NT()
			if P1 := blsPub(c.Priv); eqb(P1, c.Pub) {
				want = eqb(c.Sig, blsRefSign(c.Priv, c.Msg, c.typ()))
			} else if !c.Aug { // the negated key
				want = eqb(c.Sig, blsRefSign(b32(sub(ref.BLSR, bi(c.Priv))), c.Msg, tNUL))
			}
		}
		st := ow.Verify(cp(c.Pub), nil, cp(c.Msg), cp(c.Sig), c.typ())
		if (st == ow.SUCCESS) != want {
			return errf("%s: Verify(pub %x, msg %x, sig %x, aug=%v) = %#x, want accepted=%v", c.Kind, []byte(c.Pub), []byte(c.Msg), []byte(c.Sig), c.Aug, st, want)
		}
		return nil
	}).rows(120, 3500, kinBLS)

	F("B01", "untagged", "every case: a message that starts with no known tag", 3000, 60000, func(t *rapid.T) blsCase {
		c := blsCase{Priv: blsPriv(t, "d")}
		d := []byte(dstNUL)
		if pick(t, 2, "aug") == 1 {
			d = []byte(dstAUG)
		}
		m := msgAny(t, "m")
		switch pick(t, 5, "k") {
		case 0:
			c.Msg = m
		case 1:
			c.Msg = cat(d[:pick(t, len(d), "cut")], []byte{'~'}, m)
		case 2:
			c.Msg = cat(flip(d, pick(t, len(d)*8, "bit")), m)
		case 3:
			c.Msg = cat([]byte{0}, d, m)
		case 4:
			c.Msg = cat([]byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"), m)
		}
		return c
	}, func(c blsCase, x *Ctx) error {
		if bytes.HasPrefix(c.Msg, []byte(dstNUL)) || bytes.HasPrefix(c.Msg, []byte(dstAUG)) {
			return nil
		}
		x.NT()
		s, err := b12.Sign(cp(c.Priv), cp(c.Msg))
		if err == nil || len(s) != 0 {
			return errf("bls12_381.Sign of the untagged message %x = %x, %v", []byte(c.Msg), s, err)
		}
		pub := blsPub(c.Priv)
		inf := ref.G2Comp(ref.G2Pt{Inf: true})
		for _, sig := range [][]byte{inf, ref.G2Comp(ref.BLSG2())} {
			if b12.Verify(cp(pub), cp(c.Msg), cp(sig)) {
				return errf("bls12_381.Verify accepts %x for the untagged message %x", sig, []byte(c.Msg))
			}
		}
		return nil
	})

	// ------------------------------------------------------------------ B02
	F("B02", "sum", "lists of two or more signatures", 400, 12000, func(t *rapid.T) aggCase {
		c := aggCase{Aug: pick(t, 2, "aug") == 1, Perm: pick(t, 1000, "perm")}
		n := 1 + pick(t, 6, "n")
		if oneIn(t, 12, "long") {
			n = 20 + pick(t, 30, "nl")
		}
		c.Cut = pick(t, n+1, "cut")
		var ds, ms []B
		for i := 0; i < min(n, 4); i++ {
			ds = append(ds, blsPriv(t, "d"))
			ms = append(ms, B(rbytes(t, pick(t, 40, "ml"), "m")))
		}
		for i := 0; i < n; i++ {
			c.Priv = append(c.Priv, ds[pick(t, len(ds), "di")])
			c.Msg = append(c.Msg, ms[pick(t, len(ms), "mi")])
		}
		if pick(t, 4, "opp") == 0 && n > 1 { // a signature and its negative
			c.Priv[n-1] = b32(sub(ref.BLSR, bi(c.Priv[0])))
			c.Msg[n-1] = c.Msg[0]
			c.Kind = "opposite"
		}
		return c
	}, func(c aggCase, x *Ctx) error {
		n := len(c.Priv)
		if n > 1 {
			x.NT()
		}
		x.Label(c.Kind)
		typ := blsCase{Aug: c.Aug}.typ()
		memo := map[string][]byte{}
		var sigs [][]byte
		sum := ref.G2Pt{Inf: true}
		for i := range c.Priv {
			k := string(c.Priv[i]) + "|" + string(c.Msg[i])
			if memo[k] == nil {
				s, _, st := ow.Signature(c.Priv[i], nil, c.Msg[i], typ)
				if st != ow.SUCCESS {
					return errf("Signature: %#x", st)
				}
				memo[k] = s
			}
			S, ok := ref.G2Dec(memo[k])
			if !ok {
				return errf("signature %x does not decode", memo[k])
			}
			sum = ref.G2Add(sum, S)
			sigs = append(sigs, memo[k])
		}
		want := ref.G2Comp(sum)
		agg := func(what string, l ...[]byte) ([]byte, error) {
			var in [][]byte
			for _, s := range l {
				in = append(in, cp(s))
			}
			a, st := ow.AggregateSignatures(typ, in...)
			if st != ow.SUCCESS {
				return nil, errf("AggregateSignatures (%s, %d signatures): %#x", what, len(l), st)
			}
			for i := range in {
				if !eqb(in[i], l[i]) {
					return nil, errf("AggregateSignatures changed its argument %d", i)
				}
			}
			return a, nil
		}
		a, err := agg("in order", sigs...)
		if err != nil {
			return err
		}
		if !eqb(a, want) {
			return errf("AggregateSignatures of %d signatures = %x, want %x", n, a, want)
		}
		perm := append([][]byte{}, sigs...)
		ord := expand(uint64(c.Perm), n)
		sort.SliceStable(perm, func(i, j int) bool { return ord[i] < ord[j] })
		if a, err = agg("permuted", perm...); err != nil || !eqb(a, want) {
			return errf("aggregate of a permuted list = %x, want %x (%v)", a, want, err)
		}
		if c.Cut > 0 && c.Cut < n {
			l, err := agg("left part", sigs[:c.Cut]...)
			if err != nil {
				return err
			}
			r, err := agg("right part", sigs[c.Cut:]...)
			if err != nil {
				return err
			}
			L, _ := ref.G2Dec(l)
			R, _ := ref.G2Dec(r)
			if L.Inf || R.Inf {
				return nil // the identity as an input is not judged
			}
			if a, err = agg("grouped", l, r); err != nil || !eqb(a, want) {
				return errf("aggregate of aggregates = %x, want %x (%v)", a, want, err)
			}
		}
		return nil
	})

	F("B02", "many", "every case: a list of 60 to 700 signatures aggregated, then with one of them replaced by an invalid encoding", 24, 600, func(t *rapid.T) aggCase {
		n := []int{63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 511, 512, 513, 700}[pick(t, 16, "n")]
		return aggCase{Aug: pick(t, 2, "aug") == 1, Perm: n, Cut: 1 + pick(t, 1<<16, "first"), At: pick(t, n, "at"), Bad: B(uniform(t, 8, "s"))}
	}, func(c aggCase, x *Ctx) error {
		x.NT()
		typ := blsCase{Aug: c.Aug}.typ()
		rnd := expand(binary.BigEndian.Uint64(c.Bad), c.Perm)
		k, sum := int64(c.Cut), new(big.Int)
		P := ref.G2Mul(ref.BLSG2(), n64(k))
		var step [4]ref.G2Pt
		for i := range step {
			step[i] = ref.G2Mul(ref.BLSG2(), n64(int64(1+i)))
		}
		var sigs [][]byte
		for i := 0; i < c.Perm; i++ {
			sum.Add(sum, n64(k))
			sigs = append(sigs, ref.G2Comp(P))
			P = ref.G2Add(P, step[rnd[i]%4])
			k += 1 + int64(rnd[i]%4)
		}
		want := ref.G2Comp(ref.G2Mul(ref.BLSG2(), sum))
		a, st := ow.AggregateSignatures(typ, sigs...)
		if st != ow.SUCCESS || !eqb(a, want) {
			return errf("aggregate of %d signatures: %x, %#x; want %x", c.Perm, a, st, want)
		}
		sigs[c.At] = flip(sigs[c.At], 7)
		if c.Cut%2 == 0 {
			sigs[c.At] = sigs[c.At][:95]
		} else if _, ok := ref.G2Dec(sigs[c.At]); ok {
			sigs[c.At] = nil
		}
		a, st = ow.AggregateSignatures(typ, sigs...)
		if err := refused(st, a); err != nil {
			return errf("%d signatures, number %d invalid (%x): %v", c.Perm, c.At, sigs[c.At], err)
		}
		return nil
	})

	F("B02", "same-message", "lists of two or more keys", 250, 8000, func(t *rapid.T) aggCase {
		c := aggCase{}
		n := 1 + pick(t, 8, "n")
		for i := 0; i < n; i++ {
			c.Priv = append(c.Priv, blsPriv(t, "d"))
		}
		c.Msg = []B{blsMsg(t, "m"), blsMsg(t, "m2")}
		c.At = pick(t, n, "drop")
		return c
	}, func(c aggCase, x *Ctx) error {
		n := len(c.Priv)
		if n > 1 {
			x.NT()
		}
		var sigs [][]byte
		d := new(big.Int)
		for _, p := range c.Priv {
			s, _, st := ow.Signature(p, nil, c.Msg[0], tNUL)
			if st != ow.SUCCESS {
				return errf("Signature: %#x", st)
			}
			sigs = append(sigs, s)
			d = mod(add(d, bi(p)), ref.BLSR)
		}
		if d.Sign() == 0 {
			return nil
		}
		pub := blsPub(b32(d))
		a, st := ow.AggregateSignatures(tNUL, sigs...)
		if st != ow.SUCCESS {
			return errf("AggregateSignatures: %#x", st)
		}
		if st := ow.Verify(pub, nil, c.Msg[0], a, tNUL); st != ow.SUCCESS {
			return errf("aggregate of %d signatures does not verify under the sum of the keys: %#x", n, st)
		}
		if !eqb(c.Msg[0], c.Msg[1]) {
			if st := ow.Verify(pub, nil, c.Msg[1], a, tNUL); st == ow.SUCCESS {
				return errf("aggregate verifies for another message")
			}
		}
		if n > 1 {
			rest := append(append([][]byte{}, sigs[:c.At]...), sigs[c.At+1:]...)
			a2, st := ow.AggregateSignatures(tNUL, rest...)
			if st != ow.SUCCESS {
				return errf("AggregateSignatures: %#x", st)
			}
			if st := ow.Verify(pub, nil, c.Msg[0], a2, tNUL); st == ow.SUCCESS {
				return errf("aggregate without signer %d verifies under the sum of all keys", c.At)
			}
			if st := ow.Verify(pub, nil, c.Msg[0], sigs[0], tNUL); st == ow.SUCCESS && bi(c.Priv[0]).Cmp(d) != 0 {
				return errf("a single signature verifies under the sum of all keys")
			}
		}
		return nil
	})

	F("B02", "refusals", "every case: an empty list, a wrong type, or one invalid encoding among valid signatures", 900, 30000, func(t *rapid.T) aggCase {
		c := aggCase{Aug: pick(t, 2, "aug") == 1}
		n := pick(t, 4, "n")
		for i := 0; i < n; i++ {
			c.Priv = append(c.Priv, B(ref.G2Comp(ref.G2Mul(ref.BLSG2(), n64(int64(1+pick(t, 1000, "k")))))))
		}
		c.At = pick(t, n+1, "at")
		S := ref.G2Comp(ref.G2Mul(ref.BLSG2(), n64(int64(2+pick(t, 1000, "s")))))
		kinds := []string{"empty", "wrong type", "length", "nil", "not in subgroup", "flag", "x not reduced", "no point", "infinity garbage", "uncompressed", "random"}
		c.Kind = kinds[pick(t, len(kinds), "kind")]
		switch c.Kind {
		case "length":
			l := []int{0, 1, 48, 95, 97, 100, 192}[pick(t, 7, "l")]
			c.Bad = append(append(B{}, S...), make([]byte, 100)...)[:l]
			if pick(t, 4, "by") == 0 {
				c.Bad = over(t, S, "ov")
			}
		case "not in subgroup":
			c.Bad = ref.G2Comp(liftG2(t, "T"))
			if pick(t, 2, "small") == 0 {
				c.Bad = ref.G2Comp(ref.G2Mul(liftG2(t, "T"), ref.BLSR))
			}
		case "flag":
			c.Bad = cp(S)
			c.Bad[0] &^= 0x80
			if pick(t, 2, "inf") == 0 {
				c.Bad = cp(S)
				c.Bad[0] |= 0x40
			}
		case "x not reduced":
			P, _ := ref.G2Dec(S)
			i := pick(t, 2, "coord")
			for j := 1; ; j++ { // a point with a small coordinate so that x+p fits
				Q, ok := ref.G2Lift(ref.F2{n64(int64(j)), n64(int64(j % 3))}, false)
				if ok {
					P = Q
					break
				}
			}
			b := ref.G2Comp(P)
			v := add(P.X[i], ref.BLSP)
			w := v.FillBytes(make([]byte, 48))
			fl := b[0] & 0xe0
			if i == 0 {
				copy(b[48:], w)
			} else {
				copy(b[:48], w)
				b[0] |= fl
			}
			c.Bad = b
		case "no point":
			x0 := mod(bi(uniform(t, 56, "x0")), ref.BLSP)
			for {
				if _, ok := ref.G2Lift(ref.F2{x0, n64(0)}, false); !ok {
					break
				}
				x0 = mod(add(x0, bigOne), ref.BLSP)
			}
			b := make([]byte, 96)
			x0.FillBytes(b[48:])
			b[0] |= 0x80
			c.Bad = b
		case "infinity garbage":
			b := make([]byte, 96)
			b[0] = 0xc0
			b[pick(t, 96, "i")] |= 1 << pick(t, 8, "b")
			if b[0] == 0xc0 && bytes.Equal(b[1:], make([]byte, 95)) {
				b[95] = 1
			}
			c.Bad = b
		case "uncompressed":
			P, _ := ref.G2Dec(S)
			c.Bad = ref.G2Unc(P)
			if pick(t, 2, "half") == 0 {
				c.Bad = c.Bad[:96]
			}
		case "random":
			c.Bad = B(rbytes(t, 96, "r"))
			c.Bad[0] |= 0x80
		}
		return c
	}, func(c aggCase, x *Ctx) error {
		x.Label(c.Kind)
		typ := blsCase{Aug: c.Aug}.typ()
		var l [][]byte
		for i := 0; i <= len(c.Priv); i++ {
			if i == c.At && c.Kind != "wrong type" && c.Kind != "empty" {
				l = append(l, c.Bad)
			}
			if i < len(c.Priv) {
				l = append(l, c.Priv[i])
			}
		}
		switch c.Kind {
		case "empty":
			x.NT()
			a, st := ow.AggregateSignatures(typ)
			if err := refused(st, a); err != nil {
				return errf("AggregateSignatures of nothing: %v", err)
			}
			a, st = ow.AggregateSignatures(typ, [][]byte{}...)
			if err := refused(st, a); err != nil {
				return errf("AggregateSignatures of an empty list: %v", err)
			}
			return nil
		case "wrong type":
			x.NT()
			for _, s := range schemes {
				if s.typ != tNUL && s.typ != tAUG {
					a, st := ow.AggregateSignatures(s.typ, l...)
					if err := refused(st, a); err != nil {
						return errf("AggregateSignatures for %s: %v", s.name, err)
					}
				}
			}
			return nil
		}
		if _, ok := ref.G2Dec(c.Bad); ok {
			return nil
		}
		x.NT()
		a, st := ow.AggregateSignatures(typ, l...)
		if err := refused(st, a); err != nil {
			return errf("AggregateSignatures with %s at %d of %d (%x): %v", c.Kind, c.At, len(l), []byte(c.Bad), err)
		}
		return nil
	})

	// ------------------------------------------------------------------ B03
	F("B03", "ops", "every case: two curve points in random representations", 900, 30000, func(t *rapid.T) ptsCase {
		c := ptsCase{G2: pick(t, 2, "g2") == 1, RP: pick(t, 60, "rp"), RQ: pick(t, 60, "rq")}
		kinds := []string{"independent", "equal", "opposite", "double", "infinity", "outside", "endo"}
		c.Kind = kinds[pick(t, len(kinds), "kind")]
		if c.G2 {
			P := subG2(t, "P")
			Q := subG2(t, "Q")
			switch c.Kind {
			case "equal":
				Q = P
			case "opposite":
				Q = ref.G2Neg(P)
			case "double":
				Q = ref.G2Add(P, P)
			case "infinity":
				Q = ref.G2Pt{Inf: true}
				if pick(t, 2, "sw") == 0 {
					P, Q = Q, P
				}
			case "outside":
				P, Q = liftG2(t, "P2"), liftG2(t, "Q2")
			}
			c.P, c.Q = ref.G2Unc(P), ref.G2Unc(Q)
		} else {
			P := subG1(t, "P")
			Q := subG1(t, "Q")
			switch c.Kind {
			case "equal":
				Q = P
			case "opposite":
				Q = ref.G1Neg(P)
			case "double":
				Q = ref.G1Add(P, P)
			case "infinity":
				Q = ref.G1Pt{Inf: true}
				if pick(t, 2, "sw") == 0 {
					P, Q = Q, P
				}
			case "outside":
				P, Q = liftG1(t, "P2"), liftG1(t, "Q2")
			case "endo": // same y, different x: (beta*x, y)
				if !P.Inf {
					beta := new(big.Int).Exp(n64(2), new(big.Int).Div(sub(ref.BLSP, bigOne), n64(3)), ref.BLSP)
					Q = ref.G1Pt{X: mod(mul(P.X, beta), ref.BLSP), Y: P.Y}
				}
			}
			c.P, c.Q = ref.G1Unc(P), ref.G1Unc(Q)
		}
		c.K = b32(mod(bigScalar(t, "k"), lsh(256)))
		return c
	}, func(c ptsCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		k := bi(c.K)
		if c.G2 {
			g := bls.NewG2(nil)
			P, Q := parse2(c.P), parse2(c.Q)
			p, err := lib2(c.P, c.RP)
			if err != nil {
				return err
			}
			q, err := lib2(c.Q, c.RQ)
			if err != nil {
				return err
			}
			if g.Equal(p, q) != ref.G2Eq(P, Q) {
				return errf("G2.Equal(%x, %x) = %v", []byte(c.P), []byte(c.Q), g.Equal(p, q))
			}
			dup := func(a *bls.PointG2) *bls.PointG2 { return g.Copy(g.New(), a) }
			r := g.New()
			for i := 0; i < 4; i++ {
				a, b := dup(p), dup(q)
				d := r
				if i == 1 {
					d = a
				} else if i == 2 {
					d = b
				} else if i == 3 {
					g.Affine(a)
					g.Affine(b)
					if !P.Inf && !g.IsAffine(a) {
						return errf("G2.Affine leaves z != 1")
					}
				}
				g.Add(d, a, b)
				if err := want2(errf("G2 %x + %x (alias %d)", []byte(c.P), []byte(c.Q), i).Error(), d, ref.G2Add(P, Q)); err != nil {
					return err
				}
				a, b = dup(p), dup(q)
				if i == 1 {
					d = a
				} else if i == 2 {
					d = b
				}
				g.Sub(d, a, b)
				if err := want2(errf("G2 %x - %x (alias %d)", []byte(c.P), []byte(c.Q), i).Error(), d, ref.G2Add(P, ref.G2Neg(Q))); err != nil {
					return err
				}
			}
			for i := 0; i < 2; i++ {
				a := dup(p)
				d := r
				if i == 1 {
					d = a
				}
				g.Double(d, a)
				if err := want2("G2 double", d, ref.G2Add(P, P)); err != nil {
					return err
				}
				a = dup(p)
				if i == 1 {
					d = a
				}
				g.Neg(d, a)
				if err := want2("G2 neg", d, ref.G2Neg(P)); err != nil {
					return err
				}
				a = dup(p)
				if i == 1 {
					d = a
				}
				g.MulScalar(d, a, k)
				if err := want2(errf("G2 %x * %x", []byte(c.P), k).Error(), d, ref.G2Mul(P, k)); err != nil {
					return err
				}
			}
			if g.InCorrectSubgroup(dup(p)) != P.InSub() {
				return errf("G2.InCorrectSubgroup(%x) = %v", []byte(c.P), !P.InSub())
			}
			a := dup(p)
			g.ClearCofactor(a)
			if err := want2("G2.ClearCofactor", a, ref.ClearG2(P)); err != nil {
				return err
			}
			if err := want2("operand P", p, P); err != nil {
				return err
			}
			return want2("operand Q", q, Q)
		}
		g := bls.NewG1()
		P, Q := parse1(c.P), parse1(c.Q)
		p, err := lib1(c.P, c.RP)
		if err != nil {
			return err
		}
		q, err := lib1(c.Q, c.RQ)
		if err != nil {
			return err
		}
		if g.Equal(p, q) != ref.G1Eq(P, Q) {
			return errf("G1.Equal(%x, %x) = %v", []byte(c.P), []byte(c.Q), g.Equal(p, q))
		}
		dup := func(a *bls.PointG1) *bls.PointG1 { return g.Copy(g.New(), a) }
		r := g.New()
		for i := 0; i < 4; i++ {
			a, b := dup(p), dup(q)
			d := r
			if i == 1 {
				d = a
			} else if i == 2 {
				d = b
			} else if i == 3 {
				g.Affine(a)
				g.Affine(b)
				if !P.Inf && !g.IsAffine(a) {
					return errf("G1.Affine leaves z != 1")
				}
			}
			g.Add(d, a, b)
			if err := want1(errf("G1 %x + %x (alias %d)", []byte(c.P), []byte(c.Q), i).Error(), d, ref.G1Add(P, Q)); err != nil {
				return err
			}
			a, b = dup(p), dup(q)
			if i == 1 {
				d = a
			} else if i == 2 {
				d = b
			}
			g.Sub(d, a, b)
			if err := want1(errf("G1 %x - %x (alias %d)", []byte(c.P), []byte(c.Q), i).Error(), d, ref.G1Add(P, ref.G1Neg(Q))); err != nil {
				return err
			}
		}
		for i := 0; i < 2; i++ {
			a := dup(p)
			d := r
			if i == 1 {
				d = a
			}
			g.Double(d, a)
			if err := want1("G1 double", d, ref.G1Add(P, P)); err != nil {
				return err
			}
			a = dup(p)
			if i == 1 {
				d = a
			}
			g.Neg(d, a)
			if err := want1("G1 neg", d, ref.G1Neg(P)); err != nil {
				return err
			}
			a = dup(p)
			if i == 1 {
				d = a
			}
			g.MulScalar(d, a, k)
			if err := want1(errf("G1 %x * %x", []byte(c.P), k).Error(), d, ref.G1Mul(P, k)); err != nil {
				return err
			}
		}
		if g.InCorrectSubgroup(dup(p)) != P.InSub() {
			return errf("G1.InCorrectSubgroup(%x) = %v", []byte(c.P), !P.InSub())
		}
		a := dup(p)
		d := g.New()
		g.MulByCofactor(d, a)
		if err := want1("G1.MulByCofactor", d, ref.G1Mul(P, hexInt("396c8c005555e1568c00aaab0000aaab"))); err != nil {
			return err
		}
		g.ClearCofactor(a)
		if err := want1("G1.ClearCofactor", a, ref.ClearG1(P)); err != nil {
			return err
		}
		if err := want1("operand P", p, P); err != nil {
			return err
		}
		return want1("operand Q", q, Q)
	})

	F("B03", "decode", "encodings with correct length and flags (valid points, points outside the subgroup or off the curve, unreduced coordinates)", 2500, 80000, func(t *rapid.T) decCase {
		c := decCase{Form: pick(t, 3, "form"), G2: pick(t, 2, "g2") == 1}
		kinds := []string{"valid", "valid", "lifted", "flip", "unreduced", "infinity", "near infinity", "random", "short", "flags", "y changed"}
		c.Kind = kinds[pick(t, len(kinds), "kind")]
		var comp, unc []byte
		n := 48
		if c.G2 {
			n = 96
			P := subG2(t, "P")
			if c.Kind == "lifted" {
				P = liftG2(t, "L")
			}
			comp, unc = ref.G2Comp(P), ref.G2Unc(P)
		} else {
			P := subG1(t, "P")
			if c.Kind == "lifted" {
				P = liftG1(t, "L")
			}
			comp, unc = ref.G1Comp(P), ref.G1Unc(P)
		}
		b := comp
		if c.Form > 0 {
			n *= 2
			b = unc
		}
		if c.Form == 2 && b[0] == 0x40 {
			b = make([]byte, n)
		}
		switch c.Kind {
		case "flip":
			b = flip(b, pick(t, n*8, "bit"))
		case "unreduced":
			i := pick(t, n/48, "coord") * 48
			fl := b[i] & 0xe0
			if i > 0 || c.Form == 2 {
				fl = 0
			}
			w := cp(b[i : i+48])
			w[0] &^= fl
			v := bi(w)
			if pick(t, 3, "u") > 0 {
				v = n64(int64(pick(t, 5, "v")))
			}
			v = add(v, ref.BLSP)
			if v.BitLen() > 381 {
				v = sub(lsh(381), n64(int64(1+pick(t, 5, "vv"))))
			}
			v.FillBytes(b[i : i+48])
			b[i] |= fl
		case "infinity":
			b = make([]byte, n)
			b[0] = []byte{0xc0, 0x40, 0}[c.Form]
		case "near infinity":
			b = make([]byte, n)
			b[0] = []byte{0xc0, 0x40, 0}[c.Form]
			b[pick(t, n, "i")] ^= 1 << pick(t, 8, "b")
		case "random":
			b = rbytes(t, n, "r")
			b[0] = b[0]&0x1f | comp[0]&0x80>>min(uint(c.Form)*7, 7)
			if c.Form == 0 {
				b[0] |= 0x80
			}
		case "short":
			b = b[:pick(t, n, "n")]
		case "flags":
			b = cp(b)
			b[0] ^= byte(pick(t, 8, "fl") << 5)
		case "y changed":
			if c.Form > 0 {
				i := n - 1 - pick(t, n/2-1, "i")
				b[i]++
			}
		}
		c.B = b
		return c
	}, func(c decCase, x *Ctx) error {
		x.Label(c.Kind)
		n := 48
		if c.G2 {
			n = 96
		}
		if c.Form > 0 {
			n *= 2
		}
		if len(c.B) == n {
			x.NT()
		}
		// the reference's opinion
		ok := len(c.B) == n
		var want1p ref.G1Pt
		var want2p ref.G2Pt
		switch {
		case !ok:
		case c.Form == 0 && c.G2:
			want2p, ok = ref.G2Dec(c.B)
		case c.Form == 0:
			want1p, ok = ref.G1Dec(c.B)
		case c.Form == 1 && c.B[0]&0xe0 != 0:
			ok = c.B[0] == 0x40 && bytes.Equal(c.B[1:], make([]byte, n-1))
			want1p, want2p = ref.G1Pt{Inf: true}, ref.G2Pt{Inf: true}
		case c.Form == 2 && bytes.Equal(c.B, make([]byte, n)):
			want1p, want2p = ref.G1Pt{Inf: true}, ref.G2Pt{Inf: true}
		default:
			for i := 0; i < n; i += 48 {
				if bi(c.B[i:i+48]).Cmp(ref.BLSP) >= 0 {
					ok = false
				}
			}
			if c.G2 {
				if ok {
					want2p = ref.G2Pt{X: ref.F2{bi(c.B[48:96]), bi(c.B[:48])}, Y: ref.F2{bi(c.B[144:192]), bi(c.B[96:144])}}
					ok = want2p.On() && (c.Form == 2 || want2p.InSub())
				}
			} else if ok {
				want1p = ref.G1Pt{X: bi(c.B[:48]), Y: bi(c.B[48:])}
				ok = want1p.On() && (c.Form == 2 || want1p.InSub())
			}
		}
		if ok {
			x.Label("accepted")
		}
		in := cp(c.B)
		var err error
		if c.G2 {
			g := bls.NewG2(nil)
			var p *bls.PointG2
			switch c.Form {
			case 0:
				p, err = g.FromCompressed(in)
			case 1:
				p, err = g.FromUncompressed(in)
			case 2:
				p, err = g.FromBytes(in)
			}
			if (err == nil) != ok || !eqb(in, c.B) {
				return errf("G2 decoding form %d of %x (%s): %v, want accepted=%v", c.Form, []byte(c.B), c.Kind, err, ok)
			}
			if ok {
				if err := want2("decoded point", p, want2p); err != nil {
					return err
				}
			}
			if c.Form == 0 {
				k := b12.NullOwcryptG2()
				err := k.UnmarshalBinary(cp(c.B))
				if (err == nil) != ok {
					return errf("OwcryptG2.UnmarshalBinary(%x): %v, want accepted=%v", []byte(c.B), err, ok)
				}
				if ok {
					if o, _ := k.MarshalBinary(); !eqb(o, c.B) || !k.IsInCorrectGroup() {
						return errf("OwcryptG2 round trip of %x gives %x", []byte(c.B), o)
					}
				}
			}
			return nil
		}
		g := bls.NewG1()
		var p *bls.PointG1
		switch c.Form {
		case 0:
			p, err = g.FromCompressed(in)
		case 1:
			p, err = g.FromUncompressed(in)
		case 2:
			p, err = g.FromBytes(in)
		}
		if (err == nil) != ok || !eqb(in, c.B) {
			return errf("G1 decoding form %d of %x (%s): %v, want accepted=%v", c.Form, []byte(c.B), c.Kind, err, ok)
		}
		if ok {
			if err := want1("decoded point", p, want1p); err != nil {
				return err
			}
		}
		if c.Form == 0 {
			k := b12.NullOwcryptG1()
			err := k.UnmarshalBinary(cp(c.B))
			if (err == nil) != ok {
				return errf("OwcryptG1.UnmarshalBinary(%x): %v, want accepted=%v", []byte(c.B), err, ok)
			}
			if ok {
				if o, _ := k.MarshalBinary(); !eqb(o, c.B) || !k.IsInCorrectGroup() {
					return errf("OwcryptG1 round trip of %x gives %x", []byte(c.B), o)
				}
			}
		}
		return nil
	})

	F("B03", "hash", "every case: a message hashed or encoded to G1 or G2 under a domain tag, or a field element mapped to G1", 500, 15000, func(t *rapid.T) h2cCase {
		c := h2cCase{Fn: pick(t, 5, "fn"), Msg: message(t, 300, "m")}
		switch pick(t, 6, "dk") {
		case 0:
			c.Dst = B(dstNUL)
		case 1:
			c.Dst = B(rbytes(t, 1+pick(t, 16, "dl"), "d"))
		case 2:
			c.Dst = B(rbytes(t, 255-pick(t, 3, "dl"), "d"))
		case 3:
			c.Dst = B{}
		case 4:
			c.Dst = B(rbytes(t, 256+pick(t, 300, "dl"), "d"))
			c.Kind = "long tag"
		default:
			c.Dst = B("QUUX-V01-CS02-with-BLS12381")
		}
		if c.Fn == 4 {
			c.Kind = "map"
			v := mod(bi(uniform(t, 56, "u")), ref.BLSP)
			switch pick(t, 5, "uk") {
			case 0:
				v = n64(int64(pick(t, 4, "us")))
			case 1: // Z^2u^4 + Zu^2 = 0
				w := new(big.Int).ModInverse(sub(ref.BLSP, n64(11)), ref.BLSP)
				if s := new(big.Int).ModSqrt(w, ref.BLSP); s != nil {
					v = s
				}
			case 2:
				v = sub(ref.BLSP, n64(int64(1+pick(t, 4, "us"))))
			case 3:
				v = add(ref.BLSP, n64(int64(pick(t, 4, "us"))))
				c.Kind = "unreduced"
			}
			c.Msg = v.FillBytes(make([]byte, 48))
			if oneIn(t, 8, "len") {
				c.Msg = append(c.Msg, 0)[:[]int{0, 1, 47, 49}[pick(t, 4, "ml")]]
				c.Kind = "length"
			}
		}
		return c
	}, func(c h2cCase, x *Ctx) error {
		x.NT()
		x.Label(c.Kind)
		g1, g2 := bls.NewG1(), bls.NewG2(nil)
		m, d := cp(c.Msg), cp(c.Dst)
		bad := len(c.Dst) > 255
		switch c.Fn {
		case 0, 1:
			var p *bls.PointG1
			var err error
			if c.Fn == 0 {
				p, err = g1.HashToCurve(m, d)
			} else {
				p, err = g1.EncodeToPoint(m, d)
			}
			if bad {
				if err == nil {
					return errf("hashing to G1 accepts a tag of %d bytes", len(c.Dst))
				}
				return nil
			}
			if err != nil {
				return errf("hashing to G1: %v", err)
			}
			w := ref.HashG1(c.Msg, c.Dst)
			if c.Fn == 1 {
				w = ref.EncodeG1(c.Msg, c.Dst)
			}
			if !g1.InCorrectSubgroup(p) {
				return errf("hash of %x outside the subgroup", []byte(c.Msg))
			}
			return want1(errf("hash %d of %x under %q to G1", c.Fn, []byte(c.Msg), []byte(c.Dst)).Error(), p, w)
		case 2, 3:
			var p *bls.PointG2
			var err error
			if c.Fn == 2 {
				p, err = g2.HashToCurve(m, d)
			} else {
				p, err = g2.EncodeToCurve(m, d)
			}
			if bad {
				if err == nil {
					return errf("hashing to G2 accepts a tag of %d bytes", len(c.Dst))
				}
				return nil
			}
			if err != nil {
				return errf("hashing to G2: %v", err)
			}
			w := ref.HashG2(c.Msg, c.Dst)
			if c.Fn == 3 {
				w = ref.EncodeG2(c.Msg, c.Dst)
			}
			if !g2.InCorrectSubgroup(p) {
				return errf("hash of %x outside the subgroup", []byte(c.Msg))
			}
			return want2(errf("hash %d of %x under %q to G2", c.Fn, []byte(c.Msg), []byte(c.Dst)).Error(), p, w)
		}
		p, err := g1.MapToCurve(m)
		if len(c.Msg) != 48 || bi(c.Msg).Cmp(ref.BLSP) >= 0 {
			if err == nil {
				return errf("MapToCurve accepts %x", []byte(c.Msg))
			}
			return nil
		}
		if err != nil {
			return errf("MapToCurve(%x): %v", []byte(c.Msg), err)
		}
		return want1(errf("MapToCurve(%x)", []byte(c.Msg)).Error(), p, ref.MapG1(bi(c.Msg)))
	}).rows(90, 2500, func(t *rapid.T, c h2cCase, l string) h2cCase {
		switch {
		case c.Kind == "map" && len(c.Msg) == 48:
			c.Msg = kinElem(t, c.Msg, ref.BLSP, l)
		case c.Kind != "":
		case pick(t, 4, l+"what") == 0:
			c.Fn = pick(t, 4, l+"fn")
		case pick(t, 3, l+"what2") == 0:
			c.Dst = kin(t, c.Dst, l)
		default:
			c.Msg = kinLen(t, c.Msg, l)
		}
		return c
	})

	F("B03", "multiexp", "lists of two or more points", 150, 5000, func(t *rapid.T) pairCase {
		c := pairCase{R: pick(t, 2, "g")}
		n := pick(t, 10, "n")
		if oneIn(t, 6, "long") {
			n = 28 + pick(t, 10, "nl")
			if oneIn(t, 6, "huge") {
				n = 95 + pick(t, 12, "nh")
			}
		}
		for i := 0; i < n; i++ {
			c.A = append(c.A, b32(scalar(t, ref.BLSR, "a")))
			k := mod(bigScalar(t, "k"), ref.BLSR)
			if pick(t, 6, "z") == 0 {
				k = n64(0)
			}
			c.B = append(c.B, b32(k))
		}
		return c
	}, func(c pairCase, x *Ctx) error {
		if len(c.A) > 1 {
			x.NT()
		}
		d := new(big.Int)
		var ks []*big.Int
		for i := range c.A {
			d = mod(add(d, mul(bi(c.A[i]), bi(c.B[i]))), ref.BLSR)
			ks = append(ks, bi(c.B[i]))
		}
		if c.R == 0 {
			g := bls.NewG1()
			var ps []*bls.PointG1
			for _, a := range c.A {
				ps = append(ps, g.MulScalar(g.New(), g.One(), bi(a)))
			}
			r := g.New()
			if _, err := g.MultiExp(r, ps, ks); err != nil {
				return errf("MultiExp: %v", err)
			}
			if err := want1("G1.MultiExp", r, ref.G1Mul(ref.BLSG1(), d)); err != nil {
				return err
			}
			if len(ks) > 0 {
				if _, err := g.MultiExp(r, ps, ks[1:]); err == nil {
					return errf("MultiExp accepts lists of different lengths")
				}
			}
			return nil
		}
		g := bls.NewG2(nil)
		var ps []*bls.PointG2
		for _, a := range c.A {
			ps = append(ps, g.MulScalar(g.New(), g.One(), bi(a)))
		}
		r := g.New()
		if _, err := g.MultiExp(r, ps, ks); err != nil {
			return errf("MultiExp: %v", err)
		}
		if err := want2("G2.MultiExp", r, ref.G2Mul(ref.BLSG2(), d)); err != nil {
			return err
		}
		if len(ks) > 0 {
			if _, err := g.MultiExp(r, ps, ks[1:]); err == nil {
				return errf("MultiExp accepts lists of different lengths")
			}
		}
		return nil
	})

	F("B03", "pairing", "cases with a pair that is not the identity", 700, 20000, func(t *rapid.T) pairCase {
		c := pairCase{R: pick(t, 1000, "rep")}
		n := pick(t, 4, "n") + 1
		sum := new(big.Int)
		sc := func(l string) *big.Int {
			if pick(t, 8, l+"z") == 0 {
				return n64(0)
			}
			return scalar(t, ref.BLSR, l)
		}
		for i := 0; i < n; i++ {
			a, b := sc("a"), sc("b")
			if i == n-1 && pick(t, 2, "close") == 0 && b.Sign() != 0 {
				// close the product to one
				a = mod(mul(sub(ref.BLSR, sum), new(big.Int).ModInverse(b, ref.BLSR)), ref.BLSR)
			}
			sum = mod(add(sum, mul(a, b)), ref.BLSR)
			c.A, c.B = append(c.A, b32(a)), append(c.B, b32(b))
		}
		return c
	}, func(c pairCase, x *Ctx) error {
		e := bls.NewEngine()
		g1, g2 := bls.NewG1(), bls.NewG2(nil)
		gt := e.GT()
		base := bls.NewEngine().AddPair(g1.One(), g2.One()).Result()
		if gt.IsOne(base) || !gt.IsValid(base) {
			return errf("e(G1, G2) is degenerate")
		}
		sum := new(big.Int)
		type pq struct {
			p *bls.PointG1
			q *bls.PointG2
		}
		var in []pq
		for i := range c.A {
			a, b := bi(c.A[i]), bi(c.B[i])
			if a.Sign() != 0 && b.Sign() != 0 {
				x.NT()
			}
			p := g1.MulScalar(g1.New(), g1.One(), a)
			q := g2.MulScalar(g2.New(), g2.One(), b)
			if c.R>>uint(2*i)&1 == 1 {
				g1.Affine(p)
			}
			if c.R>>uint(2*i+1)&1 == 1 {
				g2.Affine(q)
			}
			in = append(in, pq{p, q})
			sum = mod(add(sum, mul(a, b)), ref.BLSR)
		}
		load := func(e *bls.Engine) {
			for i, v := range in {
				if c.R>>8&1 == 1 && i%2 == 1 { // negate twice
					n := g1.New()
					g1.Neg(n, v.p)
					e.AddPairInv(n, v.q)
				} else {
					e.AddPair(v.p, v.q)
				}
			}
		}
		load(e)
		one := sum.Sign() == 0
		if one {
			x.Label("product one")
		}
		if got := e.Check(); got != one {
			return errf("Check of the product of %d pairings = %v, want %v", len(in), got, one)
		}
		r := e.Result()
		if gt.IsOne(r) != one || !gt.IsValid(r) {
			return errf("Result: one=%v valid=%v, want one=%v", gt.IsOne(r), gt.IsValid(r), one)
		}
		w := gt.New()
		gt.Exp(w, base, sum)
		if !gt.Equal(r, w) || !eqb(gt.ToBytes(r), gt.ToBytes(w)) {
			return errf("product of pairings = %x, want e(G1,G2)^%x = %x", gt.ToBytes(r), sum, gt.ToBytes(w))
		}
		// the engine is empty after Result, and a second use agrees
		if !e.Check() || !gt.IsOne(e.Result()) {
			return errf("engine not empty after Result")
		}
		e.AddPair(g1.One(), g2.One())
		e.Reset()
		load(e)
		if r2 := e.Result(); !gt.Equal(r, r2) {
			return errf("second computation with the same engine differs: %x, %x", gt.ToBytes(r), gt.ToBytes(r2))
		}
		for i, v := range in {
			if err := want1("G1 operand after pairing", v.p, ref.G1Mul(ref.BLSG1(), bi(c.A[i]))); err != nil {
				return err
			}
		}
		// kyber layer
		su := b12.NewBLS12381Suite()
		P1, P2 := b12.NullOwcryptG1(), b12.NullOwcryptG2()
		P1.Mul(b12.NewScalar(c.A[0]), nil)
		P2.Mul(b12.NewScalar(c.B[0]), nil)
		k := su.Pair(P1, P2)
		kb, _ := k.MarshalBinary()
		gt.Exp(w, base, mod(mul(bi(c.A[0]), bi(c.B[0])), ref.BLSR))
		if !eqb(kb, gt.ToBytes(w)) {
			return errf("Suite.Pair = %x, want %x", kb, gt.ToBytes(w))
		}
		b0 := b32(mod(mul(bi(c.A[0]), bi(c.B[0])), ref.BLSR))
		P3, P4 := b12.NullOwcryptG1().Base(), b12.NullOwcryptG2()
		P4.Mul(b12.NewScalar(b0), nil)
		for i := 0; i < 2; i++ {
			if !su.ValidatePairing(P1, P2, P3, P4) {
				return errf("ValidatePairing refuses e(aP, bQ) = e(P, abQ) on call %d", i+1)
			}
		}
		P4.Add(P4, b12.NullOwcryptG2().Base())
		if su.ValidatePairing(P1, P2, P3, P4) {
			return errf("ValidatePairing accepts unequal pairings")
		}
		return nil
	})

	F("B03", "gt", "every case: arithmetic on target-group and field elements against the reference tower", 250, 8000, func(t *rapid.T) pairCase {
		c := pairCase{R: pick(t, 5000, "r")}
		for i := 0; i < 3; i++ {
			c.A = append(c.A, b32(mod(bigScalar(t, "a"), lsh(256))))
		}
		return c
	}, func(c pairCase, x *Ctx) error {
		x.NT()
		gt := bls.NewGT()
		g1, g2 := bls.NewG1(), bls.NewG2(nil)
		base := bls.NewEngine().AddPair(g1.One(), g2.One()).Result()
		val := func(e *bls.E) ref.F12 { v, _ := ref.F12Parse(gt.ToBytes(e)); return v }
		B0 := val(base)
		var el []*bls.E
		var rv []ref.F12
		for _, a := range c.A {
			e := gt.New()
			gt.Exp(e, base, bi(a))
			w := ref.F12Exp(B0, mod(bi(a), ref.BLSR))
			if !eqb(gt.ToBytes(e), ref.F12Bytes(w)) {
				return errf("Exp(e(G1,G2), %x) = %x, want %x", []byte(a), gt.ToBytes(e), ref.F12Bytes(w))
			}
			if !gt.IsValid(e) || gt.IsOne(e) != e.IsOne() || e.IsOne() != (mod(bi(a), ref.BLSR).Sign() == 0) {
				return errf("e(G1,G2)^%x: valid=%v one=%v", []byte(a), gt.IsValid(e), gt.IsOne(e))
			}
			d, err := gt.FromBytes(gt.ToBytes(e))
			if err != nil || !gt.Equal(d, e) || !d.Equal(e) {
				return errf("GT encoding of e(G1,G2)^%x does not round-trip: %v", []byte(a), err)
			}
			el, rv = append(el, e), append(rv, w)
		}
		a, b := el[0], el[1]
		A, Bv := rv[0], rv[1]
		eq := func(what string, got *bls.E, want ref.F12) error {
			if !eqb(gt.ToBytes(got), ref.F12Bytes(want)) {
				return errf("GT %s (exponents %x): %x, want %x", what, c.A, gt.ToBytes(got), ref.F12Bytes(want))
			}
			return nil
		}
		dup := func(e *bls.E) *bls.E { n := gt.New(); gt.Copy(n, e); return n }
		o := gt.New()
		steps := []struct {
			name string
			run  func(d, p, q *bls.E)
			want func() ref.F12
		}{
			{"Mul", func(d, p, q *bls.E) { gt.Mul(d, p, q) }, func() ref.F12 { return ref.F12Mul(A, Bv) }},
			{"Add", func(d, p, q *bls.E) { gt.Add(d, p, q) }, func() ref.F12 { return ref.F12Add(A, Bv) }},
			{"Sub", func(d, p, q *bls.E) { gt.Sub(d, p, q) }, func() ref.F12 { return ref.F12Sub(A, Bv) }},
			{"Square", func(d, p, q *bls.E) { gt.Square(d, p) }, func() ref.F12 { return ref.F12Mul(A, A) }},
			{"Inverse", func(d, p, q *bls.E) { gt.Inverse(d, p) }, func() ref.F12 { return ref.F12Inv(A) }},
		}
		for _, s := range steps {
			w := s.want()
			s.run(o, a, b)
			if err := eq(s.name, o, w); err != nil {
				return err
			}
			d := dup(a)
			s.run(d, d, b)
			if err := eq(s.name+" in place", d, w); err != nil {
				return err
			}
			d = dup(b)
			if s.name != "Square" && s.name != "Inverse" {
				s.run(d, a, d)
				if err := eq(s.name+" into the second operand", d, w); err != nil {
					return err
				}
			}
		}
		if err := eq("operand a", a, A); err != nil {
			return err
		}
		if err := eq("operand b", b, Bv); err != nil {
			return err
		}
		// arbitrary field elements: sums of group elements
		f, h := gt.New(), gt.New()
		gt.Add(f, a, b)
		gt.Add(f, f, el[2])
		gt.Sub(h, b, el[2])
		F, H := ref.F12Add(ref.F12Add(A, Bv), rv[2]), ref.F12Sub(Bv, rv[2])
		gt.Mul(o, f, h)
		if err := eq("Mul of field elements", o, ref.F12Mul(F, H)); err != nil {
			return err
		}
		gt.Inverse(o, f)
		if err := eq("Inverse of a field element", o, ref.F12Inv(F)); err != nil {
			return err
		}
		fb := gt.ToBytes(f)
		inGT := eqb(ref.F12Bytes(ref.F12Exp(F, ref.BLSR)), ref.F12Bytes(ref.F12One()))
		if _, err := gt.FromBytes(fb); (err == nil) != inGT || gt.IsValid(f) != inGT {
			return errf("GT.FromBytes(%x): %v, valid %v; want accepted=%v", fb, err, gt.IsValid(f), inGT)
		}
		// malformed encodings
		good := gt.ToBytes(a)
		for _, n := range []int{0, 1, 48, 575, 577} {
			if _, err := gt.FromBytes(append(cp(good), 0)[:n]); err == nil {
				return errf("GT.FromBytes accepts %d bytes", n)
			}
		}
		i := c.R % 12 * 48
		v := add(bi(good[i:i+48]), ref.BLSP)
		bad := cp(good)
		if v.BitLen() <= 384 {
			v.FillBytes(bad[i : i+48])
			if _, err := gt.FromBytes(bad); err == nil {
				return errf("GT.FromBytes accepts an unreduced coefficient: %x", bad)
			}
		}
		bad = flip(good, c.R%(576*8))
		if _, err := gt.FromBytes(bad); err == nil {
			return errf("GT.FromBytes accepts an element outside the group: %x", bad)
		}
		// kyber layer
		su := b12.NewBLS12381Suite()
		ka, kb := su.GT().Point(), su.GT().Point()
		if err := ka.UnmarshalBinary(gt.ToBytes(a)); err != nil {
			return err
		}
		if err := kb.UnmarshalBinary(gt.ToBytes(b)); err != nil {
			return err
		}
		ks := su.GT().Point()
		chk := func(what string, want ref.F12) error {
			if m, _ := ks.MarshalBinary(); !eqb(m, ref.F12Bytes(want)) {
				return errf("OwcryptGT.%s = %x, want %x", what, m, ref.F12Bytes(want))
			}
			return nil
		}
		ks.Add(ka, kb)
		if err := chk("Add", ref.F12Mul(A, Bv)); err != nil {
			return err
		}
		ks.Sub(ka, kb)
		if err := chk("Sub", ref.F12Mul(A, ref.F12Inv(Bv))); err != nil {
			return err
		}
		var buf bytes.Buffer
		for i := 0; i < 2; i++ {
			p := ka
			if i == 1 {
				p = kb
			}
			if n, err := p.MarshalTo(&buf); err != nil || n != su.GT().PointLen() || n != 576 {
				return errf("OwcryptGT.MarshalTo: %d, %v", n, err)
			}
		}
		for i := 0; i < 2; i++ {
			p := ka
			if i == 1 {
				p = kb
			}
			if n, err := ks.UnmarshalFrom(&buf); err != nil || n != 576 || !ks.Equal(p) {
				return errf("OwcryptGT.UnmarshalFrom: %d, %v", n, err)
			}
		}
		if err := su.GT().Point().Set(ka).UnmarshalBinary(bad); err == nil {
			return errf("OwcryptGT.UnmarshalBinary accepts an element outside the group: %x", bad)
		}
		if _, err := su.GT().Point().UnmarshalFrom(bytes.NewReader(good[:c.R%576])); err == nil {
			return errf("OwcryptGT.UnmarshalFrom accepts a truncated stream")
		}
		kc := ka.Clone()
		kc.Sub(kc, ka)
		if !kc.Equal(ks.Null()) {
			return errf("OwcryptGT: a - a is not Null")
		}
		kc.Add(kc, kb)
		if !kc.Equal(kb) || kc.Equal(ka) != eqb(gt.ToBytes(a), gt.ToBytes(b)) {
			return errf("OwcryptGT: Null + b is not b, or Equal is wrong")
		}
		return nil
	})

	F("B03", "kyber", "every case: group operations through the kyber wrappers", 500, 15000, func(t *rapid.T) ptsCase {
		c := ptsCase{G2: pick(t, 2, "g2") == 1}
		c.P, c.Q = b32(mod(bigScalar(t, "p"), ref.BLSR)), b32(mod(bigScalar(t, "q"), ref.BLSR))
		if pick(t, 5, "rel") == 0 {
			c.Q = b32(mod(sub(ref.BLSR, bi(c.P)), ref.BLSR))
		}
		c.K = b32(mod(bigScalar(t, "k"), lsh(256)))
		c.RP = pick(t, 1000, "r")
		return c
	}, func(c ptsCase, x *Ctx) error {
		x.NT()
		su := b12.NewBLS12381Suite()
		grp := su.G1()
		want := func(d *big.Int) []byte { return ref.G1Comp(ref.G1Mul(ref.BLSG1(), mod(d, ref.BLSR))) }
		if c.G2 {
			grp = su.G2()
			want = func(d *big.Int) []byte { return ref.G2Comp(ref.G2Mul(ref.BLSG2(), mod(d, ref.BLSR))) }
		}
		if grp.PointLen() != len(want(bigOne)) || grp.ScalarLen() != 32 {
			return errf("%s: PointLen %d ScalarLen %d", grp, grp.PointLen(), grp.ScalarLen())
		}
		p, q, k := bi(c.P), bi(c.Q), bi(c.K)
		P := grp.Point().Mul(b12.NewScalar(c.P), nil)
		Q := grp.Point().Mul(b12.NewScalar(c.Q), grp.Point().Base())
		chk := func(what string, pt interface{ MarshalBinary() ([]byte, error) }, d *big.Int) error {
			b, err := pt.MarshalBinary()
			if err != nil || !eqb(b, want(d)) {
				return errf("%s %s (p=%x q=%x k=%x) = %x, %v; want %x", grp, what, p, q, k, b, err, want(d))
			}
			return nil
		}
		steps := []struct {
			n string
			p interface{ MarshalBinary() ([]byte, error) }
			d *big.Int
		}{
			{"Add", grp.Point().Add(P, Q), add(p, q)},
			{"Sub", grp.Point().Sub(P, Q), sub(p, q)},
			{"Neg", grp.Point().Neg(P), sub(ref.BLSR, p)},
			{"Mul", grp.Point().Mul(b12.NewScalar(c.K), P), mul(k, p)},
			{"Set", grp.Point().Set(P), p},
			{"Clone", P.Clone(), p},
			{"Null", grp.Point().Null(), n64(0)},
			{"Base", grp.Point().Base(), bigOne},
			{"P", P, p}, {"Q", Q, q},
		}
		for _, s := range steps {
			if err := chk(s.n, s.p, s.d); err != nil {
				return err
			}
		}
		// clones are independent
		C := P.Clone()
		C.Add(C, grp.Point().Base())
		if err := chk("clone after change", C, add(p, bigOne)); err != nil {
			return err
		}
		if err := chk("P after changing its clone", P, p); err != nil {
			return err
		}
		D := grp.Point().Set(P)
		D.Add(D, D)
		if err := chk("set then doubled", D, add(p, p)); err != nil {
			return err
		}
		if err := chk("P after changing a copy", P, p); err != nil {
			return err
		}
		if P.Equal(Q) != (p.Cmp(q) == 0) || !P.Equal(P.Clone()) {
			return errf("%s Equal(p=%x, q=%x) = %v", grp, p, q, P.Equal(Q))
		}
		// hashing (G1 under the package's domain, G2 under the tag the message starts with)
		msg, H := cat(c.P, c.K), grp.Point()
		wh := ref.G1Comp(ref.HashG1(msg, b12.Domain))
		if c.G2 {
			dst := []string{dstNUL, dstAUG}[c.RP%2]
			wh = ref.G2Comp(ref.HashG2(msg, []byte(dst)))
			msg = append([]byte(dst), msg...)
		}
		switch h := H.(type) {
		case *b12.OwcryptG1:
			h.Hash(msg)
		case *b12.OwcryptG2:
			h.Hash(msg)
		}
		if b, _ := H.MarshalBinary(); !eqb(b, wh) {
			return errf("%s Hash(%x) = %x, want %x", grp, msg, b, wh)
		}
		// stream encoding
		var buf bytes.Buffer
		if n, err := P.MarshalTo(&buf); err != nil || n != grp.PointLen() {
			return errf("MarshalTo: %d, %v", n, err)
		}
		Q.MarshalTo(&buf)
		R := grp.Point()
		if n, err := R.UnmarshalFrom(&buf); err != nil || n != grp.PointLen() || !R.Equal(P) {
			return errf("UnmarshalFrom: %d, %v", n, err)
		}
		if _, err := R.UnmarshalFrom(&buf); err != nil || !R.Equal(Q) {
			return errf("second UnmarshalFrom: %v", err)
		}
		if _, err := grp.Point().UnmarshalFrom(bytes.NewReader(want(p)[:c.RP%grp.PointLen()])); err == nil {
			return errf("UnmarshalFrom accepts a truncated stream")
		}
		return nil
	})
}
