package ref

import "math/big"

var (
	FpP = Pallas.P // base field
	FqN = Pallas.N // scalar field
)

var montR = new(big.Int).Lsh(big.NewInt(1), 256)

// ToMont / FromMont convert between integers and little-endian Montgomery limbs.
func ToMont(v, mod *big.Int) (o [4]uint64) {
	t := new(big.Int).Mul(v, montR)
	t.Mod(t, mod)
	return Limbs(t)
}
func FromMont(l [4]uint64, mod *big.Int) *big.Int {
	v := FromLimbs(l)
	v.Mul(v, new(big.Int).ModInverse(montR, mod))
	return v.Mod(v, mod)
}
func Limbs(v *big.Int) (o [4]uint64) {
	t := new(big.Int).Set(v)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range o {
		o[i] = new(big.Int).And(t, m).Uint64()
		t.Rsh(t, 64)
	}
	return
}
func FromLimbs(l [4]uint64) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(l[i]))
	}
	return v
}

func posPerm(s *[3]*big.Int) {
	ark := func(r int) {
		for i := range s {
			s[i] = new(big.Int).Add(s[i], posRK[3*r+i])
			s[i].Mod(s[i], FpP)
		}
	}
	five := big.NewInt(5)
	ark(0)
	for r := 1; r <= 63; r++ {
		for i := range s {
			s[i] = new(big.Int).Exp(s[i], five, FpP)
		}
		var n [3]*big.Int
		for i := range n {
			n[i] = new(big.Int)
			for j := range s {
				n[i].Add(n[i], new(big.Int).Mul(posMDS[3*i+j], s[j]))
			}
			n[i].Mod(n[i], FpP)
		}
		*s = n
		ark(r)
	}
}

// Poseidon absorbs in at rate 2 from the initial state iv and returns the digest.
func Poseidon(iv [3]*big.Int, in []*big.Int) *big.Int {
	s := iv
	pos := 0
	for _, x := range in {
		if pos == 2 {
			posPerm(&s)
			pos = 0
		}
		s[pos] = new(big.Int).Add(s[pos], x)
		s[pos].Mod(s[pos], FpP)
		pos++
	}
	posPerm(&s)
	return s[0]
}

type MinaMsg struct {
	Prefix, Suffix []*big.Int
	IV             [3]*big.Int
}

func (m MinaMsg) hash(P Pt, r *big.Int) *big.Int {
	in := append([]*big.Int{}, m.Prefix...)
	in = append(in, P.X, P.Y, r)
	in = append(in, m.Suffix...)
	return Poseidon(m.IV, in)
}

// MinaPoint returns s*G - e*P.
func MinaPoint(P Pt, m MinaMsg, r, s *big.Int) Pt {
	e := m.hash(P, r)
	e.Mod(e, FqN)
	return Pallas.Add(Pallas.MulG(s), Pallas.Neg(Pallas.Mul(e, P)))
}

func MinaVerify(P Pt, m MinaMsg, r, s *big.Int) bool {
	if !Pallas.On(P) || r.Cmp(FpP) >= 0 || s.Cmp(FqN) >= 0 {
		return false
	}
	R := MinaPoint(P, m, r, s)
	return !R.Inf && R.Y.Bit(0) == 0 && R.X.Cmp(r) == 0
}

func MinaSign(d, k *big.Int, m MinaMsg) []byte {
	P := Pallas.MulG(d)
	R := Pallas.MulG(k)
	if R.Y.Bit(0) == 1 {
		k = new(big.Int).Sub(FqN, k)
	}
	e := m.hash(P, R.X)
	s := new(big.Int).Mul(e, d)
	s.Add(s, k)
	s.Mod(s, FqN)
	return append(B32(R.X), B32(s)...)
}
