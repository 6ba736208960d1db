package ref

import "math/big"

// F6 = F2[v]/(v^3 - (1+u)), F12 = F6[w]/(w^2 - v).
type F6 [3]F2
type F12 [2]F6

var xiF2 = f2small(1, 1)

func f6add(a, b F6) F6 { return F6{f2add(a[0], b[0]), f2add(a[1], b[1]), f2add(a[2], b[2])} }
func f6sub(a, b F6) F6 { return F6{f2sub(a[0], b[0]), f2sub(a[1], b[1]), f2sub(a[2], b[2])} }
func f6mul(a, b F6) F6 {
	var t [5]F2
	for i := range t {
		t[i] = f2small(0, 0)
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			t[i+j] = f2add(t[i+j], f2mul(a[i], b[j]))
		}
	}
	return F6{f2add(t[0], f2mul(xiF2, t[3])), f2add(t[1], f2mul(xiF2, t[4])), t[2]}
}
func f6v(a F6) F6 { return F6{f2mul(xiF2, a[2]), a[0], a[1]} }
func f6zero() F6  { return F6{f2small(0, 0), f2small(0, 0), f2small(0, 0)} }
func f6inv(a F6) F6 {
	c0 := f2sub(f2mul(a[0], a[0]), f2mul(xiF2, f2mul(a[1], a[2])))
	c1 := f2sub(f2mul(xiF2, f2mul(a[2], a[2])), f2mul(a[0], a[1]))
	c2 := f2sub(f2mul(a[1], a[1]), f2mul(a[0], a[2]))
	n := f2inv(f2add(f2mul(a[0], c0), f2mul(xiF2, f2add(f2mul(a[2], c1), f2mul(a[1], c2)))))
	return F6{f2mul(c0, n), f2mul(c1, n), f2mul(c2, n)}
}

func F12Add(a, b F12) F12 { return F12{f6add(a[0], b[0]), f6add(a[1], b[1])} }
func F12Sub(a, b F12) F12 { return F12{f6sub(a[0], b[0]), f6sub(a[1], b[1])} }
func F12Mul(a, b F12) F12 {
	return F12{f6add(f6mul(a[0], b[0]), f6v(f6mul(a[1], b[1]))), f6add(f6mul(a[0], b[1]), f6mul(a[1], b[0]))}
}
func F12Inv(a F12) F12 {
	n := f6inv(f6sub(f6mul(a[0], a[0]), f6v(f6mul(a[1], a[1]))))
	return F12{f6mul(a[0], n), f6mul(f6sub(f6zero(), a[1]), n)}
}
func F12One() F12 { return F12{F6{f2small(1, 0), f2small(0, 0), f2small(0, 0)}, f6zero()} }
func F12Exp(a F12, e *big.Int) F12 {
	r := F12One()
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = F12Mul(r, r)
		if e.Bit(i) == 1 {
			r = F12Mul(r, a)
		}
	}
	return r
}

// F12Bytes writes the twelve coefficients, highest first, 48 bytes each.
func F12Bytes(a F12) (o []byte) {
	for i := 1; i >= 0; i-- {
		for j := 2; j >= 0; j-- {
			for k := 1; k >= 0; k-- {
				o = append(o, b48(a[i][j][k])...)
			}
		}
	}
	return
}

// F12Parse is the inverse; false when a coefficient is not reduced or the length is wrong.
func F12Parse(b []byte) (a F12, ok bool) {
	if len(b) != 576 {
		return a, false
	}
	ok = true
	for i := 1; i >= 0; i-- {
		for j := 2; j >= 0; j-- {
			for k := 1; k >= 0; k-- {
				v := new(big.Int).SetBytes(b[:48])
				if v.Cmp(BLSP) >= 0 {
					ok = false
				}
				a[i][j][k] = v
				b = b[48:]
			}
		}
	}
	return
}
