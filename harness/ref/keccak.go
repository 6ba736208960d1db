package ref

import (
	"encoding/binary"
	"math/bits"
)

// Keccak is the Keccak[c] sponge (FIPS 202 / original padding selected by ds):
// written from the specification's step mappings, no unrolling.
func Keccak(rate int, ds byte, msg []byte, out int) []byte {
	var a [5][5]uint64 // a[x][y]
	absorb := func(b []byte) {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(b[8*i:])
		}
		keccakF(&a)
	}
	p := append(append([]byte{}, msg...), ds)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		absorb(p[:rate])
		p = p[rate:]
	}
	var o []byte
	for {
		for i := 0; i < rate/8; i++ {
			o = binary.LittleEndian.AppendUint64(o, a[i%5][i/5])
		}
		if len(o) >= out {
			return o[:out]
		}
		keccakF(&a)
	}
}

var keccakRC, keccakRot = func() (rc [24]uint64, rot [5][5]int) {
	lfsr := byte(1)
	bit := func() uint64 {
		b := uint64(lfsr & 1)
		hi := lfsr & 0x80
		lfsr <<= 1
		if hi != 0 {
			lfsr ^= 0x71
		}
		return b
	}
	for i := range rc {
		for j := 0; j <= 6; j++ {
			if bit() == 1 {
				rc[i] |= 1 << (1<<uint(j) - 1)
			}
		}
	}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x][y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}()

func keccakF(a *[5][5]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		var b [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y][(2*x+3*y)%5] = bits.RotateLeft64(a[x][y]^d[x], keccakRot[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
			}
		}
		a[0][0] ^= keccakRC[r]
	}
}
