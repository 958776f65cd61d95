// Package gen holds generators shared by several properties.
package gen

import (
	"math/bits"

	"pgregory.net/rapid"
	"verif.local/harness/pbt"
)

// Mix is one splitmix64 step over x.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Fill overwrites b with bytes expanded from seed.
func Fill(b []byte, seed uint64) {
	for i := range b {
		if i%8 == 0 {
			seed = Mix(seed)
		}
		b[i] = byte(seed >> (8 * (i % 8)))
	}
}

// BytesN draws n bytes: constant, low-entropy or expanded from a drawn seed.
func BytesN(rt *rapid.T, label string, n int) []byte {
	b := make([]byte, n)
	switch rapid.IntRange(0, 12).Draw(rt, label+".kind") {
	case 0:
		v := rapid.SampledFrom([]byte{0, 1, 0x10, 0x7f, 0x80, 0xff}).Draw(rt, label+".const")
		for i := range b {
			b[i] = v
		}
	case 1:
		Fill(b, rapid.Uint64().Draw(rt, label+".seed"))
		for i := range b {
			b[i] &= 1
		}
	case 2, 3, 4: // text with white space, letters of both cases and multi-byte characters
		Fill(b, rapid.Uint64().Draw(rt, label+".seed"))
		const alphabet = "abcdefgABCDEFG0123456789 .-_\n\téé"
		for i := range b {
			b[i] = alphabet[int(b[i])%len(alphabet)]
		}
		if ends := rapid.IntRange(0, 5).Draw(rt, label+".ends"); n > 0 && ends < 4 {
			b[0], b[n-1] = " a\nB"[ends], "\n zC"[ends]
		}
	default:
		Fill(b, rapid.Uint64().Draw(rt, label+".seed"))
	}
	return b
}

// Bytes draws a byte string with a length over several magnitudes up to max.
func Bytes(rt *rapid.T, label string, max int) []byte {
	return BytesN(rt, label, pbt.Len(rt, label+".len", max))
}

// Framed places b in a larger array with recognisable bytes around it, keeping
// spare capacity behind it. It returns the view and the whole array.
func Framed(rt *rapid.T, label string, b []byte) (view, whole []byte) {
	pre := rapid.SampledFrom([]int{0, 0, 3, 16}).Draw(rt, label+".pre")
	post := rapid.SampledFrom([]int{0, 1, 16, 64, 200, len(b) + 80, 2*len(b) + 80}).Draw(rt, label+".post")
	whole = make([]byte, pre+len(b)+post)
	Fill(whole, 0xabcdef)
	copy(whole[pre:], b)
	return whole[pre : pre+len(b)], whole
}

// Rand is a small generator of numbers expanded from one drawn seed, for cases
// too large to draw element by element.
type Rand uint64

// NewRand draws the seed.
func NewRand(rt *rapid.T, label string) *Rand {
	r := Rand(rapid.Uint64().Draw(rt, label))
	return &r
}

// Uint64 returns the next number.
func (r *Rand) Uint64() uint64 {
	*r += 0x9e3779b97f4a7c15
	return Mix(uint64(*r))
}

// N returns a number in [0, n).
func (r *Rand) N(n int) int { return int(r.Uint64() % uint64(n)) }

// Large draws a size in [lo, hi], even over the orders of magnitude, often at
// or next to a power of two or a round number.
func Large(rt *rapid.T, label string, lo, hi int) int {
	a, b := bits.Len(uint(lo)), bits.Len(uint(hi))
	base := 1 << (rapid.IntRange(a, b).Draw(rt, label+".exp") - 1)
	n := 0
	switch rapid.IntRange(0, 3).Draw(rt, label+".at") {
	case 0:
		n = base + rapid.IntRange(-1, 1).Draw(rt, label+".off")
	case 1:
		d := 1
		for d*10 <= base {
			d *= 10
		}
		n = d*rapid.IntRange(1, 9).Draw(rt, label+".round") + rapid.IntRange(-1, 1).Draw(rt, label+".off")
	default:
		n = base + rapid.IntRange(0, base).Draw(rt, label+".off")
	}
	return min(max(n, lo), hi)
}

// Wild draws integers near the powers of two at which shorter integers and
// packed fields end, of either sign: small ones once their high bits are lost.
func Wild() *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		v := 1<<rapid.SampledFrom([]int{8, 15, 16, 24, 31, 32, 33, 48, 53, 62}).Draw(t, "bit") + rapid.IntRange(-2, 40).Draw(t, "off")
		if rapid.IntRange(0, 2).Draw(t, "neg") == 0 {
			v = -v
		}
		return v
	})
}

// Vast draws a size beyond 65535, up to a good million.
func Vast(rt *rapid.T, label string) int {
	r := NewRand(rt, label)
	switch r.N(4) {
	case 0:
		return []int{65536, 65537, 131072, 262144}[r.N(4)]
	case 1:
		return 65536 + r.N(250000)
	case 2:
		return []int{1 << 20, 1<<20 + 1}[r.N(2)]
	}
	return 1<<20 + r.N(200000)
}
