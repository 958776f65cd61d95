package gen

import (
	"a.verif/entropy"
	"pgregory.net/rapid"
	"verif.local/harness/pbt"
)

// Steer lets the random source hand out n drawn bytes of a special shape, in most cases,
// to what is called before the returned function is.
func Steer(rt *rapid.T, c *pbt.Case, n int) (end func()) {
	b := make([]byte, n)
	shape := rapid.SampledFrom([]string{"", "", "zeros", "ones", "zeros first", "zeros last", "ones first", "ones last", "equal", "text", "hole", "hole"}).Draw(rt, "source")
	if shape == "" {
		return func() {}
	}
	Fill(b, rapid.Uint64().Draw(rt, "random"))
	k := rapid.IntRange(1, n).Draw(rt, "k")
	set := func(b []byte, v byte) {
		for i := range b {
			b[i] = v
		}
	}
	switch shape {
	case "zeros":
		clear(b)
	case "ones":
		set(b, 255)
	case "zeros first":
		clear(b[:k])
	case "zeros last":
		clear(b[n-k:])
	case "ones first":
		set(b[:k], 255)
	case "ones last":
		set(b[n-k:], 255)
	case "equal":
		set(b, b[0])
	case "text":
		for i := range b {
			b[i] = " \t\n\r$./=+-_Aa019"[int(b[i])%16]
		}
	case "hole":
		b[k-1] = []byte{0, 0, 10, 13, 32, '$', 255, 128}[b[0]%8]
	}
	c.Logf("source %s %x", shape, b)
	stop := entropy.Steer(b)
	return func() {
		if stop() > 0 {
			c.Label("random source: " + shape)
		}
	}
}
