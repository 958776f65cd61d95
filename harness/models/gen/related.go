package gen

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"

	"pgregory.net/rapid"
)

var seams = []int{1, 8, 16, 24, 32, 55, 56, 63, 64, 72, 128, 255, 256, 1024}

var affixes = [][]byte{{'\n'}, {'\r', '\n'}, {' '}, {'\t'}, {0}, {0, 0}, {'='}, {0xff}, {0x80}, []byte("é"), []byte("\u200b"), []byte("\ufeff")}

// Related draws a byte string that differs from b but is easily confused with
// it: same up to a boundary, white space or zeros around it, other letter case,
// its digest, and so on. kind names the relation.
func Related(rt *rapid.T, label string, b []byte) (kind string, q []byte) {
	n := len(b)
	for {
		q = bytes.Clone(b)
		kind = rapid.SampledFrom([]string{"flip", "flip", "flip first", "flip last", "append", "append affix", "append affix", "prepend affix", "drop last", "drop first", "trim",
			"cut at seam", "change past seam", "pad to seam", "case", "double", "halve", "reverse", "swap", "digest", "hex digest", "empty", "other", "decomposed", "high bit"}).Draw(rt, label+".relation")
		switch kind {
		case "flip":
			if n > 0 {
				q[rapid.IntRange(0, n-1).Draw(rt, label+".i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, label+".bit")
			}
		case "flip first":
			if n > 0 {
				q[0] ^= 1 << rapid.IntRange(0, 7).Draw(rt, label+".bit")
			}
		case "flip last":
			if n > 0 {
				q[n-1] ^= 1 << rapid.IntRange(0, 7).Draw(rt, label+".bit")
			}
		case "append":
			q = append(q, rapid.Byte().Draw(rt, label+".b"))
		case "append affix":
			q = append(q, rapid.SampledFrom(affixes).Draw(rt, label+".affix")...)
		case "prepend affix":
			q = append(bytes.Clone(rapid.SampledFrom(affixes).Draw(rt, label+".affix")), q...)
		case "drop last":
			if n > 0 {
				q = q[:n-1]
			}
		case "drop first":
			if n > 0 {
				q = q[1:]
			}
		case "trim":
			q = bytes.TrimSpace(q)
		case "cut at seam":
			q = q[:min(n, rapid.SampledFrom(seams).Draw(rt, label+".seam"))]
		case "change past seam":
			if s := rapid.SampledFrom(seams).Draw(rt, label+".seam"); n > s {
				q[rapid.IntRange(s, n-1).Draw(rt, label+".i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, label+".bit")
			}
		case "pad to seam":
			if s := rapid.SampledFrom(seams).Draw(rt, label+".seam"); n < s {
				q = append(q, make([]byte, s-n)...)
			}
		case "case":
			for i, v := range q {
				if v|0x20 >= 'a' && v|0x20 <= 'z' {
					q[i] ^= 0x20
					if rapid.Bool().Draw(rt, label+".stop") {
						break
					}
				}
			}
		case "double":
			q = append(q, q...)
		case "halve":
			q = q[:n/2]
		case "reverse":
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				q[i], q[j] = q[j], q[i]
			}
		case "swap":
			if n > 1 {
				i := rapid.IntRange(0, n-2).Draw(rt, label+".i")
				q[i], q[i+1] = q[i+1], q[i]
			}
		case "digest":
			d := sha256.Sum256(b)
			e := sha512.Sum512(b)
			q = bytes.Clone(rapid.SampledFrom([][]byte{d[:], e[:]}).Draw(rt, label+".digest"))
		case "hex digest":
			d := sha256.Sum256(b)
			q = []byte(hex.EncodeToString(d[:]))
		case "empty":
			q = nil
		case "other":
			q = Bytes(rt, label+".other", 100)
		case "decomposed":
			q = bytes.ReplaceAll(q, []byte("é"), []byte("e\u0301"))
		case "high bit":
			for i := range q {
				q[i] &= 0x7f
			}
		}
		if !bytes.Equal(q, b) {
			return kind, q
		}
	}
}
