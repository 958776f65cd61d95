package c09

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"math"
	"strings"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/passhash"
	"verif.local/harness/pbt"
)

func verify(rt *rapid.T, pw, h []byte, text bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("verification panicked on %x: %v", h, r)
		}
	}()
	if text {
		return passhashx.VerifyBase64(pw, base64.RawURLEncoding.EncodeToString(h))
	}
	return passhashx.Verify(pw, h)
}

// structure is the reference reading of a stored hash.
func structure(h []byte) (ok bool, saltEnd, digestEnd uint64) {
	if len(h) < 17 {
		return false, 0, 0
	}
	saltEnd, digestEnd = binary.LittleEndian.Uint64(h[1:]), binary.LittleEndian.Uint64(h[9:])
	return 17 <= saltEnd && saltEnd <= digestEnd && digestEnd <= uint64(len(h)), saltEnd, digestEnd
}

// expect judges the answer for a hash that must be refused.
func expect(rt *rapid.T, h []byte, err error) {
	ok, _, _ := structure(h)
	unknown := len(h) > 0 && h[0] > 3
	switch {
	case err == nil:
		rt.Fatalf("accepted as stored hash: %x", h)
	case !ok && !unknown && !errors.Is(err, passhashx.ErrInvalidPassHash):
		rt.Fatalf("inconsistent offsets reported as %v: %x", err, h)
	case !ok && unknown && !errors.Is(err, passhashx.ErrInvalidPassHash) && !errors.Is(err, passhashx.ErrUnknownAlgorithm):
		rt.Fatalf("malformed hash reported as %v: %x", err, h)
	case ok && unknown && !errors.Is(err, passhashx.ErrUnknownAlgorithm):
		rt.Fatalf("unknown algorithm %d reported as %v", h[0], err)
	}
}

// offset draws an interesting end offset for a string of n bytes.
func offset(rt *rapid.T, label string, n int) uint64 {
	near := uint64(rapid.IntRange(0, n+3).Draw(rt, label+".near"))
	return rapid.SampledFrom([]uint64{near, near, near, 0, 16, 17, 18, uint64(n), uint64(n) + 1, uint64(n) - 1,
		near | 1<<32, near | 1<<63, near | 1<<8, near | 1<<16, math.MaxUint64, math.MaxInt64, 1 << 63, 1 << 32, 1<<64 - 17}).Draw(rt, label)
}

// TestArbitrary: byte strings that are cheap to refuse (bad structure or unknown algorithm).
func TestArbitrary(t *testing.T) {
	rule := "arbitrary byte strings of 0..120 bytes with drawn algorithm and offset fields (small, huge, overflowing, inconsistent, crossing); non-trivial: at least the 17 header bytes"
	pbt.Check(t, pbt.Opts{Quick: 120000, Thorough: 3000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.SampledFrom([]int{0, 1, 8, 9, 16, 17, 18, 32, 33, 48, 64, 65, 66, 80, 120}).Draw(rt, "n")
		if rapid.Bool().Draw(rt, "any") {
			n = rapid.IntRange(0, 120).Draw(rt, "len")
		}
		h := gen.BytesN(rt, "h", n)
		if n >= 17 && rapid.IntRange(0, 5).Draw(rt, "offsets") > 0 {
			binary.LittleEndian.PutUint64(h[1:], offset(rt, "saltEnd", n))
			binary.LittleEndian.PutUint64(h[9:], offset(rt, "digestEnd", n))
		}
		if n > 0 {
			h[0] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 127, 128, 254, 255}).Draw(rt, "alg")
		}
		ok, se, de := structure(h)
		if ok && h[0] <= 3 {
			h[0] += 4 + 4*byte(rapid.IntRange(0, 60).Draw(rt, "unknown"))
		}
		c.Logf("%d bytes alg %x salt end %x digest end %x", n, h[:min(1, n)], se, de)
		c.NonTrivialIf(n >= 17)
		c.LabelIf(!ok, "bad structure")
		c.LabelIf(ok, "unknown algorithm")
		keep := bytes.Clone(h)
		expect(rt, h, verify(rt, gen.Bytes(rt, "pw", 20), h, rapid.Bool().Draw(rt, "text")))
		if !bytes.Equal(h, keep) {
			rt.Fatalf("verification modified the stored hash")
		}
	})
}

// TestText: arbitrary text as the Base64 form.
func TestText(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 1000000, Rule: "arbitrary text as Base64 form, including padded, standard-alphabet and truncated encodings; non-trivial: text of at least 4 characters"}, func(rt *rapid.T, c *pbt.Case) {
		var s string
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			s = rapid.String().Draw(rt, "s")
		case 1:
			s = rapid.StringMatching(`[A-Za-z0-9_+/=-]{0,90}`).Draw(rt, "s")
		case 2:
			h := gen.BytesN(rt, "h", rapid.IntRange(0, 60).Draw(rt, "n"))
			s = base64.StdEncoding.EncodeToString(h)
		default:
			h := gen.BytesN(rt, "h", rapid.IntRange(0, 60).Draw(rt, "n"))
			s = base64.URLEncoding.EncodeToString(h)
		}
		// keep structurally valid hashes of real algorithms (expensive) out
		if d, err := base64.RawURLEncoding.DecodeString(s); err == nil {
			if ok, _, _ := structure(d); ok && d[0] <= 3 {
				return
			}
		}
		c.Logf("%q", s)
		c.NonTrivialIf(len(s) >= 4)
		defer func() {
			if r := recover(); r != nil {
				rt.Fatalf("verification of text %q panicked: %v", s, r)
			}
		}()
		if err := passhashx.VerifyBase64([]byte("pw"), s); err == nil {
			rt.Fatalf("text %q was accepted", s)
		}
	})
}

// TestAltered: one alteration of a valid hash.
func TestAltered(t *testing.T) {
	rule := "one alteration of a valid hash: algorithm byte, salt or digest bit, either offset, truncation, overlapping salt and digest, or an empty, shortened or longer salt or digest with matching offsets; non-trivial: structurally valid with a known algorithm, so only the comparison can refuse it"
	pbt.Check(t, pbt.Opts{Quick: 320, Thorough: 8000, Rule: rule, CPU: 120, Budget: 100}, func(rt *rapid.T, c *pbt.Case) {
		alg := rapid.SampledFrom([]int{1, 1, 1, 3, 2}).Draw(rt, "alg")
		pw, salt := gen.Bytes(rt, "pw", 60), gen.BytesN(rt, "salt", 16)
		good := passhash.Make(alg, pw, salt)
		h := bytes.Clone(good)
		kind := rapid.SampledFrom([]string{"algorithm", "unknown", "salt", "salt", "digest", "digest", "digest", "offset bit", "offset bit", "salt end", "digest end", "truncate", "truncate", "empty digest", "short digest", "long digest", "prefix swap", "empty both", "zero digest", "long salt", "long salt", "short salt", "long before"}).Draw(rt, "kind")
		switch kind {
		case "algorithm":
			h[0] = byte(alg%3 + 1) // another known algorithm
			if rapid.Bool().Draw(rt, "other") {
				h[0] = byte((alg+1)%3 + 1)
			}
			if rapid.IntRange(0, 9).Draw(rt, "slow") == 0 {
				h[0] = 0
			}
		case "unknown":
			h[0] = byte(rapid.IntRange(4, 255).Draw(rt, "a"))
		case "salt":
			h[17+rapid.IntRange(0, 15).Draw(rt, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "digest":
			h[33+rapid.IntRange(0, 31).Draw(rt, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "offset bit":
			h[1+rapid.IntRange(0, 15).Draw(rt, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case "salt end":
			binary.LittleEndian.PutUint64(h[1:], offset(rt, "saltEnd", len(h)))
		case "digest end":
			binary.LittleEndian.PutUint64(h[9:], offset(rt, "digestEnd", len(h)))
		case "truncate":
			h = h[:rapid.IntRange(0, len(h)-1).Draw(rt, "n")]
		case "empty digest":
			h = passhash.Encode(byte(alg), 33, 33, salt, nil)
		case "short digest":
			k := rapid.IntRange(1, 31).Draw(rt, "k")
			h = passhash.Encode(byte(alg), 33, uint64(33+k), salt, good[33:33+k])
		case "long digest":
			h = passhash.Encode(byte(alg), 33, 66, salt, append(bytes.Clone(good[33:]), rapid.Byte().Draw(rt, "b")))
		case "prefix swap":
			h = passhash.Encode(byte(alg), 17+32, 65, good[33:], salt)
		case "empty both":
			h = passhash.Encode(byte(alg), 17, 17, nil, nil)
		case "long salt", "long before": // the salt with more behind or before it
			more := append(gen.Bytes(rt, "more", 20), rapid.Byte().Draw(rt, "b"))
			long := append(bytes.Clone(salt), more...)
			if kind == "long before" {
				long = append(bytes.Clone(more), salt...)
			}
			h = passhash.Encode(byte(alg), uint64(17+len(long)), uint64(17+len(long)+32), long, good[33:])
		case "short salt":
			k := rapid.IntRange(0, 15).Draw(rt, "k")
			h = passhash.Encode(byte(alg), uint64(17+k), uint64(17+k+32), salt[:k], good[33:])
		case "zero digest":
			h = passhash.Encode(byte(alg), 33, 65, salt, make([]byte, 32))
		}
		ok, _, _ := structure(h)
		c.Label(kind)
		c.Logf("%s of an algorithm %d hash: %x", kind, alg, h[:min(len(h), 20)])
		c.NonTrivialIf(ok && h[0] <= 3)
		if bytes.Equal(h, good) {
			return
		}
		expect(rt, h, verify(rt, pw, h, rapid.Bool().Draw(rt, "text")))
	})
}

// TestValidStructure: arbitrary salts and digests under a known algorithm are refused unless they match.
func TestValidStructure(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120, Thorough: 3000, CPU: 120, Budget: 60, Rule: "well-formed hashes with arbitrary salt and digest lengths and contents under a known algorithm; non-trivial: all"}, func(rt *rapid.T, c *pbt.Case) {
		alg := rapid.SampledFrom([]int{1, 1, 3, 2}).Draw(rt, "alg")
		sl, dl := rapid.IntRange(0, 40).Draw(rt, "saltLen"), rapid.IntRange(0, 40).Draw(rt, "digestLen")
		h := passhash.Encode(byte(alg), uint64(17+sl), uint64(17+sl+dl), gen.BytesN(rt, "salt", sl), gen.BytesN(rt, "digest", dl))
		h = append(h, gen.BytesN(rt, "more", rapid.SampledFrom([]int{0, 0, 5}).Draw(rt, "moreLen"))...)
		c.Logf("alg %d salt %d digest %d", alg, sl, dl)
		c.NonTrivial()
		expect(rt, h, verify(rt, gen.Bytes(rt, "pw", 20), h, false))
	})
}

// TestOffsets: every other value of every offset byte of a well-formed hash, as
// far as it makes the offsets inconsistent (which is cheap to refuse).
func TestOffsets(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100, Thorough: 3000, Rule: "well-formed hashes with each byte of both offsets replaced by every other value in turn, alone and in both offsets at once; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		alg := byte(rapid.IntRange(0, 3).Draw(rt, "alg"))
		sl, dl := rapid.IntRange(0, 40).Draw(rt, "saltLen"), rapid.IntRange(0, 40).Draw(rt, "digestLen")
		salt, digest := gen.BytesN(rt, "salt", sl), gen.BytesN(rt, "digest", dl)
		base := passhash.Encode(alg, uint64(17+sl), uint64(17+sl+dl), salt, digest)
		pw := gen.Bytes(rt, "pw", 20)
		c.Logf("alg %d salt %d digest %d", alg, sl, dl)
		c.NonTrivial()
		try := func(h []byte) {
			if ok, _, _ := structure(h); !ok {
				expect(rt, h, verify(rt, pw, h, false))
			}
		}
		for i := 1; i <= 16; i++ {
			for v := range 256 {
				h := bytes.Clone(base)
				h[i] = byte(v)
				try(h)
				if i <= 8 {
					h[i+8] = byte(v)
					try(h)
				}
			}
		}
	})
}

var goods = sync.OnceValue(func() (res []string) {
	for alg := 1; alg <= 3; alg++ {
		for _, salt := range []string{"0123456789abcdef", "\x00\xff\x10\x83\xfb\xef\xbe\xfd\xff\xff\xff\x00\x00\x00 \n"} {
			res = append(res, base64.RawURLEncoding.EncodeToString(passhash.Make(alg, []byte("pw"), []byte(salt))))
		}
	}
	return
})

// TestAlteredText: the text of a valid hash with something added, replaced or lost, so that it is no longer text of
// the form the stored hashes have.
func TestAlteredText(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, CPU: 120, Rule: "the text of a valid hash with white space, padding, signs of other alphabets, control or other characters put in, appended, prepended or in place of one, quoted, percent-encoded, given twice or cut so that it is no unpadded URL-safe Base64 any more (line breaks are ignored by that encoding and left out); every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		good := rapid.SampledFrom(goods()).Draw(rt, "hash")
		sign := rapid.SampledFrom([]string{" ", " ", "\t", "=", "==", "\x00", "+", "/", ".", ",", "\"", "'", "%", "\v", "\f", "\u00a0", "\u2028", "é", "\xff", "\\n", "$", "\x7f"}).Draw(rt, "sign")
		at := rapid.IntRange(0, len(good)).Draw(rt, "at")
		var s string
		kind := rapid.SampledFrom([]string{"put in", "put in", "replace", "append", "prepend", "around", "pad", "standard", "percent", "twice", "cut", "spread"}).Draw(rt, "kind")
		switch kind {
		case "put in":
			s = good[:at] + sign + good[at:]
		case "replace":
			at = min(at, len(good)-1)
			s = good[:at] + sign + good[at+1:]
		case "append":
			s = good + strings.Repeat(sign, rapid.IntRange(1, 4).Draw(rt, "n"))
		case "prepend":
			s = strings.Repeat(sign, rapid.IntRange(1, 4).Draw(rt, "n")) + good
		case "around":
			s = sign + good + sign
		case "pad":
			s = good + strings.Repeat("=", rapid.IntRange(1, 4).Draw(rt, "n"))
		case "standard":
			s = strings.NewReplacer("-", "+", "_", "/").Replace(good)
		case "percent":
			s = strings.ReplaceAll(good, rapid.SampledFrom([]string{"A", "-", "_", good[at/2 : at/2+1]}).Draw(rt, "of"), "%41")
		case "twice":
			s = good + rapid.SampledFrom([]string{" ", ":", ",", "=", ""}).Draw(rt, "sep") + good
		case "cut":
			s = good[:4*rapid.IntRange(0, len(good)/4-1).Draw(rt, "n")+1]
		case "spread":
			k := rapid.IntRange(1, 30).Draw(rt, "every")
			for i := 0; i < len(good); i += k {
				s += good[i:min(i+k, len(good))] + sign
			}
		}
		if _, err := base64.RawURLEncoding.DecodeString(s); err == nil {
			return
		}
		c.Label(kind)
		c.Logf("%q", s)
		c.NonTrivial()
		defer func() {
			if r := recover(); r != nil {
				rt.Fatalf("verification of text %q panicked: %v", s, r)
			}
		}()
		if err := passhashx.VerifyBase64([]byte("pw"), s); err == nil {
			rt.Fatalf("the text %q was accepted", s)
		}
	})
}
