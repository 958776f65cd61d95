package c08

import (
	"bytes"
	"encoding/base64"
	"errors"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "passwords of 0..3000 bytes at all four levels, each verified with itself and with related passwords (one edit, white space or zeros around, other case, same up to a boundary, its digest) in binary and Base64 form; " +
	"non-trivial: every hash (all are refused for a neighbour)"

var levels = []passhashx.SecurityLevel{passhashx.SecurityLevelLow, passhashx.SecurityLevelMobileLow, passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelHigh}
var names = []string{"low", "mobile low", "mobile high", "high"}

func one(rt *rapid.T, c *pbt.Case, li, others int) {
	pw := gen.Bytes(rt, "pw", 3000)
	c.Logf("%s level, %d byte password %x", names[li], len(pw), pw[:min(4, len(pw))])
	c.Label(names[li])
	c.LabelIf(len(pw) == 0, "empty password")
	c.NonTrivial()
	orig := bytes.Clone(pw)
	var hash []byte
	var text string
	b64 := rapid.Bool().Draw(rt, "base64")
	var err error
	end := gen.Steer(rt, c, 16)
	if b64 {
		text, err = passhashx.HashBase64(pw, levels[li])
		if err == nil {
			hash, err = base64.RawURLEncoding.Strict().DecodeString(text)
			if err != nil {
				rt.Fatalf("the Base64 form is not unpadded URL-safe: %q: %v", text, err)
			}
		}
	} else {
		hash, err = passhashx.Hash(pw, levels[li])
		text = base64.RawURLEncoding.EncodeToString(hash)
	}
	end()
	if err != nil || len(hash) == 0 {
		rt.Fatalf("hashing at the %s level failed: %v", names[li], err)
	}
	if !bytes.Equal(orig, pw) {
		rt.Fatalf("hashing modified the password")
	}
	stored := bytes.Clone(hash)
	if err := passhashx.Verify(pw, hash); err != nil {
		rt.Fatalf("a %s hash does not verify with its password: %v", names[li], err)
	}
	if err := passhashx.VerifyBase64(pw, text); err != nil {
		rt.Fatalf("the Base64 form of a %s hash does not verify with its password: %v", names[li], err)
	}
	for range others {
		kind, bad := gen.Related(rt, "other", pw)
		c.Label("other password: " + kind)
		if rapid.Bool().Draw(rt, "viaText") {
			err = passhashx.VerifyBase64(bad, text)
		} else {
			err = passhashx.Verify(bad, hash)
		}
		if !errors.Is(err, passhashx.ErrHashMismatch) {
			rt.Fatalf("another password (%s, %d bytes against %d) gave %v", kind, len(bad), len(pw), err)
		}
	}
	if !bytes.Equal(stored, hash) || !bytes.Equal(orig, pw) {
		rt.Fatalf("verification modified its arguments")
	}
}

func TestLevels(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100, Thorough: 4000, Rule: rule, CPU: 120, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		one(rt, c, rapid.IntRange(0, 2).Draw(rt, "level"), 3)
	})
}

func TestHigh(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4, Thorough: 120, Rule: rule, CPU: 240, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		one(rt, c, 3, 1)
	})
}

func TestUnknownLevel(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1, Thorough: 1, OneShard: true, Rule: "all 65532 unknown security levels; non-trivial: all"}, func(rt *rapid.T, c *pbt.Case) {
		c.NonTrivial()
		pw := gen.Bytes(rt, "pw", 30)
		c.Logf("%x", pw)
		for l := -32768; l <= 32767; l++ {
			if l >= 1 && l <= 4 {
				continue
			}
			sl := passhashx.SecurityLevel(l)
			if h, err := passhashx.Hash(pw, sl); !errors.Is(err, passhashx.ErrInvalidSecurityLevel) || len(h) != 0 {
				rt.Fatalf("security level %d gave %d bytes, %v", l, len(h), err)
			}
			if h, err := passhashx.HashBase64(pw, sl); !errors.Is(err, passhashx.ErrInvalidSecurityLevel) || h != "" {
				rt.Fatalf("security level %d gave %q, %v", l, h, err)
			}
		}
	})
}

// Concurrent hashing and verification of different passwords do not disturb each other.
func concurrent(rt *rapid.T, c *pbt.Case) {
	var es conc.Errs
	var fs []func()
	for g := rapid.IntRange(2, 6).Draw(rt, "goroutines"); g > 0; g-- {
		li := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "level")
		pw := gen.Bytes(rt, "pw", 300)
		kind, bad := gen.Related(rt, "other", pw)
		c.Logf("%s %x, %s", names[li], pw[:min(4, len(pw))], kind)
		fs = append(fs, func() {
			h, err := passhashx.Hash(pw, levels[li])
			if err != nil {
				es.Addf("hashing next to other calls failed: %v", err)
				return
			}
			if err := passhashx.Verify(pw, h); err != nil {
				es.Addf("a hash made next to other calls does not verify: %v", err)
			}
			if err := passhashx.Verify(bad, h); !errors.Is(err, passhashx.ErrHashMismatch) {
				es.Addf("another password (%s) verified next to other calls gave %v", kind, err)
			}
		})
	}
	c.NonTrivial()
	conc.Par(fs...)
	es.Check(rt)
}

const concRule = "two to six goroutines that hash, verify and verify with a related password at the cheaper levels; every case counts as non-trivial"

func TestConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 24, Thorough: 600, Rule: concRule, CPU: 240, Budget: 120}, concurrent)
}

func TestRaceConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 120, Rule: concRule, CPU: 240, Budget: 120}, concurrent)
}

// TestLarge hashes passwords of up to 16 MiB.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12, Thorough: 300, Rule: "passwords of 3000 bytes to 16 MiB at the cheaper levels, verified with themselves and with one that differs in a bit somewhere or in length; every case counts as non-trivial", CPU: 240, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 3000, 1<<24)
		r := gen.NewRand(rt, "seed")
		li := rapid.IntRange(0, 1).Draw(rt, "level")
		pw := make([]byte, n)
		gen.Fill(pw, r.Uint64())
		c.Logf("%s level, %d bytes, seed %x", names[li], n, uint64(*r))
		c.NonTrivial()
		h, err := passhashx.Hash(pw, levels[li])
		if err != nil {
			rt.Fatalf("hashing %d bytes failed: %v", n, err)
		}
		if err := passhashx.Verify(pw, h); err != nil {
			rt.Fatalf("the hash of %d bytes does not verify: %v", n, err)
		}
		at := []int{0, n - 1, r.N(n), min(n-1, 1<<r.N(24))}
		for _, i := range at {
			bit := byte(1) << r.N(8)
			pw[i] ^= bit
			if err := passhashx.Verify(pw, h); !errors.Is(err, passhashx.ErrHashMismatch) {
				rt.Fatalf("a password of %d bytes that differs in byte %d gave %v", n, i, err)
			}
			pw[i] ^= bit
		}
	})
}
