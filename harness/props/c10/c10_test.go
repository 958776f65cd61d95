package c10

import (
	"bytes"
	"encoding/base64"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/passhash"
	"verif.local/harness/pbt"
)

const rule = "passwords of 0..300 bytes at all four levels; hashes of the library recomputed independently and independently assembled hashes verified; non-trivial: all"

var levels = [4]passhashx.SecurityLevel{passhashx.SecurityLevelHigh, passhashx.SecurityLevelLow, passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelMobileLow}

func one(rt *rapid.T, c *pbt.Case, alg int) {
	format(rt, c, alg, gen.Bytes(rt, "pw", 300))
}

func format(rt *rapid.T, c *pbt.Case, alg int, pw []byte) {
	c.Logf("algorithm %d, %d byte password %x", alg, len(pw), pw[:min(4, len(pw))])
	c.Label([]string{"high", "low", "mobile high", "mobile low"}[alg])
	c.NonTrivial()
	if rapid.Bool().Draw(rt, "foreign") {
		c.Label("assembled independently")
		h := passhash.Make(alg, pw, gen.BytesN(rt, "salt", 16))
		if err := passhashx.Verify(pw, h); err != nil {
			rt.Fatalf("an independently assembled hash of algorithm %d is refused: %v", alg, err)
		}
		return
	}
	c.Label("made by the library")
	var h []byte
	var err error
	end := gen.Steer(rt, c, 16)
	if rapid.Bool().Draw(rt, "base64") {
		var s string
		if s, err = passhashx.HashBase64(pw, levels[alg]); err == nil {
			h, err = base64.RawURLEncoding.DecodeString(s)
		}
	} else {
		h, err = passhashx.Hash(pw, levels[alg])
	}
	end()
	if err != nil {
		rt.Fatalf("hashing failed: %v", err)
	}
	if len(h) != 65 {
		rt.Fatalf("a stored hash has %d bytes, want 65", len(h))
	}
	if want := passhash.Make(alg, pw, h[17:33]); !bytes.Equal(h, want) {
		rt.Fatalf("stored hash of algorithm %d is\n%x, independent computation gives\n%x", alg, h, want)
	}
}

func TestFormat(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120, Thorough: 5000, Rule: rule, CPU: 120, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		one(rt, c, rapid.IntRange(1, 3).Draw(rt, "alg"))
	})
}

func TestFormatHigh(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 160, Rule: rule, CPU: 240, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		one(rt, c, 0)
	})
}

func TestFormatLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 10, Thorough: 300, Rule: "passwords of 300 bytes to 16 MiB at the three cheaper levels, as the small ones; non-trivial: all", CPU: 240, Budget: 120}, func(rt *rapid.T, c *pbt.Case) {
		pw := make([]byte, gen.Large(rt, "n", 300, 1<<24))
		gen.Fill(pw, rapid.Uint64().Draw(rt, "seed"))
		format(rt, c, rapid.IntRange(1, 3).Draw(rt, "alg"), pw)
	})
}

// stored are hashes made once with fixed salts by an independent Argon2id, one per level.
func TestStored(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1, Thorough: 1, OneShard: true, CPU: 240, Rule: "one hash per level stored as text; non-trivial: all"}, func(rt *rapid.T, c *pbt.Case) {
		c.NonTrivial()
		c.Logf("stored hashes")
		for i, s := range stored {
			if err := passhashx.VerifyBase64([]byte("correct horse battery staple"), s); err != nil {
				rt.Fatalf("a stored hash of algorithm %d is refused: %v", i, err)
			}
		}
	})
}
