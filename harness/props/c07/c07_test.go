package c07

import (
	"bytes"
	"slices"
	"strconv"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"golang.org/x/crypto/bcrypt"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "passwords of 0..200 bytes, dense around 72, with zero bytes in one of three, and one-edit neighbours of them; hashes made by the library and by bcrypt directly; " +
	"non-trivial: a password of 60 bytes or more, or a neighbour or altered hash that must be refused"

func password(rt *rapid.T, label string, max int) []byte {
	n := rapid.SampledFrom([]int{0, 1, 8, 20, 55, 70, 71, 72, 72, 73, 74, 100, 144, 200}).Draw(rt, label+".len")
	if rapid.Bool().Draw(rt, label+".any") {
		n = rapid.IntRange(0, 80).Draw(rt, label+".n")
	}
	p := gen.BytesN(rt, label, min(n, max))
	zeros := 0
	if rapid.IntRange(0, 2).Draw(rt, label+".zeros?") == 0 {
		zeros = rapid.IntRange(1, 3).Draw(rt, label+".zeros")
	}
	for i := range p {
		if p[i] == 0 {
			p[i] = 'x'
		}
	}
	for ; zeros > 0 && len(p) > 0; zeros-- {
		p[rapid.IntRange(0, len(p)-1).Draw(rt, label+".zero")] = 0
	}
	return p
}

// same tells whether bcrypt makes the same 72 byte key of both: the password and a zero byte, over and over.
func same(p, q []byte) bool {
	key := func(p []byte) []byte {
		if len(p) > 72 {
			return nil
		}
		p = append(bytes.Clone(p), 0)
		return bytes.Repeat(p, 72)[:72]
	}
	return bytes.Equal(p, q) || len(p) <= 72 && bytes.Equal(key(p), key(q))
}

// neighbour draws a password close to but different from pw.
func neighbour(rt *rapid.T, c *pbt.Case, pw []byte) []byte {
	for {
		q := bytes.Clone(pw)
		kind := rapid.SampledFrom([]string{"flip", "flip last", "append", "append", "drop", "past 72", "double", "swap", "other", "behind a zero", "to a zero", "related", "related", "related"}).Draw(rt, "neighbour")
		switch kind {
		case "flip":
			if len(q) > 0 {
				q[rapid.IntRange(0, len(q)-1).Draw(rt, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			}
		case "flip last":
			if len(q) > 0 {
				q[len(q)-1] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			}
		case "append":
			q = append(q, rapid.Byte().Draw(rt, "b"))
		case "drop":
			if len(q) > 0 {
				q = q[:len(q)-1]
			}
		case "past 72":
			q = append(q, gen.BytesN(rt, "tail", 73)...)
		case "double":
			q = append(q, q...)
		case "swap":
			if len(q) > 1 {
				i := rapid.IntRange(0, len(q)-2).Draw(rt, "i")
				q[i], q[i+1] = q[i+1], q[i]
			}
		case "behind a zero":
			if i := bytes.IndexByte(q, 0); i >= 0 && i < len(q)-1 {
				q[rapid.IntRange(i+1, len(q)-1).Draw(rt, "i")]++
			}
		case "to a zero":
			if i := bytes.IndexByte(q, 0); i >= 0 {
				q = q[:i+rapid.IntRange(0, 1).Draw(rt, "keep")]
			}
		case "other":
			q = password(rt, "q", 200)
		}
		if kind == "related" {
			kind, q = gen.Related(rt, "rel", pw)
		}
		if !same(pw, q) {
			c.Label("neighbour: " + kind)
			c.LabelIf(bytes.IndexByte(q, 0) >= 0, "zero byte")
			return q
		}
	}
}

func verify(rt *rapid.T, enc, pw []byte) (ok bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("verification panicked: %v (hash %q)", r, enc)
		}
	}()
	e, p := bytes.Clone(enc), bytes.Clone(pw)
	ok, err = bcryptx.Decrypt(enc, pw)
	if !bytes.Equal(e, enc) || !bytes.Equal(p, pw) {
		rt.Fatalf("verification modified its arguments")
	}
	return
}

func mustMatch(rt *rapid.T, enc, pw []byte) {
	if ok, err := verify(rt, enc, pw); !ok || err != nil {
		rt.Fatalf("the hash of a %d byte password does not verify with it: %v %v", len(pw), ok, err)
	}
}

func mustRefuse(rt *rapid.T, enc, pw []byte, why string) {
	ok, err := verify(rt, enc, pw)
	if ok || err == nil {
		rt.Fatalf("%s (password of %d bytes): verification gave %v, %v", why, len(pw), ok, err)
	}
	if len(pw) > 72 && err != bcryptx.ErrPasswordTooLong {
		rt.Fatalf("verification of a %d byte password gave %v, want the too-long error", len(pw), err)
	}
}

// TestHash hashes with the library itself (cost 10 or more, so few cases).
func TestHash(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 90, Thorough: 1500, Rule: rule, CPU: 90}, func(rt *rapid.T, c *pbt.Case) {
		pw := password(rt, "pw", 200)
		c.Logf("%d byte password %x", len(pw), pw[:min(4, len(pw))])
		c.NonTrivialIf(len(pw) >= 60)
		orig := bytes.Clone(pw)
		end := gen.Steer(rt, c, 16)
		enc, err := bcryptx.Encrypt(pw)
		end()
		if !bytes.Equal(orig, pw) {
			rt.Fatalf("hashing modified the password")
		}
		if len(pw) > 72 {
			c.Label("too long")
			if err != bcryptx.ErrPasswordTooLong || len(enc) != 0 {
				rt.Fatalf("hashing a %d byte password gave %d bytes, %v", len(pw), len(enc), err)
			}
			return
		}
		if err != nil {
			rt.Fatalf("hashing a %d byte password failed: %v", len(pw), err)
		}
		parts := bytes.Split(enc, []byte("$"))
		if len(parts) != 4 {
			rt.Fatalf("not a bcrypt hash: %q", enc)
		}
		if cost, err := strconv.Atoi(string(parts[2])); err != nil || cost < 10 {
			rt.Fatalf("hash cost is %q", parts[2])
		}
		mustMatch(rt, enc, pw)
		if err := bcrypt.CompareHashAndPassword(enc, pw); err != nil {
			rt.Fatalf("bcrypt itself does not accept the hash: %v", err)
		}
		mustRefuse(rt, enc, neighbour(rt, c, pw), "another password")
	})
}

// TestVerify uses cheap hashes of bcrypt itself.
func TestVerify(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 80000, Rule: rule, CPU: 90}, func(rt *rapid.T, c *pbt.Case) {
		pw := password(rt, "pw", 72)
		enc, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		c.Logf("%d byte password %x", len(pw), pw[:min(4, len(pw))])
		c.NonTrivial()
		mustMatch(rt, enc, pw)
		for range 3 {
			mustRefuse(rt, enc, neighbour(rt, c, pw), "another password")
		}
		mustMatch(rt, enc, pw)
	})
}

// TestLong: every password over 72 bytes is refused with the too-long error, whatever the hash.
func TestLong(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 100000, Rule: "passwords of 73..2000 bytes whose first 72 bytes are the hashed password, or others; non-trivial: sharing the first 72 bytes"}, func(rt *rapid.T, c *pbt.Case) {
		pw := gen.BytesN(rt, "pw", 72)
		long := append(bytes.Clone(pw), gen.Bytes(rt, "tail", 2000)...)
		long = append(long, 'z')
		var enc []byte
		switch rapid.IntRange(0, 3).Draw(rt, "hash") {
		case 0:
			enc = gen.Bytes(rt, "enc", 100)
		default:
			var err error
			if enc, err = bcrypt.GenerateFromPassword(pw, bcrypt.MinCost); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			c.NonTrivial()
		}
		c.Logf("%d bytes %x", len(long), pw[:4])
		mustRefuse(rt, enc, long, "too long a password")
		if e, err := bcryptx.Encrypt(long); err != bcryptx.ErrPasswordTooLong || len(e) != 0 {
			rt.Fatalf("hashing %d bytes gave %v", len(long), err)
		}
	})
}

const alphabet = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// TestMalformed gives malformed and altered hashes. Costs stay low: the cost
// digits of a valid hash are only replaced by non-digits or low costs.
func TestMalformed(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 200000, Rule: "arbitrary texts as stored hash, truncated hashes, altered digests, salts, costs and headers; non-trivial: an altered valid hash", CPU: 90}, func(rt *rapid.T, c *pbt.Case) {
		pw := password(rt, "pw", 72)
		enc, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		bad := bytes.Clone(enc)
		kind := rapid.SampledFrom([]string{"noise", "text", "header", "truncate", "digest", "digest", "salt", "salt", "cost", "delete", "empty", "version", "insert", "space"}).Draw(rt, "kind")
		switch kind {
		case "noise":
			bad = gen.Bytes(rt, "bad", 130)
		case "text":
			bad = []byte(rapid.StringMatching(`(\$2[abxy]?)?(\$0[4-9])?\$?[./A-Za-z0-9$]{0,70}`).Draw(rt, "text"))
		case "header":
			bad = append([]byte("$2a$"+rapid.SampledFrom([]string{"", "04", "4$", "00", "03", "-1", "99", "x4", "04$"}).Draw(rt, "cost")), gen.BytesN(rt, "rest", rapid.IntRange(0, 60).Draw(rt, "n"))...)
		case "truncate":
			bad = bad[:rapid.IntRange(0, 59).Draw(rt, "n")]
		case "digest":
			i := rapid.IntRange(29, 59).Draw(rt, "i")
			bad[i] = alter(rt, bad[i])
		case "salt":
			i := rapid.IntRange(7, 27).Draw(rt, "i")
			bad[i] = alter(rt, bad[i])
		case "cost":
			copy(bad[4:6], rapid.SampledFrom([]string{"05", "06", "00", "03", "xx", "4$", "-4", "32", "99", " 4"}).Draw(rt, "cost"))
		case "delete":
			i := rapid.IntRange(6, 59).Draw(rt, "i")
			bad = append(bad[:i], bad[i+1:]...)
		case "empty":
			bad = nil
		case "insert":
			i := rapid.IntRange(0, 58).Draw(rt, "i")
			bad = slices.Insert(bad, i, alter(rt, bad[i]))
		case "space": // in front, or in front and behind
			pad := rapid.SampledFrom([]string{" ", "\n", "\t", "\r\n", "\x00", "\"", "'", "{", "\ufeff", "bcrypt:", "{CRYPT}", "$"}).Draw(rt, "pad")
			bad = append([]byte(pad), bad...)
			if rapid.Bool().Draw(rt, "behind") {
				bad = append(bad, pad...)
			}
		case "version":
			bad[1] = rapid.SampledFrom([]byte("3479x")).Draw(rt, "v")
		}
		c.Label(kind)
		c.Logf("%s %q", kind, bad)
		c.NonTrivialIf(kind != "noise" && kind != "text" && kind != "empty")
		if cost, err := bcrypt.Cost(bad); err == nil && cost > 8 {
			c.Label("expensive, skipped")
			return
		}
		mustRefuse(rt, bad, pw, "malformed or altered hash ("+kind+")")
	})
}

// alter replaces one character of a hash by another one, in or outside the alphabet.
func alter(rt *rapid.T, old byte) byte {
	for {
		b := alphabet[rapid.IntRange(0, 63).Draw(rt, "char")]
		if rapid.IntRange(0, 3).Draw(rt, "foreign") == 0 {
			b = rapid.Byte().Draw(rt, "byte")
		}
		if b != old {
			return b
		}
	}
}

// concurrent verifications of several hashes do not disturb each other.
func concurrent(rt *rapid.T, c *pbt.Case) {
	var es conc.Errs
	var fs []func()
	var pws, encs [][]byte
	for k := rapid.IntRange(1, 3).Draw(rt, "hashes"); k > 0; k-- {
		pw := password(rt, "pw", 72)
		enc, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		pws, encs = append(pws, pw), append(encs, enc)
	}
	for g := rapid.IntRange(2, 8).Draw(rt, "goroutines"); g > 0; g-- {
		h := rapid.IntRange(0, len(pws)-1).Draw(rt, "hash")
		for k := rapid.IntRange(1, 3).Draw(rt, "calls"); k > 0; k-- {
			pw, want := pws[h], true
			if rapid.Bool().Draw(rt, "other") {
				pw, want = neighbour(rt, c, pws[h]), false
			}
			c.Logf("%d: %d %v", g, h, want)
			fs = append(fs, func() {
				if ok, err := bcryptx.Decrypt(encs[h], pw); ok != want || (err == nil) != want {
					es.Addf("verification next to other ones gave %v, %v, want %v", ok, err, want)
				}
			})
		}
	}
	c.NonTrivial()
	conc.Par(fs...)
	es.Check(rt)
}

const concRule = "up to 24 concurrent verifications of one to three hashes with their own and other passwords; every case counts as non-trivial"

func TestConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 400, Thorough: 10000, Rule: concRule, CPU: 90}, concurrent)
}

func TestRaceConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100, Thorough: 3000, Rule: concRule, CPU: 90}, concurrent)
}
