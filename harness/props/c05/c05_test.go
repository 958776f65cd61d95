package c05

import (
	"bytes"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "arbitrary byte strings of 0..400 bytes (dense around 0..50), nil included, and valid messages, given to all six operations inside larger sentinel arrays with spare capacity; " +
	"non-trivial: a malformed input, or spare capacity behind the data"

type op struct {
	name string
	f    func(data, key []byte) ([]byte, error)
	bad  func(n int) bool // must be refused for its length
	good func(n int) bool // must succeed
	size func(n int) int
}

func never(int) bool  { return false }
func always(int) bool { return true }

var ops = []op{
	{"EncryptCTR", aesx.EncryptCTR, never, always, func(n int) int { return n + 16 }},
	{"DecryptCTR", aesx.DecryptCTR, func(n int) bool { return n < 16 }, func(n int) bool { return n >= 16 }, func(n int) int { return n - 16 }},
	{"EncryptCBC", aesx.EncryptCBC, func(n int) bool { return n%16 != 0 }, func(n int) bool { return n%16 == 0 }, func(n int) int { return n + 16 }},
	{"DecryptCBC", aesx.DecryptCBC, func(n int) bool { return n < 16 || n%16 != 0 }, func(n int) bool { return n >= 16 && n%16 == 0 }, func(n int) int { return n - 16 }},
	{"EncryptGCM", aesx.EncryptGCM, never, always, func(n int) int { return n + 28 }},
	{"DecryptGCM", aesx.DecryptGCM, func(n int) bool { return n < 28 }, never, nil},
}

func call(rt *rapid.T, o op, data, key []byte) (out []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("%s panicked on %d bytes: %v", o.name, len(data), r)
		}
	}()
	return o.f(data, key)
}

func TestInputs(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120000, Thorough: 3000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		o := rapid.SampledFrom(ops).Draw(rt, "op")
		n := rapid.IntRange(0, 50).Draw(rt, "n")
		if rapid.IntRange(0, 3).Draw(rt, "longer") == 0 {
			n = pbt.Len(rt, "len", 400)
			if rapid.IntRange(0, 9).Draw(rt, "page") == 0 {
				n = rapid.SampledFrom([]int{1000, 4000, 8000, 33000, 66000}).Draw(rt, "pages") + rapid.IntRange(0, 200).Draw(rt, "more")
			}
		}
		raw, rawKey := gen.BytesN(rt, "data", n), gen.Bytes(rt, "key", 70)
		valid := false
		if rapid.IntRange(0, 3).Draw(rt, "valid") == 0 {
			valid = true
			var err error
			switch o.name {
			case "DecryptGCM":
				raw, err = aesx.EncryptGCM(raw, rawKey)
			case "DecryptCBC":
				raw, err = aesx.EncryptCBC(raw[:n-n%16], rawKey)
			case "DecryptCTR":
				raw, err = aesx.EncryptCTR(raw, rawKey)
			default:
				valid = false
			}
			if err != nil {
				rt.Fatalf("encryption failed: %v", err)
			}
		}
		n = len(raw)
		data, dataAll := gen.Framed(rt, "frame", raw)
		key, keyAll := gen.Framed(rt, "keyframe", rawKey)
		if n == 0 && rapid.Bool().Draw(rt, "nil") {
			data = nil
			if rapid.Bool().Draw(rt, "nilkey") {
				key = nil
			}
		}
		wantData, wantKey := bytes.Clone(dataAll), bytes.Clone(keyAll)
		c.Logf("%s %d bytes (spare %d), key %d, valid %v", o.name, n, cap(data)-n, len(key), valid)
		c.Label(o.name)
		c.NonTrivialIf(o.bad(n) || cap(data) > n)
		c.LabelIf(o.bad(n), "malformed length")
		c.LabelIf(valid, "valid message")
		out, err := call(rt, o, data, key)
		if o.bad(n) && err == nil {
			rt.Fatalf("%s accepted %d bytes", o.name, n)
		}
		if o.good(n) {
			if err != nil {
				rt.Fatalf("%s refused %d bytes: %v", o.name, n, err)
			}
			if len(out) != o.size(n) {
				rt.Fatalf("%s of %d bytes gave %d bytes", o.name, n, len(out))
			}
		}
		if valid && err != nil {
			rt.Fatalf("%s refused a valid message: %v", o.name, err)
		}
		if !bytes.Equal(dataAll, wantData) {
			rt.Fatalf("%s modified the caller's data buffer or what lies behind it", o.name)
		}
		if !bytes.Equal(keyAll, wantKey) {
			rt.Fatalf("%s modified the caller's key buffer or what lies behind it", o.name)
		}
		// writing into the result, up to its capacity, must not reach the inputs, and vice versa
		keep := bytes.Clone(out)
		for i := range dataAll {
			dataAll[i] ^= 0x5a
		}
		for i := range keyAll {
			keyAll[i] ^= 0xa5
		}
		if !bytes.Equal(out, keep) {
			rt.Fatalf("the result of %s changed with the caller's buffers", o.name)
		}
		d2, k2 := bytes.Clone(dataAll), bytes.Clone(keyAll)
		full := out[:cap(out)]
		for i := range full {
			full[i] ^= 0xff
		}
		if !bytes.Equal(dataAll, d2) || !bytes.Equal(keyAll, k2) {
			rt.Fatalf("the result of %s shares memory with the caller's buffers", o.name)
		}
	})
}

// TestLarge gives the operations inputs of up to 4 MiB.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 5000, Rule: "inputs of 1 KiB to 4 MiB, of lengths around multiples of 16 and powers of two and any other, with and without spare capacity, given to all six operations; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 1024, 4<<20)
		r := gen.NewRand(rt, "seed")
		if rapid.Bool().Draw(rt, "aligned") {
			n -= n % 16
		}
		buf := make([]byte, n+64+[]int{0, n, 2 * n}[r.N(3)])
		gen.Fill(buf, r.Uint64())
		key, keyAll := gen.Framed(rt, "keyframe", gen.Bytes(rt, "key", 70))
		data := buf[32 : 32+n]
		if rapid.Bool().Draw(rt, "capped") {
			data = buf[32 : 32+n : 32+n]
		}
		keep, keepKey := bytes.Clone(buf), bytes.Clone(keyAll)
		c.Logf("%d bytes, seed %x", n, uint64(*r))
		c.NonTrivial()
		for _, o := range ops {
			out, err := call(rt, o, data, key)
			if o.bad(n) && err == nil {
				rt.Fatalf("%s accepted %d bytes", o.name, n)
			}
			if o.good(n) && (err != nil || len(out) != o.size(n)) {
				rt.Fatalf("%s of %d bytes gave %d bytes, %v", o.name, n, len(out), err)
			}
			full := out[:cap(out)]
			for i := range full {
				full[i] ^= 0xff
			}
			if !bytes.Equal(buf, keep) || !bytes.Equal(keyAll, keepKey) {
				rt.Fatalf("%s of %d bytes modified the caller's buffers, or its result shares memory with them", o.name, n)
			}
		}
	})
}
