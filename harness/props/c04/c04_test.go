package c04

import (
	"bytes"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "a GCM message and one alteration of it (bit flips in nonce, body and tag, truncation, extension, splices of two messages, reordered blocks, another key); " +
	"non-trivial: the altered message is at least 28 bytes, so only authentication can refuse it"

func TestReject(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 80000, Thorough: 2000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		data, key := gen.Bytes(rt, "data", 700), gen.Bytes(rt, "key", 300)
		if rapid.IntRange(0, 60).Draw(rt, "huge") == 0 {
			data = gen.BytesN(rt, "data", rapid.IntRange(4000, 70000).Draw(rt, "hugeN"))
		}
		end := gen.Steer(rt, c, 12)
		msg, err := aesx.EncryptGCM(data, key)
		end()
		if err != nil {
			rt.Fatalf("encryption failed: %v", err)
		}
		n := len(msg)
		bad, badKey := bytes.Clone(msg), bytes.Clone(key)
		var others [][]byte
		kind := rapid.SampledFrom([]string{"flip", "flip", "flip", "flips", "replace", "truncate", "cut", "extend", "insert", "splice", "swap", "tag", "noise", "key", "key"}).Draw(rt, "kind")
		bits := func(b []byte, lo, hi, k int) {
			seen := map[int]bool{}
			for range k {
				i := rapid.IntRange(8*lo, 8*hi-1).Draw(rt, "bit")
				if !seen[i] {
					seen[i] = true
					b[i/8] ^= 1 << (i % 8)
				}
			}
		}
		switch kind {
		case "flip", "flips":
			k := 1
			if kind == "flips" {
				k = rapid.IntRange(2, 12).Draw(rt, "k")
			}
			lo, hi := 0, n
			region := rapid.SampledFrom([]string{"nonce", "body", "tag", "any"}).Draw(rt, "region")
			switch {
			case region == "nonce":
				hi = min(12, n)
			case region == "tag" && n >= 28:
				lo = n - 16
			case region == "body" && n > 28:
				lo, hi = 12, n-16
			}
			c.Label("flip in " + region)
			bits(bad, lo, hi, k)
		case "replace":
			i := rapid.IntRange(0, n-1).Draw(rt, "at")
			j := rapid.IntRange(i+1, n).Draw(rt, "to")
			gen.Fill(bad[i:j], rapid.Uint64().Draw(rt, "noise"))
		case "truncate":
			bad = bad[:rapid.IntRange(0, n-1).Draw(rt, "len")]
		case "cut":
			i := rapid.IntRange(0, n-1).Draw(rt, "at")
			j := rapid.IntRange(i+1, n).Draw(rt, "to")
			bad = append(bad[:i], bad[j:]...)
		case "extend":
			if rapid.Bool().Draw(rt, "affix") {
				for bytes.Equal(bad, msg) {
					_, bad = gen.Related(rt, "bad", msg)
				}
			} else {
				bad = append(bad, gen.BytesN(rt, "more", rapid.IntRange(1, 40).Draw(rt, "k"))...)
			}
		case "insert":
			i := rapid.IntRange(0, n-1).Draw(rt, "at")
			bad = append(append(bytes.Clone(msg[:i]), gen.BytesN(rt, "more", rapid.IntRange(1, 40).Draw(rt, "k"))...), msg[i:]...)
		case "splice":
			d2 := data
			if rapid.Bool().Draw(rt, "otherData") {
				d2 = gen.BytesN(rt, "data2", len(data))
			}
			m2, err := aesx.EncryptGCM(d2, key)
			if err != nil || len(m2) != n {
				rt.Fatalf("second encryption: %d bytes, err %v", len(m2), err)
			}
			others = append(others, m2)
			at := rapid.SampledFrom([]int{12, n - 16, rapid.IntRange(0, n).Draw(rt, "cutAt")}).Draw(rt, "at")
			bad = append(bytes.Clone(msg[:at]), m2[at:]...)
		case "swap":
			if n >= 12+32 {
				i := rapid.IntRange(0, (n-12)/16-1).Draw(rt, "i")
				j := rapid.IntRange(0, (n-12)/16-1).Draw(rt, "j")
				copy(bad[12+16*i:12+16*i+16], msg[12+16*j:])
				copy(bad[12+16*j:12+16*j+16], msg[12+16*i:])
			}
		case "tag":
			for i := n - 16; i < n; i++ {
				bad[i] = 0
			}
		case "noise":
			bad = gen.BytesN(rt, "bad", rapid.IntRange(0, n+20).Draw(rt, "len"))
		case "key":
			var rel string
			rel, badKey = gen.Related(rt, "key", key)
			c.Label("key: " + rel)
		}
		c.Label(kind)
		c.Logf("%s of a %d byte message -> %d bytes %08x", kind, n, len(bad), gen.Mix(uint64(len(bad))+uint64(bad0(bad))))
		if bytes.Equal(badKey, key) {
			if bytes.Equal(bad, msg) {
				c.Label("unchanged, skipped")
				return
			}
			for _, o := range others {
				if bytes.Equal(bad, o) {
					c.Label("unchanged, skipped")
					return
				}
			}
		}
		c.NonTrivialIf(len(bad) >= 28)
		out, err := aesx.DecryptGCM(bad, badKey)
		if err == nil {
			rt.Fatalf("an altered message (%s, %d of %d bytes) was accepted", kind, len(bad), n)
		}
		if len(out) != 0 {
			rt.Fatalf("a refused message (%s) yielded %d bytes of plaintext", kind, len(out))
		}
		if out, err := aesx.DecryptGCM(msg, key); err != nil || !bytes.Equal(out, data) {
			rt.Fatalf("the unaltered message was refused afterwards: %v", err)
		}
	})
}

func bad0(b []byte) (h uint64) {
	for _, v := range b {
		h = h*131 + uint64(v)
	}
	return
}

// TestEveryBit flips every single bit of some messages.
func TestEveryBit(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 6000, Rule: "every single-bit flip and every truncation of one message; non-trivial: non-empty plaintext"}, func(rt *rapid.T, c *pbt.Case) {
		data, key := gen.BytesN(rt, "data", rapid.IntRange(0, 70).Draw(rt, "n")), gen.Bytes(rt, "key", 40)
		c.Logf("%d bytes, key %x", len(data), key[:min(3, len(key))])
		c.NonTrivialIf(len(data) > 0)
		msg, err := aesx.EncryptGCM(data, key)
		if err != nil {
			rt.Fatalf("encryption failed: %v", err)
		}
		for i := range 8 * len(msg) {
			msg[i/8] ^= 1 << (i % 8)
			if out, err := aesx.DecryptGCM(msg, key); err == nil || len(out) != 0 {
				rt.Fatalf("bit %d of a %d byte message flipped and accepted", i, len(msg))
			}
			msg[i/8] ^= 1 << (i % 8)
		}
		for i := range len(msg) {
			if out, err := aesx.DecryptGCM(msg[:i], key); err == nil || len(out) != 0 {
				rt.Fatalf("message truncated to %d of %d bytes and accepted", i, len(msg))
			}
		}
	})
}

// TestHistory mixes encryptions, decryptions of what was encrypted and of altered messages, over a few keys.
func TestHistory(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, Rule: "5 to 40 encryptions, decryptions and decryptions of altered messages over a few keys, some of them related, the same messages again and again; non-trivial: a message was accepted and later refused in altered form"}, func(rt *rapid.T, c *pbt.Case) {
		keys := [][]byte{gen.Bytes(rt, "key", 60)}
		for range rapid.IntRange(0, 3).Draw(rt, "more") {
			if _, k := gen.Related(rt, "key", keys[0]); !bytes.Equal(k, keys[0]) {
				keys = append(keys, k)
			}
		}
		type message struct {
			data, enc []byte
			key       int
			read      bool
		}
		var ms []*message
		encrypt := func() {
			m := &message{data: gen.Bytes(rt, "data", 200), key: rapid.IntRange(0, len(keys)-1).Draw(rt, "with")}
			if len(ms) > 0 && rapid.IntRange(0, 3).Draw(rt, "again") == 0 {
				m.data = ms[0].data
			}
			var err error
			if m.enc, err = aesx.EncryptGCM(m.data, keys[m.key]); err != nil {
				rt.Fatalf("encryption failed: %v", err)
			}
			c.Logf("encrypt %d with %d", len(m.data), m.key)
			ms = append(ms, m)
		}
		encrypt()
		for range rapid.IntRange(5, 40).Draw(rt, "steps") {
			m := ms[rapid.IntRange(0, len(ms)-1).Draw(rt, "message")]
			switch op := rapid.SampledFrom([]string{"encrypt", "read", "read", "flip", "flip", "tail", "graft", "key"}).Draw(rt, "op"); op {
			case "encrypt":
				encrypt()
			case "read":
				c.Logf("read")
				if out, err := aesx.DecryptGCM(m.enc, keys[m.key]); err != nil || !bytes.Equal(out, m.data) {
					rt.Fatalf("a message of %d bytes was refused or garbled: %v", len(m.data), err)
				}
				m.read = true
			default:
				bad, key := bytes.Clone(m.enc), m.key
				switch op {
				case "flip":
					bad[rapid.IntRange(0, len(bad)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
				case "tail":
					bad = bad[:len(bad)-rapid.IntRange(1, min(17, len(bad))).Draw(rt, "less")]
				case "graft": // the body of one message between nonce and tag of another
					o := ms[rapid.IntRange(0, len(ms)-1).Draw(rt, "other")]
					if bytes.Equal(o.enc[12:len(o.enc)-16], m.enc[12:len(m.enc)-16]) {
						continue
					}
					bad = append(append(bytes.Clone(m.enc[:12]), o.enc[12:len(o.enc)-16]...), m.enc[len(m.enc)-16:]...)
				case "key":
					if key = rapid.IntRange(0, len(keys)-1).Draw(rt, "other"); bytes.Equal(keys[key], keys[m.key]) {
						continue
					}
				}
				c.Logf("%s", op)
				c.NonTrivialIf(m.read)
				if out, err := aesx.DecryptGCM(bad, keys[key]); err == nil || len(out) != 0 {
					rt.Fatalf("an altered message (%s) of %d bytes was accepted", op, len(bad))
				}
			}
		}
	})
}

// TestLarge alters messages of up to 6 MiB anywhere.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 3000, Rule: "messages of 4 KiB to 6 MiB with twelve alterations each: single bits anywhere, near powers of two, near the ends, truncations and extensions; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 4096, 6<<20)
		r := gen.NewRand(rt, "seed")
		data, key := make([]byte, n), gen.Bytes(rt, "key", 60)
		gen.Fill(data, r.Uint64())
		c.Logf("%d bytes, seed %x", n, uint64(*r))
		c.NonTrivial()
		msg, err := aesx.EncryptGCM(data, key)
		if err != nil {
			rt.Fatalf("encryption failed: %v", err)
		}
		if out, err := aesx.DecryptGCM(msg, key); err != nil || !bytes.Equal(out, data) {
			rt.Fatalf("the message of %d bytes was refused or garbled: %v", n, err)
		}
		refused := func(what string, at int, bad []byte) {
			if out, err := aesx.DecryptGCM(bad, key); err == nil || len(out) != 0 {
				rt.Fatalf("a message of %d bytes with %s %d was accepted", len(msg), what, at)
			}
		}
		for k := range 12 {
			at := r.N(len(msg))
			switch k {
			case 0:
				at = r.N(12)
			case 1:
				at = len(msg) - 1 - r.N(16)
			case 2:
				at = len(msg) - 17 - r.N(64)
			case 3, 4, 5:
				at = min(1<<r.N(23)+r.N(40), len(msg)-1)
			case 6:
				at = 12 + r.N(64)
			case 7:
				refused("length", at, msg[:at])
				continue
			case 8:
				refused("an extension of", 1, append(bytes.Clone(msg), byte(r.N(256))))
				continue
			}
			bit := byte(1) << r.N(8)
			msg[at] ^= bit
			refused("a flipped bit in byte", at, msg)
			msg[at] ^= bit
		}
	})
}
