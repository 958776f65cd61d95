package c03

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "data of 0..6000 bytes (CBC: multiples of 16) and keys of 0..300 bytes, in all three modes, library against an independent implementation in both directions; " +
	"non-trivial: more than one block of data"

func block(key []byte) cipher.Block {
	k := sha256.Sum256(key)
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return b
}

// refCTR applies counter mode by hand: big-endian 128-bit counter starting at iv.
func refCTR(key, iv, data []byte) []byte {
	b := block(key)
	ctr := bytes.Clone(iv)
	out := make([]byte, len(data))
	var ks [16]byte
	for i := range data {
		if i%16 == 0 {
			b.Encrypt(ks[:], ctr)
			for j := 15; j >= 0; j-- {
				ctr[j]++
				if ctr[j] != 0 {
					break
				}
			}
		}
		out[i] = data[i] ^ ks[i%16]
	}
	return out
}

func refCBC(key, iv, data []byte) []byte {
	b := block(key)
	prev := bytes.Clone(iv)
	out := make([]byte, len(data))
	for i := 0; i < len(data); i += 16 {
		for j := range 16 {
			prev[j] ^= data[i+j]
		}
		b.Encrypt(prev, prev)
		copy(out[i:], prev)
	}
	return out
}

func refGCM(key, nonce, data []byte) []byte {
	g, err := cipher.NewGCM(block(key))
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return g.Seal(nil, nonce, data, nil)
}

type mode struct {
	name     string
	iv, tag  int
	enc, dec func(data, key []byte) ([]byte, error)
	ref      func(key, iv, data []byte) []byte
}

var modes = []mode{
	{"CTR", 16, 0, aesx.EncryptCTR, aesx.DecryptCTR, refCTR},
	{"CBC", 16, 0, aesx.EncryptCBC, aesx.DecryptCBC, refCBC},
	{"GCM", 12, 16, aesx.EncryptGCM, aesx.DecryptGCM, refGCM},
}

func inputs(rt *rapid.T, c *pbt.Case, m mode) (data, key []byte) {
	n := pbt.Len(rt, "n", 6000)
	if rapid.IntRange(0, 60).Draw(rt, "huge") == 0 {
		n = rapid.IntRange(60000, 140000).Draw(rt, "hugeN")
	}
	if m.name == "CBC" {
		n -= n % 16
	}
	data = gen.BytesN(rt, "data", n)
	key = gen.Bytes(rt, "key", 300)
	if rapid.IntRange(0, 4).Draw(rt, "aesKey") == 0 {
		key = gen.BytesN(rt, "key", rapid.SampledFrom([]int{0, 16, 24, 32, 64}).Draw(rt, "keyLen"))
	}
	c.Logf("%s %d bytes %x.., key %d bytes", m.name, n, data[:min(4, n)], len(key))
	c.Label(m.name)
	c.LabelIf(n == 0, "empty data")
	c.LabelIf(len(key) == 0, "empty key")
	c.LabelIf(n > 6000, "long data")
	c.NonTrivialIf(n > 16)
	return
}

func TestEncrypt(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 800000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		m := rapid.SampledFrom(modes).Draw(rt, "mode")
		data, key := inputs(rt, c, m)
		end := gen.Steer(rt, c, m.iv)
		out, err := m.enc(data, key)
		end()
		if err != nil {
			rt.Fatalf("%s encryption of %d bytes failed: %v", m.name, len(data), err)
		}
		if len(out) != m.iv+len(data)+m.tag {
			rt.Fatalf("%s encryption of %d bytes gave %d bytes", m.name, len(data), len(out))
		}
		if want := m.ref(key, out[:m.iv], data); !bytes.Equal(out[m.iv:], want) {
			rt.Fatalf("%s ciphertext of %d bytes is not standard AES-256 under the SHA-256 of the key", m.name, len(data))
		}
		back, err := m.dec(out, key)
		if err != nil || !bytes.Equal(back, data) {
			rt.Fatalf("%s decryption does not give back the plaintext (%d bytes, err %v)", m.name, len(data), err)
		}
	})
}

func TestDecryptForeign(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 800000, Rule: rule + "; foreign messages also use IVs whose counter overflows"}, func(rt *rapid.T, c *pbt.Case) {
		m := rapid.SampledFrom(modes).Draw(rt, "mode")
		data, key := inputs(rt, c, m)
		iv := gen.BytesN(rt, "iv", m.iv)
		if rapid.IntRange(0, 3).Draw(rt, "wrapIV") == 0 {
			k := rapid.IntRange(1, m.iv).Draw(rt, "ff")
			for i := m.iv - k; i < m.iv; i++ {
				iv[i] = 0xff
			}
			c.Label("counter overflow")
		}
		msg := append(bytes.Clone(iv), m.ref(key, iv, data)...)
		back, err := m.dec(msg, key)
		if err != nil || !bytes.Equal(back, data) {
			rt.Fatalf("%s decryption of an independently made message failed (%d bytes, err %v)", m.name, len(data), err)
		}
	})
}

// Messages and keys of megabytes: anything done in pieces, with a counter or with a size limit shows here.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 25, Thorough: 1500, Rule: "data of 6000 to 4200000 bytes (CBC: multiples of 16) in all three modes, both directions, one key in four of up to 5 MiB; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		large(rt, c, 6000, 4200000)
	})
}

func TestHuge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4, Thorough: 120, Rule: "data of 4 to 100 MiB (CBC: multiples of 16) in all three modes, both directions, one key in four of up to 5 MiB; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		large(rt, c, 4<<20, 100<<20)
	})
}

func large(rt *rapid.T, c *pbt.Case, lo, hi int) {
	m := rapid.SampledFrom(modes).Draw(rt, "mode")
	n := gen.Large(rt, "n", lo, hi)
	if m.name == "CBC" {
		n -= n % 16
	}
	data := make([]byte, n)
	gen.Fill(data, rapid.Uint64().Draw(rt, "seed"))
	key := gen.Bytes(rt, "key", 100)
	if rapid.IntRange(0, 3).Draw(rt, "long key") == 0 {
		key = make([]byte, gen.Large(rt, "key bytes", 100, 5<<20))
		gen.Fill(key, rapid.Uint64().Draw(rt, "key seed"))
		c.Label("long key")
	}
	c.Logf("%s %d bytes %x.., key %d bytes", m.name, n, data[:4], len(key))
	c.Label(m.name)
	c.LabelIf(n > 1<<20, "over 1 MiB")
	c.NonTrivial()
	end := gen.Steer(rt, c, m.iv)
	out, err := m.enc(data, key)
	end()
	if err != nil || len(out) != m.iv+n+m.tag {
		rt.Fatalf("%s encryption of %d bytes gave %d bytes, err %v", m.name, n, len(out), err)
	}
	if want := m.ref(key, out[:m.iv], data); !bytes.Equal(out[m.iv:], want) {
		rt.Fatalf("%s ciphertext of %d bytes is not standard AES-256 under the SHA-256 of the key", m.name, n)
	}
	if back, err := m.dec(out, key); err != nil || !bytes.Equal(back, data) {
		rt.Fatalf("%s decryption does not give back the plaintext (%d bytes, err %v)", m.name, n, err)
	}
	iv := gen.BytesN(rt, "iv", m.iv)
	if back, err := m.dec(append(bytes.Clone(iv), m.ref(key, iv, data)...), key); err != nil || !bytes.Equal(back, data) {
		rt.Fatalf("%s decryption of an independently made message failed (%d bytes, err %v)", m.name, n, err)
	}
}

// scribble writes what a caller who appends to a result may write.
func scribble(room []byte) {
	for i := range room {
		room[i] = 0x5a
	}
}

// A history of calls that share buffers: the caller rewrites its key and data buffers in place between
// calls, uses keys that share a prefix or a length, and keeps every result. No call may depend on or
// change what an earlier one was given or returned. The caller also writes to the room behind results.
func TestHistory(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 100000, Rule: "3 to 40 encryptions and decryptions of up to 600 bytes through one key and one data buffer rewritten in place, keys with shared prefixes, all results kept; non-trivial: a key buffer was rewritten and used again"}, func(rt *rapid.T, c *pbt.Case) {
		keyBuf, dataBuf := make([]byte, 80), make([]byte, 640)
		type kept struct {
			what      string
			got, copy []byte
			key       []byte
			m         mode
			plain     []byte
		}
		var all []kept
		rewritten := 0
		for i := rapid.IntRange(3, 40).Draw(rt, "calls"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(rt, "key") {
			case 0, 1:
				gen.Fill(keyBuf, rapid.Uint64Range(0, 5).Draw(rt, "keySeed"))
				rewritten++
			case 2: // differs only in one byte
				keyBuf[rapid.IntRange(0, len(keyBuf)-1).Draw(rt, "keyAt")] ^= 1
				rewritten++
			}
			key := keyBuf[:rapid.SampledFrom([]int{0, 1, 16, 31, 32, 33, 64, 80}).Draw(rt, "keyLen")]
			m := rapid.SampledFrom(modes).Draw(rt, "mode")
			if rapid.IntRange(0, 2).Draw(rt, "back") == 0 && len(all) > 0 { // decrypt an earlier message
				k := all[rapid.IntRange(0, len(all)-1).Draw(rt, "which")]
				if k.what == "decrypt" {
					continue
				}
				got, err := k.m.dec(k.got, k.key)
				if err != nil || !bytes.Equal(got, k.plain) {
					rt.Fatalf("%s decryption of an earlier message fails (%v)", k.m.name, err)
				}
				all = append(all, kept{what: "decrypt", got: got, copy: bytes.Clone(got), m: k.m})
				c.Logf("decrypt %s", k.m.name)
				continue
			}
			n := pbt.Len(rt, "n", 600)
			if m.name == "CBC" {
				n -= n % 16
			}
			if rapid.Bool().Draw(rt, "newData") {
				gen.Fill(dataBuf, rapid.Uint64().Draw(rt, "data"))
			}
			data := dataBuf[:n]
			got, err := m.enc(data, key)
			if err != nil || len(got) != m.iv+n+m.tag || !bytes.Equal(got[m.iv:], m.ref(key, got[:m.iv], data)) {
				rt.Fatalf("%s encryption of %d bytes in a history is wrong (%v)", m.name, n, err)
			}
			all = append(all, kept{"encrypt", got, bytes.Clone(got), bytes.Clone(key), m, bytes.Clone(data)})
			c.Logf("encrypt %s %d key %x", m.name, n, key[:min(2, len(key))])
		}
		c.NonTrivialIf(rewritten > 1)
		for _, k := range all {
			scribble(k.got[len(k.got):cap(k.got)])
		}
		for _, k := range all {
			if !bytes.Equal(k.got, k.copy) {
				rt.Fatalf("a result of %s %s changed during later calls", k.m.name, k.what)
			}
		}
	})
}

// Concurrent calls do not disturb each other (also under the race detector).
func concurrent(rt *rapid.T, c *pbt.Case) {
	type job struct {
		m         mode
		data, key []byte
	}
	var es conc.Errs
	var fs []func()
	shared := gen.Bytes(rt, "shared", 40)
	for g := rapid.IntRange(2, 8).Draw(rt, "goroutines"); g > 0; g-- {
		var js []job
		for k := rapid.IntRange(1, 6).Draw(rt, "calls"); k > 0; k-- {
			m := rapid.SampledFrom(modes).Draw(rt, "mode")
			n := pbt.Len(rt, "n", 3000)
			if m.name == "CBC" {
				n -= n % 16
			}
			key := shared
			if rapid.Bool().Draw(rt, "own") {
				key = gen.Bytes(rt, "key", 40)
			}
			js = append(js, job{m, gen.BytesN(rt, "data", n), key})
			c.Logf("%d %s %d", g, m.name, n)
		}
		fs = append(fs, func() {
			for _, j := range js {
				out, err := j.m.enc(j.data, j.key)
				if err != nil || len(out) != j.m.iv+len(j.data)+j.m.tag || !bytes.Equal(out[j.m.iv:], j.m.ref(j.key, out[:j.m.iv], j.data)) {
					es.Addf("%s encryption of %d bytes next to other calls is wrong (%v)", j.m.name, len(j.data), err)
					return
				}
				if back, err := j.m.dec(out, j.key); err != nil || !bytes.Equal(back, j.data) {
					es.Addf("%s decryption of %d bytes next to other calls is wrong (%v)", j.m.name, len(j.data), err)
				}
			}
		})
	}
	c.NonTrivial()
	conc.Par(fs...)
	es.Check(rt)
}

const concRule = "two to eight goroutines with one to six encryptions and decryptions each, own and shared keys, against the independent implementation; every case counts as non-trivial"

func TestConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1500, Thorough: 60000, Rule: concRule}, concurrent)
}

func TestRaceConcurrent(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 600, Thorough: 20000, Rule: concRule}, concurrent)
}
