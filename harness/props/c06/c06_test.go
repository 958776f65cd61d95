package c06

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"a.verif/entropy"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

type source struct {
	name string
	n    int // length of the fresh part
	make func(in, key []byte) (out, fresh []byte, err error)
}

func enc(name string, n int, f func(data, key []byte) ([]byte, error)) source {
	return source{name, n, func(in, key []byte) ([]byte, []byte, error) {
		out, err := f(in, key)
		if err != nil || len(out) < n {
			return out, nil, err
		}
		return out, out[:n], nil
	}}
}

var ciphers = []source{enc("CBC", 16, aesx.EncryptCBC), enc("CTR", 16, aesx.EncryptCTR), enc("GCM", 12, aesx.EncryptGCM)}

func argon(name string, l passhashx.SecurityLevel) source {
	return source{name, 16, func(in, _ []byte) ([]byte, []byte, error) {
		out, err := passhashx.Hash(in, l)
		if err != nil || len(out) < 33 {
			return out, nil, err
		}
		return out, out[17:33], nil
	}}
}

var hashes = []source{
	argon("argon2 low", passhashx.SecurityLevelLow),
	argon("argon2 mobile high", passhashx.SecurityLevelMobileHigh),
	argon("argon2 mobile low", passhashx.SecurityLevelMobileLow),
	argon("argon2 high", passhashx.SecurityLevelHigh),
	{"bcrypt", 22, func(in, _ []byte) ([]byte, []byte, error) {
		out, err := bcryptx.Encrypt(in)
		if err != nil || len(out) < 29 {
			return out, nil, err
		}
		return out, out[7:29], nil
	}},
}

var (
	seenMu sync.Mutex
	seen   = map[string]map[string]bool{}
)

// fresh records the IVs, nonces or salts of one kind over the whole process.
func fresh(rt *rapid.T, kind string, vs [][]byte) {
	seenMu.Lock()
	defer seenMu.Unlock()
	m := seen[kind]
	if m == nil {
		m = map[string]bool{}
		seen[kind] = m
	}
	for _, v := range vs {
		if m[string(v)] {
			rt.Fatalf("%s used %x twice", kind, v)
		}
		m[string(v)] = true
	}
}

func collect(s source, in, key []byte, goroutines, each int) (outs, ivs [][]byte, err error) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	for range goroutines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range each {
				out, iv, e := s.make(in, key)
				mu.Lock()
				if e != nil {
					err = e
				}
				if e == nil && iv == nil {
					err = fmt.Errorf("output of %d bytes is too short", len(out))
				}
				outs, ivs = append(outs, out), append(ivs, bytes.Clone(iv))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

func distinct(rt *rapid.T, kind string, outs [][]byte) {
	m := map[string]bool{}
	for _, o := range outs {
		if m[string(o)] {
			rt.Fatalf("%s of the same input gave the same output twice", kind)
		}
		m[string(o)] = true
	}
}

// size draws the length of an input.
func size(rt *rapid.T, s source) int {
	r := gen.NewRand(rt, "length")
	switch rapid.IntRange(0, 5).Draw(rt, "size") {
	case 0, 1:
		return 16 * r.N(5)
	case 2:
		if s.name == "bcrypt" {
			return []int{0, 1, 71, 72, 72}[r.N(5)]
		}
		return 16 * []int{0, 1, 2, 16, 255, 256, 257}[r.N(7)]
	case 3:
		if s.name != "CBC" && s.name != "bcrypt" {
			return r.N(5000)
		}
	}
	if s.name == "bcrypt" {
		return r.N(73)
	}
	return 16 * r.N(100)
}

func run(rt *rapid.T, c *pbt.Case, s source, maxG, maxEach int) {
	g := rapid.IntRange(1, maxG).Draw(rt, "goroutines")
	each := rapid.IntRange(2, maxEach).Draw(rt, "each")
	in, key := gen.BytesN(rt, "in", size(rt, s)), gen.Bytes(rt, "key", 40)
	for i := range in {
		if in[i] == 0 {
			in[i] = 1
		}
	}
	c.Logf("%s: %d goroutines x %d calls on %d bytes %x", s.name, g, each, len(in), key)
	c.Label(s.name)
	c.NonTrivial()
	outs, ivs, err := collect(s, in, key, g, each)
	if err != nil {
		rt.Fatalf("%s failed: %v", s.name, err)
	}
	distinct(rt, s.name, outs)
	fresh(rt, s.name, ivs)
}

const rule = "bursts of encryptions or hashes of one input, in succession and from several goroutines; the IVs, nonces and salts of the whole process must be pairwise different; every burst is non-trivial"

func TestCiphers(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 60000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		run(rt, c, rapid.SampledFrom(ciphers).Draw(rt, "source"), 8, 40)
	})
}

func TestHashes(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 400, Rule: rule, CPU: 120}, func(rt *rapid.T, c *pbt.Case) {
		s := hashes[rapid.SampledFrom([]int{0, 0, 0, 1, 2, 2, 3, 4, 4}).Draw(rt, "source")]
		run(rt, c, s, 3, 3)
	})
}

// mixed makes calls on few inputs and keys that come back in any order.
func mixed(rt *rapid.T, c *pbt.Case, from []source, calls int) {
	s := rapid.SampledFrom(from).Draw(rt, "source")
	ins, keys := make([][]byte, rapid.IntRange(1, 3).Draw(rt, "inputs")), make([][]byte, rapid.IntRange(1, 2).Draw(rt, "keys"))
	for i := range ins {
		ins[i] = bytes.Repeat([]byte{byte(i + 1)}, size(rt, s))
		c.Logf("%d bytes", len(ins[i]))
	}
	for i := range keys {
		keys[i] = gen.Bytes(rt, "key", 40)
	}
	c.Label(s.name)
	c.NonTrivial()
	var outs, vs [][]byte
	for range calls {
		i, k := rapid.IntRange(0, len(ins)-1).Draw(rt, "in"), rapid.IntRange(0, len(keys)-1).Draw(rt, "key")
		out, v, err := s.make(ins[i], keys[k])
		if err != nil {
			rt.Fatalf("%s of %d bytes failed: %v", s.name, len(ins[i]), err)
		}
		if v == nil {
			rt.Fatalf("%s of %d bytes gave only %d", s.name, len(ins[i]), len(out))
		}
		outs, vs = append(outs, out), append(vs, bytes.Clone(v))
	}
	distinct(rt, s.name, outs)
	fresh(rt, s.name, vs)
}

const mixedRule = "calls on up to three inputs and two keys that come back in any order; every case counts as non-trivial"

func TestMixed(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2000, Thorough: 60000, Rule: mixedRule}, func(rt *rapid.T, c *pbt.Case) {
		mixed(rt, c, ciphers, rapid.IntRange(2, 40).Draw(rt, "calls"))
	})
}

func TestMixedBcrypt(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 1500, CPU: 60, Rule: mixedRule}, func(rt *rapid.T, c *pbt.Case) {
		mixed(rt, c, hashes[4:], rapid.IntRange(2, 6).Draw(rt, "calls"))
	})
}

func TestMixedArgon(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 300, CPU: 120, Rule: mixedRule}, func(rt *rapid.T, c *pbt.Case) {
		mixed(rt, c, hashes[:3], rapid.IntRange(2, 5).Draw(rt, "calls"))
	})
}

// TestEveryBit: over some hundred values every bit of an IV takes both values
// (a fresh random bit is constant over 300 values with probability 2^-299).
func TestEveryBit(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120, Thorough: 2000, Rule: "300 IVs or nonces of one mode: every bit takes both values, and consecutive values share no common prefix of half their length; always non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		s := rapid.SampledFrom(ciphers).Draw(rt, "source")
		in, key := gen.BytesN(rt, "in", 16), gen.Bytes(rt, "key", 40)
		c.Logf("%s %x", s.name, key)
		c.Label(s.name)
		c.NonTrivial()
		_, ivs, err := collect(s, in, key, 1, 300)
		if err != nil {
			rt.Fatalf("%s failed: %v", s.name, err)
		}
		bitsVary(rt, s.name, ivs)
	})
}

func bitsVary(rt *rapid.T, kind string, vs [][]byte) {
	for b := range 8 * len(vs[0]) {
		ones := 0
		for _, v := range vs {
			ones += int(v[b/8]>>(b%8)) & 1
		}
		if ones == 0 || ones == len(vs) {
			rt.Fatalf("bit %d of the %s IV is the same in %d encryptions", b, kind, len(vs))
		}
	}
	for i := 1; i < len(vs); i++ {
		if bytes.Equal(vs[i][:8], vs[i-1][:8]) || bytes.Equal(vs[i][len(vs[i])-8:], vs[i-1][len(vs[i])-8:]) {
			rt.Fatalf("consecutive %s IVs agree in eight bytes: %x %x", kind, vs[i-1], vs[i])
		}
	}
}

// TestSaltBits does the same for the cheapest Argon2 level and bcrypt on fewer values.
func TestSaltBits(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2, Thorough: 8, OneShard: true, CPU: 200, Rule: "144 salts of one hash: every byte varies and consecutive salts differ everywhere in their halves; always non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		i := rapid.IntRange(0, 1).Draw(rt, "which")
		s := []source{hashes[0], hashes[4]}[i]
		c.Logf("%s %d", s.name, rapid.Uint16().Draw(rt, "salt"))
		c.NonTrivial()
		_, vs, err := collect(s, []byte("password"), nil, 4, 36)
		if err != nil {
			rt.Fatalf("%s failed: %v", s.name, err)
		}
		for b := range vs[0] {
			same := true
			for _, v := range vs {
				same = same && v[b] == vs[0][b]
			}
			if same {
				rt.Fatalf("byte %d of the %s salt is the same in %d hashes", b, s.name, len(vs))
			}
		}
	})
}

// TestFailing runs fresh processes whose random source fails after some bytes:
// a call may then end in an error or end the process, but there is no output
// without a whole fresh value.
func TestFailing(t *testing.T) {
	all := append(append([]source{}, ciphers...), hashes[0], hashes[2], hashes[4])
	if v := os.Getenv("VERIF_FAILING"); v != "" {
		var i, after, kind, short int
		fmt.Sscan(v, &i, &after, &kind, &short)
		entropy.Short(short)
		entropy.Fail(after, []error{io.EOF, io.ErrUnexpectedEOF, errors.New("no entropy")}[kind])
		out, _, err := all[i].make([]byte("0123456789abcdef"), []byte("key"))
		if err != nil && len(out) > 0 {
			fmt.Printf("BOTH %x %v\n", out, err)
		} else if err != nil {
			fmt.Printf("ERROR %v\n", err)
		} else {
			fmt.Printf("OUTPUT %x\n", out)
		}
		os.Exit(0)
	}
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 1000, Rule: "fresh processes whose random source fails after 0..40 bytes, in reads of any length; non-trivial: it fails before a whole value was given"}, func(rt *rapid.T, c *pbt.Case) {
		i, after, kind := rapid.IntRange(0, len(all)-1).Draw(rt, "source"), rapid.IntRange(0, 40).Draw(rt, "after"), rapid.IntRange(0, 2).Draw(rt, "kind")
		short := max(0, rapid.IntRange(-15, 15).Draw(rt, "short"))
		c.Logf("%s: the source fails after %d bytes, at most %d at a time", all[i].name, after, short)
		need := all[i].n
		if all[i].name == "bcrypt" {
			need = 16
		}
		c.NonTrivialIf(after < need)
		exe, err := os.Executable()
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		cmd := exec.Command(exe, "-test.run=^TestFailing$")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_FAILING=%d %d %d %d", i, after, kind, short), "GOTRACEBACK=none")
		out, err := cmd.CombinedOutput()
		what := "the process ended"
		for _, line := range strings.Split(string(out), "\n") {
			for _, w := range []string{"BOTH", "ERROR", "OUTPUT"} {
				if strings.HasPrefix(line, w+" ") {
					what = w
				}
			}
		}
		c.Label(what)
		if what == "BOTH" || what == "OUTPUT" && after < need {
			rt.Fatalf("%s although the random source failed after %d of %d bytes: %s", all[i].name, after, need, out)
		}
		if what == "the process ended" && err == nil {
			panic("HARNESS-ERROR the child reported nothing: " + string(out))
		}
	})
}

// TestProcesses runs fresh processes making the same calls; their IVs must differ too.
func TestProcesses(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		for _, s := range append(append([]source{}, ciphers...), hashes[0], hashes[4]) {
			for range 2 {
				_, iv, err := s.make([]byte("0123456789abcdef"), []byte("key"))
				if err != nil {
					fmt.Println("IV", s.name, "error", err)
				}
				fmt.Println("IV", strings.ReplaceAll(s.name, " ", "-"), hex.EncodeToString(iv))
			}
		}
		os.Exit(0)
	}
	pbt.Check(t, pbt.Opts{Quick: 2, Thorough: 10, OneShard: true, Rule: "five fresh processes making the same calls: all IVs, nonces and salts differ; always non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		c.Logf("round %d", rapid.Uint32().Draw(rt, "round"))
		c.NonTrivial()
		exe, err := os.Executable()
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		var wg sync.WaitGroup
		outs := make([][]byte, 5)
		errs := make([]error, 5)
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(exe, "-test.run=^TestProcesses$")
				cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
				outs[i], errs[i] = cmd.CombinedOutput()
			}()
		}
		wg.Wait()
		m := map[string]bool{}
		for i, o := range outs {
			k := 0
			for _, line := range strings.Split(string(o), "\n") {
				f := strings.Fields(line)
				if len(f) == 3 && f[0] == "IV" {
					k++
					if m[f[1]+f[2]] {
						rt.Fatalf("two processes (or calls) used the same %s value %s", f[1], f[2])
					}
					m[f[1]+f[2]] = true
				}
			}
			if errs[i] != nil || k != 10 {
				rt.Fatalf("a fresh process could not encrypt: %v\n%s", errs[i], o)
			}
		}
	})
}

var bcryptText = base64.NewEncoding("./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789").WithPadding(base64.NoPadding)

// judgeSource: crypto/rand is how a Go program reaches the operating system's source. What it
// handed out during the calls must contain every IV, nonce and salt, each in a place of its own.
func judgeSource(rt *rapid.T, c *pbt.Case, s source, n int) {
	in, key := bytes.Repeat([]byte{1}, size(rt, s)), gen.Bytes(rt, "key", 40)
	c.Logf("%s: %d calls on %d bytes, key %x", s.name, n, len(in), key)
	c.Label(s.name)
	c.NonTrivial()
	short := max(0, rapid.IntRange(-15, 15).Draw(rt, "short"))
	c.LabelIf(short > 0, "short reads")
	defer entropy.Short(short)()
	stop := entropy.Record()
	_, vs, err := collect(s, in, key, 1, n)
	log := stop()
	if err != nil {
		rt.Fatalf("%s failed: %v", s.name, err)
	}
	for i, v := range vs {
		if s.name == "bcrypt" {
			if v, err = bcryptText.DecodeString(string(v)); err != nil {
				rt.Fatalf("the salt in the bcrypt hash is not text of its alphabet: %v", err)
			}
		}
		at := bytes.Index(log, v)
		if at < 0 {
			rt.Fatalf("%s: the fresh value %x of call %d is not among the %d unused bytes the random source gave", s.name, v, i+1, len(log))
		}
		log = append(log[:at:at], log[at+len(v):]...)
	}
}

func TestSource(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: "one to twenty encryptions with the random source recorded; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		judgeSource(rt, c, rapid.SampledFrom(ciphers).Draw(rt, "source"), rapid.IntRange(1, 20).Draw(rt, "calls"))
	})
}

func TestSaltSource(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 10, Thorough: 200, CPU: 120, Rule: "one or two hashes with the random source recorded; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		judgeSource(rt, c, rapid.SampledFrom(hashes).Draw(rt, "source"), rapid.IntRange(1, 2).Draw(rt, "calls"))
	})
}
