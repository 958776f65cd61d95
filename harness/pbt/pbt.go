// Package pbt drives rapid properties for the verification checks: it fixes
// seeds, counts what was generated, records the case in flight (so that a crash
// or a hang can be replayed) and watches for hangs, deadlocks and runaway
// allocation without ever judging by wall-clock time alone.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Opts describes one property test.
type Opts struct {
	Quick    int     // cases in the quick tier, over all shards
	Thorough int     // cases in the thorough tier, over all shards
	Rule     string  // how cases are made, what makes one non-trivial
	CPU      float64 // process CPU seconds one case may take before it counts as a hang (0: 20)
	Budget   float64 // soft wall budget in seconds per shard (0: tier default); stops early, never fails
	OneShard bool    // run in shard 0 only
}

// Case collects what one generated case did.
type Case struct {
	mu     sync.Mutex
	log    []byte
	h      uint64
	nt     bool
	labels map[string]struct{}
	full   bool
}

const traceCap = 1500

// Logf appends to the trace of the case. Traces identify distinct cases.
func (c *Case) Logf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.h)
	f.Write(b[:])
	f.Write([]byte(s))
	c.h = f.Sum64()
	if len(c.log) < traceCap {
		if len(c.log) > 0 {
			c.log = append(c.log, "; "...)
		}
		c.log = append(c.log, s...)
		if len(c.log) > traceCap {
			c.log = append(c.log[:traceCap], "..."...)
		}
	}
}

// NonTrivial marks the case non-trivial (by the rule of the property).
func (c *Case) NonTrivial() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }

// NonTrivialIf marks the case non-trivial when cond holds.
func (c *Case) NonTrivialIf(cond bool) {
	if cond {
		c.NonTrivial()
	}
}

// Label counts a feature of the case in the evidence.
func (c *Case) Label(s string) { c.mu.Lock(); c.labels[s] = struct{}{}; c.mu.Unlock() }

// LabelIf counts a feature when cond holds.
func (c *Case) LabelIf(cond bool, s string) {
	if cond {
		c.Label(s)
	}
}

// Trace returns the trace so far.
func (c *Case) Trace() string { c.mu.Lock(); defer c.mu.Unlock(); return string(c.log) }

type stats struct {
	Test        string         `json:"test"`
	Shard       int            `json:"shard"`
	Evaluations int64          `json:"evaluations"`
	NonTrivial  int64          `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Planned     int            `json:"planned"`
	WallS       float64        `json:"wall_s"`
	Build       string         `json:"build"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return env("VERIF_TIER", "quick") == "thorough" }

// Build names the kind of test binary: plain, race or sched.
func Build() string { return env("VERIF_BUILD", "plain") }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func shard() int  { return envInt("VERIF_SHARD", 0) }
func shards() int { return max(1, envInt("VERIF_SHARDS", 1)) }
func outDir() string {
	d := env("VERIF_OUT", "")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func strHash(s string) uint64 { f := fnv.New64a(); f.Write([]byte(s)); return f.Sum64() }

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

var (
	caseNo    atomic.Int64 // increases with every case; odd number of increments not needed
	caseOn    atomic.Bool
	caseCPU   atomic.Int64 // process CPU at start of the case, ns
	caseLimit atomic.Int64 // ns
	caseWhat  atomic.Value // string
	watchOnce sync.Once
	inflight  *os.File
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func allStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func die(kind, detail string) {
	what, _ := caseWhat.Load().(string)
	st := allStacks()
	if len(st) > 60000 {
		st = st[:60000]
	}
	fmt.Fprintf(os.Stderr, "\nVERIF-HANG kind=%s case=%s %s\n%s\n", kind, what, detail, st)
	os.Exit(3)
}

// blockedPicture returns a fingerprint of the goroutines if all of them are
// blocked for good (no goroutine but this one can run, sleeps or is in a system
// call) and one of them is inside the library.
func blockedPicture() (string, bool) {
	var fp strings.Builder
	lib := false
	for _, g := range strings.Split(allStacks(), "\n\n") {
		head, body, _ := strings.Cut(g, "\n")
		if strings.Contains(body, "pbt.watch") {
			continue
		}
		a, b := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if a < 0 || b < a {
			continue
		}
		state, _, _ := strings.Cut(head[a+1:b], ",")
		switch {
		case strings.HasPrefix(state, "running"), strings.HasPrefix(state, "runnable"),
			strings.HasPrefix(state, "sleep"), strings.HasPrefix(state, "syscall"),
			strings.HasPrefix(state, "IO wait"), strings.HasPrefix(state, "copystack"),
			strings.HasPrefix(state, "preempted"), strings.HasPrefix(state, "waiting"):
			return "", false
		}
		if strings.Contains(body, "unsafe-risk/utilx") {
			lib = true
		}
		fp.WriteString(head[:a])
		fp.WriteString(state)
		fp.WriteByte('|')
	}
	return fp.String(), lib
}

func watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	memLimit := uint64(envInt("VERIF_MEM_MB", 2500)) << 20
	var same, ticks int
	var lastPic string
	var lastNo int64 = -1
	var noSince time.Time
	for {
		time.Sleep(200 * time.Millisecond)
		metrics.Read(sample)
		if m := sample[0].Value.Uint64(); m > memLimit && caseOn.Load() {
			die("memory", fmt.Sprintf("heap grew to %d MB within one case", m>>20))
		}
		if !caseOn.Load() {
			lastNo = -1
			continue
		}
		no := caseNo.Load()
		if no != lastNo {
			lastNo, noSince, same, lastPic, ticks = no, time.Now(), 0, "", 0
			continue
		}
		if ticks++; ticks > 1000 {
			die("wall", "one case did not finish in 1000 looks of the watchdog, 200 ms apart")
		}
		if used := cpuNow() - caseCPU.Load(); used > caseLimit.Load() {
			if caseNo.Load() == no && caseOn.Load() {
				die("cpu", fmt.Sprintf("one case used %.1f s of CPU without finishing", float64(used)/1e9))
			}
		}
		if time.Since(noSince) > 3*time.Second {
			pic, lib := blockedPicture()
			if pic != "" && lib && (pic == lastPic || lastPic == "") {
				same++
				lastPic = pic
				if same >= 15 && caseNo.Load() == no {
					die("deadlock", "every goroutine is blocked, one of them inside the library")
				}
			} else {
				same, lastPic = 0, ""
			}
		}
	}
}

func begin(test string, seed uint64, limit float64) {
	if inflight == nil {
		f, err := os.OpenFile(filepath.Join(outDir(), fmt.Sprintf("inflight-%s-%d", Build(), shard())), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err == nil {
			inflight = f
		}
	}
	rec := fmt.Sprintf("%-80s %20d\n", test, seed)
	if inflight != nil {
		inflight.WriteAt([]byte(rec), 0)
	}
	caseWhat.Store(fmt.Sprintf("%s seed=%d", test, seed))
	caseLimit.Store(int64(limit * 1e9))
	caseCPU.Store(cpuNow())
	caseNo.Add(1)
	caseOn.Store(true)
}

func end() { caseOn.Store(false) }

// Check runs prop over generated cases.
func Check(t *testing.T, o Opts, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if o.OneShard && shard() != 0 {
		t.Skip("runs in shard 0 only")
	}
	watchOnce.Do(func() { go watch() })
	total := Pick(o.Quick*max(1, envInt("VERIF_SCALE", 1)), o.Thorough)
	if o.Quick < 20 {
		total = Pick(o.Quick, o.Thorough) // a handful of big cases
	}
	if v := envInt("VERIF_CASES", 0); v > 0 {
		total = v
	}
	n := (total + shards() - 1) / shards()
	if o.OneShard {
		n = total
	}
	n = max(n, 1)
	limit := o.CPU
	if limit == 0 {
		limit = 20
	}
	if Build() == "race" {
		limit *= 4
	}
	budget := o.Budget
	if budget == 0 {
		budget = float64(envInt("VERIF_BUDGET", Pick(45, 400)))
	}
	st := &stats{Test: t.Name(), Shard: shard(), Labels: map[string]int{}, Rule: o.Rule, Planned: n, Build: Build()}
	seen := map[uint64]struct{}{}
	start := time.Now()
	var base, iter uint64
	counting := true
	body := func(rt *rapid.T) {
		seed := base + iter*(iter+1)/2
		iter++
		begin(t.Name(), seed, limit)
		c := &Case{labels: map[string]struct{}{}, h: 14695981039346656037}
		done := false
		defer func() {
			end()
			if rt.Failed() {
				counting = false // what follows is reproduction and shrinking
			}
			if !counting || !done {
				return
			}
			st.Evaluations++
			for l := range c.labels {
				st.Labels[l]++
			}
			if c.nt {
				if _, ok := seen[c.h]; !ok {
					seen[c.h] = struct{}{}
					st.NonTrivial++
					if k := len(seen); len(st.Samples) < 4 && (k == 1 || k == 10 || k == 100 || k == 1000) {
						s := c.Trace()
						if len(s) > 700 {
							s = s[:700] + "..."
						}
						st.Samples = append(st.Samples, strings.ToValidUTF8(s, "?"))
					}
				}
			}
		}()
		prop(rt, c)
		done = true
	}
	defer func() {
		st.WallS = time.Since(start).Seconds()
		name := strings.NewReplacer("/", "_", " ", "_").Replace(t.Name())
		stem := filepath.Join(outDir(), fmt.Sprintf("stats-%s-%s-%d", Build(), name, shard()))
		if b, err := json.Marshal(st); err == nil {
			os.WriteFile(stem+".json", b, 0o644)
		}
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(stem+".hashes", hb, 0o644)
	}()
	setFlag("rapid.shrinktime", env("VERIF_SHRINK", "12s"))
	if f := os.Getenv("VERIF_REPLAY_FAILFILE"); f != "" {
		setFlag("rapid.failfile", f)
		setFlag("rapid.checks", "0")
		for k := 0; k < envInt("VERIF_REPLAY_TRIES", 1); k++ {
			rapid.Check(t, body)
		}
		return
	}
	if s := os.Getenv("VERIF_REPLAY_SEED"); s != "" {
		setFlag("rapid.seed", s)
		setFlag("rapid.checks", "1")
		base, _ = strconv.ParseUint(s, 10, 64)
		for k := 0; k < envInt("VERIF_REPLAY_TRIES", 1); k++ {
			iter = 0
			rapid.Check(t, body)
		}
		return
	}
	root := mix(uint64(int64(envInt("VERIF_SEED", 1)))) ^ mix(strHash(t.Name()+"|"+Build())) ^ mix(uint64(shard())+77)
	chunk := max(1, n/20)
	for done, k := 0, uint64(0); done < n; k++ {
		m := min(chunk, n-done)
		base = mix(root+k*0x1000003) | 1
		base &= 1<<62 - 1
		iter = 0
		setFlag("rapid.seed", strconv.FormatUint(base, 10))
		setFlag("rapid.checks", strconv.Itoa(m))
		rapid.Check(t, body)
		done += m
		if time.Since(start).Seconds() > budget {
			break
		}
	}
}

// Sized draws a slice whose length is spread over several magnitudes (rapid's
// default slices are mostly very short). maxLen bounds it.
func Sized[V any](g *rapid.Generator[V], maxLen int) *rapid.Generator[[]V] {
	return rapid.Custom(func(t *rapid.T) []V {
		lo := rapid.SampledFrom([]int{0, 0, 1, 4, 12, 40, 130, 400}).Draw(t, "lo")
		lo = min(lo, maxLen)
		hi := min(2*lo+6, maxLen)
		return rapid.SliceOfN(g, lo, hi).Draw(t, "s")
	})
}

// Len draws a length spread over several magnitudes, at most maxLen.
func Len(t *rapid.T, label string, maxLen int) int {
	lo := rapid.SampledFrom([]int{0, 0, 1, 4, 12, 40, 130, 400, 1500}).Draw(t, label+".mag")
	lo = min(lo, maxLen)
	return rapid.IntRange(lo, min(2*lo+6, maxLen)).Draw(t, label)
}
