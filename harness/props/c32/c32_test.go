package c32

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"
	"pgregory.net/rapid"
	"verif.local/harness/pbt"
)

const rule = "a child process installs the handler and is sent 1..12 of the three signals, one by one or in bursts, while handlers return at once, are held back or take a while; its report of handler runs and of the channel is compared with the signals; " +
	"non-trivial: two or more signals"

const childEnv = "VERIF_C32_CHILD"

func init() {
	if os.Getenv(childEnv) != "" {
		child()
		os.Exit(0)
	}
}

// child installs the handler and reports what happens, one line per event:
//
//	ready          the handler is installed
//	start n        handler run n begins; it ends when the parent says so
//	end n b        handler run n ends; b: the channel is closed
//	closed         the channel was closed (seen by another goroutine)
//	others r/b ... further handlers: their runs, and whether their channels are closed
//	pong b         answer to ping; b: the channel is closed
//
// Commands: "go" lets the oldest held handler run end, "free" makes this and
// later runs end by themselves, "ping", "others",
//
//	"install" installs one more handler.
func child() {
	var mu sync.Mutex
	say := func(format string, args ...any) {
		mu.Lock()
		fmt.Printf(format+"\n", args...)
		mu.Unlock()
	}
	hold := os.Getenv(childEnv) == "hold"
	goOn := make(chan struct{}, 1000)
	free := make(chan struct{})
	var runs atomic.Int64
	isClosed := func() bool { return false }
	var ready sync.WaitGroup
	ready.Add(1)
	var logger *log.Logger
	switch os.Getenv("VERIF_C32_LOG") {
	case "none": // no logger at all
	case "stderr":
		logger = log.New(os.Stderr, "LOG ", 0)
	default:
		logger = log.New(io.Discard, "", 0)
	}
	type other struct {
		runs atomic.Int64
		c    chan struct{}
	}
	var others []*other
	install := func(names string) { // further handlers, each with a channel of its own
		for range names {
			o := new(other)
			o.c = closex.HandleKillSig(func() { o.runs.Add(1) }, log.New(io.Discard, "", 0)).C
			others = append(others, o)
		}
	}
	install(os.Getenv("VERIF_C32_BEFORE"))
	intr := closex.HandleKillSig(func() {
		ready.Wait()
		n := runs.Add(1)
		say("start %d", n)
		if hold {
			select {
			case <-goOn:
			case <-free:
			}
		}
		say("end %d %v", n, isClosed())
	}, logger)
	isClosed = func() bool {
		select {
		case <-intr.C:
			return true
		default:
			return false
		}
	}
	install(os.Getenv("VERIF_C32_AFTER"))
	ready.Done()
	go func() {
		<-intr.C
		say("closed")
	}()
	say("ready")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		switch in.Text() {
		case "go":
			goOn <- struct{}{}
		case "free":
			close(free)
		case "ping":
			say("pong %v", isClosed())
		case "install":
			install("x")
		case "others":
			s := "others"
			for _, o := range others {
				done := false
				select {
				case <-o.c:
					done = true
				default:
				}
				s += fmt.Sprintf(" %d/%v", o.runs.Load(), done)
			}
			say("%s", s)
		}
	}
}

type proc struct {
	rt      *rapid.T
	cmd     *exec.Cmd
	in      io.WriteCloser
	lines   chan string
	errs    bytes.Buffer
	all     []string
	runs    int // handler runs begun
	ends    int
	early   bool // the channel was closed before the first run ended
	shut    bool // the channel was reported closed
	answers int
	asking  bool   // an answer is under way
	answer  string // the latest
	since   []int  // for each further handler, the signals sent before it was installed
}

func launch(rt *rapid.T, hold bool, logTo string, before, after int) *proc {
	mode := "free"
	if hold {
		mode = "hold"
	}
	p := &proc{rt: rt, cmd: exec.Command(os.Args[0]), lines: make(chan string, 1000)}
	p.cmd.Env = append(os.Environ(), childEnv+"="+mode, "VERIF_C32_LOG="+logTo,
		"VERIF_C32_BEFORE="+strings.Repeat("x", before), "VERIF_C32_AFTER="+strings.Repeat("x", after))
	p.cmd.Stderr = &p.errs
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := p.cmd.Start(); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	go func() {
		s := bufio.NewScanner(out)
		for s.Scan() {
			p.lines <- s.Text()
		}
		close(p.lines)
	}()
	return p
}

func (p *proc) died() {
	p.cmd.Wait()
	e := p.errs.String()
	if len(e) > 1500 {
		e = e[:1500]
	}
	p.rt.Fatalf("the process ended: %v\n%s\nevents: %v", p.cmd.ProcessState, e, p.all)
}

// next processes one event; false when none comes although the child is idle.
func (p *proc) next() (string, bool) {
	pings, waits := 0, 0
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				p.died()
			}
			if strings.HasPrefix(l, "pong") && pings > 0 {
				if pings++; pings > 3 {
					return "", false // answered three times, seconds apart, and nothing came
				}
				time.Sleep(time.Second)
				p.say("ping")
				continue
			}
			p.all = append(p.all, l)
			switch {
			case strings.HasPrefix(l, "pong"), strings.HasPrefix(l, "others"):
				p.answers++
				p.answer = l
			case strings.HasPrefix(l, "start"):
				p.runs++
			case strings.HasPrefix(l, "end"):
				p.ends++
				if p.ends == 1 && strings.HasSuffix(l, "true") {
					p.early = true
				}
			case l == "closed":
				p.shut = true
				if p.ends == 0 {
					p.early = true
				}
			}
			if p.early {
				p.rt.Fatalf("the channel was closed before the first handler run had completed: %v", p.all)
			}
			return l, true
		case <-time.After(8 * time.Second):
			if p.asking {
				if waits++; waits == 15 {
					return "", false
				}
			} else if pings == 0 {
				pings = 1
				p.say("ping")
			}
		}
	}
}

func (p *proc) say(s string) { io.WriteString(p.in, s+"\n") }

func (p *proc) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// until processes events until cond holds.
func (p *proc) until(what string, cond func() bool) {
	for !cond() {
		if _, ok := p.next(); !ok {
			p.rt.Fatalf("%s; events: %v", what, p.all)
		}
	}
}

// ask sends a command and returns the answer.
func (p *proc) ask(s string) string {
	n := p.answers
	p.say(s)
	p.asking = true
	defer func() { p.asking = false }()
	p.until("no answer", func() bool { return p.answers > n })
	return p.answer
}

// others waits until every further handler has run for each of n signals sent
// since it was installed, and its channel is closed if there was one.
func (p *proc) others(n int) {
	for try := 0; ; try++ {
		got := p.ask("others")
		behind := false
		for i, f := range strings.Fields(got)[1:] {
			r, done := 0, false
			fmt.Sscanf(f, "%d/%t", &r, &done)
			n := n - p.since[i]
			if done && r == 0 {
				p.rt.Fatalf("the channel of handler %d was closed before its first run had completed: %s", i, got)
			}
			if r > n {
				p.rt.Fatalf("a handler ran more often than there were signals: %s, %d signals", got, n)
			}
			if r < n || n > 0 && !done {
				behind = true
			}
		}
		if !behind {
			return
		}
		if try == 60 {
			p.rt.Fatalf("a handler did not run for every signal, or its channel was not closed: %s, %d signals", got, n)
		}
		time.Sleep(time.Duration(min(try, 10)*20) * time.Millisecond)
	}
}

var names = map[syscall.Signal]string{syscall.SIGINT: "INT", syscall.SIGQUIT: "QUIT", syscall.SIGTERM: "TERM"}

func TestSignals(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 240, Thorough: 6000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		hold := rapid.Bool().Draw(rt, "hold")
		sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM})
		steps := rapid.SliceOfN(sig, 1, 6).Draw(rt, "signals")
		if rapid.IntRange(0, 39).Draw(rt, "many") == 23 {
			for n := rapid.IntRange(50, 400).Draw(rt, "more"); len(steps) < n; {
				steps = append(steps, steps[len(steps)%7%len(steps)])
			}
			c.Label("hundreds of signals")
		}
		before, after := 0, 0
		if rapid.IntRange(0, 3).Draw(rt, "others") == 0 {
			before, after = rapid.IntRange(0, 3).Draw(rt, "before"), rapid.IntRange(0, 3).Draw(rt, "after")
			c.Label("several handlers")
		}
		wait := time.Duration(0) // how long the first handler run is held back
		if hold {
			k := rapid.IntRange(0, 59).Draw(rt, "long")
			if k == 37 {
				wait = 2500 * time.Millisecond
				c.Label("handler of seconds")
			} else if k == 41 && pbt.Thorough() {
				wait = 65 * time.Second
				c.Label("handler of a minute")
			}
		}
		burst := rapid.SliceOfN(sig, 0, 6).Draw(rt, "burst")
		last := sig.Draw(rt, "last")
		logTo := rapid.SampledFrom([]string{"", "stderr", "none"}).Draw(rt, "log")
		peek := rapid.Bool().Draw(rt, "peek")
		c.Logf("held back: %v, log %q, peek %v", hold, logTo, peek)
		for _, s := range steps {
			c.Logf("%s", names[s])
		}
		c.Logf("burst %v then %s", burst, names[last])
		c.NonTrivialIf(len(steps)+len(burst) >= 2)
		c.LabelIf(len(burst) > 1, "burst of signals")
		c.LabelIf(hold, "slow handler")
		c.LabelIf(logTo == "none", "no logger")
		p := launch(rt, hold, logTo, before, after)
		p.since = make([]int, before+after)
		defer func() {
			p.cmd.Process.Kill()
			p.in.Close()
			p.cmd.Wait()
		}()
		if l, ok := p.next(); !ok || l != "ready" {
			panic("HARNESS-ERROR the child is not ready: " + l)
		}
		for i, s := range steps {
			p.signal(s)
			p.until(fmt.Sprintf("no handler run for signal %d (%s)", i+1, names[s]), func() bool { return p.runs == i+1 })
			if hold {
				if i == 0 {
					time.Sleep(wait)
				}
				if i == 0 && (peek || wait > 0) {
					if p.ask("ping") == "pong true" {
						rt.Fatalf("the channel is closed while the first handler run is in progress")
					}
				}
				p.say("go")
			}
			p.until("the handler run does not end", func() bool { return p.ends == i+1 })
			p.until("the channel was not closed after the first handler run", func() bool { return p.shut })
			if len(p.since) > 0 {
				p.others(i + 1)
			}
			if before+after > 0 && len(p.since) < 8 && rapid.IntRange(0, 2).Draw(rt, "install") == 0 {
				p.say("install")
				p.since = append(p.since, i+1)
				p.others(i + 1)
				c.Label("handler installed after signals")
			}
		}
		if len(burst) > 0 {
			for _, s := range burst {
				p.signal(s)
			}
			if hold {
				p.until("no handler run for a burst of signals", func() bool { return p.runs > len(steps) })
				for _, s := range burst {
					p.signal(s)
				}
				p.say("free")
			}
			// let the runs of the burst end before the last signal
			p.ask("ping")
			p.until("no handler run for a burst of signals", func() bool { return p.runs > len(steps) && p.ends == p.runs })
			seen := p.runs
			p.signal(last)
			p.until("no handler run after a burst of signals", func() bool { return p.runs > seen && p.ends == p.runs })
			if most := len(steps) + 2*len(burst) + 1; p.runs > most {
				rt.Fatalf("%d handler runs for at most %d signals: %v", p.runs, most, p.all)
			}
		}
		if p.ask("ping") != "pong true" {
			rt.Fatalf("the channel is not closed at the end: %v", p.all)
		}
		if len(burst) == 0 && p.runs != len(steps) {
			rt.Fatalf("%d handler runs for %d signals: %v", p.runs, len(steps), p.all)
		}
	})
}
