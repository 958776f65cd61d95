package c40

import (
	"math/big"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"pgregory.net/rapid"
	"verif.local/harness/models/civil"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

var zones = []string{"Asia/Seoul", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Europe/Dublin", "America/St_Johns", "Pacific/Kiritimati", "UTC"}

func zone(rt *rapid.T, c *pbt.Case) {
	n := rapid.SampledFrom(zones).Draw(rt, "zone")
	l, err := time.LoadLocation(n)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	time.Local = l
	c.Logf("zone %s", n)
}

func utc(rt *rapid.T, what string, t time.Time) {
	rt.Helper()
	if n, off := t.Zone(); n != "UTC" || off != 0 || t.Location() != time.UTC {
		rt.Fatalf("%s is in %s (%s, offset %d), not in UTC", what, t.Location(), n, off)
	}
}

func TestConstructor(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	rule := "seconds and nanoseconds of every magnitude and sign under drawn local time zones, against big-integer and calendar arithmetic; non-trivial: nanoseconds outside one second or a negative second"
	pbt.Check(t, pbt.Opts{Quick: 500000, Thorough: 10000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		zone(rt, c)
		lim := rapid.SampledFrom([]int64{3, 1e5, 1e10, 1e12, 1e13, 1 << 58}).Draw(rt, "range")
		sec := rapid.Int64Range(-lim, lim).Draw(rt, "sec")
		nsec := rapid.OneOf(
			rapid.Int64Range(0, 999999999), rapid.Int64Range(-3e9, 3e9), rapid.Int64(),
			rapid.SampledFrom([]int64{-1 << 63, 1<<63 - 1, -1, 1e9, 1e9 - 1, -1e9, -1e9 - 1}),
		).Draw(rt, "nsec")
		c.Logf("%d s %d ns", sec, nsec)
		c.NonTrivialIf(nsec < 0 || nsec >= 1e9 || sec < 0)
		got := timex.Custom(sec, nsec)
		utc(rt, "the constructed time", got)
		want := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
		want.Add(want, big.NewInt(nsec))
		have := new(big.Int).Mul(big.NewInt(got.Unix()), big.NewInt(1e9))
		have.Add(have, big.NewInt(int64(got.Nanosecond())))
		if have.Cmp(want) != 0 || got.Nanosecond() < 0 || got.Nanosecond() > 999999999 {
			rt.Fatalf("the time of %d s and %d ns is %s ns after 1970, want %s", sec, nsec, have, want)
		}
		s := new(big.Int)
		s.DivMod(want, big.NewInt(1e9), new(big.Int))
		if u := s.Int64(); u > -1e14 && u < 1e14 {
			y, m, d := civil.Date(civil.Day(u))
			r := civil.FloorMod(u, 86400)
			if int64(got.Year()) != y || int64(got.Month()) != m || int64(got.Day()) != d ||
				int64(got.Hour()) != r/3600 || int64(got.Minute()) != r/60%60 || int64(got.Second()) != r%60 {
				rt.Fatalf("the time of %d s and %d ns reads %v, want %d-%d-%d and %d s", sec, nsec, got, y, m, d, r)
			}
		}
	})
}

func TestMeasure(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	rule := "sequences of start, end and queries on one to three measurements with pauses from 1 ns to years of virtual time, under drawn local time zones; non-trivial: a start or end repeated, or two measurements interleaved"
	pbt.Check(t, pbt.Opts{Quick: 60000, Thorough: 1000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		zone(rt, c)
		type step struct {
			which, kind int
			pause       time.Duration
		}
		n := rapid.IntRange(1, 3).Draw(rt, "measurements")
		steps := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) step {
			return step{rapid.IntRange(0, n-1).Draw(rt, "which"), rapid.IntRange(0, 2).Draw(rt, "op"),
				rapid.OneOf(rapid.SampledFrom([]time.Duration{0, 1, 999, 1e3, 1e6 + 1, 1e9 - 1, 1e9, time.Hour, 24 * time.Hour, 3 * 365 * 24 * time.Hour}),
					rapid.Custom(func(rt *rapid.T) time.Duration {
						return time.Duration(rapid.Int64Range(0, 1e15).Draw(rt, "ns"))
					})).Draw(rt, "pause")}
		}), 1, 25).Draw(rt, "steps")
		c.Logf("%d measurements, steps %v", n, steps)
		vsched.Bubble(rt, func(rt *rapid.T) {
			type state struct {
				d          *diffx.Differ
				start, end time.Time
				starts     int
				ends       int
			}
			st := make([]*state, n)
			for i := range st {
				st[i] = &state{d: diffx.New()}
			}
			for _, p := range steps {
				time.Sleep(p.pause)
				x := st[p.which]
				at := time.Now()
				switch p.kind {
				case 0:
					x.d.Start()
					x.start = at
					x.starts++
				case 1:
					x.d.End()
					x.end = at
					x.ends++
				default:
					now := timex.Now()
					utc(rt, "the current time", now)
					if !now.Equal(at) {
						rt.Fatalf("the current time is %v, not %v", now, at)
					}
				}
				for _, x := range st {
					if x.starts > 0 {
						if g := x.d.GetStart(); !g.Equal(x.start) {
							rt.Fatalf("the start is %v, not %v", g, x.start)
						}
						utc(rt, "the start", x.d.GetStart())
					}
					if x.ends > 0 {
						if g := x.d.GetEnd(); !g.Equal(x.end) {
							rt.Fatalf("the end is %v, not %v", g, x.end)
						}
						utc(rt, "the end", x.d.GetEnd())
					}
					if x.starts > 0 && x.ends > 0 {
						if g, w := x.d.GetDiff(), time.Duration(x.end.UnixNano()-x.start.UnixNano()); g != w {
							rt.Fatalf("the difference is %d, not %d", g, w)
						}
					}
					c.NonTrivialIf(x.starts > 1 || x.ends > 1)
				}
			}
			c.NonTrivialIf(n > 1)
		})
	})
}

// TestNow compares with the real clock.
func TestNow(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 200000, Rule: "the current time between two readings of the clock; non-trivial: a local zone other than UTC"}, func(rt *rapid.T, c *pbt.Case) {
		zone(rt, c)
		c.Logf("%d", rapid.Uint16().Draw(rt, "n"))
		c.NonTrivialIf(time.Local.String() != "UTC")
		a := time.Now()
		n := timex.Now()
		b := time.Now()
		utc(rt, "the current time", n)
		if n.Before(a) || b.Before(n) {
			rt.Fatalf("the current time %v is not between %v and %v", n, a, b)
		}
	})
}
