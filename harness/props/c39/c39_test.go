package c39

import (
	"math"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/unsafe-risk/utilx/timex/truncatex"
	"pgregory.net/rapid"
	"verif.local/harness/models/civil"
	"verif.local/harness/pbt"
)

const rule = "Unix times from tens of thousands of years before to after 1970, near unit boundaries and anywhere, under drawn local time zones, and unit lengths from 1 s to centuries, against integer calendar arithmetic; " +
	"non-trivial: the time is not itself the start of the unit"

var zones = []string{"UTC", "Asia/Seoul", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Europe/Dublin", "America/St_Johns", "Pacific/Kiritimati"}

type unit struct {
	name string
	f    func(int64) int64
	ref  func(int64) int64
}

const yearOne = -62135596800 // Unix time of 0001-01-01T00:00:00Z

func month(sec int64) int64 {
	y, m, _ := civil.Date(civil.Day(sec))
	return civil.Days(y, m, 1) * 86400
}

func year(sec int64) int64 {
	y, _, _ := civil.Date(civil.Day(sec))
	return civil.Days(y, 1, 1) * 86400
}

var units = []unit{
	{"second", truncatex.TruncateSec, func(s int64) int64 { return s }},
	{"minute", truncatex.TruncateMin, func(s int64) int64 { return s - civil.FloorMod(s, 60) }},
	{"hour", truncatex.TruncateHour, func(s int64) int64 { return s - civil.FloorMod(s, 3600) }},
	{"day", truncatex.TruncateDay, func(s int64) int64 { return civil.Day(s) * 86400 }},
	// 1970-01-01 was a Thursday, three days after a Monday
	{"week", truncatex.TruncateWeek, func(s int64) int64 { return s - civil.FloorMod(s+3*86400, 7*86400) }},
	{"month", truncatex.TruncateMonth, month},
	{"year", truncatex.TruncateYear, year},
}

// instant draws Unix times, half of them near a boundary of some unit.
func instant(rt *rapid.T, label string) int64 {
	lim := rapid.SampledFrom([]int64{1e5, 1e8, 4e9, 1e11, 1e12, 1e13, 1e16, 9e18}).Draw(rt, label+".range")
	s := rapid.OneOf(rapid.Int64Range(-lim, lim), rapid.Custom(func(rt *rapid.T) int64 {
		return yearOne + rapid.Int64Range(-lim, lim).Draw(rt, "fromYearOne")
	})).Draw(rt, label)
	if rapid.Bool().Draw(rt, label+".edge") {
		u := units[rapid.IntRange(1, len(units)-1).Draw(rt, label+".unit")]
		s = u.ref(s) + rapid.Int64Range(-2, 2).Draw(rt, label+".off")
	}
	return s
}

func zone(rt *rapid.T, c *pbt.Case) {
	n := rapid.SampledFrom(zones).Draw(rt, "zone")
	l, err := time.LoadLocation(n)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	time.Local = l
	c.Logf("zone %s", n)
	c.Label("zone " + n)
}

func TestUnits(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	pbt.Check(t, pbt.Opts{Quick: 400000, Thorough: 8000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		zone(rt, c)
		s, s2 := instant(rt, "s"), instant(rt, "s2")
		if s > s2 {
			s, s2 = s2, s
		}
		c.Logf("%d %d", s, s2)
		c.LabelIf(s < 0, "before 1970")
		for _, u := range units {
			got, want := u.f(s), u.ref(s)
			if got != want {
				rt.Fatalf("%d truncated to the %s is %d, want %d", s, u.name, got, want)
			}
			if got != s {
				c.NonTrivial()
			}
			if g := u.f(got); g != got {
				rt.Fatalf("%d truncated to the %s twice is %d, once %d", s, u.name, g, got)
			}
			if g := u.f(s2); g < got {
				rt.Fatalf("truncated to the %s, %d becomes %d and the later %d becomes %d", u.name, s, got, s2, g)
			}
		}
	})
}

func TestLengths(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	pbt.Check(t, pbt.Opts{Quick: 400000, Thorough: 8000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		zone(rt, c)
		n := rapid.OneOf(
			rapid.SampledFrom([]int64{1, 2, 3, 7, 10, 59, 60, 61, 3600, 7200, 86400, 604800, 86400 * 365, 9223372036}),
			rapid.Int64Range(1, 100), rapid.Int64Range(1, 1e6), rapid.Int64Range(1, 9223372036),
			rapid.Int64Range(9223372036-2, 9223372036+2), rapid.Int64Range(1, 1e11), rapid.Int64Range(1, 1<<61), // longer than a time.Duration
		).Draw(rt, "n")
		s := instant(rt, "s") / 2 // so that nothing below overflows
		if rapid.IntRange(0, 2).Draw(rt, "atMultiple") == 0 {
			s = s - civil.FloorMod(s-yearOne, n) + rapid.Int64Range(-1, 1).Draw(rt, "off")
		}
		s2 := s + rapid.Int64Range(0, 2*n).Draw(rt, "later")
		c.Logf("%d %d every %d", s, s2, n)
		ref := func(s int64) int64 { return s - civil.FloorMod(s-yearOne, n) }
		got := truncatex.Truncate(s, n)
		if want := ref(s); got != want {
			rt.Fatalf("%d truncated to %d s is %d, want %d", s, n, got, want)
		}
		c.NonTrivialIf(got != s)
		if g := truncatex.Truncate(got, n); g != got {
			rt.Fatalf("%d truncated to %d s twice is %d, once %d", s, n, g, got)
		}
		if g, want := truncatex.Truncate(s2, n), ref(s2); g != want || g < got {
			rt.Fatalf("%d truncated to %d s is %d, want %d", s2, n, g, want)
		}
	})
}

// A length that is not positive truncates nothing.
func TestNoLength(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100000, Thorough: 2000000, Rule: "lengths of zero and less, down to the least there is; non-trivial: less than any time.Duration"}, func(rt *rapid.T, c *pbt.Case) {
		n := -rapid.OneOf(rapid.Int64Range(0, 100), rapid.Int64Range(0, 1e11), rapid.Int64Range(0, math.MaxInt64)).Draw(rt, "n") - int64(rapid.IntRange(0, 1).Draw(rt, "less"))
		s := instant(rt, "s")
		c.Logf("%d every %d", s, n)
		c.NonTrivialIf(n < -9223372036)
		if got := truncatex.Truncate(s, n); got != s {
			rt.Fatalf("%d truncated to %d s is %d", s, n, got)
		}
	})
}
