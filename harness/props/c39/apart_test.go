package c39

import (
	"fmt"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with instants of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 300, func(r *gen.Rand, n int) (int64, error) {
			s := int64(0)
			for range n {
				s = int64(r.Uint64()>>28) - 1<<35
				if err := parts(s); err != nil {
					return 0, err
				}
			}
			return s, nil
		}, func(s int64, r *gen.Rand) error { return parts(s) })
	})
}

func parts(s int64) error {
	t := time.Unix(s, 0).UTC()
	y, m, d := t.Date()
	day := time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Unix()
	for _, x := range []struct {
		what      string
		got, want int64
	}{
		{"second", truncatex.TruncateSec(s), s},
		{"minute", truncatex.TruncateMin(s), s - int64(t.Second())},
		{"hour", truncatex.TruncateHour(s), s - int64(t.Second()+60*t.Minute())},
		{"day", truncatex.TruncateDay(s), day},
		{"month", truncatex.TruncateMonth(s), time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Unix()},
		{"year", truncatex.TruncateYear(s), time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()},
	} {
		if x.got != x.want {
			return fmt.Errorf("%d truncated to the %s is %d, want %d", s, x.what, x.got, x.want)
		}
	}
	return nil
}
