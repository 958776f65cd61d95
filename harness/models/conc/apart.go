package conc

import (
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// ApartRule describes the cases of Apart and of ApartShared.
const ApartRule = "two to six goroutines that each build and use things of their own in up to some hundred steps and look at them (where reading needs no care: all at all of them) at once; every case counts as non-trivial"

// Apart has several goroutines at work at once, each on things of its own.
func Apart[S any](rt *rapid.T, c *pbt.Case, most int, build func(r *gen.Rand, n int) (S, error), look func(s S, r *gen.Rand) error) {
	apart(rt, c, most, build, look, false)
}

// ApartShared is Apart for things that several goroutines may read: in the end
// all look at all that came out.
func ApartShared[S any](rt *rapid.T, c *pbt.Case, most int, build func(r *gen.Rand, n int) (S, error), look func(s S, r *gen.Rand) error) {
	apart(rt, c, most, build, look, true)
}

func apart[S any](rt *rapid.T, c *pbt.Case, most int, build func(r *gen.Rand, n int) (S, error), look func(s S, r *gen.Rand) error, shared bool) {
	gs := rapid.IntRange(2, 6).Draw(rt, "goroutines")
	seed := gen.NewRand(rt, "seed")
	c.Logf("%d goroutines, seed %x", gs, uint64(*seed))
	c.NonTrivial()
	var errs Errs
	made := make([]S, gs)
	fs := make([]func(), gs)
	for g := range fs {
		r, n := gen.Rand(seed.Uint64()), 1+seed.N(most)
		fs[g] = func() {
			s, err := build(&r, n)
			if err != nil {
				errs.Addf("next to others in other goroutines: %v", err)
			}
			made[g] = s
		}
	}
	Par(fs...)
	errs.Check(rt)
	for g := range fs {
		r := gen.Rand(seed.Uint64())
		fs[g] = func() {
			for range 2 * gs {
				i := g
				if shared {
					i = r.N(gs)
				}
				if err := look(made[i], &r); err != nil {
					errs.Addf("read next to other goroutines: %v", err)
					return
				}
			}
		}
	}
	Par(fs...)
	errs.Check(rt)
}
