package c43

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
	"pgregory.net/rapid"
	"verif.local/harness/pbt"
	same1 "verif.local/harness/props/c43/x/same"
	same2 "verif.local/harness/props/c43/y/same"
)

const rule = "sequences of up to 80 registrations, removals, queries and conversions over all 841 ordered pairs of 29 types (built-in ones, named ones with equal underlying types or equal names, pointers, slices, maps, arrays, functions, structs with and without fields, generic ones, interfaces with values of those types or none in them), with converters that make zero values and others, against a map from pairs to converters; " +
	"non-trivial: a pair is registered again, or removed and queried"

type (
	metres   int
	seconds  int
	text     string
	point    struct{ x, y int }
	place    struct{ x, y int }
	empty    struct{}
	void     struct{}
	bytes    []byte
	distance metres

	box[T any] struct{ v T }

	thing any
	shape interface{ String() string }
)

func (p *place) String() string { return fmt.Sprint(p.x) }
func (p *place) Error() string  { return fmt.Sprint(p.x) }

// of is an interface type whose value 0 is nil; the others hold values of the other types.
func of[T any](name string, mk func(n int) any, num func(v any) int) kind[T] {
	return kind[T]{name, func(n int) (v T) {
		if n != 0 {
			v = mk(n).(T)
		}
		return
	}, func(v T) int {
		if any(v) == nil {
			return 0
		}
		return num(v)
	}, func(v T) any {
		if any(v) == nil {
			return fmt.Sprint(name, " nil")
		}
		return fmt.Sprintf("%s %T %v", name, v, num(v))
	}}
}

func mixed(n int) any {
	switch n % 3 {
	case 0:
		return n
	case 1:
		return metres(n)
	}
	return fmt.Sprint(n)
}

func unmixed(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case metres:
		return int(v)
	}
	return atoi(v.(string))
}

func anyPlace(n int) any { return &place{n, -n} }
func placeNum(v any) int { return v.(*place).x }

var (
	kAny      = of[any]("any", mixed, unmixed)
	kThing    = of[thing]("thing", mixed, unmixed)
	kError    = of[error]("error", anyPlace, placeNum)
	kStringer = of[fmt.Stringer]("Stringer", anyPlace, placeNum)
	kShape    = of[shape]("shape", anyPlace, placeNum)
)

type ops struct {
	from, to   string
	register   func(id int, log *[]call)
	unregister func()
	exists     func() bool
	show       func(n int) any // the argument
	into       func(n int) (r any, ok bool, want func(id int) any, zero any)
	intoOr     func(n, or int) (r any, want func(id int) any, fallback any)
}

type call struct {
	id  int
	arg any
}

type kind[T any] struct {
	name string
	mk   func(n int) T // n in 0..999; distinct n give distinct values (where the type has them), 0 the zero value
	num  func(v T) int // inverse
	show func(v T) any // comparable
}

// result is what converter number id makes of n: every fourth one always makes the zero value.
func result(n, id int) int {
	if id%4 == 0 {
		return 0
	}
	return (n + id) % 1000
}

func pair[T, R any](a kind[T], b kind[R]) ops {
	return ops{
		from: a.name, to: b.name,
		register: func(id int, log *[]call) {
			convx.Register(func(v T) R {
				*log = append(*log, call{id, a.show(v)})
				return b.mk(result(a.num(v), id))
			})
		},
		unregister: convx.Unregister[T, R],
		exists:     convx.Exists[T, R],
		show:       func(n int) any { return a.show(a.mk(n)) },
		into: func(n int) (any, bool, func(int) any, any) {
			r, ok := convx.Into[T, R](a.mk(n))
			var z R
			return b.show(r), ok, func(id int) any { return b.show(b.mk(result(a.num(a.mk(n)), id))) }, b.show(z)
		},
		intoOr: func(n, or int) (any, func(int) any, any) {
			r := convx.IntoOr(a.mk(n), b.mk(or))
			return b.show(r), func(id int) any { return b.show(b.mk(result(a.num(a.mk(n)), id))) }, b.show(b.mk(or))
		},
	}
}

func row[T any](res []ops, a kind[T]) []ops {
	return append(res,
		pair(a, kInt), pair(a, kString), pair(a, kMetres), pair(a, kSeconds), pair(a, kText), pair(a, kPoint), pair(a, kPlace),
		pair(a, kPtr), pair(a, kSlice), pair(a, kMap), pair(a, kArray), pair(a, kSame1), pair(a, kSame2),
		pair(a, kEmpty), pair(a, kVoid), pair(a, kAnon), pair(a, kBytes), pair(a, kNamed), pair(a, kDistance),
		pair(a, kBoxInt), pair(a, kBoxMetres), pair(a, kFunc), pair(a, kPointPtr), pair(a, kFloat),
		pair(a, kAny), pair(a, kThing), pair(a, kError), pair(a, kStringer), pair(a, kShape))
}

func self[T comparable](v T) any { return v }

var (
	kInt     = kind[int]{"int", func(n int) int { return n }, func(v int) int { return v }, self[int]}
	kString  = kind[string]{"string", func(n int) string { return fmt.Sprint(n) }, atoi[string], self[string]}
	kMetres  = kind[metres]{"metres", func(n int) metres { return metres(n) }, func(v metres) int { return int(v) }, self[metres]}
	kSeconds = kind[seconds]{"seconds", func(n int) seconds { return seconds(n) }, func(v seconds) int { return int(v) }, self[seconds]}
	kText    = kind[text]{"text", func(n int) text { return text(fmt.Sprint(n)) }, atoi[text], self[text]}
	kPoint   = kind[point]{"point", func(n int) point { return point{n, -n} }, func(v point) int { return v.x }, self[point]}
	kPlace   = kind[place]{"place", func(n int) place { return place{n, -n} }, func(v place) int { return v.x }, self[place]}
	kPtr     = kind[*int]{"*int", func(n int) *int { return ref(n, n) }, func(v *int) int { return deref(v) }, func(v *int) any {
		return fmt.Sprint(v == nil, deref(v))
	}}
	kPointPtr = kind[*point]{"*point", func(n int) *point { return ref(point{n, -n}, n) }, func(v *point) int { return deref(v).x }, func(v *point) any {
		return fmt.Sprint(v == nil, deref(v))
	}}
	kSlice = kind[[]int]{"[]int", func(n int) []int { return one(n, n) }, func(v []int) int { return head(v) }, func(v []int) any { return fmt.Sprintf("%#v", v) }}
	kBytes = kind[[]byte]{"[]byte", func(n int) []byte {
		if n == 0 {
			return nil
		}
		return fmt.Append(nil, n)
	}, func(v []byte) int { return atoi(string(v)) }, func(v []byte) any { return fmt.Sprintf("%#v", v) }}
	kNamed = kind[bytes]{"bytes", func(n int) bytes {
		if n == 0 {
			return nil
		}
		return fmt.Append(nil, n)
	}, func(v bytes) int { return atoi(string(v)) }, func(v bytes) any { return fmt.Sprintf("%#v", v) }}
	kMap = kind[map[int]string]{"map", func(n int) map[int]string {
		if n == 0 {
			return nil
		}
		return map[int]string{n: "x"}
	}, func(v map[int]string) int {
		for k := range v {
			return k
		}
		return 0
	}, func(v map[int]string) any { return fmt.Sprintf("%#v", v) }}
	kFunc = kind[func() int]{"func", func(n int) func() int {
		if n == 0 {
			return nil
		}
		return func() int { return n }
	}, call0, func(v func() int) any { return fmt.Sprint(v == nil, call0(v)) }}
	kEmpty     = kind[empty]{"empty", func(int) empty { return empty{} }, func(empty) int { return 0 }, self[empty]}
	kVoid      = kind[void]{"void", func(int) void { return void{} }, func(void) int { return 0 }, self[void]}
	kAnon      = kind[struct{}]{"struct{}", func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 }, self[struct{}]}
	kDistance  = kind[distance]{"distance", func(n int) distance { return distance(n) }, func(v distance) int { return int(v) }, self[distance]}
	kBoxInt    = kind[box[int]]{"box[int]", func(n int) box[int] { return box[int]{n} }, func(v box[int]) int { return v.v }, self[box[int]]}
	kBoxMetres = kind[box[metres]]{"box[metres]", func(n int) box[metres] { return box[metres]{metres(n)} }, func(v box[metres]) int { return int(v.v) }, self[box[metres]]}
	kFloat     = kind[float64]{"float64", func(n int) float64 { return float64(n) / 2 }, func(v float64) int { return int(v * 2) }, self[float64]}
	// reflection calls both same.T
	kSame1 = kind[same1.T]{"x/same.T", func(n int) same1.T { return same1.T{N: n} }, func(v same1.T) int { return v.N }, self[same1.T]}
	kSame2 = kind[same2.T]{"y/same.T", func(n int) same2.T { return same2.T{N: n} }, func(v same2.T) int { return v.N }, self[same2.T]}
	kArray = kind[[2]int]{"array", func(n int) [2]int { return [2]int{n, n} }, func(v [2]int) int { return v[0] }, self[[2]int]}
)

func ref[T any](v T, n int) *T {
	if n == 0 {
		return nil
	}
	return &v
}

func deref[T any](p *T) (v T) {
	if p != nil {
		v = *p
	}
	return
}

func one[T any](v T, n int) []T {
	if n == 0 {
		return nil
	}
	return []T{v}
}

func head(v []int) int {
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

func call0(f func() int) int {
	if f == nil {
		return 0
	}
	return f()
}

func atoi[S ~string](s S) (n int) {
	fmt.Sscan(string(s), &n)
	return
}

var all = func() (res []ops) {
	res = row[int](res, kInt)
	res = row[string](res, kString)
	res = row[metres](res, kMetres)
	res = row[seconds](res, kSeconds)
	res = row[text](res, kText)
	res = row[point](res, kPoint)
	res = row[place](res, kPlace)
	res = row[*int](res, kPtr)
	res = row[[]int](res, kSlice)
	res = row[map[int]string](res, kMap)
	res = row[[2]int](res, kArray)
	res = row[same1.T](res, kSame1)
	res = row[same2.T](res, kSame2)
	res = row[empty](res, kEmpty)
	res = row[void](res, kVoid)
	res = row[struct{}](res, kAnon)
	res = row[[]byte](res, kBytes)
	res = row[bytes](res, kNamed)
	res = row[distance](res, kDistance)
	res = row[box[int]](res, kBoxInt)
	res = row[box[metres]](res, kBoxMetres)
	res = row[func() int](res, kFunc)
	res = row[*point](res, kPointPtr)
	res = row[float64](res, kFloat)
	res = row[any](res, kAny)
	res = row[thing](res, kThing)
	res = row[error](res, kError)
	res = row[fmt.Stringer](res, kStringer)
	res = row[shape](res, kShape)
	return
}()

var number = rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 9), rapid.IntRange(0, 999))

func TestRegistry(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60000, Thorough: 1500000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		var log []call
		for i := range all { // leave nothing of earlier cases
			all[i].unregister()
		}
		model := map[int]int{}
		// a few pairs are used often
		focus := rapid.SliceOfN(rapid.IntRange(0, len(all)-1), 1, 6).Draw(rt, "pairs")
		if rapid.Bool().Draw(rt, "related") {
			// pairs that share the source or the target with the first
			n := 29
			f := focus[0]
			focus = append(focus, f/n*n+rapid.IntRange(0, n-1).Draw(rt, "to"), rapid.IntRange(0, n-1).Draw(rt, "from")*n+f%n, f%n*n+f/n)
		}
		n := rapid.IntRange(1, 80).Draw(rt, "ops")
		id := 0
		check := func(what string, want []call) {
			if len(log) != len(want) || len(want) == 1 && log[0] != want[0] {
				rt.Fatalf("%s called the converters %v, want %v", what, log, want)
			}
			log = log[:0]
		}
		for range n {
			k := rapid.SampledFrom(focus).Draw(rt, "pair")
			if rapid.IntRange(0, 9).Draw(rt, "other") == 0 {
				k = rapid.IntRange(0, len(all)-1).Draw(rt, "any")
			}
			p := all[k]
			have, registered := model[k]
			name := p.from + " to " + p.to
			switch rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 4}).Draw(rt, "op") {
			case 0:
				id++
				c.Logf("register %d for %s", id, name)
				p.register(id, &log)
				c.NonTrivialIf(registered)
				model[k] = id
				check("Register", nil)
			case 1:
				c.Logf("remove %s", name)
				p.unregister()
				c.NonTrivialIf(registered)
				delete(model, k)
				check("Unregister", nil)
			case 2:
				if g := p.exists(); g != registered {
					rt.Fatalf("Exists for %s is %v, want %v", name, g, registered)
				}
				check("Exists", nil)
			case 3:
				n := number.Draw(rt, "n")
				c.Logf("%s with %d", name, n)
				r, ok, want, zero := p.into(n)
				if ok != registered {
					rt.Fatalf("Into for %s succeeded: %v, registered: %v", name, ok, registered)
				}
				w := zero
				var calls []call
				if registered {
					w = want(have)
					calls = []call{{have, all[k].show(n)}}
				}
				if r != w {
					rt.Fatalf("Into for %s with %d gave %v, want %v", name, n, r, w)
				}
				check("Into", calls)
			case 4:
				n, or := number.Draw(rt, "n"), number.Draw(rt, "or")
				c.Logf("%s with %d or %d", name, n, or)
				r, want, fallback := p.intoOr(n, or)
				w := fallback
				var calls []call
				if registered {
					w = want(have)
					calls = []call{{have, all[k].show(n)}}
				}
				if r != w {
					rt.Fatalf("IntoOr for %s with %d or %d gave %v, want %v", name, n, or, r, w)
				}
				check("IntoOr", calls)
			}
		}
		for k, p := range all {
			if _, ok := model[k]; p.exists() != ok {
				rt.Fatalf("at the end Exists for %s to %s is %v, want %v", p.from, p.to, !ok, ok)
			}
		}
	})
}
