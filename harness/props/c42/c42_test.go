package c42

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"slices"
	"strconv"
	"testing"
	"unicode/utf8"

	"github.com/unsafe-risk/utilx/typex/convx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "values of all 14 basic types (extremes, powers of two and neighbours, fractions, NaN, infinities, texts of numbers) converted to all 14, against big-number references; " +
	"non-trivial: the value is not zero and the types differ"

// kinds of the fourteen types
const (
	kInt = iota
	kFloat
	kString
	kBool
)

type typ struct {
	name   string
	kind   int
	lo, hi *big.Int // integers
	bits   int      // floats
	gen    func(rt *rapid.T) any
	to     []conv // by target
}

type conv struct {
	exists func() bool
	into   func(v any) (any, bool)
	or     func(v any) (any, bool) // the fallback is never equal to the result; bool: the result is not the fallback
}

func pair[T, R comparable](fallbacks [2]R) conv {
	return conv{
		exists: convx.Exists[T, R],
		into: func(v any) (any, bool) {
			r, ok := convx.Into[T, R](v.(T))
			return r, ok
		},
		or: func(v any) (any, bool) {
			a := convx.IntoOr(v.(T), fallbacks[0])
			b := convx.IntoOr(v.(T), fallbacks[1])
			// a result that does not depend on the fallback was converted
			same := any(a) == any(b) || a != a && b != b
			return a, same
		},
	}
}

func row[T comparable](name string, kind int, g func(rt *rapid.T) any) *typ {
	return &typ{name: name, kind: kind, gen: g, to: []conv{
		pair[T]([2]int8{5, 6}), pair[T]([2]int16{5, 6}), pair[T]([2]int32{5, 6}), pair[T]([2]int64{5, 6}), pair[T]([2]int{5, 6}),
		pair[T]([2]uint8{5, 6}), pair[T]([2]uint16{5, 6}), pair[T]([2]uint32{5, 6}), pair[T]([2]uint64{5, 6}), pair[T]([2]uint{5, 6}),
		pair[T]([2]float32{5, 6}), pair[T]([2]float64{5, 6}), pair[T]([2]string{"a", "b"}), pair[T]([2]bool{false, true}),
	}}
}

type integer interface {
	int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64 | uint
}

func bigOf[T integer](v T) *big.Int {
	if v < 0 {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

func ints[T integer](name string, bits int, signed bool) *typ {
	t := row[T](name, kInt, func(rt *rapid.T) any {
		v := rapid.OneOf(
			rapid.Uint64(), rapid.Uint64Range(0, 300),
			rapid.Custom(func(rt *rapid.T) uint64 {
				return uint64(1)<<rapid.IntRange(0, 63).Draw(rt, "bit") + uint64(rapid.IntRange(-2, 2).Draw(rt, "off"))
			}),
		).Draw(rt, "v")
		if rapid.Bool().Draw(rt, "negate") {
			v = -v
		}
		return T(v)
	})
	one := big.NewInt(1)
	if signed {
		t.lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
	} else {
		t.lo = new(big.Int)
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return t
}

func anyFloat(rt *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(rt, "kind") {
	case 0:
		return rapid.SampledFrom([]float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
			math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 0.5, -0.5, 0.999999999, 1e300, 3.4028236e38, 16777217, 9007199254740993}).Draw(rt, "special")
	case 1:
		return math.Float64frombits(rapid.Uint64().Draw(rt, "bits"))
	case 2:
		return float64(rapid.Int64Range(-1000, 1000).Draw(rt, "n")) / rapid.SampledFrom([]float64{1, 2, 4, 3, 7, 10, 100}).Draw(rt, "d")
	case 3:
		return math.Ldexp(1, rapid.IntRange(0, 65).Draw(rt, "exp")) + float64(rapid.IntRange(-2, 2).Draw(rt, "off"))
	case 4:
		return -math.Ldexp(1, rapid.IntRange(0, 65).Draw(rt, "exp")) + float64(rapid.IntRange(-3, 3).Draw(rt, "off"))/2
	}
	return math.Ldexp(rapid.Float64Range(-1, 1).Draw(rt, "m"), rapid.IntRange(-30, 70).Draw(rt, "exp"))
}

var types []*typ

func init() {
	types = []*typ{
		ints[int8]("int8", 8, true), ints[int16]("int16", 16, true), ints[int32]("int32", 32, true), ints[int64]("int64", 64, true), ints[int]("int", strconv.IntSize, true),
		ints[uint8]("uint8", 8, false), ints[uint16]("uint16", 16, false), ints[uint32]("uint32", 32, false), ints[uint64]("uint64", 64, false), ints[uint]("uint", strconv.IntSize, false),
		row[float32]("float32", kFloat, func(rt *rapid.T) any {
			if rapid.IntRange(0, 3).Draw(rt, "raw") == 0 {
				return math.Float32frombits(rapid.Uint32().Draw(rt, "bits"))
			}
			return float32(anyFloat(rt))
		}),
		row[float64]("float64", kFloat, func(rt *rapid.T) any { return anyFloat(rt) }),
		row[string]("string", kString, nil),
		row[bool]("bool", kBool, func(rt *rapid.T) any { return rapid.Bool().Draw(rt, "b") }),
	}
	types[10].bits, types[11].bits = 32, 64
}

// isNum gives the exact value of a number (nil for NaN and infinities).
func exact(v any) (n *big.Float, f float64, isFloat bool) {
	bf := func() *big.Float { return new(big.Float).SetPrec(2200) }
	switch x := v.(type) {
	case float32:
		f, isFloat = float64(x), true
	case float64:
		f, isFloat = x, true
	default:
		return bf().SetInt(integerOf(v)), 0, false
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, f, true
	}
	return bf().SetFloat64(f), f, true
}

func integerOf(v any) *big.Int {
	switch x := v.(type) {
	case int8:
		return bigOf(x)
	case int16:
		return bigOf(x)
	case int32:
		return bigOf(x)
	case int64:
		return bigOf(x)
	case int:
		return bigOf(x)
	case uint8:
		return bigOf(x)
	case uint16:
		return bigOf(x)
	case uint32:
		return bigOf(x)
	case uint64:
		return bigOf(x)
	case uint:
		return bigOf(x)
	}
	panic("HARNESS-ERROR not an integer")
}

// floatIs compares a float of the given size with the correctly rounded value.
func floatIs(got any, bits int, want *big.Float, f float64) bool {
	var g float64
	if bits == 32 {
		g = float64(got.(float32))
	} else {
		g = got.(float64)
	}
	if want == nil {
		return math.IsNaN(f) && math.IsNaN(g) || g == f
	}
	var w float64
	if bits == 32 {
		w32, _ := want.Float32()
		w = float64(w32)
	} else {
		w, _ = want.Float64()
	}
	if want.Sign() == 0 {
		return g == 0 && math.Signbit(g) == want.Signbit()
	}
	return g == w
}

var decimal = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

func sameValue(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y := b.(float32)
		return x != x && y != y || math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y := b.(float64)
		return x != x && y != y || math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

func zero(v any) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case string:
		return x == ""
	case float32:
		return x == 0
	case float64:
		return x == 0
	}
	return integerOf(v).Sign() == 0
}

func convert(rt *rapid.T, from *typ, j int, v any) any {
	to := types[j]
	cv := from.to[j]
	if !cv.exists() {
		rt.Fatalf("no conversion exists from %s to %s", from.name, to.name)
	}
	r, ok := cv.into(v)
	if !ok {
		rt.Fatalf("the conversion of %s %v to %s failed", from.name, v, to.name)
	}
	r2, conv := cv.or(v)
	if !conv || !sameValue(r, r2) {
		rt.Fatalf("IntoOr of %s %v to %s gives %v, Into %v", from.name, v, to.name, r2, r)
	}
	return r
}

func TestNumbers(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120000, Thorough: 3000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		i := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 11, 11, 11, 13}).Draw(rt, "from")
		from := types[i]
		v := from.gen(rt)
		c.Logf("%s %v", from.name, v)
		c.NonTrivialIf(!zero(v))
		for j, to := range types {
			r := convert(rt, from, j, v)
			fail := func(want any) {
				rt.Helper()
				rt.Fatalf("%s %v (%g) converted to %s is %v, want %v", from.name, v, v, to.name, r, want)
			}
			switch {
			case from.kind == kBool && to.kind == kBool:
				if r != v {
					fail(v)
				}
			case from.kind == kBool && to.kind == kInt:
				if integerOf(r).Int64() != map[bool]int64{true: 1}[v.(bool)] || !integerOf(r).IsInt64() {
					fail("0 or 1")
				}
			case from.kind == kBool && to.kind == kFloat:
				_, f, _ := exact(r)
				if f != map[bool]float64{true: 1}[v.(bool)] {
					fail("0 or 1")
				}
			case to.kind == kBool:
				if r != !zero(v) {
					fail(!zero(v))
				}
			case to.kind == kString:
				s := r.(string)
				if from.kind == kInt && s != integerOf(v).String() {
					fail(integerOf(v).String())
				}
				if _, f, isFloat := exactOrBool(v); isFloat && !math.IsNaN(f) && !math.IsInf(f, 0) && !decimal.MatchString(s) {
					rt.Fatalf("%s %v rendered as %q, which is not decimal text", from.name, v, s)
				}
				if from.kind == kBool && s != fmt.Sprint(v) {
					fail(fmt.Sprint(v))
				}
				if back := convert(rt, types[12], i, s); !sameValue(back, v) {
					rt.Fatalf("%s %v rendered as %q converts back to %v", from.name, v, s, back)
				}
			case to.kind == kFloat:
				want, f, _ := exact(v)
				if want != nil && from.kind == kFloat {
					want = new(big.Float).SetPrec(2200).SetFloat64(f)
				}
				if !floatIs(r, to.bits, want, f) {
					fail("the nearest")
				}
			case from.kind == kInt: // wraps around
				w := integerOf(v)
				span := new(big.Int).Sub(to.hi, to.lo)
				span.Add(span, big.NewInt(1))
				m := new(big.Int).Sub(w, to.lo)
				m.Mod(m, span).Add(m, to.lo)
				if integerOf(r).Cmp(m) != 0 {
					fail(m)
				}
			default: // float to integer: toward zero when in range, anything but a panic otherwise
				want, _, _ := exact(v)
				if want == nil {
					break
				}
				w, _ := want.Int(nil)
				if w.Cmp(to.lo) < 0 || w.Cmp(to.hi) > 0 {
					c.Label("float out of the range of an integer")
					break
				}
				if integerOf(r).Cmp(w) != 0 {
					fail(w)
				}
			}
		}
	})
}

func exactOrBool(v any) (*big.Float, float64, bool) {
	if _, ok := v.(bool); ok {
		return nil, 0, false
	}
	return exact(v)
}

// TestText converts texts of numbers that the target can hold, and other texts.
func TestText(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200000, Thorough: 5000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		j := rapid.IntRange(0, 13).Draw(rt, "to")
		to := types[j]
		var s string
		check := func(want any, ok func(r any) bool) {
			c.Logf("%q to %s", s, to.name)
			c.NonTrivial()
			if r := convert(rt, types[12], j, s); !ok(r) {
				rt.Fatalf("the text %q converted to %s is %v, want %v", s, to.name, r, want)
			}
		}
		if rapid.IntRange(0, 4).Draw(rt, "any") == 0 { // any text at all: no panic, not the fallback
			s = rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "-", "+", "1e400", "-1e400", "99999999999999999999999", "-1", "256", "0x10", "1_0", " 1", "nan", "inf", "12.5", "TRUE", "t", "yes", "1e", ".", "\x00"})).Draw(rt, "text")
			c.Logf("%q to %s", s, to.name)
			r := convert(rt, types[12], j, s)
			if to.kind == kString && r != any(s) {
				rt.Fatalf("the text %q became %q", s, r)
			}
			return
		}
		switch to.kind {
		case kInt:
			n := integerOf(to.gen(rt))
			if rapid.IntRange(0, 5).Draw(rt, "extreme") == 0 {
				n = rapid.SampledFrom([]*big.Int{to.lo, to.hi, new(big.Int).Rsh(to.hi, 1)}).Draw(rt, "extreme")
			}
			s = n.String()
			if n.Sign() >= 0 {
				s = rapid.SampledFrom([]string{"", "", "0", "000000000000000000000000"}).Draw(rt, "zeros") + s
			}
			check(n, func(r any) bool { return integerOf(r).Cmp(n) == 0 })
		case kFloat:
			v := to.gen(rt)
			n, f, _ := exact(v)
			if n == nil {
				s = rapid.SampledFrom([]string{strconv.FormatFloat(f, 'g', -1, 64)}).Draw(rt, "inf")
				check(f, func(r any) bool { return floatIs(r, to.bits, nil, f) })
				return
			}
			switch rapid.IntRange(0, 4).Draw(rt, "form") {
			case 0: // all digits
				s = n.Text('f', 1200)
			case 1:
				s = strconv.FormatFloat(f, 'e', -1, 64)
			case 2:
				s = strconv.FormatFloat(f, 'f', -1, 64)
			case 3:
				s = strconv.FormatFloat(f, 'g', 40, 64)
			case 4:
				k := rapid.Int64Range(-1<<24, 1<<24).Draw(rt, "k")
				s = strconv.FormatInt(k, 10)
				n = new(big.Float).SetPrec(2200).SetInt64(k)
			}
			check(n, func(r any) bool { return floatIs(r, to.bits, n, 0) })
		case kBool:
			b := rapid.Bool().Draw(rt, "b")
			s = map[bool][]string{true: {"true", "1"}, false: {"false", "0"}}[b][rapid.IntRange(0, 1).Draw(rt, "form")]
			check(b, func(r any) bool { return r == b })
		case kString:
			s = rapid.String().Draw(rt, "s")
			check(s, func(r any) bool { return r == any(s) })
		}
	})
}

// TestSlices converts between text, bytes and runes.
func TestSlices(t *testing.T) {
	rule := "texts, byte and rune slices with every kind of content, converted both ways; non-trivial: not plain ASCII"
	pbt.Check(t, pbt.Opts{Quick: 100000, Thorough: 2000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		if !convx.Exists[string, []byte]() || !convx.Exists[[]byte, string]() || !convx.Exists[string, []rune]() || !convx.Exists[[]rune, string]() {
			rt.Fatalf("a conversion between text, bytes and runes is missing")
		}
		var b []byte
		if rapid.Bool().Draw(rt, "text") {
			b = []byte(rapid.String().Draw(rt, "s"))
		} else {
			b = gen.BytesN(rt, "b", pbt.Len(rt, "n", 500))
		}
		s := string(b)
		c.Logf("%q", s)
		c.NonTrivialIf(!slices.Equal([]rune(s), func() (r []rune) {
			for _, x := range b {
				r = append(r, rune(x))
			}
			return
		}()))
		if g, ok := convx.Into[string, []byte](s); !ok || string(g) != s || string(convx.IntoOr(s, []byte("fallback?"))) != s {
			rt.Fatalf("%q to bytes is %q %v", s, g, ok)
		} else if len(g) > 0 {
			g[0] ^= 1 // the text must not change
			if s != string(b) {
				rt.Fatalf("the bytes converted from a text share its memory")
			}
		}
		if g, ok := convx.Into[[]byte, string](b); !ok || g != s || convx.IntoOr(b, "fallback?") != s {
			rt.Fatalf("bytes %q to text is %q %v", b, g, ok)
		} else if len(b) > 0 {
			keep := string([]byte(g))
			b[0] ^= 1
			if g != keep {
				rt.Fatalf("the text converted from bytes changes with them")
			}
			b[0] ^= 1
		}
		var want []rune
		for i := 0; i < len(s); {
			r, n := utf8.DecodeRuneInString(s[i:])
			want = append(want, r)
			i += n
		}
		g, ok := convx.Into[string, []rune](s)
		if !ok || !slices.Equal(g, want) || !slices.Equal(convx.IntoOr(s, []rune("fallback?")), want) {
			rt.Fatalf("%q to runes is %v %v", s, g, ok)
		}
		if rapid.IntRange(0, 3).Draw(rt, "wild") == 0 {
			want = append(want, rapid.SampledFrom([]rune{-1, 0xd800, 0x110000, 0x10ffff, 0, 1<<31 - 1}).Draw(rt, "rune"))
		}
		var enc []byte
		for _, r := range want {
			enc = utf8.AppendRune(enc, r)
		}
		if g, ok := convx.Into[[]rune, string](want); !ok || g != string(enc) || convx.IntoOr(want, "fallback?") != string(enc) {
			rt.Fatalf("runes %v to text is %q %v", want, g, ok)
		}
		same(rt, b, []byte("fallback?"))
		same(rt, want, []rune("fallback?"))
	})
}

// same converts bytes or runes to themselves.
func same[E byte | rune](rt *rapid.T, v, other []E) {
	keep := slices.Clone(v)
	if g, ok := convx.Into[[]E, []E](v); !convx.Exists[[]E, []E]() || !ok || !slices.Equal(g, keep) || !slices.Equal(convx.IntoOr(v, other), keep) {
		rt.Fatalf("%v converted to its own type is %v %v", keep, g, ok)
	}
	if !slices.Equal(v, keep) {
		rt.Fatalf("a conversion changed its input %v to %v", keep, v)
	}
}

type (
	otherInt  int
	otherText string
	record    struct{ a int }
)

// TestMissing uses pairs for which no converter exists.
func TestMissing(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 40000, Rule: "conversions between pairs without a converter; non-trivial: all"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.Int().Draw(rt, "n")
		c.Logf("%d", n)
		c.NonTrivial()
		missing(rt, otherInt(n), n, n+1)
		missing(rt, n, otherInt(n), otherInt(n)+1)
		missing(rt, record{n}, n, n-1)
		missing(rt, n, record{n}, record{n + 1})
		missing(rt, otherText(fmt.Sprint(n)), "x", "y")
		missing(rt, fmt.Sprint(n), otherText("x"), otherText("y"))
		missing(rt, complex(float64(n), 0), float64(n), 1)
		missing(rt, &n, n, n+1)
		missing(rt, uintptr(n), uint64(n), 4)
	})
}

func missing[T any, R comparable](rt *rapid.T, v T, f1, f2 R) {
	if convx.Exists[T, R]() {
		rt.Fatalf("a conversion exists from %T to %T", v, f1)
	}
	var z R
	if r, ok := convx.Into[T, R](v); ok || r != z {
		rt.Fatalf("the conversion from %T to %T gave %v %v", v, f1, r, ok)
	}
	for _, f := range []R{f1, f2} {
		if r := convx.IntoOr(v, f); r != f {
			rt.Fatalf("IntoOr from %T to %T gave %v, not the fallback %v", v, f1, r, f)
		}
	}
}
