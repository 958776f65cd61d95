package gen

import "math"

func mix(i int) uint64 {
	x := (uint64(i) + 1) * 0x9e3779b97f4a7c15
	return x ^ x>>29
}

var cells [3]int

// Elements of several kinds, made from their number. Few, MaybeNil, Any and Text repeat
// themselves and contain the zero value of their type; Empty is nothing but that.

func Number(i int) int { return i }

func Few(i int) int { return int(mix(i) % 3) }

func MaybeNil(i int) *int {
	if k := mix(i) % 4; k < 3 {
		return &cells[k]
	}
	return nil
}

func Any(i int) any {
	switch mix(i) % 7 {
	case 0, 1:
		return nil
	case 2:
		return 0
	case 3:
		return ""
	case 4:
		return false
	case 5:
		return [2]int{i, -i}
	}
	return i
}

func Text(i int) string {
	return [...]string{"", "", "a", "b", "a long text that fills more than a word"}[mix(i)%5]
}

func Empty(int) struct{} { return struct{}{} }

func Array(i int) [5]int { return [5]int{i, 1, 2, 3, i} }

func Pointer(i int) *int { return &i }

var floats = [...]float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(0x7ff8dead00000000), 1, math.Inf(1)}

// Floats are told apart by their bits: both zeros and two values that are not equal to themselves are among them.
func Floats(i int) float64 { return floats[mix(i)%uint64(len(floats))] }

var rows = [...][]int{nil, {}, {1, 2}, {1, 2}, make([]int, 2, 8), {0, 0}, {1, 2, 3}}

// Rows cannot be compared, and some of them have the same content.
func Rows(i int) []int { return rows[mix(i)%uint64(len(rows))] }

var tables = [...]map[int]int{nil, {}, {}, {1: 2}, {1: 2}}

// Loose values have types that can and types that cannot be compared.
func Loose(i int) any {
	switch mix(i) % 6 {
	case 0:
		return Rows(i >> 1)
	case 1:
		return tables[mix(i)>>32%uint64(len(tables))]
	case 2:
		return Floats(i >> 1)
	case 3:
		return nil
	case 4:
		return i
	}
	return Record{i & 1, Rows(i >> 1), Floats(i >> 2), &cells[0]}
}

// Record has parts that cannot be compared.
type Record struct {
	N    int
	Row  []int
	F    float64
	Cell *int
}

func Records(i int) Record { return Record{i & 1, Rows(i >> 1), Floats(i >> 2), &cells[i%3]} }
