package gen

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

// Same reports whether a and b are the same value to the last bit: floating-point numbers by
// their bits, slices, maps and functions by what they refer to, the rest part by part.
func Same[T any](a, b T) bool {
	switch any((*T)(nil)).(type) {
	case *int:
		return *(*int)(unsafe.Pointer(&a)) == *(*int)(unsafe.Pointer(&b))
	case *byte:
		return *(*byte)(unsafe.Pointer(&a)) == *(*byte)(unsafe.Pointer(&b))
	case *string:
		return *(*string)(unsafe.Pointer(&a)) == *(*string)(unsafe.Pointer(&b))
	case **int:
		return *(**int)(unsafe.Pointer(&a)) == *(**int)(unsafe.Pointer(&b))
	case *struct{}:
		return true
	case *float64:
		return *(*uint64)(unsafe.Pointer(&a)) == *(*uint64)(unsafe.Pointer(&b))
	case *[]int:
		return *(*row)(unsafe.Pointer(&a)) == *(*row)(unsafe.Pointer(&b))
	case *Record:
		return *(*record)(unsafe.Pointer(&a)) == *(*record)(unsafe.Pointer(&b))
	case *any:
		// most are the same word for word
		if *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b)) {
			return true
		}
	}
	return ID(a) == ID(b)
}

// row and record are laid out like []int and Record.
type row [3]uintptr

type record struct {
	n    int
	row  row
	f    uint64
	cell *int
}

func SameAll[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ID identifies a value: same values, and no others, have equal identities. It can be a map key.
func ID(v any) any {
	switch v := v.(type) {
	case nil, bool, int, string, *int, struct{}, byte, [5]int, [2]int:
		return v
	}
	var b strings.Builder
	id(&b, reflect.ValueOf(&v).Elem())
	return [1]string{b.String()}
}

func id(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%v:", v.Elem().Type())
		id(b, v.Elem())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprintf(b, "%x,%x", math.Float64bits(real(v.Complex())), math.Float64bits(imag(v.Complex())))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Slice:
		fmt.Fprintf(b, "%x/%d/%d", v.Pointer(), v.Len(), v.Cap())
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		fmt.Fprintf(b, "%x", v.Pointer())
	case reflect.Array:
		b.WriteByte('[')
		for i := range v.Len() {
			id(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := range v.NumField() {
			id(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	}
}
