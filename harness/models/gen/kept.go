package gen

import (
	"fmt"
	"maps"
	"slices"
)

// Kept remembers what calls returned, together with copies, to see that later calls leave it alone.
type Kept struct {
	all    []func() string
	append []func()
}

// KeepList remembers a list that belongs to the caller, with the room behind it.
func KeepList[T any](k *Kept, what string, got []T) {
	copy := slices.Clone(got)
	room := got[len(got):cap(got)]
	room = room[:min(len(room), 64)]
	k.append = append(k.append, func() {
		for i := range room {
			if len(got) > 0 {
				room[i] = got[i%len(got)]
			}
		}
	})
	k.all = append(k.all, func() string {
		if !SameAll(got, copy) {
			return fmt.Sprintf("%s returned earlier changed from %v to %v", what, copy, got)
		}
		return ""
	})
	k.trim()
}

// KeepMap remembers a map that belongs to the caller.
func KeepMap[K comparable, V any](k *Kept, what string, got map[K]V) {
	copy := maps.Clone(got)
	k.append = append(k.append, func() {})
	k.all = append(k.all, func() string {
		if len(got) != len(copy) || !maps.EqualFunc(got, copy, Same[V]) {
			return fmt.Sprintf("%s returned earlier changed from %v to %v", what, copy, got)
		}
		return ""
	})
	k.trim()
}

func (k *Kept) trim() {
	if len(k.all) > 24 {
		k.all = slices.Delete(k.all, 8, 16)
		k.append = slices.Delete(k.append, 8, 16)
	}
}

// Changed says what changed, or nothing. The caller appends to its lists first.
func (k *Kept) Changed() string {
	for _, f := range k.append {
		f()
	}
	for _, f := range k.all {
		if s := f(); s != "" {
			return s
		}
	}
	return ""
}
