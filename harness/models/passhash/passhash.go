// Package passhash is an independent writer of the stored password-hash format.
package passhash

import (
	"encoding/binary"

	"golang.org/x/crypto/argon2"
)

// Param is (passes, KiB, lanes) of one algorithm number.
type Param struct {
	Time, Mem uint32
	Lanes     uint8
}

// Params by algorithm number: high, low, mobile high, mobile low.
var Params = [4]Param{{20, 64 << 10, 4}, {32, 4 << 10, 1}, {4, 37 << 10, 1}, {8, 15 << 10, 1}}

// Digest computes the Argon2id digest of an algorithm number.
func Digest(alg int, pw, salt []byte) []byte {
	p := Params[alg]
	return argon2.IDKey(pw, salt, p.Time, p.Mem, p.Lanes, 32)
}

// Encode writes the stored form with the given end offsets.
func Encode(alg byte, saltEnd, digestEnd uint64, salt, digest []byte) []byte {
	b := []byte{alg}
	b = binary.LittleEndian.AppendUint64(b, saltEnd)
	b = binary.LittleEndian.AppendUint64(b, digestEnd)
	b = append(b, salt...)
	return append(b, digest...)
}

// Make hashes pw with the given salt.
func Make(alg int, pw, salt []byte) []byte {
	return Encode(byte(alg), uint64(17+len(salt)), uint64(17+len(salt)+32), salt, Digest(alg, pw, salt))
}
