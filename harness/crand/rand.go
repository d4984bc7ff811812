// Package rand stands in for crypto/rand: every octet is arbitrary.
package rand

import (
	"errors"
	"io"

	"github.com/jart/gosip/zzv/big"
	"github.com/jart/gosip/zzv/v"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

var Reader io.Reader = reader{}

// Fail makes every call report an error.
var Fail bool

// Sequence makes the octets and numbers a fixed sequence, each draw different
// from the others.
var Sequence bool

// Record makes Drawn the octets handed out; Numbers are the numbers.
var (
	Record  bool
	Drawn   []byte
	Numbers []int64
	// Within restricts the numbers.
	Within func(int64) bool
)

var drawn uint64

// Restart starts the fixed sequence again.
func Restart() { Sequence, drawn = true, 0 }

func Read(b []byte) (int, error) {
	if Fail {
		return 0, errors.New("no entropy")
	}
	if Sequence {
		drawn++
		for i := range b {
			b[i] = byte(drawn*37>>uint(8*(i&1))) ^ byte(i*73)
		}
		return len(b), nil
	}
	for i := range b {
		b[i] = v.Byte()
	}
	if Record {
		Drawn = append(Drawn, b...)
	}
	return len(b), nil
}

// Int returns an arbitrary integer in [0, max).
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if Fail {
		return nil, errors.New("no entropy")
	}
	if Sequence {
		drawn++
		return big.NewInt(int64(drawn*41+100) % max.Int64()), nil
	}
	n := v.Int64()
	v.Assume(v.And(n >= 0, n < max.Int64()))
	if Within != nil {
		v.Assume(Within(n))
	}
	Numbers = append(Numbers, n)
	return big.NewInt(n), nil
}

// Prime is not modelled beyond an arbitrary number of the given size.
func Prime(r io.Reader, bits int) (*big.Int, error) {
	return Int(r, big.NewInt(1<<uint(bits)))
}

// Text returns base32 text of 26 characters.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[v.Byte()&31]
	}
	return string(b)
}
