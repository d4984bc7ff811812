// Package big stands in for math/big for values that fit an int64.
package big

import "strconv"

type Int struct{ n int64 }

func NewInt(n int64) *Int { return &Int{n} }

func (x *Int) Int64() int64   { return x.n }
func (x *Int) Uint64() uint64 { return uint64(x.n) }
func (x *Int) IsInt64() bool  { return true }
func (x *Int) Sign() int {
	if x.n < 0 {
		return -1
	} else if x.n > 0 {
		return 1
	}
	return 0
}
func (x *Int) String() string        { return strconv.FormatInt(x.n, 10) }
func (x *Int) Text(base int) string  { return strconv.FormatInt(x.n, base) }
func (x *Int) SetInt64(n int64) *Int { x.n = n; return x }
func (x *Int) Set(y *Int) *Int       { x.n = y.n; return x }
func (x *Int) Add(a, b *Int) *Int    { x.n = a.n + b.n; return x }
func (x *Int) Sub(a, b *Int) *Int    { x.n = a.n - b.n; return x }
func (x *Int) Cmp(y *Int) int {
	if x.n < y.n {
		return -1
	} else if x.n > y.n {
		return 1
	}
	return 0
}

func (x *Int) SetUint64(n uint64) *Int { x.n = int64(n); return x }
func (x *Int) IsUint64() bool          { return x.n >= 0 }
func (x *Int) Mul(a, b *Int) *Int      { x.n = a.n * b.n; return x }
func (x *Int) Div(a, b *Int) *Int      { x.n = a.n / b.n; return x }
func (x *Int) Mod(a, b *Int) *Int      { x.n = a.n % b.n; return x }
func (x *Int) Quo(a, b *Int) *Int      { x.n = a.n / b.n; return x }
func (x *Int) Rem(a, b *Int) *Int      { x.n = a.n % b.n; return x }
func (x *Int) Neg(a *Int) *Int         { x.n = -a.n; return x }
func (x *Int) And(a, b *Int) *Int      { x.n = a.n & b.n; return x }
func (x *Int) Or(a, b *Int) *Int       { x.n = a.n | b.n; return x }
func (x *Int) Lsh(a *Int, n uint) *Int { x.n = a.n << n; return x }
func (x *Int) Rsh(a *Int, n uint) *Int { x.n = a.n >> n; return x }
func (x *Int) Exp(a, b, m *Int) *Int {
	r := int64(1)
	for i := int64(0); i < b.n; i++ {
		r *= a.n
		if m != nil && m.n != 0 {
			r %= m.n
		}
	}
	x.n = r
	return x
}

// SetBytes takes at most eight octets, the last ones.
func (x *Int) SetBytes(b []byte) *Int {
	x.n = 0
	for _, c := range b {
		x.n = x.n<<8 | int64(c)
	}
	return x
}
