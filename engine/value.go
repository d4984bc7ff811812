package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integer, float64), Str, Ptr, *SymPtr, Slice,
// Iface, *FuncVal, MapRef, ChanRef, Agg (struct or array, flattened), Tuple,
// *StrIter, *MapIter.
type Value interface{}

// Str is a string of concrete length. With t == nil it is the constant s.
type Str struct {
	s string
	t []*Term
}

func (a Str) len() int {
	if a.t != nil {
		return len(a.t)
	}
	return len(a.s)
}

// ObjID names a heap object; bit 30 set means the shared base heap.
type ObjID int32

const baseBit ObjID = 1 << 30

type Ptr struct {
	obj ObjID
	off int32
}

// SymPtr points at cell base+sym*stride, 0 <= sym < n.
type SymPtr struct {
	obj    ObjID
	off    int32
	sym    *Term // 64-bit
	n      int32
	stride int32
	rest   int32 // further constant offset inside the element
}

type Slice struct {
	obj           ObjID
	off, len, cap int32 // off in cells; len and cap in elements
}

type Iface struct {
	t types.Type
	v Value
}

type FuncVal struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}

type MapRef struct{ obj ObjID }
type ChanRef struct{ obj ObjID }
type Agg []Value
type Tuple []Value

type StrIter struct {
	s   Str
	pos int
}
type MapIter struct {
	keys []Value
	m    ObjID
	pos  int
}

type Object struct {
	owner uint64
	cells []Value
	typ   types.Type // element type for diagnostics
	m     *MapObj
	ch    *ChanObj
}

type MapObj struct {
	keys, vals []Value
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	timer  bool
	elem   types.Type
}

// ---- type layout ----

type Layout struct {
	sizes  map[types.Type]int
	fields map[*types.Struct][]int
}

func (l *Layout) size(t types.Type) int {
	if n, ok := l.sizes[t]; ok {
		return n
	}
	var n int
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += l.size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * l.size(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			n += l.size(u.At(i).Type())
		}
	default:
		n = 1
	}
	l.sizes[t] = n
	return n
}

func (l *Layout) fieldOff(s *types.Struct, i int) int {
	offs, ok := l.fields[s]
	if !ok {
		o := 0
		for j := 0; j < s.NumFields(); j++ {
			offs = append(offs, o)
			o += l.size(s.Field(j).Type())
		}
		l.fields[s] = offs
	}
	return offs[i]
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// intWidth returns the bit width of a basic integer/bool/float type.
func basicWidth(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	case types.Float64, types.UntypedFloat, types.Float32:
		return WFloat, true
	}
	return 255, false
}

func (c *Ctx) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		w, _ := basicWidth(u)
		if w == 255 {
			panic(unsupported{"type " + t.String()})
		}
		return c.tm.konst(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncVal)(nil)
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Struct, *types.Array:
		n := c.lay.size(t)
		a := make(Agg, 0, n)
		return Agg(c.zeroCells(t, a))
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = c.zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported{"zero of " + t.String()})
}

func (c *Ctx) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = c.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		st := len(out)
		out = c.zeroCells(u.Elem(), out)
		el := out[st:len(out):len(out)]
		for i := 1; i < n; i++ {
			out = append(out, el...)
		}
		return out
	}
	return append(out, c.zero(t))
}

func (c *Ctx) strBytes(s Str) []*Term {
	if s.t != nil {
		return s.t
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = c.tm.konst(8, uint64(s.s[i]))
	}
	return out
}

func (c *Ctx) mkStr(t []*Term) Str {
	if len(t) == 0 {
		return Str{}
	}
	for _, x := range t {
		if x.op != OConst {
			return Str{t: t}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.val)
	}
	return Str{s: string(b)}
}

func (c *Ctx) strAt(s Str, i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return c.tm.konst(8, uint64(s.s[i]))
}

func (c *Ctx) subStr(s Str, lo, hi int) Str {
	if s.t != nil {
		return c.mkStr(s.t[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (c *Ctx) concatStr(a, b Str) Str {
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	out := make([]*Term, 0, a.len()+b.len())
	out = append(out, c.strBytes(a)...)
	out = append(out, c.strBytes(b)...)
	return Str{t: out}
}

func (c *Ctx) strEq(a, b Str) *Term {
	if a.len() != b.len() {
		return c.tm.False
	}
	if a.t == nil && b.t == nil {
		return c.tm.boolConst(a.s == b.s)
	}
	r := c.tm.True
	for i := 0; i < a.len(); i++ {
		e := c.tm.eq(c.strAt(a, i), c.strAt(b, i))
		if e == c.tm.False {
			return e
		}
		r = c.tm.and(r, e)
	}
	return r
}

func (c *Ctx) strLess(a, b Str) *Term {
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	r := c.tm.boolConst(a.len() < b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := c.strAt(a, i), c.strAt(b, i)
		r = c.tm.or(c.tm.cmp(OUlt, x, y), c.tm.and(c.tm.eq(x, y), r))
	}
	return r
}

func (c *Ctx) str(s string) Str { return Str{s: s} }

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<unset>"
	case *Term:
		return showTerm(v, 4)
	case Str:
		if v.t == nil {
			return fmt.Sprintf("%q", v.s)
		}
		return fmt.Sprintf("str/%d", len(v.t))
	case Iface:
		if v.t == nil {
			return "nil-iface"
		}
		return "iface(" + v.t.String() + ":" + showVal(v.v) + ")"
	case *FuncVal:
		if v == nil {
			return "nil-func"
		}
		return "func " + v.fn.String()
	}
	return fmt.Sprintf("%T%v", v, v)
}

func showTerm(t *Term, d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d", sext(t.val, t.w))
	case OVar:
		return fmt.Sprintf("v%d", t.sv)
	case OIn:
		return fmt.Sprintf("v%d∈%d", t.sv, t.set.count())
	}
	if d == 0 {
		return "…"
	}
	var a []string
	for _, x := range t.args {
		a = append(a, showTerm(x, d-1))
	}
	n := smtOps[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	return "(" + n + " " + strings.Join(a, " ") + ")"
}

type unsupported struct{ why string }
