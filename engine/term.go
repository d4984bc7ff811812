package main

// Hash-consed terms over booleans, bit-vectors (up to 64 bits) and float64.
// Any boolean that depends on a single variable of at most 8 bits is kept in a
// canonical form: membership of that variable in a 256-entry set.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OIn // bool: args[0] (a Var of w<=8) in set
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = low bit
	OZExt
	OSExt
	OConcat
	// float64
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OSToF // signed bv -> float64
	OUToF
	OFToS // float64 -> signed bv (round toward zero), only used in range
	OFOfBits
)

const WFloat = 65 // sort code of float64
const WBool = 0

type Set [4]uint64

func (s *Set) has(b uint64) bool { return s[b>>6]>>(b&63)&1 != 0 }
func (s *Set) add(b uint64)      { s[b>>6] |= 1 << (b & 63) }
func (s *Set) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *Set) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *Set) first() uint64 {
	for i, w := range s {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}
func fullSet(w uint8) Set {
	var s Set
	n := 1 << w
	for i := 0; i < n; i++ {
		s.add(uint64(i))
	}
	return s
}
func (s Set) and(o Set) Set {
	return Set{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s Set) or(o Set) Set {
	return Set{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}
func (s Set) minus(o Set) Set {
	return Set{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}

type Term struct {
	id   int32
	op   Op
	w    uint8 // 0 bool, 1..64 bit-vector, 65 float64
	nv   int8  // number of distinct variables: 0, 1, or 2 meaning "several"
	val  uint64
	sv   int32 // the variable when nv == 1
	args []*Term
	set  *Set
	vars []int32 // sorted support when nv == 2 (lazy)

	evEp  uint64
	evVal uint64
	smtEp uint32 // solver generation in which the node was defined
}

func (t *Term) isConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	a, b, c    int32
	s0, s1, s2 uint64
	s3         uint64
}

type VarInfo struct {
	w    uint8
	name string
	t    *Term
}

type TM struct {
	hasFloat bool
	tab      map[termKey]*Term
	n        int32
	vars     []VarInfo
	small    [66][257]*Term
	True     *Term
	False    *Term
	epoch    uint64
	full     [9]Set
}

func newTM() *TM {
	m := &TM{tab: map[termKey]*Term{}}
	for i := range m.full {
		m.full[i] = fullSet(uint8(i))
	}
	m.False = m.konst(0, 0)
	m.True = m.konst(0, 1)
	return m
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (m *TM) konst(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := m.small[w][v]; t != nil {
			return t
		}
	}
	t := m.intern(OConst, w, v, nil, nil)
	if v <= 256 {
		m.small[w][v] = t
	}
	return t
}

func (m *TM) boolConst(b bool) *Term {
	if b {
		return m.True
	}
	return m.False
}

func (m *TM) fconst(f float64) *Term { return m.intern(OConst, WFloat, math.Float64bits(f), nil, nil) }

func (m *TM) newVar(w uint8, name string) *Term {
	id := int32(len(m.vars))
	t := m.intern(OVar, w, uint64(id), nil, nil)
	t.nv, t.sv = 1, id
	m.vars = append(m.vars, VarInfo{w, name, t})
	return t
}

func (m *TM) intern(op Op, w uint8, val uint64, args []*Term, set *Set) *Term {
	k := termKey{op: op, w: w, val: val, a: -1, b: -1, c: -1}
	switch len(args) {
	case 3:
		k.c = args[2].id
		fallthrough
	case 2:
		k.b = args[1].id
		fallthrough
	case 1:
		k.a = args[0].id
	}
	if set != nil {
		k.s0, k.s1, k.s2, k.s3 = set[0], set[1], set[2], set[3]
	}
	if t, ok := m.tab[k]; ok {
		return t
	}
	if w == WFloat {
		m.hasFloat = true
	}
	t := &Term{id: m.n, op: op, w: w, val: val, set: set, sv: -1}
	m.n++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if a.nv == 0 {
				continue
			}
			if t.nv == 0 {
				t.nv, t.sv = a.nv, a.sv
			} else if a.nv == 2 || t.nv == 2 || a.sv != t.sv {
				t.nv, t.sv = 2, -1
			}
		}
	}
	m.tab[k] = t
	return t
}

// support returns the sorted variable set of t.
func (m *TM) support(t *Term) []int32 {
	switch t.nv {
	case 0:
		return nil
	case 1:
		return []int32{t.sv}
	}
	if t.vars != nil {
		return t.vars
	}
	seen := map[*Term]bool{}
	vs := map[int32]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.nv == 0 || seen[t] {
			return
		}
		seen[t] = true
		if t.nv == 1 {
			vs[t.sv] = true
			return
		}
		if t.vars != nil {
			for _, v := range t.vars {
				vs[v] = true
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	t.vars = out
	return out
}

// smallVar reports the variable t depends on if it is the only one and at most
// 8 bits wide.
func (m *TM) smallVar(t *Term) (int32, bool) {
	if t.nv == 1 && m.vars[t.sv].w <= 8 {
		return t.sv, true
	}
	return -1, false
}

// table evaluates t for every value of its only (small) variable.
func (m *TM) table(t *Term) []uint64 {
	w := m.vars[t.sv].w
	n := 1 << w
	if w == 0 {
		n = 2
	}
	out := make([]uint64, n)
	for i := 0; i < n; i++ {
		m.epoch++
		m.vars[t.sv].t.evEp, m.vars[t.sv].t.evVal = m.epoch, uint64(i)
		out[i] = m.eval(t)
	}
	return out
}

// begin starts an evaluation under a new assignment; set assigns a variable.
func (m *TM) begin() { m.epoch++ }
func (m *TM) assign(v int32, x uint64) {
	t := m.vars[v].t
	t.evEp, t.evVal = m.epoch, x&mask(t.w)
}

func (m *TM) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	}
	if t.evEp == m.epoch {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		v = 0 // unassigned: zero
	case OIn:
		if t.set.has(m.eval(t.args[0])) {
			v = 1
		}
	case ONot:
		v = 1 - m.eval(t.args[0])
	case OAnd:
		v = m.eval(t.args[0])
		if v != 0 {
			v = m.eval(t.args[1])
		}
	case OOr:
		v = m.eval(t.args[0])
		if v == 0 {
			v = m.eval(t.args[1])
		}
	case OIte:
		if m.eval(t.args[0]) != 0 {
			v = m.eval(t.args[1])
		} else {
			v = m.eval(t.args[2])
		}
	default:
		a := m.eval(t.args[0])
		var b uint64
		if len(t.args) > 1 {
			b = m.eval(t.args[1])
		}
		bw := uint8(0)
		if len(t.args) > 1 {
			bw = t.args[1].w
		}
		v = evalOp(t.op, t.w, t.args[0].w, bw, t.val, a, b)
	}
	t.evEp, t.evVal = m.epoch, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(op Op, w, aw, bw uint8, val, a, b uint64) uint64 {
	f := math.Float64frombits
	fb := math.Float64bits
	switch op {
	case OEq:
		return b2u(a == b) // bitwise; floats use OFEq
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case OBNot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OExtract:
		return (a >> val) & mask(w)
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, aw)) & mask(w)
	case OConcat:
		return (a<<bw | b) & mask(w)
	case OFAdd:
		return fb(f(a) + f(b))
	case OFSub:
		return fb(f(a) - f(b))
	case OFMul:
		return fb(f(a) * f(b))
	case OFDiv:
		return fb(f(a) / f(b))
	case OFNeg:
		return fb(-f(a))
	case OFAbs:
		return fb(math.Abs(f(a)))
	case OFSqrt:
		return fb(math.Sqrt(f(a)))
	case OFLt:
		return b2u(f(a) < f(b))
	case OFLe:
		return b2u(f(a) <= f(b))
	case OFEq:
		return b2u(f(a) == f(b))
	case OSToF:
		return fb(float64(sext(a, aw)))
	case OUToF:
		return fb(float64(a))
	case OFToS:
		x := f(a)
		if x != x || x >= 9.3e18 || x <= -9.3e18 {
			return 1 << 63 & mask(w)
		}
		return uint64(int64(x)) & mask(w)
	case OFOfBits:
		return a
	}
	panic(fmt.Sprint("evalOp: ", op))
}

// canon turns a boolean over one small variable into set form.
func (m *TM) canon(t *Term) *Term {
	if t.op == OIn || t.op == OConst || t.w != 0 {
		return t
	}
	if v, ok := m.smallVar(t); ok {
		tab := m.table(t)
		var s Set
		for i, x := range tab {
			if x != 0 {
				s.add(uint64(i))
			}
		}
		return m.in(v, s)
	}
	return t
}

func (m *TM) in(v int32, s Set) *Term {
	w := m.vars[v].w
	if w == 0 {
		// boolean variable
		f := Set{3}
		s = s.and(f)
		if s.empty() {
			return m.False
		}
		if s == f {
			return m.True
		}
	} else {
		s = s.and(m.full[w])
		if s.empty() {
			return m.False
		}
		if s == m.full[w] {
			return m.True
		}
	}
	sc := s
	return m.intern(OIn, 0, 0, []*Term{m.vars[v].t}, &sc)
}

func (m *TM) asIn(t *Term) (int32, *Set, bool) {
	if t.op == OIn {
		return t.sv, t.set, true
	}
	if t.op == OVar && t.w == 0 {
		return t.sv, &Set{2}, true
	}
	return 0, nil, false
}

func (m *TM) not(a *Term) *Term {
	switch a.op {
	case OConst:
		return m.boolConst(a.val == 0)
	case ONot:
		return a.args[0]
	case OIn:
		w := m.vars[a.sv].w
		f := Set{3}
		if w > 0 {
			f = m.full[w]
		}
		return m.in(a.sv, f.minus(*a.set))
	case OVar:
		return m.in(a.sv, Set{1})
	}
	return m.intern(ONot, 0, 0, []*Term{a}, nil)
}

func (m *TM) and(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if va, sa, ok := m.asIn(a); ok {
		if vb, sb, ok := m.asIn(b); ok && va == vb {
			return m.in(va, sa.and(*sb))
		}
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return m.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.intern(OAnd, 0, 0, []*Term{a, b}, nil)
}

func (m *TM) or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return b
		}
		return a
	}
	if va, sa, ok := m.asIn(a); ok {
		if vb, sb, ok := m.asIn(b); ok && va == vb {
			return m.in(va, sa.or(*sb))
		}
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return m.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.intern(OOr, 0, 0, []*Term{a, b}, nil)
}

func (m *TM) ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.val != 0 {
				return c
			}
			return m.not(c)
		}
		if a.op == OConst {
			if a.val != 0 {
				return m.or(c, b)
			}
			return m.and(m.not(c), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return m.or(m.not(c), a)
			}
			return m.and(c, a)
		}
	}
	if c.op == ONot {
		return m.ite(c.args[0], b, a)
	}
	// ite(c, ite(c, x, y), b)
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if b.op == OIte && b.args[1] == a {
		return m.ite(m.or(c, b.args[0]), a, b.args[2])
	}
	if a == b {
		return a
	}
	return m.canon(m.intern(OIte, a.w, 0, []*Term{c, a, b}, nil))
}

func iteConstLeaves(t *Term, depth int) bool {
	if t.op == OConst {
		return true
	}
	return t.op == OIte && depth > 0 && iteConstLeaves(t.args[1], depth-1) && iteConstLeaves(t.args[2], depth-1)
}

func (m *TM) eq(a, b *Term) *Term {
	if a == b {
		if a.w != WFloat {
			return m.True
		}
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq: width %d vs %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return m.boolConst(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return m.not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			in := a.args[0]
			if b.val > mask(in.w) {
				return m.False
			}
			return m.eq(in, m.konst(in.w, b.val))
		case OSExt:
			in := a.args[0]
			lo := b.val & mask(in.w)
			if uint64(sext(lo, in.w))&mask(a.w) != b.val {
				return m.False
			}
			return m.eq(in, m.konst(in.w, lo))
		case OIte:
			if a.args[1].op == OConst || a.args[2].op == OConst || iteConstLeaves(a, 40) {
				return m.ite(a.args[0], m.eq(a.args[1], b), m.eq(a.args[2], b))
			}
		case OAdd:
			if a.args[1].op == OConst {
				return m.eq(a.args[0], m.konst(a.w, b.val-a.args[1].val))
			}
		case OConcat:
			lo := a.args[1]
			return m.and(m.eq(a.args[0], m.konst(a.args[0].w, b.val>>lo.w)), m.eq(lo, m.konst(lo.w, b.val)))
		case OVar:
			if a.w <= 8 {
				var s Set
				s.add(b.val)
				return m.in(a.sv, s)
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return m.eq(a.args[0], b.args[0])
	} else if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return m.eq(a.args[0], b.args[0])
	} else if a.op == OConcat && b.op == OConcat && a.args[1].w == b.args[1].w {
		return m.and(m.eq(a.args[0], b.args[0]), m.eq(a.args[1], b.args[1]))
	} else if a.id > b.id {
		a, b = b, a
	}
	return m.canon(m.intern(OEq, 0, 0, []*Term{a, b}, nil))
}

// cmp builds OUlt, OUle, OSlt, OSle.
func (m *TM) cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return m.boolConst(evalOp(op, 0, a.w, b.w, 0, a.val, b.val) != 0)
	}
	if a == b {
		return m.boolConst(op == OUle || op == OSle)
	}
	// comparisons of zero-extended values reduce to narrow unsigned ones
	narrow := func(t *Term) bool { return t.op == OZExt }
	if (narrow(a) && b.op == OConst) || (narrow(b) && a.op == OConst) || narrow(a) && narrow(b) && a.args[0].w == b.args[0].w {
		var in *Term
		if narrow(a) {
			in = a.args[0]
		} else {
			in = b.args[0]
		}
		if narrow(a) && narrow(b) {
			u := OUlt
			if op == OUle || op == OSle {
				u = OUle
			}
			return m.cmp(u, a.args[0], b.args[0])
		}
		signed := op == OSlt || op == OSle
		strict := op == OUlt || op == OSlt
		if b.op == OConst { // zext(in) op c
			if signed && sext(b.val, b.w) < 0 {
				return m.False
			}
			if b.val > mask(in.w) {
				return m.True
			}
			if strict {
				return m.cmp(OUlt, in, m.konst(in.w, b.val))
			}
			return m.cmp(OUle, in, m.konst(in.w, b.val))
		}
		if signed && sext(a.val, a.w) < 0 {
			return m.True
		}
		if a.val > mask(in.w) {
			return m.False
		}
		if strict {
			return m.cmp(OUlt, m.konst(in.w, a.val), in)
		}
		return m.cmp(OUle, m.konst(in.w, a.val), in)
	}
	// unsigned trivia
	if op == OUlt && b.op == OConst && b.val == 0 {
		return m.False
	}
	if op == OUle && a.op == OConst && a.val == 0 {
		return m.True
	}
	if op == OUle && b.op == OConst && b.val == mask(b.w) {
		return m.True
	}
	if b.op == OConst && a.op == OVar && a.w <= 8 {
		var s Set
		for i := uint64(0); i <= mask(a.w); i++ {
			if evalOp(op, 0, a.w, b.w, 0, i, b.val) != 0 {
				s.add(i)
			}
		}
		return m.in(a.sv, s)
	}
	if a.op == OConst && b.op == OVar && b.w <= 8 {
		var s Set
		for i := uint64(0); i <= mask(b.w); i++ {
			if evalOp(op, 0, a.w, b.w, 0, a.val, i) != 0 {
				s.add(i)
			}
		}
		return m.in(b.sv, s)
	}
	if (b.op == OConst && a.op == OIte && iteConstLeaves(a, 40)) || (a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) && b.op == OConst) {
		return m.ite(a.args[0], m.cmp(op, a.args[1], b), m.cmp(op, a.args[2], b))
	}
	if (a.op == OConst && b.op == OIte && iteConstLeaves(b, 40)) || (b.op == OIte && (b.args[1].op == OConst || b.args[2].op == OConst) && a.op == OConst) {
		return m.ite(b.args[0], m.cmp(op, a, b.args[1]), m.cmp(op, a, b.args[2]))
	}
	return m.canon(m.intern(op, 0, 0, []*Term{a, b}, nil))
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (m *TM) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return m.konst(w, evalOp(op, w, a.w, b.w, 0, a.val, b.val))
	}
	zero := func(t *Term) bool { return t.op == OConst && t.val == 0 }
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if b.op == OConst && a.op == OAdd && a.args[1].op == OConst {
			return m.bin(OAdd, a.args[0], m.konst(w, a.args[1].val+b.val))
		}
		if b.op != OConst && a.id > b.id {
			a, b = b, a
			if a.op == OConst {
				a, b = b, a
			}
		}
	case OSub:
		if zero(b) {
			return a
		}
		if a == b {
			return m.konst(w, 0)
		}
		if b.op == OConst {
			return m.bin(OAdd, a, m.konst(w, -b.val))
		}
		// (x + c) - x
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
			if a.op == OBAnd && a.args[1].op == OConst {
				return m.bin(OBAnd, a.args[0], m.konst(w, a.args[1].val&b.val))
			}
			if a.op == OBOr || a.op == OBXor {
				return m.bin(a.op, m.bin(OBAnd, a.args[0], b), m.bin(OBAnd, a.args[1], b))
			}
			if a.op == OZExt {
				return m.zext(m.bin(OBAnd, a.args[0], m.konst(a.args[0].w, b.val)), w)
			}
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return m.konst(w, 0)
		}
		if zero(b) {
			return a
		}
	case OShl, OLShr, OAShr:
		if zero(b) {
			return a
		}
		if zero(a) {
			return a
		}
		if b.op == OConst && b.val >= uint64(w) && op != OAShr {
			return m.konst(w, 0)
		}
		if op == OLShr && b.op == OConst && a.op == OZExt && b.val >= uint64(a.args[0].w) {
			return m.konst(w, 0)
		}
		// normalise constant logical shifts to extract/zext/concat so byte
		// packing and unpacking cancel
		if b.op == OConst && op == OLShr {
			return m.zext(m.extract(a, uint8(b.val), w-uint8(b.val)), w)
		}
		if b.op == OConst && op == OShl {
			k := uint8(b.val)
			return m.concat(m.extract(a, 0, w-k), m.konst(k, 0))
		}
	case OUDiv:
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			if isPow2(b.val) {
				return m.bin(OLShr, a, m.konst(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OURem:
		if b.op == OConst && isPow2(b.val) {
			return m.bin(OBAnd, a, m.konst(w, b.val-1))
		}
	}
	switch op {
	case OBOr, OBXor, OAdd:
		// disjoint fields: x | y where one's low part is constant zero and the
		// other fits in it becomes a concatenation
		if r := m.tryConcatOr(a, b); r != nil {
			return r
		}
	}
	if op == OBOr || op == OBXor {
		// push the operation into matching concatenations
		if (a.op == OConcat || a.op == OZExt) && (b.op == OConcat || b.op == OZExt || b.op == OConst) || (b.op == OConcat || b.op == OZExt) && a.op == OConst {
			if k := splitPoint(a, b); k > 0 {
				hi := m.bin(op, m.extract(a, k, w-k), m.extract(b, k, w-k))
				lo := m.bin(op, m.extract(a, 0, k), m.extract(b, 0, k))
				return m.concat(hi, lo)
			}
		}
	}
	if (op == OBOr || op == OBXor || op == OMul) && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	if op == OBAnd && b.op == OConst {
		// contiguous low mask: zero-extended extract
		v := b.val
		if v&(v+1) == 0 {
			k := uint8(bits.OnesCount64(v))
			return m.zext(m.extract(a, 0, k), w)
		}
		// contiguous mask elsewhere
		tz := uint8(bits.TrailingZeros64(v))
		if u := v >> tz; u&(u+1) == 0 {
			k := uint8(bits.OnesCount64(v))
			return m.zext(m.concat(m.extract(a, tz, k), m.konst(tz, 0)), w)
		}
	}
	return m.intern(op, w, 0, []*Term{a, b}, nil)
}

func splitPoint(a, b *Term) uint8 {
	for _, t := range []*Term{a, b} {
		if t.op == OConcat {
			return t.args[1].w
		}
	}
	for _, t := range []*Term{a, b} {
		if t.op == OZExt {
			return t.args[0].w
		}
	}
	return 0
}

// lowZeros returns how many low bits of t are known zero.
func lowZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.val))
	case OConcat:
		z := lowZeros(t.args[1])
		if z == t.args[1].w {
			return z + lowZeros(t.args[0])
		}
		return z
	case OZExt:
		z := lowZeros(t.args[0])
		if z == t.args[0].w {
			return t.w
		}
		return z
	}
	return 0
}

// highBits returns the width beyond which t is known zero.
func highBits(t *Term) uint8 {
	switch t.op {
	case OConst:
		return uint8(bits.Len64(t.val))
	case OZExt:
		return highBits(t.args[0])
	case OConcat:
		h := highBits(t.args[0])
		if h == 0 {
			return highBits(t.args[1])
		}
		return h + t.args[1].w
	case OIte:
		x, y := highBits(t.args[1]), highBits(t.args[2])
		if x > y {
			return x
		}
		return y
	}
	return t.w
}

func (m *TM) tryConcatOr(a, b *Term) *Term {
	w := a.w
	for i := 0; i < 2; i++ {
		if z := lowZeros(a); z > 0 && z < w {
			if h := highBits(b); h <= z && h > 0 {
				return m.concat(m.extract(a, h, w-h), m.extract(b, 0, h))
			}
		}
		a, b = b, a
	}
	return nil
}

func (m *TM) bnot(a *Term) *Term {
	if a.op == OConst {
		return m.konst(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return m.intern(OBNot, a.w, 0, []*Term{a}, nil)
}

func (m *TM) neg(a *Term) *Term {
	if a.op == OConst {
		return m.konst(a.w, -a.val)
	}
	return m.intern(ONeg, a.w, 0, []*Term{a}, nil)
}

func (m *TM) extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 || int(lo)+int(w) > int(a.w) {
		panic("extract range")
	}
	switch a.op {
	case OConst:
		return m.konst(w, a.val>>lo)
	case OExtract:
		return m.extract(a.args[0], lo+uint8(a.val), w)
	case OZExt:
		in := a.args[0]
		if lo >= in.w {
			return m.konst(w, 0)
		}
		if lo+w <= in.w {
			return m.extract(in, lo, w)
		}
		return m.zext(m.extract(in, lo, in.w-lo), w)
	case OSExt:
		in := a.args[0]
		if lo+w <= in.w {
			return m.extract(in, lo, w)
		}
		if lo == 0 {
			return m.sext(in, w)
		}
	case OConcat:
		l := a.args[1]
		if lo >= l.w {
			return m.extract(a.args[0], lo-l.w, w)
		}
		if lo+w <= l.w {
			return m.extract(l, lo, w)
		}
		return m.concat(m.extract(a.args[0], 0, lo+w-l.w), m.extract(l, lo, l.w-lo))
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return m.ite(a.args[0], m.extract(a.args[1], lo, w), m.extract(a.args[2], lo, w))
		}
	case OAdd, OMul:
		if lo == 0 {
			return m.bin(a.op, m.extract(a.args[0], 0, w), m.extract(a.args[1], 0, w))
		}
	case OSub:
		if lo == 0 {
			return m.bin(a.op, m.extract(a.args[0], 0, w), m.extract(a.args[1], 0, w))
		}
	case OBAnd, OBOr, OBXor:
		return m.bin(a.op, m.extract(a.args[0], lo, w), m.extract(a.args[1], lo, w))
	case OBNot:
		return m.bnot(m.extract(a.args[0], lo, w))
	}
	return m.intern(OExtract, w, uint64(lo), []*Term{a}, nil)
}

func (m *TM) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return m.extract(a, 0, w)
	}
	if a.op == OConst {
		return m.konst(w, a.val)
	}
	if a.op == OZExt {
		a = a.args[0]
	}
	if a.op == OConcat && a.args[0].op == OConst && a.args[0].val == 0 {
		return m.zext(a.args[1], w)
	}
	if a.op == OIte && (a.args[1].op == OConst && a.args[2].op == OConst) {
		return m.ite(a.args[0], m.zext(a.args[1], w), m.zext(a.args[2], w))
	}
	return m.intern(OZExt, w, 0, []*Term{a}, nil)
}

func (m *TM) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return m.extract(a, 0, w)
	}
	if a.op == OConst {
		return m.konst(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OSExt {
		a = a.args[0]
	}
	if a.op == OZExt {
		return m.zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].op == OConst && a.args[2].op == OConst) {
		return m.ite(a.args[0], m.sext(a.args[1], w), m.sext(a.args[2], w))
	}
	return m.intern(OSExt, w, 0, []*Term{a}, nil)
}

func (m *TM) concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.op == OConst && lo.op == OConst {
		return m.konst(w, hi.val<<lo.w|lo.val)
	}
	if hi.op == OConst && hi.val == 0 {
		return m.zext(lo, w)
	}
	if hi.op == OZExt {
		return m.zext(m.concat(hi.args[0], lo), w)
	}
	// adjacent extracts of one term
	hx, hv := hi, uint64(0)
	if hi.op == OExtract {
		hx, hv = hi.args[0], hi.val
	}
	if lo.op == OExtract && lo.args[0] == hx && lo.val+uint64(lo.w) == hv && (hi.op == OExtract) {
		return m.extract(hx, uint8(lo.val), w)
	}
	if lo.op == OConcat {
		// keep left-nested: concat(concat(hi, lo.hi), lo.lo)
		return m.concat(m.concat(hi, lo.args[0]), lo.args[1])
	}
	if hi.op == OConcat && lo.op == OExtract && hi.args[1].op == OExtract && hi.args[1].args[0] == lo.args[0] && lo.val+uint64(lo.w) == hi.args[1].val {
		return m.concat(hi.args[0], m.extract(lo.args[0], uint8(lo.val), hi.args[1].w+lo.w))
	}
	if hi.op == OConcat && lo.op == OConst && hi.args[1].op == OConst {
		return m.concat(hi.args[0], m.konst(hi.args[1].w+lo.w, hi.args[1].val<<lo.w|lo.val))
	}
	return m.intern(OConcat, w, 0, []*Term{hi, lo}, nil)
}

func (m *TM) fop(op Op, a, b *Term) *Term {
	w := uint8(WFloat)
	if op == OFLt || op == OFLe || op == OFEq {
		w = 0
	}
	args := []*Term{a}
	if b != nil {
		args = append(args, b)
	}
	if a.op == OConst && (b == nil || b.op == OConst) {
		var bv uint64
		if b != nil {
			bv = b.val
		}
		v := evalOp(op, w, a.w, WFloat, 0, a.val, bv)
		if w == 0 {
			return m.boolConst(v != 0)
		}
		return m.intern(OConst, WFloat, v, nil, nil)
	}
	return m.canon(m.intern(op, w, 0, args, nil))
}

func (m *TM) toFloat(a *Term, signed bool) *Term {
	op := OUToF
	if signed {
		op = OSToF
	}
	if a.op == OConst {
		return m.intern(OConst, WFloat, evalOp(op, WFloat, a.w, 0, 0, a.val, 0), nil, nil)
	}
	return m.intern(op, WFloat, 0, []*Term{a}, nil)
}

func (m *TM) floatToInt(a *Term, w uint8) *Term {
	if a.op == OConst {
		return m.konst(w, evalOp(OFToS, w, WFloat, 0, 0, a.val, 0))
	}
	return m.intern(OFToS, w, 0, []*Term{a}, nil)
}
