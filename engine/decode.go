package main

import (
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opndKind uint8

const (
	okReg opndKind = iota
	okVal
	okGlobal
	okBuiltin
	okNone
)

type opnd struct {
	kind opndKind
	reg  int
	val  Value
	glob *ssa.Global
}

type dinst struct {
	ins  ssa.Instruction
	dst  int
	ops  []opnd
	n    int // field offset, element size...
	pure bool
}

type fnInfo struct {
	fn     *ssa.Function
	nreg   int
	blocks [][]dinst
	rpo    []int
	name   string
	used   bool
	seen   []bool // blocks entered
}

func (c *Ctx) info(fn *ssa.Function) *fnInfo {
	if fi, ok := c.infos[fn]; ok {
		return fi
	}
	if fn.Pkg != nil {
		c.buildPkg(fn.Pkg)
	}
	fi := &fnInfo{fn: fn, name: fn.String(), seen: make([]bool, len(fn.Blocks))}
	idx := map[ssa.Value]int{}
	for _, p := range fn.Params {
		idx[p] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.FreeVars {
		idx[p] = fi.nreg
		fi.nreg++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = fi.nreg
				fi.nreg++
			}
		}
	}
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{kind: okNone}
		case *ssa.Const:
			return opnd{kind: okVal, val: c.constVal(v)}
		case *ssa.Global:
			return opnd{kind: okGlobal, glob: v}
		case *ssa.Function:
			return opnd{kind: okVal, val: &FuncVal{fn: v}}
		case *ssa.Builtin:
			return opnd{kind: okVal, val: &FuncVal{bi: v}}
		}
		r, ok := idx[v]
		if !ok {
			panic("operand not found: " + v.String())
		}
		return opnd{kind: okReg, reg: r}
	}
	for _, b := range fn.Blocks {
		var ds []dinst
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			d := dinst{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				d.dst = idx[v]
			}
			var rands [12]*ssa.Value
			for _, o := range in.Operands(rands[:0]) {
				if o == nil || *o == nil {
					d.ops = append(d.ops, opnd{kind: okNone})
					continue
				}
				d.ops = append(d.ops, mk(*o))
			}
			switch in := in.(type) {
			case *ssa.FieldAddr:
				st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				d.n = c.lay.fieldOff(st, in.Field)
				d.pure = true
			case *ssa.Field:
				st := in.X.Type().Underlying().(*types.Struct)
				d.n = c.lay.fieldOff(st, in.Field)
				d.pure = true
			case *ssa.IndexAddr:
				switch t := in.X.Type().Underlying().(type) {
				case *types.Slice:
					d.n = c.lay.size(t.Elem())
				case *types.Pointer:
					d.n = c.lay.size(t.Elem().Underlying().(*types.Array).Elem())
				}
				d.pure = true
			case *ssa.Index:
				if t, ok := in.X.Type().Underlying().(*types.Array); ok {
					d.n = c.lay.size(t.Elem())
				}
				d.pure = true
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
				d.pure = true
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					d.pure = false
				}
			case *ssa.Lookup:
				_, isMap := in.X.Type().Underlying().(*types.Map)
				d.pure = !isMap
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap":
						d.pure = true
					}
				}
			}
			ds = append(ds, d)
		}
		fi.blocks = append(fi.blocks, ds)
	}
	// reverse post-order numbers
	fi.rpo = make([]int, len(fn.Blocks))
	seen := make([]bool, len(fn.Blocks))
	var post []int
	type fr struct {
		b *ssa.BasicBlock
		i int
	}
	if len(fn.Blocks) > 0 {
		stk := []fr{{fn.Blocks[0], 0}}
		seen[0] = true
		for len(stk) > 0 {
			t := &stk[len(stk)-1]
			if t.i < len(t.b.Succs) {
				s := t.b.Succs[t.i]
				t.i++
				if !seen[s.Index] {
					seen[s.Index] = true
					stk = append(stk, fr{s, 0})
				}
				continue
			}
			post = append(post, t.b.Index)
			stk = stk[:len(stk)-1]
		}
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	c.infos[fn] = fi
	return fi
}

func (c *Ctx) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return c.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
		}
		return c.zero(t)
	}
	if b.Info()&types.IsString != 0 {
		if k.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(k.Value)}
		}
		return Str{s: string(rune(k.Int64()))}
	}
	if b.Info()&types.IsBoolean != 0 {
		return c.tm.boolConst(constant.BoolVal(k.Value))
	}
	if b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(k.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return c.tm.intern(OConst, WFloat, math.Float64bits(f), nil, nil)
	}
	if b.Info()&types.IsInteger != 0 {
		w, _ := basicWidth(b)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return c.tm.konst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return c.tm.konst(w, u)
	}
	if b.Kind() == types.UnsafePointer {
		return Ptr{}
	}
	panic(unsupported{"const of type " + t.String()})
}
