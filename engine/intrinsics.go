package main

import (
	"fmt"
	"go/types"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type handler func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value

const vPath = modPath + "/zzv/v"

var buildMu sync.Mutex

func (l *Loaded) build(p *ssa.Package) {
	buildMu.Lock()
	defer buildMu.Unlock()
	p.Build()
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (l *Loaded) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	ms := l.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := l.prog.MethodValue(sel)
	if fn != nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	return fn
}

var stdSizes = types.SizesFor("gc", "amd64")

func (l *Loaded) sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return stdSizes.Sizeof(t)
}

var handlers map[string]handler

// modelOf maps library functions to their Go models.
var models = map[string]string{
	"fmt.Sprintf":                          "Sprintf",
	"fmt.Errorf":                           "Errorf",
	"fmt.Sprint":                           "Sprint",
	"fmt.Sprintln":                         "Sprintln",
	"fmt.Fprintf":                          "Fprintf",
	"fmt.Fprint":                           "Fprint",
	"fmt.Fprintln":                         "Fprintln",
	"fmt.Appendf":                          "Appendf",
	"fmt.Append":                           "Append",
	"fmt.Appendln":                         "Appendln",
	"errors.As":                            "ErrorsAs",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
	"strings.Compare":                      "CompareString",
	"internal/bytealg.CompareString":       "CompareString",
	"strings.Replace":                      "Replace",
	"strings.ReplaceAll":                   "ReplaceAll",
	"(*strings.Replacer).Replace":          "ReplacerReplace",
	"sync.OnceFunc":                        "OnceFunc",
	"(*sync.Pool).Get":                     "PoolGet",
	"(*sync.WaitGroup).Go":                 "WaitGroupGo",
	"time.AfterFunc":                       "AfterFunc",
	"strings.EqualFold":                    "EqualFold",
	"strings.ToLower":                      "ToLower",
	"strings.ToUpper":                      "ToUpper",
	"strings.Index":                        "IndexString",
	"strings.Contains":                     "Contains",
	"strings.IndexByte":                    "IndexByteString",
	"strings.LastIndexByte":                "LastIndexByteString",
	"strings.LastIndex":                    "LastIndexString",
	"strings.TrimSpace":                    "TrimSpace",
	"bytes.Index":                          "Index",
	"bytes.IndexByte":                      "IndexByte",
	"bytes.Equal":                          "Equal",
	"bytes.Contains":                       "BytesContains",
	"strings.Count":                        "CountString",
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.Count":               "CountByte",
	"internal/bytealg.CountString":         "CountByteString",
	"internal/bytealg.Equal":               "Equal",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.Index":               "Index",
	"internal/bytealg.IndexString":         "IndexString",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/stringslite.Index":           "IndexString",
	"internal/stringslite.IndexByte":       "IndexByteString",
	"errors.Is":                            "ErrorsIs",
}

func (c *Ctx) modelOf(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil {
		return nil
	}
	m, ok := models[fn.String()]
	if !ok {
		return nil
	}
	mp := c.l.pkgs[modPath+"/zzv/model"]
	if mp == nil {
		return nil
	}
	c.buildPkg(mp)
	f := mp.Func(m)
	if f == nil {
		panic("no model " + m)
	}
	return f
}

func (c *Ctx) intrinsic(fn *ssa.Function) handler {
	name := fn.String()
	if h, ok := handlers[name]; ok {
		return h
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "log":
			n := fn.Name()
			if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
				return nil
			}
			return hZero
		case "log/slog", "os/signal", "runtime/debug":
			return hZero
		}
	}
	return nil
}

// hZero returns the zero value of the result type.
func hZero(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return c.zero(res.At(0).Type())
	}
	return c.zero(res)
}

// nondet creates (or reuses) the next nondeterministic input of the path.
func (st *State) nondet(w uint8, kind string) *Term {
	c := st.c
	i := st.varIdx[w]
	st.varIdx[w]++
	for len(c.pool[w]) <= i {
		c.pool[w] = append(c.pool[w], c.tm.newVar(w, fmt.Sprintf("in%d_%d", w, len(c.pool[w]))))
	}
	t := c.pool[w][i]
	st.nds = append(st.nds, Nondet{kind, t})
	return t
}

func constStr(v Value) string {
	if s, ok := v.(Str); ok && s.t == nil {
		return s.s
	}
	return "?"
}

func isConcrete(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return x.op == OConst
	case Str:
		return x.t == nil
	}
	return false
}

func init() {
	handlers = map[string]handler{}
	H := func(name string, h handler) { handlers[name] = h }
	V := func(name string, h handler) { handlers[vPath+"."+name] = h }
	nd := func(w uint8) handler {
		return func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			return st.nondet(w, fn.Name())
		}
	}
	V("Byte", nd(8))
	V("Int8", nd(8))
	V("Bool", nd(0))
	V("Uint16", nd(16))
	V("Int16", nd(16))
	V("Uint32", nd(32))
	V("Int32", nd(32))
	V("Uint64", nd(64))
	V("Int64", nd(64))
	V("Int", nd(64))
	V("Float64", nd(WFloat))
	V("Assume", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.assume(args[0].(*Term))
		return nil
	})
	V("Assert", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.run.assert(c, st, args[0].(*Term), constStr(args[1]))
		return nil
	})
	V("Skip", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		panic(endPath{"infeasible", "skipped by harness"})
	})
	V("Reach", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.run.reach(c, st, constStr(args[0]))
		return nil
	})
	V("Bound", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.run.bound(constStr(args[0]))
		return nil
	})
	V("Assumption", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.run.assumption(constStr(args[0]))
		return nil
	})
	V("Thorough", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.boolConst(c.run.tier == "thorough")
	})
	V("Symbolic", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value { return c.tm.True })
	V("Obs", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.obs = append(st.obs, Obs{constStr(args[0]), args[1], false})
		return nil
	})
	V("ObsInt", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.obs = append(st.obs, Obs{constStr(args[0]), args[1], true})
		return nil
	})
	V("Interleave", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.yieldOK = args[0].(*Term) == c.tm.True
		return nil
	})
	V("Preemptions", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.limited, st.preempt = true, st.concInt(args[0])
		return nil
	})
	V("Yield", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value { return nil })
	V("AbstractRem", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.absRem = args[0].(*Term) == c.tm.True
		return nil
	})
	V("Settle", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		g := st.gorW(st.cur)
		f := st.top()
		f.pc++
		g.pend = &pend{kind: 2}
		return noResult{}
	})
	V("Goroutines", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n := 0
		for _, g := range st.gors {
			if !g.done {
				n++
			}
		}
		return c.tm.konst(64, uint64(n))
	})
	V("Case", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n := st.concInt(args[0])
		return c.tm.konst(64, uint64(c.run.nextCase(c, st, n)))
	})
	V("Choose", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n := st.concInt(args[0])
		if n <= 0 {
			panic(endPath{"infeasible", "empty choice"})
		}
		for i := n - 1; i >= 1; i-- {
			o := st.clone()
			k := c.tm.konst(64, uint64(i))
			o.nds = append(o.nds, Nondet{"Choose", k})
			f := o.top()
			d := &f.info.blocks[f.block][f.pc]
			o.set(f, d.dst, k)
			f.pc++
			c.work = append(c.work, o)
		}
		k := c.tm.konst(64, 0)
		st.nds = append(st.nds, Nondet{"Choose", k})
		return k
	})
	V("Concrete", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.konst(64, st.concretize(args[0].(*Term)))
	})
	V("ConcreteByte", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.konst(8, st.concretize(args[0].(*Term)))
	})
	// And/Or/Implies evaluate both sides so that they do not fork.
	V("And", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.and(args[0].(*Term), args[1].(*Term))
	})
	V("Or", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.or(args[0].(*Term), args[1].(*Term))
	})
	V("Implies", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.or(c.tm.not(args[0].(*Term)), args[1].(*Term))
	})
	V("Iff", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.eq(args[0].(*Term), args[1].(*Term))
	})
	V("IteInt", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	})
	V("IteByte", handlers[vPath+".IteInt"])
	V("SameMem", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		// do two byte slices share their backing array?
		a, b := args[0].(Slice), args[1].(Slice)
		return c.tm.boolConst(a.obj != 0 && a.obj == b.obj)
	})

	V("SliceLen", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.konst(64, uint64(args[0].(Iface).v.(Slice).len))
	})
	V("SliceSwap", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		s := x.v.(Slice)
		el := x.t.Underlying().(*types.Slice).Elem()
		n := int32(c.lay.size(el))
		o := st.objW(s.obj)
		i, j := s.off+int32(st.concInt(args[1]))*n, s.off+int32(st.concInt(args[2]))*n
		for k := int32(0); k < n; k++ {
			o.cells[i+k], o.cells[j+k] = o.cells[j+k], o.cells[i+k]
		}
		return nil
	})
	V("ReplacerPairs", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		p := args[0].(Ptr)
		rt := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < rt.NumFields(); i++ {
			if rt.Field(i).Name() == "oldnew" {
				p.off += int32(c.lay.fieldOff(rt, i))
				return st.load(p, rt.Field(i).Type())
			}
		}
		panic(unsupported{"strings.Replacer"})
	})
	V("AsTarget", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		e, t := args[0].(Iface), args[1].(Iface)
		p, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(goPanic{Iface{types.Typ[types.String], Str{s: "errors: target must be a non-nil pointer"}}, "errors: target must be a non-nil pointer"})
		}
		el := p.Elem()
		if it, ok := el.Underlying().(*types.Interface); ok {
			if !types.Implements(e.t, it) {
				return c.tm.False
			}
			c.storeTo(st, t.v, el, e)
			return c.tm.True
		}
		if !types.Identical(e.t, el) {
			return c.tm.False
		}
		c.storeTo(st, t.v, el, e.v)
		return c.tm.True
	})

	// ---- runtime-ish helpers ----
	ident := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value { return args[0] }
	H("internal/abi.NoEscape", ident)
	H("strings.noescape", ident)
	H("bytes.noescape", ident)
	H("strings.Clone", ident)
	H("internal/stringslite.Clone", ident)
	H("internal/bytealg.MakeNoZero", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n := st.concInt(args[0])
		k := roundupSize(n)
		return Slice{st.alloc(types.Typ[types.Byte], k), 0, int32(n), int32(k)}
	})
	nop := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value { return hZero(c, st, fn, args) }
	for _, n := range []string{
		"runtime.Gosched", "runtime.KeepAlive", "runtime.GC",
		"runtime.SetFinalizer", "fmt.Printf", "fmt.Println", "fmt.Print", "flag.Parse", "os.Getenv", "(*sync.Pool).Put",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"internal/race.Enable", "internal/race.Disable",
	} {
		H(n, nop)
	}
	flagH := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		el := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := st.alloc(el, 1)
		st.objW(id).cells[0] = args[1]
		c.noteFlag(args[0], Ptr{obj: id}, el)
		return Ptr{obj: id}
	}
	for _, n := range []string{"Bool", "Int", "String", "Duration", "Int64", "Uint", "Uint64", "Float64"} {
		H("flag."+n, flagH)
	}
	flagV := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		st.store(args[0].(Ptr), fn.Signature.Params().At(2).Type(), args[2])
		c.noteFlag(args[1], args[0].(Ptr), fn.Signature.Params().At(2).Type())
		return nil
	}
	H("flag.Set", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		name, val := args[0].(Str), args[1].(Str)
		if name.t != nil || val.t != nil {
			panic(unsupported{"flag.Set of an arbitrary setting"})
		}
		for _, p := range c.l.pkgs {
			if strings.HasPrefix(p.Pkg.Path(), modPath) {
				c.initPkg(p)
			}
		}
		f, ok := c.flags[name.s]
		if !ok {
			panic(unsupported{"no flag " + name.s})
		}
		b, _ := f.typ.Underlying().(*types.Basic)
		var nv Value
		if b == nil {
			panic(unsupported{"type of flag " + name.s})
		}
		switch {
		case f.typ.String() == "time.Duration":
			d, err := time.ParseDuration(val.s)
			if err != nil {
				panic(unsupported{err.Error()})
			}
			nv = c.tm.konst(64, uint64(d))
		case b.Info()&types.IsBoolean != 0:
			x, err := strconv.ParseBool(val.s)
			if err != nil {
				panic(unsupported{err.Error()})
			}
			nv = c.tm.boolConst(x)
		case b.Info()&types.IsInteger != 0:
			x, err := strconv.ParseInt(val.s, 0, 64)
			if err != nil {
				panic(unsupported{err.Error()})
			}
			nv = c.tm.konst(64, uint64(x))
		case b.Info()&types.IsString != 0:
			nv = val
		default:
			panic(unsupported{"type of flag " + name.s})
		}
		st.store(f.ptr, f.typ, nv)
		return Iface{}
	})
	for _, n := range []string{"Lookup", "Visit", "VisitAll", "Args", "Arg", "NArg", "NFlag"} {
		H("flag."+n, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			panic(unsupported{"flag." + fn.Name()})
		})
	}
	for _, n := range []string{"BoolVar", "IntVar", "StringVar", "DurationVar"} {
		H("flag."+n, flagV)
	}
	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		H("sync/atomic.Load"+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			return c.loadFrom(st, args[0], fn.Signature.Results().At(0).Type())
		})
		H("sync/atomic.Store"+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			c.storeTo(st, args[0], fn.Signature.Params().At(1).Type(), args[1])
			return nil
		})
		H("sync/atomic.Add"+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			ty := fn.Signature.Params().At(1).Type()
			v := c.tm.bin(OAdd, c.loadFrom(st, args[0], ty).(*Term), args[1].(*Term))
			c.storeTo(st, args[0], ty, v)
			return v
		})
		H("sync/atomic.Swap"+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			ty := fn.Signature.Params().At(1).Type()
			v := c.loadFrom(st, args[0], ty)
			c.storeTo(st, args[0], ty, args[1])
			return v
		})
		for name, op := range map[string]Op{"And": OBAnd, "Or": OBOr} {
			op := op
			H("sync/atomic."+name+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
				ty := fn.Signature.Params().At(1).Type()
				v := c.loadFrom(st, args[0], ty)
				c.storeTo(st, args[0], ty, c.tm.bin(op, v.(*Term), args[1].(*Term)))
				return v
			})
		}
		H("sync/atomic.CompareAndSwap"+t, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			ty := fn.Signature.Params().At(1).Type()
			eq := st.branch(c.tm.eq(c.loadFrom(st, args[0], ty).(*Term), args[1].(*Term)))
			if eq {
				c.storeTo(st, args[0], ty, args[2])
			}
			return c.tm.boolConst(eq)
		})
	}
	H("sync/atomic.LoadPointer", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.loadFrom(st, args[0], types.Typ[types.UnsafePointer])
	})
	H("sync/atomic.SwapPointer", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		v := c.loadFrom(st, args[0], types.Typ[types.UnsafePointer])
		c.storeTo(st, args[0], types.Typ[types.UnsafePointer], args[1])
		return v
	})
	H("sync/atomic.StorePointer", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.storeTo(st, args[0], types.Typ[types.UnsafePointer], args[1])
		return nil
	})

	lockHandlers(H)

	// ---- time ----
	H("time.Now", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value { return c.timeVal(st) })
	H("time.Since", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		a := args[0].(Agg)
		s := a[1].(*Term)
		now := c.timeVal(st)
		sec := c.tm.bin(OSub, now[1].(*Term), s)
		ns := c.tm.bin(OSub, now[0].(*Term), a[0].(*Term))
		return c.tm.bin(OAdd, c.tm.bin(OMul, sec, c.tm.konst(64, 1e9)), ns)
	})
	H("time.Sleep", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n := st.concInt(args[0])
		f := st.top()
		f.pc++
		if n <= 0 {
			return noResult{}
		}
		g := st.gorW(st.cur)
		g.pend = &pend{kind: 3, until: st.clock + int64(n)}
		st.ntimer++
		st.timers = append(st.timers, Timer{st.clock + int64(n), 0, st.cur, st.ntimer, 0})
		return noResult{}
	})
	mkTimer := func(c *Ctx, st *State, d, period int64, timeT types.Type) ObjID {
		id := st.allocObj(&Object{ch: &ChanObj{cap: 1, elem: timeT, timer: true}})
		st.ntimer++
		if d < 0 {
			d = 0
		}
		st.timers = append(st.timers, Timer{st.clock + d, id, -1, st.ntimer, period})
		return id
	}
	H("time.After", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		return ChanRef{mkTimer(c, st, int64(st.concInt(args[0])), 0, el)}
	})
	H("time.NewTimer", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		tt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		chT := tt.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()
		d := int64(st.concInt(args[0]))
		id := st.alloc(tt, 1)
		ch := mkTimer(c, st, d, 0, chT)
		st.objW(id).cells[0] = ChanRef{ch}
		return Ptr{obj: id}
	})
	drop := func(st *State, ch ObjID) bool {
		for i, t := range st.timers {
			if t.ch == ch && t.goid < 0 {
				st.timers = append(append([]Timer(nil), st.timers[:i]...), st.timers[i+1:]...)
				return true
			}
		}
		return false
	}
	H("(*time.Timer).Stop", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		ch := st.obj(args[0].(Ptr).obj).cells[0].(ChanRef)
		ok := drop(st, ch.obj)
		if !ok { // since Go 1.23 a stopped timer's channel holds no stale value
			if o := st.objW(ch.obj); len(o.ch.buf) > 0 {
				o.ch.buf = nil
				ok = true
			}
		}
		return c.tm.boolConst(ok)
	})
	H("(*time.Timer).Reset", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		ch := st.obj(args[0].(Ptr).obj).cells[0].(ChanRef)
		ok := drop(st, ch.obj)
		st.objW(ch.obj).ch.buf = nil
		st.ntimer++
		st.timers = append(st.timers, Timer{st.clock + int64(st.concInt(args[1])), ch.obj, -1, st.ntimer, 0})
		return c.tm.boolConst(ok)
	})

	H("time.NewTicker", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		tt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		chT := tt.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()
		d := int64(st.concInt(args[0]))
		if d <= 0 {
			panic(goPanic{Iface{types.Typ[types.String], Str{s: "non-positive interval for NewTicker"}}, "non-positive interval for NewTicker"})
		}
		id := st.alloc(tt, 1)
		ch := mkTimer(c, st, d, d, chT)
		st.objW(id).cells[0] = ChanRef{ch}
		return Ptr{obj: id}
	})
	H("time.Tick", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		d := int64(st.concInt(args[0]))
		if d <= 0 {
			return ChanRef{}
		}
		return ChanRef{mkTimer(c, st, d, d, el)}
	})
	H("(*time.Ticker).Stop", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		ch := st.obj(args[0].(Ptr).obj).cells[0].(ChanRef)
		drop(st, ch.obj)
		st.objW(ch.obj).ch.buf = nil
		return nil
	})
	H("(*time.Ticker).Reset", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		ch := st.obj(args[0].(Ptr).obj).cells[0].(ChanRef)
		drop(st, ch.obj)
		st.objW(ch.obj).ch.buf = nil
		st.ntimer++
		d := int64(st.concInt(args[1]))
		st.timers = append(st.timers, Timer{st.clock + d, ch.obj, -1, st.ntimer, d})
		return nil
	})

	// ---- math ----
	fl := func(name string, native func(float64) float64) {
		H("math."+name, func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
			t := args[0].(*Term)
			if t.op == OConst {
				return c.tm.fconst(native(math.Float64frombits(t.val)))
			}
			return c.opaqueFn("math."+name, t)
		})
	}
	fl("Log", math.Log)
	fl("log", math.Log)
	fl("Log10", math.Log10)
	fl("Exp", math.Exp)
	fl("Floor", math.Floor)
	H("math.Pow", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(*Term), args[1].(*Term)
		if a.op == OConst && b.op == OConst {
			return c.tm.fconst(math.Pow(math.Float64frombits(a.val), math.Float64frombits(b.val)))
		}
		return c.opaqueFn("math.Pow", b)
	})
	sq := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.fop(OFSqrt, args[0].(*Term), nil)
	}
	H("math.Sqrt", sq)
	H("math.sqrt", sq)
	H("math.Abs", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.tm.fop(OFAbs, args[0].(*Term), nil)
	})
	H("math.Float64bits", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.op == OConst {
			return c.tm.konst(64, t.val)
		}
		panic(unsupported{"math.Float64bits of a symbolic value"})
	})
	H("math.Float64frombits", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.op == OConst {
			return c.tm.fconst(math.Float64frombits(t.val))
		}
		return c.tm.intern(OFOfBits, WFloat, 0, []*Term{t}, nil)
	})

	// ---- strconv ----
	fi := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		b := st.concInt(args[1])
		if b != 10 {
			if t := args[0].(*Term); t.op != OConst && b > 1 && b&(b-1) == 0 {
				return noHandler{}
			}
			v := st.concretize(args[0].(*Term))
			if strings.HasSuffix(fn.Name(), "Uint") {
				return Str{s: strconv.FormatUint(v, b)}
			}
			return Str{s: strconv.FormatInt(int64(v), b)}
		}
		return c.fmtInt(st, args[0].(*Term), fn.Name() == "FormatInt")
	}
	H("strconv.FormatInt", fi)
	H("strconv.FormatUint", fi)
	H("strconv.Itoa", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		return c.fmtInt(st, args[0].(*Term), true)
	})
	ap := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		if st.concInt(args[2]) != 10 {
			panic(unsupported{"AppendInt base"})
		}
		s := c.fmtInt(st, args[1].(*Term), fn.Name() == "AppendInt")
		return c.appendStr(st, args[0].(Slice), s)
	}
	H("strconv.AppendInt", ap)
	H("strconv.AppendUint", ap)
	quote := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.t == nil {
			return Str{s: strconv.Quote(s.s)}
		}
		return c.concatStr(c.concatStr(Str{s: "\""}, s), Str{s: "\""})
	}
	H("strconv.Quote", quote)

	// ---- net helpers ----
	H("net.ParseIP", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.t == nil {
			ip := net.ParseIP(s.s)
			if ip == nil {
				return Slice{}
			}
			return c.bytesSlice(st, ip)
		}
		return noHandler{}
	})
	H("(net.IP).String", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		s := args[0].(Slice)
		if s.len == 0 {
			return Str{s: "<nil>"}
		}
		x := c.sliceStr(st, s)
		if x.t == nil {
			return Str{s: net.IP([]byte(x.s)).String()}
		}
		return noHandler{}
	})
}

type noHandler struct{}

func (c *Ctx) bytesSlice(st *State, b []byte) Slice {
	return c.strSlice(st, Str{s: string(b)})
}

func (c *Ctx) appendStr(st *State, s Slice, x Str) Slice {
	n := int(s.len) + x.len()
	if n <= int(s.cap) {
		if x.len() == 0 {
			return s
		}
		o := st.objW(s.obj)
		for i := 0; i < x.len(); i++ {
			o.cells[int(s.off)+int(s.len)+i] = c.strAt(x, i)
		}
		s.len = int32(n)
		return s
	}
	ncap := growCap(int(s.cap), n, 1)
	cells := make([]Value, ncap)
	if s.len > 0 {
		copy(cells, st.obj(s.obj).cells[s.off:s.off+s.len])
	}
	for i := 0; i < x.len(); i++ {
		cells[int(s.len)+i] = c.strAt(x, i)
	}
	z := c.tm.konst(8, 0)
	for i := n; i < ncap; i++ {
		cells[i] = z
	}
	return Slice{st.allocObj(&Object{cells: cells, typ: types.Typ[types.Byte]}), 0, int32(n), int32(ncap)}
}

// opaqueFn is an uninterpreted float function: a fresh value per argument.
func (c *Ctx) opaqueFn(name string, arg *Term) *Term {
	key := fmt.Sprintf("%s/%d", name, arg.id)
	if a, ok := c.aux[key]; ok {
		return a[0]
	}
	t := c.tm.newVar(WFloat, key)
	c.aux[key] = []*Term{t}
	return t
}

var pow10 = []uint64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000,
	1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000}

// fmtInt renders a 64-bit integer in decimal. Symbolic values fork over sign
// and length and introduce digit variables tied to the value.
func (c *Ctx) fmtInt(st *State, t *Term, signed bool) Str {
	tm := c.tm
	if v, ok := st.known(t); ok {
		if signed {
			return Str{s: strconv.FormatInt(int64(v), 10)}
		}
		return Str{s: strconv.FormatUint(v, 10)}
	}
	if t.w != 64 {
		if signed {
			t = tm.sext(t, 64)
		} else {
			t = tm.zext(t, 64)
		}
	}
	neg := false
	u := t
	if signed && highBits(t) == 64 && st.branch(tm.cmp(OSlt, t, tm.konst(64, 0))) {
		neg = true
		u = tm.neg(t)
	}
	nd := 1
	for nd < 20 && !st.branch(tm.cmp(OUlt, u, tm.konst(64, pow10[nd]))) {
		nd++
	}
	if c.pure {
		panic(pureFail{})
	}
	key := fmt.Sprintf("dig/%d/%d", u.id, nd)
	ds, ok := c.aux[key]
	if !ok {
		for i := 0; i < nd; i++ {
			ds = append(ds, tm.newVar(8, fmt.Sprintf("%s/%d", key, i)))
		}
		c.aux[key] = ds
	}
	var have bool
	if d, ok := st.dom[ds[0].sv]; ok && !d.has(255) {
		have = true
	}
	if !have {
		sum := tm.konst(64, 0)
		var dig Set
		for i := uint64(0); i < 10; i++ {
			dig.add(i)
		}
		val := st.evalModel(u)
		up := map[int32]uint64{}
		cond := tm.True
		for i := 0; i < nd; i++ {
			p := pow10[nd-1-i]
			sum = tm.bin(OAdd, sum, tm.bin(OMul, tm.zext(ds[i], 64), tm.konst(64, p)))
			s := dig
			if i == 0 && nd > 1 {
				s[0] &^= 1
			}
			cond = tm.and(cond, tm.in(ds[i].sv, s))
			up[ds[i].sv] = val / p % 10
		}
		cond = tm.and(cond, tm.eq(u, sum))
		st.add(cond, up)
	}
	out := make([]*Term, 0, nd+1)
	if neg {
		out = append(out, tm.konst(8, '-'))
	}
	for _, d := range ds {
		out = append(out, tm.bin(OBOr, d, tm.konst(8, 0x30)))
	}
	return c.mkStr(out)
}

// timeVal is the current instant as a time.Time without monotonic reading.
func (c *Ctx) timeVal(st *State) Agg {
	sec := int64(63082281600) + st.clock/1e9
	return Agg{c.tm.konst(64, uint64(st.clock%1e9)), c.tm.konst(64, uint64(sec)), Ptr{}}
}

// flagDef is a registered command line flag.
type flagDef struct {
	ptr Ptr
	typ types.Type
}

func (c *Ctx) noteFlag(name Value, p Ptr, t types.Type) {
	if s, ok := name.(Str); ok && s.t == nil {
		if c.flags == nil {
			c.flags = map[string]flagDef{}
		}
		c.flags[s.s] = flagDef{p, t}
	}
}
