package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Locks are modelled on the first cells of the lock's own memory: a Mutex is
// held when its first cell is 1, an RWMutex is write-locked when its first cell
// is 1 and counts readers in its fifth, a WaitGroup counts in its first.
// A goroutine that has to wait is parked and runs the operation again.

func fatal(msg string) {
	m := "fatal error: " + msg
	panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
}

func lockHandlers(H func(string, handler)) {
	cell := func(st *State, p Value, k int32) (uint64, ObjID, int32) {
		q, ok := p.(Ptr)
		if !ok || q.obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		v, ok := st.obj(q.obj).cells[q.off+k].(*Term)
		if !ok || v.op != OConst {
			panic(unsupported{"lock in an unknown state"})
		}
		return v.val, q.obj, q.off + k
	}
	set := func(c *Ctx, st *State, o ObjID, i int32, x uint64) {
		w := st.obj(o).cells[i].(*Term).w
		st.objW(o).cells[i] = c.tm.konst(w, x)
	}
	park := func(st *State, o ObjID) Value {
		f := st.top()
		if _, ok := f.info.blocks[f.block][f.pc].ins.(*ssa.Call); !ok {
			panic(unsupported{"blocking lock operation in a deferred call"})
		}
		st.pre = false
		st.gorW(st.cur).pend = &pend{kind: 4, lock: o}
		return noResult{}
	}
	wake := func(st *State, o ObjID) {
		for i, g := range st.gors {
			if !g.done && g.pend != nil && g.pend.kind == 4 && g.pend.lock == o {
				st.gorW(i).pend = nil
			}
		}
	}
	lock := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.maybeYield(st)
		s, o, i := cell(st, args[0], 0)
		rw := fn.Signature.Recv() != nil && fn.String() == "(*sync.RWMutex).Lock"
		if s != 0 {
			return park(st, o)
		}
		if rw {
			if r, _, _ := cell(st, args[0], 4); r != 0 {
				return park(st, o)
			}
		}
		st.pre = false
		set(c, st, o, i, 1)
		return nil
	}
	try := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.maybeYield(st)
		s, o, i := cell(st, args[0], 0)
		st.pre = false
		if s != 0 {
			return c.tm.False
		}
		set(c, st, o, i, 1)
		return c.tm.True
	}
	unlock := func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		s, o, i := cell(st, args[0], 0)
		if s == 0 {
			fatal("sync: unlock of unlocked mutex")
		}
		set(c, st, o, i, 0)
		wake(st, o)
		return nil
	}
	H("(*sync.Mutex).Lock", lock)
	H("(*sync.Mutex).TryLock", try)
	H("(*sync.Mutex).Unlock", unlock)
	H("(*sync.RWMutex).Lock", lock)
	H("(*sync.RWMutex).Unlock", unlock)
	H("(*internal/sync.Mutex).Lock", lock)
	H("(*internal/sync.Mutex).TryLock", try)
	H("(*internal/sync.Mutex).Unlock", unlock)
	H("(*sync.RWMutex).RLock", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.maybeYield(st)
		if s, o, _ := cell(st, args[0], 0); s != 0 {
			return park(st, o)
		}
		st.pre = false
		n, o, i := cell(st, args[0], 4)
		set(c, st, o, i, n+1)
		return nil
	})
	H("(*sync.RWMutex).RUnlock", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		n, o, i := cell(st, args[0], 4)
		if n == 0 {
			fatal("sync: RUnlock of unlocked RWMutex")
		}
		set(c, st, o, i, n-1)
		wake(st, o)
		return nil
	})
	add := func(c *Ctx, st *State, p Value, d int64) {
		n, o, i := cell(st, p, 0)
		n += uint64(d)
		if int64(n) < 0 {
			m := "sync: negative WaitGroup counter"
			panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
		}
		set(c, st, o, i, n)
		if n == 0 {
			wake(st, o)
		}
	}
	H("(*sync.WaitGroup).Add", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		add(c, st, args[0], int64(st.concInt(args[1])))
		return nil
	})
	H("(*sync.WaitGroup).Done", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		add(c, st, args[0], -1)
		return nil
	})
	H("(*sync.WaitGroup).Wait", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		c.maybeYield(st)
		if n, o, _ := cell(st, args[0], 0); n != 0 {
			return park(st, o)
		}
		st.pre = false
		return nil
	})
	// atomic.Value holds its contents in its only cell.
	H("(*sync/atomic.Value).Load", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		p := args[0].(Ptr)
		return st.obj(p.obj).cells[p.off]
	})
	H("(*sync/atomic.Value).Store", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		p := args[0].(Ptr)
		st.objW(p.obj).cells[p.off] = args[1]
		return nil
	})
	H("(*sync/atomic.Value).Swap", func(c *Ctx, st *State, fn *ssa.Function, args []Value) Value {
		p := args[0].(Ptr)
		old := st.obj(p.obj).cells[p.off]
		st.objW(p.obj).cells[p.off] = args[1]
		return old
	})
}
