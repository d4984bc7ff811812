package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function value and arguments of a call.
func (c *Ctx) callee(st *State, f *Frame, d *dinst, cc *ssa.CallCommon) (*FuncVal, []Value) {
	var args []Value
	if cc.IsInvoke() {
		rv, ok := st.ev(f, &d.ops[0]).(Iface)
		if !ok || rv.t == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := c.l.lookupMethod(rv.t, cc.Method)
		if fn == nil {
			panic(unsupported{"method " + cc.Method.Name() + " of " + rv.t.String()})
		}
		args = append(args, rv.v)
		for i := range cc.Args {
			args = append(args, st.ev(f, &d.ops[1+i]))
		}
		return &FuncVal{fn: fn}, args
	}
	fv, ok := st.ev(f, &d.ops[0]).(*FuncVal)
	if !ok {
		panic(unsupported{"call of unset function"})
	}
	if fv == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	for i := range cc.Args {
		args = append(args, st.ev(f, &d.ops[1+i]))
	}
	return fv, args
}

func (c *Ctx) doCall(st *State, f *Frame, d *dinst, cc *ssa.CallCommon) {
	fv, args := c.callee(st, f, d, cc)
	if fv.bi != nil {
		v := c.builtin(st, f, d, fv.bi, args, cc)
		f = st.top()
		st.set(f, d.dst, v)
		f.pc++
		return
	}
	c.callFn(st, fv, args, d.dst, d.ins)
}

// callFn performs a call from the current goroutine. For calls made by an
// instruction the caller's pc is advanced here.
func (c *Ctx) callFn(st *State, fv *FuncVal, args []Value, dst int, ins ssa.Instruction) {
	_, isCall := ins.(*ssa.Call)
	if fv == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if fv.bi != nil {
		switch x := ins.(type) {
		case *ssa.Defer:
			c.builtin(st, st.top(), nil, fv.bi, args, &x.Call)
		case *ssa.Go:
			c.builtin(st, st.top(), nil, fv.bi, args, &x.Call)
		}
		return
	}
	fn := fv.fn
	if h := c.intrinsic(fn); h != nil {
		n := len(st.gor().frames)
		v := h(c, st, fn, args)
		switch v.(type) {
		case noResult:
			return // the handler arranged everything itself
		case noHandler:
			// fall through to normal execution
		default:
			if isCall && len(st.gor().frames) == n {
				f := st.top()
				st.set(f, dst, v)
				f.pc++
			}
			return
		}
	}
	if m := c.modelOf(fn); m != nil {
		fn = m
	}
	fi := c.info(fn)
	if len(fn.Blocks) == 0 {
		if v, ok := c.callAsm(st, fn, args); ok {
			if isCall {
				f := st.top()
				st.set(f, dst, v)
				f.pc++
			}
			return
		}
		panic(unsupported{"call of " + fn.String() + " (no body)"})
	}
	if c.initing && c.initLax && fn.Pkg != nil && fn.Name() != "init" && strings.HasPrefix(fn.Name(), "init") == false {
		// bounded effort inside library initialisers is enforced by step counts
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn == fn.Pkg.Func("init") {
		// package initialisers of imports run lazily
		if isCall {
			f := st.top()
			f.pc++
		}
		return
	}
	if isCall {
		f := st.top()
		f.pc++
	}
	st.pushFrame(st.cur, fi, args, fv.bind, dst)
}

type noResult struct{}

func (c *Ctx) builtin(st *State, f *Frame, d *dinst, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	tm := c.tm
	switch b.Name() {
	case "append":
		s := args[0].(Slice)
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		esz := c.lay.size(el)
		var add []Value
		var n2 int
		switch y := args[1].(type) {
		case Str:
			n2 = y.len()
			for i := 0; i < n2; i++ {
				add = append(add, c.strAt(y, i))
			}
		case Slice:
			n2 = int(y.len)
			if n2 > 0 {
				add = append(add, st.obj(y.obj).cells[y.off:int(y.off)+n2*esz]...)
			}
		}
		if n2 == 0 {
			return s
		}
		n := int(s.len) + n2
		if n <= int(s.cap) {
			o := st.objW(s.obj)
			copy(o.cells[int(s.off)+int(s.len)*esz:], add)
			s.len = int32(n)
			return s
		}
		ncap := growCap(int(s.cap), n, int(c.l.sizeof(el)))
		cells := make([]Value, 0, ncap*esz)
		if s.len > 0 {
			cells = append(cells, st.obj(s.obj).cells[s.off:int(s.off)+int(s.len)*esz]...)
		}
		cells = append(cells, add...)
		if ncap > n {
			z := c.zeroCells(el, nil)
			for i := n; i < ncap; i++ {
				cells = append(cells, z...)
			}
		}
		return Slice{st.allocObj(&Object{cells: cells, typ: el}), 0, int32(n), int32(ncap)}
	case "copy":
		dst := args[0].(Slice)
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		esz := c.lay.size(el)
		switch y := args[1].(type) {
		case Str:
			n := y.len()
			if int(dst.len) < n {
				n = int(dst.len)
			}
			if n > 0 {
				o := st.objW(dst.obj)
				for i := 0; i < n; i++ {
					o.cells[int(dst.off)+i] = c.strAt(y, i)
				}
			}
			return tm.konst(64, uint64(n))
		case Slice:
			n := int(y.len)
			if int(dst.len) < n {
				n = int(dst.len)
			}
			if n > 0 {
				src := append([]Value(nil), st.obj(y.obj).cells[y.off:int(y.off)+n*esz]...)
				copy(st.objW(dst.obj).cells[dst.off:], src)
			}
			return tm.konst(64, uint64(n))
		}
	case "len", "cap":
		return c.lenCap(st, b.Name(), args[0], cc.Args[0].Type())
	case "delete":
		m := args[0].(MapRef)
		if i := c.mapFind(st, m, args[1], cc.Args[0].Type().Underlying().(*types.Map).Key()); i >= 0 {
			o := st.objW(m.obj)
			o.m.keys = append(append([]Value(nil), o.m.keys[:i]...), o.m.keys[i+1:]...)
			o.m.vals = append(append([]Value(nil), o.m.vals[:i]...), o.m.vals[i+1:]...)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				o := st.objW(x.obj)
				o.m.keys, o.m.vals = nil, nil
			}
		case Slice:
			if x.len > 0 {
				el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				z := c.zeroCells(el, nil)
				o := st.objW(x.obj)
				for i := 0; i < int(x.len); i++ {
					copy(o.cells[int(x.off)+i*len(z):], z)
				}
			}
		}
		return nil
	case "min", "max":
		bt := cc.Args[0].Type().Underlying().(*types.Basic)
		if bt.Info()&types.IsInteger == 0 {
			break
		}
		_, signed := basicWidth(bt)
		op := OUlt
		if signed {
			op = OSlt
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = tm.ite(tm.cmp(op, t, r), t, r)
			} else {
				r = tm.ite(tm.cmp(op, r, t), t, r)
			}
		}
		return r
	case "panic":
		panic(goPanic{args[0], c.panicText(st, args[0])})
	case "print", "println":
		return nil
	case "recover":
		g := st.gorW(st.cur)
		n := len(g.frames)
		if n >= 2 && g.frames[n-1].isDef {
			p := g.frames[n-2]
			if p.panicking && !p.recovered {
				if p.owner != st.token {
					np := *p
					np.owner = st.token
					np.pages = append([]*valPage(nil), p.pages...)
					np.defers = append([]Deferred(nil), p.defers...)
					g.frames[n-2] = &np
					p = &np
				}
				p.recovered = true
				return p.panicVal
			}
		}
		return Iface{}
	case "close":
		ch := args[0].(ChanRef)
		if ch.obj == 0 {
			rtPanic("close of nil channel")
		}
		o := st.objW(ch.obj)
		if o.ch.closed {
			m := "close of closed channel"
			panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
		}
		o.ch.closed = true
		c.wakeClosed(st, ch.obj)
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		return c.sliceStr(st, Slice{p.obj, p.off, int32(n), int32(n)})
	case "StringData":
		s := c.strSlice(st, args[0].(Str))
		return Ptr{s.obj, 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "Slice":
		p, ok := args[0].(Ptr)
		if ok {
			n := int32(st.concInt(args[1]))
			return Slice{p.obj, p.off, n, n}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s", b.Name())})
}

// ---- allocation sizes (mirrors runtime.growslice) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupSize(n int) int {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need, esz int) int {
	ncap := old
	if need > 2*old {
		ncap = need
	} else if old < 256 {
		ncap = 2 * old
	} else {
		for ncap < need {
			ncap += (ncap + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	return roundupSize(ncap*esz) / esz
}

// ---- channels and scheduling ----

// ready reports whether a pending case can proceed now and with which partner.
func (c *Ctx) caseReady(st *State, gi int, pc pendCase) (ok bool, partner int, pcase int) {
	if pc.ch == 0 {
		return false, -1, -1
	}
	ch := st.obj(pc.ch).ch
	if pc.send {
		if ch.closed {
			return true, -1, -1
		}
		if g, k := c.findPartner(st, gi, pc.ch, false); g >= 0 {
			return true, g, k
		}
		return len(ch.buf) < ch.cap, -1, -1
	}
	if len(ch.buf) > 0 {
		return true, -1, -1
	}
	if g, k := c.findPartner(st, gi, pc.ch, true); g >= 0 {
		return true, g, k
	}
	return ch.closed, -1, -1
}

// findPartner looks for another goroutine blocked on the opposite operation.
func (c *Ctx) findPartner(st *State, gi int, ch ObjID, send bool) (int, int) {
	for i, g := range st.gors {
		if i == gi || g.done || g.pend == nil || g.pend.kind != 1 {
			continue
		}
		for k, pc := range g.pend.cases {
			if pc.ch == ch && pc.send == send {
				return i, k
			}
		}
	}
	return -1, -1
}

// complete finishes the blocked (or current) channel instruction of goroutine
// gi with case k and received value v.
func (c *Ctx) complete(st *State, gi int, p *pend, k int, v Value, ok bool) {
	g := st.gorW(gi)
	g.pend = nil
	f := st.topOf(gi)
	d := &f.info.blocks[f.block][f.pc]
	tm := c.tm
	if p.isSel {
		tu := Tuple{tm.konst(64, uint64(int64(k))), tm.boolConst(ok)}
		ri := 0
		for i, pc := range p.cases {
			if pc.send {
				continue
			}
			if i == k {
				tu = append(tu, v)
			} else {
				tu = append(tu, c.zero(p.recvTyp[ri]))
			}
			ri++
		}
		if k < 0 {
			tu[0] = tm.konst(64, ^uint64(0))
		}
		st.set(f, d.dst, tu)
	} else if !p.cases[k].send {
		if u, isU := d.ins.(*ssa.UnOp); isU && u.CommaOk {
			st.set(f, d.dst, Tuple{v, tm.boolConst(ok)})
		} else {
			st.set(f, d.dst, v)
		}
	}
	f.pc++
}

// fire performs case k of goroutine gi, which must be ready.
func (c *Ctx) fire(st *State, gi int, p *pend, k int, partner, pcase int) {
	pc := p.cases[k]
	el := st.obj(pc.ch).ch.elem
	if pc.send {
		ch := st.obj(pc.ch).ch
		if ch.closed {
			g := st.gorW(gi)
			g.pend = nil
			m := "send on closed channel"
			st.cur = gi
			panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
		}
		if partner >= 0 {
			pp := st.gors[partner].pend
			c.complete(st, partner, pp, pcase, pc.val, true)
			c.complete(st, gi, p, k, nil, false)
			return
		}
		o := st.objW(pc.ch)
		o.ch.buf = append(o.ch.buf, pc.val)
		c.complete(st, gi, p, k, nil, false)
		// a receiver blocked on this channel would have been the partner
		return
	}
	ch := st.obj(pc.ch).ch
	if len(ch.buf) > 0 {
		o := st.objW(pc.ch)
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		// a blocked sender can now use the freed slot
		if g2, k2 := c.findPartner(st, gi, pc.ch, true); g2 >= 0 {
			pp := st.gors[g2].pend
			o.ch.buf = append(o.ch.buf, pp.cases[k2].val)
			c.complete(st, g2, pp, k2, nil, false)
		}
		c.complete(st, gi, p, k, v, true)
		return
	}
	if partner >= 0 {
		pp := st.gors[partner].pend
		v := pp.cases[pcase].val
		c.complete(st, partner, pp, pcase, nil, false)
		c.complete(st, gi, p, k, v, true)
		return
	}
	// closed and empty
	c.complete(st, gi, p, k, c.zero(el), false)
}

func (c *Ctx) wakeClosed(st *State, ch ObjID) {
	// blocked receivers complete, blocked senders panic when scheduled
	for gi := range st.gors {
		g := st.gors[gi]
		if g.done || g.pend == nil || g.pend.kind != 1 {
			continue
		}
		for k, pc := range g.pend.cases {
			if pc.ch == ch && !pc.send && len(st.obj(ch).ch.buf) == 0 {
				c.complete(st, gi, g.pend, k, c.zero(st.obj(ch).ch.elem), false)
				break
			}
		}
	}
}

// chanOp executes a send, receive or select of the current goroutine.
func (c *Ctx) chanOp(st *State, f *Frame, d *dinst, cases []pendCase, isSel, hasDef bool, rt []types.Type) {
	if c.maybeYield(st) {
		return
	}
	p := &pend{kind: 1, cases: cases, isSel: isSel, hasDef: hasDef, recvTyp: rt}
	type rdy struct{ k, partner, pcase int }
	var rs []rdy
	for k, pc := range cases {
		if ok, g, pk := c.caseReady(st, st.cur, pc); ok {
			rs = append(rs, rdy{k, g, pk})
		}
	}
	st.pre = false
	gi := st.cur
	if len(rs) == 0 {
		if hasDef {
			c.complete(st, gi, p, -1, nil, false)
			return
		}
		st.gorW(gi).pend = p
		return
	}
	for i := len(rs) - 1; i >= 1; i-- {
		r := rs[i]
		o := st.clone()
		o.sched = append(o.sched, r.k)
		c.fireSafe(o, gi, p, r.k, r.partner, r.pcase)
	}
	if len(rs) > 1 {
		st.sched = append(st.sched, rs[0].k)
	}
	c.fire(st, gi, p, rs[0].k, rs[0].partner, rs[0].pcase)
}

// fireSafe fires in a forked state; a Go panic in it becomes a pending panic.
func (c *Ctx) fireSafe(o *State, gi int, p *pend, k, partner, pcase int) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			e, dead := c.startPanic(o, gp)
			if dead {
				c.run.pathEnded(c, o, e)
				return
			}
			c.work = append(c.work, o)
		}
	}()
	c.fire(o, gi, p, k, partner, pcase)
	c.work = append(c.work, o)
}

// maybeYield explores running another goroutine before a visible operation.
func (c *Ctx) maybeYield(st *State) bool {
	if !st.yieldOK || st.pre || c.initing || st.limited && st.preempt == 0 {
		return false
	}
	var others []int
	for i, g := range st.gors {
		if i == st.cur || g.done {
			continue
		}
		if g.pend == nil {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return false
	}
	for _, i := range others {
		o := st.clone()
		o.cur = i
		o.pre = true
		o.preempt--
		o.sched = append(o.sched, i)
		c.work = append(c.work, o)
	}
	st.pre = true
	st.sched = append(st.sched, st.cur)
	// the current state goes on with the operation itself
	return false
}

// schedule picks the next goroutine; ok is true when the path ends.
func (c *Ctx) schedule(st *State) (pathEnd, bool) {
	st.pre = false
	var run []int
	for i, g := range st.gors {
		if !g.done && g.pend == nil {
			run = append(run, i)
		}
	}
	if len(run) > 0 {
		// when exploring interleavings every runnable goroutine may go next;
		// otherwise round robin starting with the youngest non-main
		if st.yieldOK && len(run) > 1 && !c.initing {
			for _, i := range run[1:] {
				o := st.clone()
				o.cur = i
				o.pre = true
				o.sched = append(o.sched, i)
				c.work = append(c.work, o)
			}
			st.sched = append(st.sched, run[0])
			st.cur = run[0]
			st.pre = true
			return pathEnd{}, false
		}
		st.cur = run[len(run)-1]
		return pathEnd{}, false
	}
	// nobody can run: the settle point of the harness, or time advances
	for i, g := range st.gors {
		if !g.done && g.pend != nil && g.pend.kind == 2 {
			g = st.gorW(i)
			g.pend = nil
			st.cur = i
			return pathEnd{}, false
		}
	}
	// fire the earliest timer that can have an effect
	bi := -1
	for i, t := range st.timers {
		if t.per > 0 {
			if o := st.obj(t.ch); len(o.ch.buf) >= o.ch.cap {
				continue
			}
		}
		if bi < 0 || t.at < st.timers[bi].at || t.at == st.timers[bi].at && t.id < st.timers[bi].id {
			bi = i
		}
	}
	if bi >= 0 && !st.gors[0].done {
		t := st.timers[bi]
		st.timers = append(append([]Timer(nil), st.timers[:bi]...), st.timers[bi+1:]...)
		if t.at > st.clock {
			st.clock = t.at
		}
		if t.goid >= 0 {
			g := st.gorW(t.goid)
			g.pend = nil
			st.cur = t.goid
			return pathEnd{}, false
		}
		if t.per > 0 {
			n := t
			for n.at <= st.clock {
				n.at += t.per
			}
			st.timers = append(st.timers, n)
		}
		c.timerFire(st, t)
		return pathEnd{}, false
	}
	if st.gors[0].done {
		return pathEnd{"done", ""}, true
	}
	var who []string
	for i, g := range st.gors {
		if !g.done {
			st.cur = i
			who = append(who, fmt.Sprintf("goroutine %d blocked at %s", i, st.where()))
		}
	}
	st.cur = 0
	return pathEnd{"deadlock", strings.Join(who, "; ")}, true
}

func (c *Ctx) timerFire(st *State, t Timer) {
	o := st.objW(t.ch)
	v := c.timeVal(st)
	if g, k := c.findPartner(st, -1, t.ch, false); g >= 0 {
		c.complete(st, g, st.gors[g].pend, k, v, true)
		st.cur = g
		return
	}
	if len(o.ch.buf) < o.ch.cap {
		o.ch.buf = append(o.ch.buf, v)
	}
}
