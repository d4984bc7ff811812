package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type forkSig struct{}
type pureFail struct{}
type goPanic struct {
	v   Value
	msg string
}
type endPath struct {
	kind string // "infeasible", "done", "cut"
	why  string
}

type Ctx struct {
	l        *Loaded
	run      *Run
	tm       *TM
	sol      *Solver
	lay      Layout
	infos    map[*ssa.Function]*fnInfo
	base     []*Object
	globals  map[*ssa.Global]ObjID
	inited   map[*ssa.Package]int
	initing  bool
	initLax  bool
	tokens   uint64
	forks    int
	work     []*State
	pure     bool
	pool     [66][]*Term
	funcs    map[string]bool
	built    map[*ssa.Package]bool
	task     *Task
	insns    int
	aux      map[string][]*Term
	opaque   map[string]int
	deadline time.Time
	maxSteps int
	ptrIDs   map[Value]int
	flags    map[string]flagDef
}

func newCtx(l *Loaded, run *Run) *Ctx {
	tm := newTM()
	c := &Ctx{l: l, run: run, tm: tm, sol: newSolver(tm, run.solverMS)}
	c.lay = Layout{map[types.Type]int{}, map[*types.Struct][]int{}}
	c.infos = map[*ssa.Function]*fnInfo{}
	c.base = []*Object{nil}
	c.globals = map[*ssa.Global]ObjID{}
	c.inited = map[*ssa.Package]int{}
	c.funcs = map[string]bool{}
	c.built = map[*ssa.Package]bool{}
	c.aux = map[string][]*Term{}
	c.opaque = map[string]int{}
	return c
}

func (c *Ctx) entered(fi *fnInfo) {
	if !fi.used {
		fi.used = true
		c.funcs[fi.name] = true
		fi.seen[0] = true
	}
}

func (c *Ctx) newState() *State {
	c.tokens++
	st := &State{c: c, token: c.tokens}
	st.baseMod = map[ObjID]*Object{}
	st.dom = map[int32]Set{}
	st.ent = map[int32]bool{}
	st.conc = map[*Term]uint64{}
	st.reach = map[string]bool{}
	return st
}

func (c *Ctx) buildPkg(p *ssa.Package) {
	if !c.built[p] {
		c.l.build(p)
		c.built[p] = true
	}
}

// boundedRem replaces a%b (b a positive constant) by a fresh value of the same
// sign smaller than b in magnitude: an over-approximation that keeps chains of
// remainders decidable. The path's model keeps the true values.
func (st *State) boundedRem(a, b *Term) *Term {
	c, tm := st.c, st.c.tm
	nb := uint8(bits.Len64(b.val - 1))
	if nb <= 8 {
		return nil
	}
	neg := st.branch(tm.cmp(OSlt, a, tm.konst(a.w, 0)))
	key := fmt.Sprintf("rem/%d/%d/%v", a.id, b.val, neg)
	vs, ok := c.aux[key]
	if !ok {
		vs = []*Term{tm.newVar(nb, key)}
		c.aux[key] = vs
	}
	r := tm.zext(vs[0], a.w)
	val := sext(st.evalModel(a), a.w) % int64(b.val)
	if neg {
		r, val = tm.neg(r), -val
	}
	cond := tm.cmp(OUlt, vs[0], tm.konst(nb, b.val))
	for _, m := range st.multi {
		if m == cond {
			return r
		}
	}
	st.add(cond, map[int32]uint64{vs[0].sv: uint64(val)})
	return r
}

// ---- branching ----

// branch decides cond on this path, forking if both outcomes are possible.
func (st *State) branch(cond *Term) bool {
	if cond.op == OConst {
		return cond.val != 0
	}
	if v, ok := st.known(cond); ok {
		return v != 0
	}
	c := st.c
	if c.pure {
		// only decidable conditions are allowed in pure mode
		r1, _ := st.feasible(cond)
		if r1 == Unsat {
			return false
		}
		r2, _ := st.feasible(c.tm.not(cond))
		if r2 == Unsat {
			return true
		}
		panic(pureFail{})
	}
	rt, ut := st.feasible(cond)
	ncond := c.tm.not(cond)
	rf, uf := st.feasible(ncond)
	if rt == Unsat && rf == Unsat {
		panic(endPath{"infeasible", "contradictory path"})
	}
	if rt == Unknown || rf == Unknown {
		st.unsure = true
	}
	if rf == Unsat {
		st.remember(cond, true)
		return true
	}
	if rt == Unsat {
		st.remember(cond, false)
		return false
	}
	o := st.clone()
	o.add(ncond, uf)
	o.remember(cond, false)
	c.work = append(c.work, o)
	st.add(cond, ut)
	st.remember(cond, true)
	return true
}

// remember records an implied truth value so that re-execution of the current
// instruction does not ask again.
func (st *State) remember(cond *Term, v bool) {
	if cond.op == OIn || cond.op == OConst {
		return
	}
	x := uint64(0)
	if v {
		x = 1
	}
	st.setConc(cond, x)
	if cond.op == ONot {
		st.setConc(cond.args[0], 1-x)
	}
}

// fork splits the path over alternatives; on return the current state
// continues with alternative i. The others re-execute the current instruction,
// so callers must not have had side effects yet, and must reach the same
// decision through known().
func (st *State) assume(cond *Term) {
	if cond.op == OConst {
		if cond.val == 0 {
			panic(endPath{"infeasible", "assumption"})
		}
		return
	}
	r, up := st.feasible(cond)
	if r == Unsat {
		panic(endPath{"infeasible", "assumption"})
	}
	if r == Unknown {
		st.unsure = true
	}
	st.add(cond, up)
}

// concretize returns the value of t on this path, forking over its values.
func (st *State) concretize(t *Term) uint64 {
	if v, ok := st.known(t); ok {
		return v
	}
	c := st.c
	tm := c.tm
	if c.pure {
		panic(pureFail{})
	}
	type alt struct {
		v    uint64
		cond *Term
	}
	var alts []alt
	if v, ok := tm.smallVar(t); ok {
		d := st.domain(v)
		tab := tm.table(t)
		byVal := map[uint64]*Set{}
		var order []uint64
		for i, x := range tab {
			if !d.has(uint64(i)) {
				continue
			}
			s := byVal[x]
			if s == nil {
				s = &Set{}
				byVal[x] = s
				order = append(order, x)
			}
			s.add(uint64(i))
		}
		for _, x := range order {
			alts = append(alts, alt{x, tm.in(v, *byVal[x])})
		}
	} else if leaves, ok := constLeaves(t); ok {
		for _, x := range leaves {
			alts = append(alts, alt{x, tm.eq(t, tm.konst(t.w, x))})
		}
	} else {
		// enumerate values with the solver
		excl := tm.True
		for n := 0; ; n++ {
			if n > 300 {
				panic(unsupported{"concretisation of a term with more than 300 values: " + showTerm(t, 5)})
			}
			r, up := st.feasible(excl)
			if r == Unsat {
				break
			}
			if r == Unknown {
				panic(unsupported{"solver gave no answer while concretising"})
			}
			save := st.model
			so := st.modOwn
			tmp := st.modelWith(up)
			st.model = tmp
			x := st.evalModel(t)
			st.model, st.modOwn = save, so
			cnd := tm.eq(t, tm.konst(t.w, x))
			alts = append(alts, alt{x, cnd})
			excl = tm.and(excl, tm.not(cnd))
		}
	}
	first := -1
	var out uint64
	var fu map[int32]uint64
	var fc *Term
	for i, a := range alts {
		r, up := st.feasible(a.cond)
		if r == Unsat {
			continue
		}
		if first < 0 {
			first, out, fu, fc = i, a.v, up, a.cond
			continue
		}
		o := st.clone()
		o.add(a.cond, up)
		o.setConc(t, a.v)
		c.work = append(c.work, o)
	}
	if first < 0 {
		panic(endPath{"infeasible", "no value"})
	}
	st.add(fc, fu)
	st.setConc(t, out)
	return out
}

func (st *State) modelWith(up map[int32]uint64) []uint64 {
	n := len(st.model)
	for v := range up {
		if int(v) >= n {
			n = int(v) + 1
		}
	}
	m := make([]uint64, n)
	copy(m, st.model)
	for v, x := range up {
		m[v] = x
	}
	return m
}

func constLeaves(t *Term) ([]uint64, bool) {
	seen := map[*Term]bool{}
	vals := map[uint64]bool{}
	n := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		n++
		if n > 2000 {
			return false
		}
		if t.op == OConst {
			vals[t.val] = true
			return true
		}
		if t.op == OIte {
			return walk(t.args[1]) && walk(t.args[2])
		}
		return false
	}
	if !walk(t) || len(vals) > 300 {
		return nil, false
	}
	var out []uint64
	for v := range vals {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, true
}

func (st *State) concInt(v Value) int {
	t := v.(*Term)
	if t.op == OConst {
		return int(sext(t.val, t.w))
	}
	return int(sext(st.concretize(t), t.w))
}

func rtPanic(format string, args ...interface{}) {
	m := "runtime error: " + fmt.Sprintf(format, args...)
	panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
}

// ---- operand evaluation ----

func (st *State) ev(f *Frame, o *opnd) Value {
	switch o.kind {
	case okReg:
		v := f.pages[o.reg/pageSize]
		if v == nil {
			panic(unsupported{"unset register in " + f.info.name})
		}
		return v.v[o.reg%pageSize]
	case okVal:
		return o.val
	case okGlobal:
		return st.c.globalPtr(o.glob)
	}
	return nil
}

func (c *Ctx) globalPtr(g *ssa.Global) Ptr {
	if id, ok := c.globals[g]; ok {
		if c.inited[g.Pkg] == 0 {
			c.initPkg(g.Pkg)
		}
		return Ptr{obj: id}
	}
	for _, m := range g.Pkg.Members {
		if gg, ok := m.(*ssa.Global); ok {
			if _, have := c.globals[gg]; !have {
				el := gg.Type().(*types.Pointer).Elem()
				c.globals[gg] = c.newBase(&Object{cells: c.zeroCells(el, nil), typ: el})
			}
		}
	}
	c.initPkg(g.Pkg)
	return Ptr{obj: c.globals[g]}
}

// initPkg executes a package initialiser (variable initialisers and init
// functions) on the shared base heap.
func (c *Ctx) initPkg(p *ssa.Package) {
	if c.inited[p] != 0 {
		return
	}
	c.inited[p] = 1
	c.buildPkg(p)
	fn := p.Func("init")
	if fn == nil {
		return
	}
	saveW, saveI, saveP, saveT := c.work, c.initing, c.pure, c.task
	c.work, c.initing, c.pure = nil, true, false
	st := c.newState()
	g := &Gor{owner: st.token}
	st.gors = []*Gor{g}
	st.pushFrame(0, c.info(fn), nil, nil, -1)
	lax := !strings.HasPrefix(p.Pkg.Path(), modPath)
	saveL := c.initLax
	c.initLax = lax
	for {
		r := c.exec(st)
		if r.kind == "unsupported" && lax {
			// skip the failing instruction: its result stays unset (nil)
			c.skipInst(st)
			continue
		}
		if r.kind != "done" && r.kind != "maindone" {
			if !lax {
				fmt.Println("init of", p.Pkg.Path(), "failed:", r.kind, r.why)
			}
		}
		break
	}
	c.work, c.initing, c.pure, c.task = saveW, saveI, saveP, saveT
	c.initLax = saveL
	c.inited[p] = 2
}

// skipInst abandons everything above the init frame and skips its current
// instruction.
func (c *Ctx) skipInst(st *State) {
	g := st.gorW(0)
	// unwind to the outermost frame that is an init function of the package
	g.frames = g.frames[:1]
	f := st.top()
	f.panicking = false
	d := &f.info.blocks[f.block][f.pc]
	if d.dst >= 0 {
		if v, ok := d.ins.(ssa.Value); ok {
			func() {
				defer func() { recover() }()
				st.set(f, d.dst, c.zero(v.Type()))
			}()
		}
	}
	switch in := d.ins.(type) {
	case *ssa.If:
		st.jump(f, 1)
		return
	case *ssa.Jump:
		_ = in
		st.jump(f, 0)
		return
	case *ssa.Return:
		g.frames = nil
		return
	}
	f.pc++
}

type pathEnd struct {
	kind string // done, unsupported, infeasible, panic, forked, deadlock, cut
	why  string
}

// exec runs st until its path ends.
func (c *Ctx) exec(st *State) (res pathEnd) {
	for {
		r, again := c.execSome(st)
		if !again {
			return r
		}
	}
}

func (c *Ctx) execSome(st *State) (res pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				if c.pure {
					c.pure = false
				}
				if e, ok := c.startPanic(st, x); ok {
					res, again = e, false
					return
				}
				again = true
			case unsupported:
				res = pathEnd{"unsupported", x.why + " at " + st.where()}
			case endPath:
				res = pathEnd{x.kind, x.why}
			case forkSig:
				res = pathEnd{"forked", ""}
			default:
				if c.initing && c.initLax {
					res = pathEnd{"unsupported", fmt.Sprint(r)}
					return
				}
				panic(fmt.Sprintf("%v\n  at %s", r, st.where()))
			}
		}
	}()
	for {
		if len(st.gors) == 0 {
			return pathEnd{"done", ""}, false
		}
		g := st.gors[st.cur]
		if g.done || g.pend != nil {
			if e, ok := c.schedule(st); ok {
				return e, false
			}
			continue
		}
		if len(g.frames) == 0 {
			g = st.gorW(st.cur)
			g.done = true
			if st.cur == 0 {
				return pathEnd{"done", ""}, false
			}
			continue
		}
		f := st.top()
		st.steps++
		c.insns++
		if st.steps&0xfff == 0 {
			if !c.initing && time.Now().After(c.deadline) {
				return pathEnd{"cut", "time limit"}, false
			}
			if c.maxSteps > 0 && st.steps > c.maxSteps {
				return pathEnd{"steps", "step limit at " + st.where()}, false
			}
		}
		c.step(st, f)
	}
}

func (st *State) where() string {
	defer func() { recover() }()
	g := st.gors[st.cur]
	var out []string
	for i := len(g.frames) - 1; i >= 0 && len(out) < 6; i-- {
		f := g.frames[i]
		pos := "?"
		if f.pc < len(f.info.blocks[f.block]) {
			ins := f.info.blocks[f.block][f.pc].ins
			p := ins.Pos()
			pos = st.c.l.fset.Position(p).String()
			if p == token.NoPos {
				pos = ins.String()
			}
			if i := strings.LastIndex(pos, "/"); i >= 0 {
				pos = pos[i+1:]
			}
		}
		out = append(out, f.info.fn.Name()+"("+pos+")")
	}
	return strings.Join(out, " < ")
}

// startPanic begins unwinding; it reports a path end when nothing recovers.
func (c *Ctx) startPanic(st *State, p goPanic) (pathEnd, bool) {
	f := st.top()
	f.panicking = true
	f.panicVal = p.v
	f.inDefers = true
	st.notes = append(st.notes, "panic: "+p.msg+" at "+st.where())
	return c.unwind(st)
}

// unwind continues panic processing of the top frame: run its deferred calls,
// then pop. ok is true when the goroutine dies.
func (c *Ctx) unwind(st *State) (pathEnd, bool) {
	for {
		g := st.gorW(st.cur)
		f := st.top()
		if f.recovered && len(f.defers) == 0 {
			// return from the recovering frame with its named results
			f.panicking = false
			c.finishRecovered(st, f)
			return pathEnd{}, false
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if c.callDeferred(st, d) {
				return pathEnd{}, false
			}
			continue
		}
		pv := f.panicVal
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			msg := "panic"
			if len(st.notes) > 0 {
				msg = st.notes[len(st.notes)-1]
			}
			return pathEnd{"panic", msg}, true
		}
		nf := st.top()
		if f.isDef && nf.panicking {
			nf.panicVal = pv
			continue
		}
		nf.panicking = true
		nf.panicVal = pv
		nf.inDefers = true
	}
}

func (c *Ctx) finishRecovered(st *State, f *Frame) {
	// jump to the recover block if there is one
	if rb := f.info.fn.Recover; rb != nil {
		f.prev = f.block
		f.block = rb.Index
		f.pc = 0
		f.inDefers = false
		f.recovered = false
		return
	}
	res := f.info.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = c.zero(res.At(0).Type())
	default:
		v = c.zero(res)
	}
	c.doReturn(st, v)
}

// callDeferred starts a deferred call; true when a frame was pushed.
func (c *Ctx) callDeferred(st *State, d Deferred) bool {
	n := len(st.gor().frames)
	c.callFn(st, d.fn, d.args, -1, d.ins)
	g := st.gorW(st.cur)
	if len(g.frames) > n {
		st.top().isDef = true
		return true
	}
	return false
}

func (c *Ctx) doReturn(st *State, v Value) {
	g := st.gorW(st.cur)
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if f.after != nil {
		f.after(st, v)
		return
	}
	if len(g.frames) == 0 {
		return
	}
	caller := st.top()
	if f.isDef {
		if caller.panicking || caller.recovered {
			if e, ok := c.unwind(st); ok {
				panic(endPath{e.kind, e.why})
			}
			return
		}
		// RunDefers continues: stays on the same instruction
		return
	}
	if f.dst >= 0 {
		st.set(caller, f.dst, v)
	}
}

func (st *State) jump(f *Frame, succ int) {
	b := f.info.fn.Blocks[f.block]
	to := b.Succs[succ]
	st.jumpTo(f, f.block, to)
}

func (st *State) jumpTo(f *Frame, from int, to *ssa.BasicBlock) {
	ds := f.info.blocks[to.Index]
	// phis
	np := 0
	for np < len(ds) {
		if _, ok := ds[np].ins.(*ssa.Phi); !ok {
			break
		}
		np++
	}
	if np > 0 {
		pi := predIndex(to, from)
		var buf [16]Value
		vals := buf[:0]
		for i := 0; i < np; i++ {
			vals = append(vals, st.ev(f, &ds[i].ops[pi]))
		}
		for i := 0; i < np; i++ {
			st.set(f, ds[i].dst, vals[i])
		}
	}
	f.prev = from
	f.block = to.Index
	f.pc = np
	f.info.seen[to.Index] = true
}

func predIndex(b *ssa.BasicBlock, from int) int {
	for i, p := range b.Preds {
		if p.Index == from {
			return i
		}
	}
	panic("no pred")
}

func (c *Ctx) step(st *State, f *Frame) {
	d := &f.info.blocks[f.block][f.pc]
	if d.pure {
		st.set(f, d.dst, c.evalPure(st, f, d))
		f.pc++
		return
	}
	switch in := d.ins.(type) {
	case *ssa.Jump:
		st.jump(f, 0)
	case *ssa.If:
		c.doIf(st, f, d)
	case *ssa.Store:
		p := st.ev(f, &d.ops[0])
		v := st.ev(f, &d.ops[1])
		c.storeTo(st, p, in.Val.Type(), v)
		f.pc++
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		st.set(f, d.dst, Ptr{obj: st.alloc(el, 1)})
		f.pc++
	case *ssa.Call:
		c.doCall(st, f, d, &in.Call)
	case *ssa.Return:
		var v Value
		switch len(d.ops) {
		case 0:
		case 1:
			v = st.ev(f, &d.ops[0])
		default:
			tu := make(Tuple, len(d.ops))
			for i := range d.ops {
				tu[i] = st.ev(f, &d.ops[i])
			}
			v = tu
		}
		c.doReturn(st, v)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			dd := f.defers[n-1]
			f.defers = f.defers[:n-1]
			c.callDeferred(st, dd)
			return
		}
		f.pc++
	case *ssa.Defer:
		fv, args := c.callee(st, f, d, &in.Call)
		f.defers = append(f.defers, Deferred{fv, args, in})
		f.pc++
	case *ssa.Go:
		fv, args := c.callee(st, f, d, &in.Call)
		f.pc++
		ng := &Gor{owner: st.token, id: len(st.gors)}
		st.gors = append(st.gors, ng)
		cur := st.cur
		st.cur = len(st.gors) - 1
		c.callFn(st, fv, args, -1, d.ins)
		st.cur = cur
	case *ssa.Panic:
		v := st.ev(f, &d.ops[0])
		if f.info.fn.Pkg != nil && strings.HasSuffix(f.info.fn.Pkg.Pkg.Path(), "/zzv/model") {
			panic(unsupported{c.panicText(st, v)})
		}
		panic(goPanic{v, c.panicText(st, v)})
	case *ssa.MakeSlice:
		n := st.concInt(st.ev(f, &d.ops[0]))
		k := st.concInt(st.ev(f, &d.ops[1]))
		if n < 0 || n > 1<<22 {
			rtPanic("makeslice: len out of range")
		}
		if k < n || k > 1<<22 {
			rtPanic("makeslice: cap out of range")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		st.set(f, d.dst, Slice{obj: st.alloc(el, k), len: int32(n), cap: int32(k)})
		f.pc++
	case *ssa.Slice:
		st.set(f, d.dst, c.doSlice(st, f, d, in))
		f.pc++
	case *ssa.MakeMap:
		st.set(f, d.dst, MapRef{st.allocObj(&Object{m: &MapObj{}})})
		f.pc++
	case *ssa.MapUpdate:
		m := st.ev(f, &d.ops[0]).(MapRef)
		k, v := st.ev(f, &d.ops[1]), st.ev(f, &d.ops[2])
		c.mapUpdate(st, m, k, v, in.Key.Type())
		f.pc++
	case *ssa.Lookup: // map
		m := st.ev(f, &d.ops[0]).(MapRef)
		k := st.ev(f, &d.ops[1])
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := c.mapLookup(st, m, k, mt)
		if in.CommaOk {
			st.set(f, d.dst, Tuple{v, ok})
		} else {
			st.set(f, d.dst, v)
		}
		f.pc++
	case *ssa.MakeChan:
		n := st.concInt(st.ev(f, &d.ops[0]))
		el := in.Type().Underlying().(*types.Chan).Elem()
		st.set(f, d.dst, ChanRef{st.allocObj(&Object{ch: &ChanObj{cap: n, elem: el}})})
		f.pc++
	case *ssa.MakeClosure:
		fv := &FuncVal{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(d.ops); i++ {
			fv.bind = append(fv.bind, st.ev(f, &d.ops[i]))
		}
		st.set(f, d.dst, fv)
		f.pc++
	case *ssa.TypeAssert:
		st.set(f, d.dst, c.typeAssert(st, st.ev(f, &d.ops[0]).(Iface), in))
		f.pc++
	case *ssa.Range:
		switch x := st.ev(f, &d.ops[0]).(type) {
		case Str:
			st.set(f, d.dst, &StrIter{s: x})
		case MapRef:
			it := &MapIter{m: x.obj}
			if x.obj != 0 {
				it.keys = append(it.keys, st.obj(x.obj).m.keys...)
			}
			st.set(f, d.dst, it)
		}
		f.pc++
	case *ssa.Next:
		c.doNext(st, f, d, in)
	case *ssa.Send:
		ch := st.ev(f, &d.ops[0]).(ChanRef)
		v := st.ev(f, &d.ops[1])
		c.chanOp(st, f, d, []pendCase{{ch.obj, true, v}}, false, false, nil)
	case *ssa.UnOp: // receive
		ch := st.ev(f, &d.ops[0]).(ChanRef)
		c.chanOp(st, f, d, []pendCase{{ch.obj, false, nil}}, false, false, []types.Type{in.X.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Select:
		var cs []pendCase
		var rt []types.Type
		for i, s := range in.States {
			ch := st.ev(f, &d.ops[2*i]).(ChanRef)
			pc := pendCase{ch: ch.obj, send: s.Dir == types.SendOnly}
			if pc.send {
				pc.val = st.ev(f, &d.ops[2*i+1])
			} else {
				rt = append(rt, s.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			cs = append(cs, pc)
		}
		c.chanOp(st, f, d, cs, true, !in.Blocking, rt)
	case *ssa.SliceToArrayPointer:
		s := st.ev(f, &d.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
		}
		st.set(f, d.dst, Ptr{s.obj, s.off})
		f.pc++
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (c *Ctx) panicText(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.v.(type) {
		case Str:
			if x.t == nil {
				return x.s
			}
		case *Term:
			if x.op == OConst {
				return fmt.Sprint(sext(x.val, x.w))
			}
		case Ptr:
			// errors.New values
			if x.obj != 0 {
				if o := st.obj(x.obj); int(x.off) < len(o.cells) {
					if s, ok := o.cells[x.off].(Str); ok && s.t == nil {
						return s.s
					}
				}
			}
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return "panic"
}

// ---- memory access ----

func (c *Ctx) loadFrom(st *State, p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		return st.load(p, t)
	case *SymPtr:
		o := st.obj(p.obj)
		n := c.lay.size(t)
		if n != 1 {
			k := int32(st.concretize(p.sym))
			return st.load(Ptr{p.obj, p.off + k*p.stride + p.rest}, t)
		}
		return c.symLoad(st, o, p)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (c *Ctx) symLoad(st *State, o *Object, p *SymPtr) Value {
	// group indices by value
	cell := func(i int32) Value { return o.cells[p.off+i*p.stride+p.rest] }
	if _, ok := cell(0).(*Term); !ok {
		k := int32(st.concretize(p.sym))
		return cell(k)
	}
	return c.selectTerm(st, p.sym, int(p.n), func(i int) *Term { return cell(int32(i)).(*Term) })
}

// selectTerm builds the value cell(sym) for 0 <= sym < n.
func (c *Ctx) selectTerm(st *State, sym *Term, n int, cell func(i int) *Term) *Term {
	tm := c.tm
	if v, ok := tm.smallVar(sym); ok {
		d := st.domain(v)
		tab := tm.table(sym)
		sets := map[*Term]*Set{}
		var order []*Term
		for i, x := range tab {
			if !d.has(uint64(i)) || x >= uint64(n) {
				continue
			}
			ct := cell(int(x))
			s := sets[ct]
			if s == nil {
				s = &Set{}
				sets[ct] = s
				order = append(order, ct)
			}
			s.add(uint64(i))
		}
		if len(order) == 0 {
			return cell(0)
		}
		// the largest group becomes the default
		sort.SliceStable(order, func(i, j int) bool { return sets[order[i]].count() > sets[order[j]].count() })
		r := order[0]
		for _, ct := range order[1:] {
			r = tm.ite(tm.in(v, *sets[ct]), ct, r)
		}
		return r
	}
	conds := map[*Term]*Term{}
	var order []*Term
	for i := 0; i < n; i++ {
		ct := cell(i)
		e := tm.eq(sym, tm.konst(sym.w, uint64(i)))
		if e == tm.False {
			continue
		}
		if x, ok := conds[ct]; ok {
			conds[ct] = tm.or(x, e)
		} else {
			conds[ct] = e
			order = append(order, ct)
		}
	}
	if len(order) == 0 {
		return cell(0)
	}
	r := order[0]
	for _, ct := range order[1:] {
		r = tm.ite(conds[ct], ct, r)
	}
	return r
}

func (c *Ctx) storeTo(st *State, p Value, t types.Type, v Value) {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		st.store(p, t, v)
		return
	case *SymPtr:
		nt, ok := v.(*Term)
		if ok && c.lay.size(t) == 1 {
			tm := c.tm
			o := st.objW(p.obj)
			for i := int32(0); i < p.n; i++ {
				ci := p.off + i*p.stride + p.rest
				old := o.cells[ci].(*Term)
				o.cells[ci] = tm.ite(tm.eq(p.sym, tm.konst(p.sym.w, uint64(i))), nt, old)
			}
			return
		}
		k := int32(st.concretize(p.sym))
		st.store(Ptr{p.obj, p.off + k*p.stride + p.rest}, t, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

// index checks 0 <= i < n and returns either a concrete index or a symbolic
// 64-bit term.
func (c *Ctx) index(st *State, iv Value, it types.Type, n int) (int, *Term) {
	t := iv.(*Term)
	if t.op != OConst {
		if v, ok := st.known(t); ok {
			t = c.tm.konst(t.w, v)
		}
	}
	w, signed := basicWidth(it.Underlying().(*types.Basic))
	if t.op == OConst {
		i := int64(t.val)
		if signed {
			i = sext(t.val, w)
		}
		if i < 0 || i >= int64(n) {
			rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i), nil
	}
	tm := c.tm
	var x *Term
	if signed {
		x = tm.sext(t, 64)
	} else {
		x = tm.zext(t, 64)
	}
	if !st.branch(tm.cmp(OUlt, x, tm.konst(64, uint64(n)))) {
		rtPanic("index out of range with length %d", n)
	}
	if v, ok := st.known(x); ok {
		return int(v), nil
	}
	return 0, x
}

func (c *Ctx) doSlice(st *State, f *Frame, d *dinst, in *ssa.Slice) Value {
	x := st.ev(f, &d.ops[0])
	get := func(i int, def int) int {
		if d.ops[i].kind == okNone {
			return def
		}
		return st.concInt(st.ev(f, &d.ops[i]))
	}
	switch x := x.(type) {
	case Str:
		lo := get(1, 0)
		hi := get(2, x.len())
		if hi < 0 || hi > x.len() {
			rtPanic("slice bounds out of range [:%d] with length %d", hi, x.len())
		}
		if lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return c.subStr(x, lo, hi)
	case Slice:
		el := in.X.Type().Underlying().(*types.Slice).Elem()
		lo := get(1, 0)
		hi := get(2, int(x.len))
		mx := get(3, int(x.cap))
		if mx < 0 || mx > int(x.cap) {
			rtPanic("slice bounds out of range [::%d] with capacity %d", mx, x.cap)
		}
		if hi < 0 || hi > mx {
			rtPanic("slice bounds out of range [:%d] with capacity %d", hi, x.cap)
		}
		if lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if x.obj == 0 {
			return Slice{}
		}
		return Slice{x.obj, x.off + int32(lo*c.lay.size(el)), int32(hi - lo), int32(mx - lo)}
	case Ptr:
		if x.obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		lo := get(1, 0)
		hi := get(2, n)
		mx := get(3, n)
		if mx < 0 || mx > n {
			rtPanic("slice bounds out of range [::%d] with length %d", mx, n)
		}
		if hi < 0 || hi > mx {
			rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return Slice{x.obj, x.off + int32(lo*c.lay.size(at.Elem())), int32(hi - lo), int32(mx - lo)}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", x)})
}

// ---- pure instructions ----

func (c *Ctx) evalPure(st *State, f *Frame, d *dinst) Value {
	tm := c.tm
	switch in := d.ins.(type) {
	case *ssa.BinOp:
		return c.binop(st, in.Op, st.ev(f, &d.ops[0]), st.ev(f, &d.ops[1]), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		x := st.ev(f, &d.ops[0])
		switch in.Op {
		case token.MUL:
			return c.loadFrom(st, x, in.Type())
		case token.NOT:
			return tm.not(x.(*Term))
		case token.SUB:
			t := x.(*Term)
			if t.w == WFloat {
				return tm.fop(OFNeg, t, nil)
			}
			return tm.neg(t)
		case token.XOR:
			return tm.bnot(x.(*Term))
		}
	case *ssa.FieldAddr:
		switch p := st.ev(f, &d.ops[0]).(type) {
		case Ptr:
			if p.obj == 0 {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			return Ptr{p.obj, p.off + int32(d.n)}
		case *SymPtr:
			q := *p
			q.rest += int32(d.n)
			return &q
		}
	case *ssa.IndexAddr:
		x := st.ev(f, &d.ops[0])
		iv := st.ev(f, &d.ops[1])
		switch x := x.(type) {
		case Slice:
			i, sym := c.index(st, iv, in.Index.Type(), int(x.len))
			if sym != nil {
				return &SymPtr{x.obj, x.off, sym, x.len, int32(d.n), 0}
			}
			return Ptr{x.obj, x.off + int32(i*d.n)}
		case Ptr:
			if x.obj == 0 {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			i, sym := c.index(st, iv, in.Index.Type(), n)
			if sym != nil {
				return &SymPtr{x.obj, x.off, sym, int32(n), int32(d.n), 0}
			}
			return Ptr{x.obj, x.off + int32(i*d.n)}
		}
	case *ssa.Index:
		x := st.ev(f, &d.ops[0])
		iv := st.ev(f, &d.ops[1])
		switch x := x.(type) {
		case Str:
			return c.strIndex(st, x, iv, in.Index.Type())
		case Agg:
			n := int(in.X.Type().Underlying().(*types.Array).Len())
			i, sym := c.index(st, iv, in.Index.Type(), n)
			if sym != nil {
				if d.n == 1 {
					if _, ok := x[0].(*Term); ok {
						return c.selectTerm(st, sym, n, func(i int) *Term { return x[i].(*Term) })
					}
				}
				i = int(st.concretize(sym))
			}
			return c.cellsVal(x[i*d.n:(i+1)*d.n], in.Type())
		}
	case *ssa.Lookup:
		return c.strIndex(st, st.ev(f, &d.ops[0]).(Str), st.ev(f, &d.ops[1]), in.Index.Type())
	case *ssa.Field:
		a := st.ev(f, &d.ops[0]).(Agg)
		n := c.lay.size(in.Type())
		return c.cellsVal(a[d.n:d.n+n], in.Type())
	case *ssa.Convert:
		return c.convert(st, st.ev(f, &d.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return st.ev(f, &d.ops[0])
	case *ssa.ChangeInterface:
		return st.ev(f, &d.ops[0])
	case *ssa.MakeInterface:
		return Iface{in.X.Type(), st.ev(f, &d.ops[0])}
	case *ssa.Extract:
		v := st.ev(f, &d.ops[0])
		tu, ok := v.(Tuple)
		if !ok {
			panic(unsupported{fmt.Sprintf("extract from %T", v)})
		}
		return tu[in.Index]
	case *ssa.Call: // len, cap
		x := st.ev(f, &d.ops[1])
		return c.lenCap(st, in.Call.Value.(*ssa.Builtin).Name(), x, in.Call.Args[0].Type())
	case *ssa.Phi:
		panic("phi evaluated directly")
	}
	panic(unsupported{fmt.Sprintf("instruction %T (%s)", d.ins, d.ins)})
}

func (c *Ctx) cellsVal(cells []Value, t types.Type) Value {
	if isAggType(t) {
		return Agg(append([]Value(nil), cells...))
	}
	return cells[0]
}

func (c *Ctx) strIndex(st *State, s Str, iv Value, it types.Type) Value {
	i, sym := c.index(st, iv, it, s.len())
	if sym != nil {
		return c.selectTerm(st, sym, s.len(), func(i int) *Term { return c.strAt(s, i) })
	}
	return c.strAt(s, i)
}

func (c *Ctx) lenCap(st *State, name string, x Value, t types.Type) Value {
	n := 0
	switch x := x.(type) {
	case Str:
		n = x.len()
	case Slice:
		n = int(x.len)
		if name == "cap" {
			n = int(x.cap)
		}
	case MapRef:
		if x.obj != 0 {
			n = len(st.obj(x.obj).m.keys)
		}
	case ChanRef:
		if x.obj != 0 {
			ch := st.obj(x.obj).ch
			n = len(ch.buf)
			if name == "cap" {
				n = ch.cap
			}
		}
	case Agg, Ptr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n = int(t.Underlying().(*types.Array).Len())
	default:
		panic(unsupported{fmt.Sprintf("len of %T", x)})
	}
	return c.tm.konst(64, uint64(n))
}

func (c *Ctx) binop(st *State, op token.Token, x, y Value, xt, yt types.Type) Value {
	tm := c.tm
	switch op {
	case token.EQL:
		return c.valEq(st, x, y, xt)
	case token.NEQ:
		return tm.not(c.valEq(st, x, y, xt))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return c.concatStr(a, b)
		case token.LSS:
			return c.strLess(a, b)
		case token.GTR:
			return c.strLess(b, a)
		case token.LEQ:
			return tm.not(c.strLess(b, a))
		case token.GEQ:
			return tm.not(c.strLess(a, b))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("%s on %T and %T", op, x, y)})
	}
	if a.w == WFloat {
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			panic(unsupported{"float32 arithmetic"})
		}
		switch op {
		case token.ADD:
			return tm.fop(OFAdd, a, b)
		case token.SUB:
			return tm.fop(OFSub, a, b)
		case token.MUL:
			return tm.fop(OFMul, a, b)
		case token.QUO:
			return tm.fop(OFDiv, a, b)
		case token.LSS:
			return tm.fop(OFLt, a, b)
		case token.LEQ:
			return tm.fop(OFLe, a, b)
		case token.GTR:
			return tm.fop(OFLt, b, a)
		case token.GEQ:
			return tm.fop(OFLe, b, a)
		}
	}
	bt, ok := xt.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"binop on " + xt.String()})
	}
	_, signed := basicWidth(bt)
	switch op {
	case token.ADD:
		return tm.bin(OAdd, a, b)
	case token.SUB:
		return tm.bin(OSub, a, b)
	case token.MUL:
		return tm.bin(OMul, a, b)
	case token.QUO, token.REM:
		if !st.branch(tm.not(tm.eq(b, tm.konst(b.w, 0)))) {
			rtPanic("integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if signed {
			// non-negative operands divide unsigned
			if highBits(a) < a.w && highBits(b) < b.w {
				return tm.bin(o, a, b)
			}
			o = OSDiv
			if op == token.REM {
				o = OSRem
				if st.absRem && !c.pure && !a.isConst() && b.isConst() && sext(b.val, b.w) > 1 {
					// (may fork: the instruction is then repeated on each side)
					if r := st.boundedRem(a, b); r != nil {
						return r
					}
				}
			}
		}
		return tm.bin(o, a, b)
	case token.AND:
		if a.w == 0 {
			return tm.and(a, b)
		}
		return tm.bin(OBAnd, a, b)
	case token.OR:
		if a.w == 0 {
			return tm.or(a, b)
		}
		return tm.bin(OBOr, a, b)
	case token.XOR:
		return tm.bin(OBXor, a, b)
	case token.AND_NOT:
		return tm.bin(OBAnd, a, tm.bnot(b))
	case token.SHL, token.SHR:
		// the shift count may have another width and must not be negative
		ybt := yt.Underlying().(*types.Basic)
		_, ys := basicWidth(ybt)
		if ys && ybt.Info()&types.IsUntyped == 0 {
			if !st.branch(tm.cmp(OSle, tm.konst(b.w, 0), b)) {
				rtPanic("negative shift amount")
			}
		}
		var cnt *Term
		if b.w > a.w {
			// saturate
			cnt = tm.ite(tm.cmp(OUlt, b, tm.konst(b.w, uint64(a.w))), tm.extract(b, 0, a.w), tm.konst(a.w, uint64(a.w)))
			if a.w == 8 && false {
				cnt = nil
			}
		} else {
			cnt = tm.zext(b, a.w)
		}
		if op == token.SHL {
			return tm.bin(OShl, a, cnt)
		}
		if signed {
			return tm.bin(OAShr, a, cnt)
		}
		return tm.bin(OLShr, a, cnt)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		o := OUlt
		switch {
		case op == token.LSS && signed:
			o = OSlt
		case op == token.LEQ && signed:
			o = OSle
		case op == token.LEQ:
			o = OUle
		}
		return tm.cmp(o, a, b)
	}
	panic(unsupported{"binop " + op.String()})
}

func (c *Ctx) valEq(st *State, x, y Value, t types.Type) *Term {
	tm := c.tm
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == WFloat {
			return tm.fop(OFEq, a, b)
		}
		return tm.eq(a, b)
	case Str:
		return c.strEq(a, y.(Str))
	case Ptr:
		if b, ok := y.(Ptr); ok {
			return tm.boolConst(a == b)
		}
		if b, ok := y.(*SymPtr); ok {
			return c.symPtrEq(b, a)
		}
	case *SymPtr:
		if b, ok := y.(Ptr); ok {
			return c.symPtrEq(a, b)
		}
	case Slice: // only against nil
		b := y.(Slice)
		if b.obj == 0 {
			return tm.boolConst(a.obj == 0)
		}
		return tm.boolConst(b.obj == 0 && a.obj == 0)
	case MapRef:
		return tm.boolConst(a == y.(MapRef))
	case ChanRef:
		return tm.boolConst(a == y.(ChanRef))
	case *FuncVal:
		return tm.boolConst(a == nil && y.(*FuncVal) == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			// comparison of an interface with a concrete value
			panic(unsupported{"mixed interface comparison"})
		}
		if a.t == nil || b.t == nil {
			return tm.boolConst(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tm.False
		}
		if !types.Comparable(a.t) {
			rtPanic("comparing uncomparable type %s", a.t)
		}
		return c.valEq(st, a.v, b.v, a.t)
	case Agg:
		b := y.(Agg)
		r := tm.True
		for i := range a {
			r = tm.and(r, c.valEq(st, a[i], b[i], nil))
			if r == tm.False {
				return r
			}
		}
		return r
	case nil:
		return tm.boolConst(y == nil)
	}
	panic(unsupported{fmt.Sprintf("equality of %T and %T", x, y)})
}

func (c *Ctx) symPtrEq(s *SymPtr, p Ptr) *Term {
	if p.obj != s.obj {
		return c.tm.False
	}
	dlt := p.off - s.off - s.rest
	if s.stride == 0 || dlt%s.stride != 0 {
		return c.tm.False
	}
	k := dlt / s.stride
	if k < 0 || k >= s.n {
		return c.tm.False
	}
	return c.tm.eq(s.sym, c.tm.konst(s.sym.w, uint64(k)))
}

func (c *Ctx) convert(st *State, v Value, from, to types.Type) Value {
	tm := c.tm
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Byte {
					return c.sliceStr(st, x)
				}
				// []rune
				out := Str{}
				for i := 0; i < int(x.len); i++ {
					r := st.obj(x.obj).cells[int(x.off)+i].(*Term)
					out = c.concatStr(out, c.runeStr(st, r))
				}
				return out
			case *Term: // integer -> string
				fb := fu.(*types.Basic)
				_, sg := basicWidth(fb)
				var r *Term
				if sg {
					r = tm.sext(x, 64)
				} else {
					r = tm.zext(x, 64)
				}
				if !st.branch(tm.cmp(OUle, r, tm.konst(64, 0x10ffff))) {
					return Str{s: "\uFFFD"}
				}
				return c.runeStr(st, tm.extract(r, 0, 32))
			}
		case tb.Kind() == types.UnsafePointer:
			return v
		}
		if t, ok := v.(*Term); ok {
			w, _ := basicWidth(tb)
			fb, ok := fu.(*types.Basic)
			if !ok {
				panic(unsupported{"convert"})
			}
			_, fs := basicWidth(fb)
			if t.w == WFloat {
				if w == WFloat {
					if tb.Kind() == types.Float32 && t.op != OConst {
						panic(unsupported{"float32"})
					}
					return t
				}
				_, ts := basicWidth(tb)
				if t.op == OConst || !ts || w < 64 {
					if t.op != OConst {
						if !ts {
							panic(unsupported{"float to unsigned"})
						}
						// Go converts via int64 on amd64 for narrower types
						return tm.extract(tm.floatToInt(t, 64), 0, w)
					}
				}
				return tm.floatToInt(t, w)
			}
			if w == WFloat {
				if tb.Kind() == types.Float32 && t.op != OConst {
					panic(unsupported{"float32"})
				}
				return tm.toFloat(t, fs)
			}
			if fs {
				return tm.sext(t, w)
			}
			return tm.zext(t, w)
		}
		if p, ok := v.(Ptr); ok && tb.Kind() == types.Uintptr {
			if p.obj == 0 {
				return tm.konst(64, 0)
			}
			panic(unsupported{"pointer to uintptr"})
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			el := sl.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Byte {
				return c.strSlice(st, s)
			}
			// []rune(string)
			it := &StrIter{s: s}
			var cells []Value
			for it.pos < s.len() {
				r, n := c.decodeRune(st, s, it.pos)
				cells = append(cells, r)
				it.pos += n
			}
			o := st.allocObj(&Object{cells: cells})
			return Slice{o, 0, int32(len(cells)), int32(len(cells))}
		}
		return v
	}
	switch tu.(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array, *types.Interface:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func (c *Ctx) sliceStr(st *State, x Slice) Str {
	if x.len == 0 {
		return Str{}
	}
	cells := st.obj(x.obj).cells[x.off : x.off+x.len]
	allc := true
	for _, v := range cells {
		if v.(*Term).op != OConst {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(cells))
		for i, v := range cells {
			b[i] = byte(v.(*Term).val)
		}
		return Str{s: string(b)}
	}
	t := make([]*Term, len(cells))
	for i, v := range cells {
		t[i] = v.(*Term)
	}
	return Str{t: t}
}

func (c *Ctx) strSlice(st *State, s Str) Slice {
	n := s.len()
	capn := roundupSize(n)
	cells := make([]Value, capn)
	for i := 0; i < n; i++ {
		cells[i] = c.strAt(s, i)
	}
	z := c.tm.konst(8, 0)
	for i := n; i < capn; i++ {
		cells[i] = z
	}
	o := st.allocObj(&Object{cells: cells, typ: types.Typ[types.Byte]})
	return Slice{o, 0, int32(n), int32(capn)}
}

// runeStr encodes a rune (32-bit term known to be at most 0x10ffff or any) as UTF-8.
func (c *Ctx) runeStr(st *State, r *Term) Str {
	tm := c.tm
	if v, ok := st.known(r); ok {
		return Str{s: string(rune(int32(v)))}
	}
	k := func(v uint64) *Term { return tm.konst(32, v) }
	b := func(t *Term) *Term { return tm.extract(t, 0, 8) }
	sh := func(t *Term, n uint64) *Term { return tm.bin(OLShr, t, k(n)) }
	or := func(x uint64, t *Term) *Term { return tm.bin(OBOr, k(x), t) }
	and := func(t *Term, x uint64) *Term { return tm.bin(OBAnd, t, k(x)) }
	if st.branch(tm.cmp(OUlt, r, k(0x80))) {
		return c.mkStr([]*Term{b(r)})
	}
	if st.branch(tm.cmp(OUlt, r, k(0x800))) {
		return c.mkStr([]*Term{b(or(0xc0, sh(r, 6))), b(or(0x80, and(r, 0x3f)))})
	}
	bad := tm.or(tm.cmp(OUlt, k(0x10ffff), r), tm.and(tm.cmp(OUle, k(0xd800), r), tm.cmp(OUlt, r, k(0xe000))))
	if st.branch(bad) {
		return Str{s: "\uFFFD"}
	}
	if st.branch(tm.cmp(OUlt, r, k(0x10000))) {
		return c.mkStr([]*Term{b(or(0xe0, sh(r, 12))), b(or(0x80, and(sh(r, 6), 0x3f))), b(or(0x80, and(r, 0x3f)))})
	}
	return c.mkStr([]*Term{b(or(0xf0, sh(r, 18))), b(or(0x80, and(sh(r, 12), 0x3f))), b(or(0x80, and(sh(r, 6), 0x3f))), b(or(0x80, and(r, 0x3f)))})
}

// decodeRune mirrors utf8.DecodeRuneInString.
func (c *Ctx) decodeRune(st *State, s Str, pos int) (*Term, int) {
	tm := c.tm
	b0 := c.strAt(s, pos)
	in := func(b *Term, lo, hi uint64) bool {
		return st.branch(tm.and(tm.cmp(OUle, tm.konst(8, lo), b), tm.cmp(OUle, b, tm.konst(8, hi))))
	}
	if in(b0, 0, 0x7f) {
		return tm.zext(b0, 32), 1
	}
	bad := tm.konst(32, 0xfffd)
	n := s.len() - pos
	cont := func(b *Term) *Term { return tm.zext(tm.extract(b, 0, 6), 32) }
	shl := func(t *Term, k uint64) *Term { return tm.bin(OShl, t, tm.konst(32, k)) }
	orr := func(a, b *Term) *Term { return tm.bin(OBOr, a, b) }
	if in(b0, 0xc2, 0xdf) {
		if n < 2 || !in(c.strAt(s, pos+1), 0x80, 0xbf) {
			return bad, 1
		}
		return orr(shl(tm.zext(tm.extract(b0, 0, 5), 32), 6), cont(c.strAt(s, pos+1))), 2
	}
	if in(b0, 0xe0, 0xef) {
		if n < 3 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(b0, 0xed, 0xed) {
			hi = 0x9f
		}
		b1, b2 := c.strAt(s, pos+1), c.strAt(s, pos+2)
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xbf) {
			return bad, 1
		}
		return orr(orr(shl(tm.zext(tm.extract(b0, 0, 4), 32), 12), shl(cont(b1), 6)), cont(b2)), 3
	}
	if in(b0, 0xf0, 0xf4) {
		if n < 4 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xf0, 0xf0) {
			lo = 0x90
		} else if in(b0, 0xf4, 0xf4) {
			hi = 0x8f
		}
		b1, b2, b3 := c.strAt(s, pos+1), c.strAt(s, pos+2), c.strAt(s, pos+3)
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xbf) || !in(b3, 0x80, 0xbf) {
			return bad, 1
		}
		return orr(orr(shl(tm.zext(tm.extract(b0, 0, 3), 32), 18), shl(cont(b1), 12)), orr(shl(cont(b2), 6), cont(b3))), 4
	}
	return bad, 1
}

func (c *Ctx) doNext(st *State, f *Frame, d *dinst, in *ssa.Next) {
	tm := c.tm
	switch it := st.ev(f, &d.ops[0]).(type) {
	case *StrIter:
		if it.pos >= it.s.len() {
			st.set(f, d.dst, Tuple{tm.False, tm.konst(64, 0), tm.konst(32, 0)})
			f.pc++
			return
		}
		r, n := c.decodeRune(st, it.s, it.pos)
		st.set(f, d.dst, Tuple{tm.True, tm.konst(64, uint64(it.pos)), r})
		ni := &StrIter{it.s, it.pos + n}
		st.set(f, d.ops[0].reg, ni)
	case *MapIter:
		tu := in.Type().(*types.Tuple)
		for it.pos < len(it.keys) {
			k := it.keys[it.pos]
			m := st.obj(it.m).m
			found := -1
			for i, kk := range m.keys {
				if c.valEq(st, kk, k, nil) == tm.True {
					found = i
					break
				}
			}
			if found < 0 {
				it = &MapIter{it.keys, it.m, it.pos + 1}
				continue
			}
			st.set(f, d.dst, Tuple{tm.True, k, m.vals[found]})
			st.set(f, d.ops[0].reg, &MapIter{it.keys, it.m, it.pos + 1})
			f.pc++
			return
		}
		z := func(i int) Value {
			t := tu.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return c.zero(t)
		}
		st.set(f, d.dst, Tuple{tm.False, z(1), z(2)})
	}
	f.pc++
}

// ---- maps ----

func (c *Ctx) mapFind(st *State, m MapRef, k Value, kt types.Type) int {
	if m.obj == 0 {
		return -1
	}
	mo := st.obj(m.obj).m
	for i, kk := range mo.keys {
		if st.branch(c.valEq(st, kk, k, kt)) {
			return i
		}
	}
	return -1
}

func (c *Ctx) mapLookup(st *State, m MapRef, k Value, mt *types.Map) (Value, *Term) {
	// a symbolic key over constant entries becomes an ite chain
	if kt, ok := k.(*Term); ok && kt.op != OConst && m.obj != 0 {
		mo := st.obj(m.obj).m
		simple := len(mo.keys) > 0
		for i := range mo.keys {
			if _, ok := mo.vals[i].(*Term); !ok {
				simple = false
			}
		}
		if simple {
			v := c.zero(mt.Elem()).(*Term)
			ok := c.tm.False
			for i := range mo.keys {
				e := c.tm.eq(kt, mo.keys[i].(*Term))
				v = c.tm.ite(e, mo.vals[i].(*Term), v)
				ok = c.tm.or(ok, e)
			}
			return v, ok
		}
	}
	i := c.mapFind(st, m, k, mt.Key())
	if i < 0 {
		return c.zero(mt.Elem()), c.tm.False
	}
	return st.obj(m.obj).m.vals[i], c.tm.True
}

func (c *Ctx) mapUpdate(st *State, m MapRef, k, v Value, kt types.Type) {
	if m.obj == 0 {
		rtPanic("assignment to entry in nil map")
	}
	i := c.mapFind(st, m, k, kt)
	o := st.objW(m.obj)
	if i < 0 {
		o.m.keys = append(o.m.keys, k)
		o.m.vals = append(o.m.vals, v)
	} else {
		o.m.vals[i] = v
	}
}

func (c *Ctx) typeAssert(st *State, x Iface, in *ssa.TypeAssert) Value {
	tm := c.tm
	ok := false
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.t, it)
		} else {
			ok = types.Identical(x.t, in.AssertedType)
		}
	}
	var v Value
	if ok {
		v = x.v
		if types.IsInterface(in.AssertedType) {
			v = x
		}
	} else {
		v = c.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, tm.boolConst(ok)}
	}
	if !ok {
		rtPanic("interface conversion: %v is not %v", x.t, in.AssertedType)
	}
	return v
}
