package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const pageSize = 64

type valPage struct {
	owner uint64
	v     [pageSize]Value
}

type objPage struct {
	owner uint64
	o     [pageSize]*Object
}

type Deferred struct {
	fn   *FuncVal
	args []Value
	ins  *ssa.Defer
}

type Frame struct {
	owner  uint64
	info   *fnInfo
	pages  []*valPage
	block  int
	prev   int
	pc     int
	defers []Deferred
	dst    int  // register of the caller's frame receiving the result; -1 none
	isDef  bool // running as a deferred call: result dropped
	// panic handling
	panicking bool
	panicVal  Value
	recovered bool
	inDefers  bool // running deferred calls of this frame (return or panic)
	exitRun   bool // the deferred calls run because of RunDefers
	result    Value
	after     func(*State, Value) // engine continuation when the frame returns
	recv      *Frame              // for deferred calls: nothing
}

type pend struct {
	kind    uint8 // 0 none 1 chan/select 2 settle 3 sleep 4 mutex-like
	cases   []pendCase
	hasDef  bool
	isSel   bool
	until   int64
	ins     *dinst
	recvTyp []types.Type
	lock    ObjID
}

type pendCase struct {
	ch   ObjID
	send bool
	val  Value
}

type Gor struct {
	owner  uint64
	id     int
	frames []*Frame
	pend   *pend
	done   bool
}

type Obs struct {
	name string
	val  Value // Str, *Term
	sgn  bool
}

type Nondet struct {
	kind string // byte, bool, int, ...
	t    *Term
}

type Timer struct {
	at   int64
	ch   ObjID
	goid int // sleeper when >= 0
	id   int
	per  int64 // period of a ticker
}

type State struct {
	c     *Ctx
	token uint64

	gors []*Gor
	cur  int

	pages   []*objPage
	nobj    int
	baseMod map[ObjID]*Object
	bmOwner uint64

	dom    map[int32]Set
	domOwn uint64
	ent    map[int32]bool
	entOwn uint64
	multi  []*Term
	conc   map[*Term]uint64
	conOwn uint64
	model  []uint64
	modOwn uint64
	hasMod bool

	nvars   int // nondet variables consumed so far on this path (per width pool)
	varIdx  [66]int
	nds     []Nondet
	obs     []Obs
	reach   map[string]bool
	clock   int64
	timers  []Timer
	ntimer  int
	steps   int
	forks   int
	absRem  bool // remainders abstracted to their range
	yieldOK bool // interleaving exploration on
	preempt int  // preemptions left, if limited
	limited bool
	pre     bool // already yielded before this visible operation
	notes   []string
	depth   int
	unsure  bool // an unknown solver answer was treated as satisfiable
	sched   []int
}

func (st *State) clone() *State {
	c := st.c
	n := *st
	n.gors = append([]*Gor(nil), st.gors...)
	n.pages = append([]*objPage(nil), st.pages...)
	n.multi = st.multi[:len(st.multi):len(st.multi)]
	st.multi = st.multi[:len(st.multi):len(st.multi)]
	n.nds = st.nds[:len(st.nds):len(st.nds)]
	st.nds = st.nds[:len(st.nds):len(st.nds)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	n.timers = append([]Timer(nil), st.timers...)
	n.notes = st.notes[:len(st.notes):len(st.notes)]
	st.notes = st.notes[:len(st.notes):len(st.notes)]
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	st.sched = st.sched[:len(st.sched):len(st.sched)]
	old := st.token
	c.tokens++
	n.token = c.tokens
	c.tokens++
	st.token = c.tokens
	n.forks++
	c.forks++
	// The running instruction may hold on to the current frame: leave that one
	// to st and give the clone its own.
	if st.cur < len(st.gors) && len(st.gors[st.cur].frames) > 0 {
		g := st.gors[st.cur]
		ng := *g
		ng.owner = n.token
		ng.frames = append([]*Frame(nil), g.frames...)
		f := g.frames[len(g.frames)-1]
		nf := *f
		nf.owner = n.token
		nf.pages = append([]*valPage(nil), f.pages...)
		nf.defers = append([]Deferred(nil), f.defers...)
		ng.frames[len(ng.frames)-1] = &nf
		n.gors[st.cur] = &ng
		if f.owner == old && g.owner == old {
			f.owner, g.owner = st.token, st.token
		}
	}
	return &n
}

// ---- goroutines and frames ----

func (st *State) gor() *Gor {
	g := st.gors[st.cur]
	return g
}

func (st *State) gorW(i int) *Gor {
	g := st.gors[i]
	if g.owner != st.token {
		ng := *g
		ng.owner = st.token
		ng.frames = append([]*Frame(nil), g.frames...)
		st.gors[i] = &ng
		g = &ng
	}
	return g
}

func (st *State) topOf(i int) *Frame {
	g := st.gorW(i)
	f := g.frames[len(g.frames)-1]
	if f.owner != st.token {
		nf := *f
		nf.owner = st.token
		nf.pages = append([]*valPage(nil), f.pages...)
		nf.defers = append([]Deferred(nil), f.defers...)
		g.frames[len(g.frames)-1] = &nf
		f = &nf
	}
	return f
}

func (st *State) top() *Frame { return st.topOf(st.cur) }

func (st *State) set(f *Frame, r int, v Value) {
	if r < 0 {
		return
	}
	p := f.pages[r/pageSize]
	if p == nil {
		p = &valPage{owner: st.token}
		f.pages[r/pageSize] = p
	} else if p.owner != st.token {
		np := *p
		np.owner = st.token
		f.pages[r/pageSize] = &np
		p = &np
	}
	p.v[r%pageSize] = v
}

func (f *Frame) get(r int) Value {
	p := f.pages[r/pageSize]
	if p == nil {
		return nil
	}
	return p.v[r%pageSize]
}

func (st *State) pushFrame(gi int, info *fnInfo, args []Value, bind []Value, dst int) *Frame {
	g := st.gorW(gi)
	if len(g.frames) > 400 {
		panic(unsupported{"call depth"})
	}
	f := &Frame{owner: st.token, info: info, dst: dst, prev: -1}
	f.pages = make([]*valPage, (info.nreg+pageSize-1)/pageSize)
	g.frames = append(g.frames, f)
	if len(args) != len(info.fn.Params) {
		panic(unsupported{fmt.Sprintf("arity of %s: %d vs %d", info.fn, len(args), len(info.fn.Params))})
	}
	for i, a := range args {
		st.set(f, i, a)
	}
	for i, b := range bind {
		st.set(f, len(args)+i, b)
	}
	st.c.entered(info)
	return f
}

// ---- heap ----

func (st *State) newObj(o *Object) ObjID {
	o.owner = st.token
	st.nobj++
	id := st.nobj // ids start at 1
	pi := id / pageSize
	for len(st.pages) <= pi {
		st.pages = append(st.pages, nil)
	}
	p := st.pages[pi]
	if p == nil {
		p = &objPage{owner: st.token}
		st.pages[pi] = p
	} else if p.owner != st.token {
		np := *p
		np.owner = st.token
		st.pages[pi] = &np
		p = &np
	}
	p.o[id%pageSize] = o
	return ObjID(id)
}

func (st *State) obj(id ObjID) *Object {
	if id&baseBit != 0 {
		if o, ok := st.baseMod[id]; ok {
			return o
		}
		return st.c.base[id&^baseBit]
	}
	return st.pages[id/pageSize].o[id%pageSize]
}

func (o *Object) clone(tok uint64) *Object {
	n := *o
	n.owner = tok
	if o.cells != nil {
		n.cells = append([]Value(nil), o.cells...)
	}
	if o.m != nil {
		n.m = &MapObj{append([]Value(nil), o.m.keys...), append([]Value(nil), o.m.vals...)}
	}
	if o.ch != nil {
		ch := *o.ch
		ch.buf = append([]Value(nil), o.ch.buf...)
		n.ch = &ch
	}
	return &n
}

func (st *State) objW(id ObjID) *Object {
	if id&baseBit != 0 {
		if st.c.initing {
			return st.c.base[id&^baseBit]
		}
		if o, ok := st.baseMod[id]; ok && o.owner == st.token {
			return o
		}
		o := st.obj(id).clone(st.token)
		if st.bmOwner != st.token {
			nm := make(map[ObjID]*Object, len(st.baseMod)+1)
			for k, v := range st.baseMod {
				nm[k] = v
			}
			st.baseMod = nm
			st.bmOwner = st.token
		}
		st.baseMod[id] = o
		return o
	}
	p := st.pages[id/pageSize]
	o := p.o[id%pageSize]
	if o.owner == st.token {
		return o
	}
	if p.owner != st.token {
		np := *p
		np.owner = st.token
		st.pages[id/pageSize] = &np
		p = &np
	}
	o = o.clone(st.token)
	p.o[id%pageSize] = o
	return o
}

func (st *State) alloc(t types.Type, n int) ObjID {
	c := st.c
	var cells []Value
	if n == 1 {
		cells = c.zeroCells(t, nil)
	} else if n > 0 {
		one := c.zeroCells(t, nil)
		cells = make([]Value, 0, n*len(one))
		for i := 0; i < n; i++ {
			cells = append(cells, one...)
		}
	}
	o := &Object{cells: cells, typ: t}
	if c.initing {
		return c.newBase(o)
	}
	return st.newObj(o)
}

func (st *State) allocObj(o *Object) ObjID {
	if st.c.initing {
		return st.c.newBase(o)
	}
	return st.newObj(o)
}

func (c *Ctx) newBase(o *Object) ObjID {
	c.base = append(c.base, o)
	return ObjID(len(c.base)-1) | baseBit
}

func (st *State) loadCells(p Ptr, n int) []Value {
	o := st.obj(p.obj)
	return o.cells[p.off : int(p.off)+n]
}

func (st *State) load(p Ptr, t types.Type) Value {
	n := st.c.lay.size(t)
	if isAggType(t) {
		out := make(Agg, n)
		if n > 0 {
			copy(out, st.loadCells(p, n))
		}
		return out
	}
	return st.obj(p.obj).cells[p.off]
}

func (st *State) store(p Ptr, t types.Type, v Value) {
	o := st.objW(p.obj)
	if a, ok := v.(Agg); ok && isAggType(t) {
		copy(o.cells[p.off:int(p.off)+len(a)], a)
		return
	}
	o.cells[p.off] = v
}

// ---- path condition ----

func (st *State) domW() map[int32]Set {
	if st.domOwn != st.token {
		nm := make(map[int32]Set, len(st.dom)+1)
		for k, v := range st.dom {
			nm[k] = v
		}
		st.dom, st.domOwn = nm, st.token
	}
	return st.dom
}

func (st *State) modelW(v int32) []uint64 {
	if st.modOwn != st.token || int(v) >= len(st.model) {
		n := int(v) + 16
		if len(st.model) > n {
			n = len(st.model)
		}
		nm := make([]uint64, n)
		copy(nm, st.model)
		st.model, st.modOwn = nm, st.token
	}
	return st.model
}

func (st *State) domain(v int32) Set {
	if d, ok := st.dom[v]; ok {
		return d
	}
	w := st.c.tm.vars[v].w
	if w == 0 {
		return Set{3}
	}
	return st.c.tm.full[w]
}

func (st *State) evalModel(t *Term) uint64 {
	tm := st.c.tm
	if t.op == OConst {
		return t.val
	}
	tm.begin()
	for _, v := range tm.support(t) {
		if int(v) < len(st.model) {
			tm.assign(v, st.model[v])
		} else {
			tm.assign(v, 0)
		}
	}
	return tm.eval(t)
}

func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == OAnd {
		out = conjuncts(t.args[0], out)
		return conjuncts(t.args[1], out)
	}
	return append(out, t)
}

// feasible decides whether the path condition together with c is satisfiable
// and, if so, returns the model updates.
func (st *State) feasible(c *Term) (Res, map[int32]uint64) {
	tm := st.c.tm
	if c.op == OConst {
		if c.val != 0 {
			return Sat, nil
		}
		return Unsat, nil
	}
	sol := st.c.sol
	cj := conjuncts(c, nil)
	allIn := true
	doms := map[int32]Set{}
	for _, x := range cj {
		v, s, ok := tm.asIn(x)
		if !ok {
			allIn = false
			continue
		}
		d, have := doms[v]
		if !have {
			d = st.domain(v)
		}
		d = d.and(*s)
		if d.empty() {
			sol.stats.Domain++
			return Unsat, nil
		}
		doms[v] = d
		if st.ent[v] {
			allIn = false
		}
	}
	if allIn {
		sol.stats.Domain++
		up := map[int32]uint64{}
		for v, d := range doms {
			cur := uint64(0)
			if int(v) < len(st.model) {
				cur = st.model[v]
			}
			if !d.has(cur) {
				up[v] = d.first()
			}
		}
		return Sat, up
	}
	if st.evalModel(c) != 0 {
		sol.stats.ModelHit++
		return Sat, nil
	}
	return st.solve(c)
}

func (st *State) solve(c *Term) (Res, map[int32]uint64) {
	tm := st.c.tm
	in := map[int32]bool{}
	for _, v := range tm.support(c) {
		in[v] = true
	}
	qs := []*Term{c}
	used := make([]bool, len(st.multi))
	for changed := true; changed; {
		changed = false
		for i, mc := range st.multi {
			if used[i] {
				continue
			}
			sup := tm.support(mc)
			hit := false
			for _, v := range sup {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				qs = append(qs, mc)
				for _, v := range sup {
					in[v] = true
				}
			}
		}
	}
	for v := range in {
		if d, ok := st.dom[v]; ok {
			if x := tm.in(v, d); x.op != OConst {
				qs = append(qs, x)
			}
		}
	}
	return st.c.sol.check(qs)
}

// add conjoins c (known to be satisfiable with the path) using model updates.
func (st *State) add(c *Term, up map[int32]uint64) {
	tm := st.c.tm
	for _, x := range conjuncts(c, nil) {
		if x.op == OConst {
			continue
		}
		if v, s, ok := tm.asIn(x); ok {
			st.domW()[v] = st.domain(v).and(*s)
			continue
		}
		st.multi = append(st.multi, x)
		for _, v := range tm.support(x) {
			if !st.ent[v] {
				if st.entOwn != st.token {
					nm := make(map[int32]bool, len(st.ent)+4)
					for k, b := range st.ent {
						nm[k] = b
					}
					st.ent, st.entOwn = nm, st.token
				}
				st.ent[v] = true
			}
		}
		if x.op == OEq && x.args[1].op == OConst {
			st.setConc(x.args[0], x.args[1].val)
		} else if x.op == OEq && x.args[0].op == OConst {
			st.setConc(x.args[1], x.args[0].val)
		}
	}
	for v, val := range up {
		st.modelW(v)[v] = val
	}
}

func (st *State) setConc(t *Term, v uint64) {
	if st.conOwn != st.token {
		nm := make(map[*Term]uint64, len(st.conc)+1)
		for k, x := range st.conc {
			nm[k] = x
		}
		st.conc, st.conOwn = nm, st.token
	}
	st.conc[t] = v
}

// fixedVar reports whether v has a single possible value on this path as far
// as cheap bookkeeping knows.
func (st *State) fixedVar(v int32) bool {
	tm := st.c.tm
	if tm.vars[v].w <= 8 {
		if d, ok := st.dom[v]; ok && d.count() == 1 {
			return true
		}
		return false
	}
	_, ok := st.conc[tm.vars[v].t]
	return ok
}

// known returns the value of t when it is fixed on this path.
func (st *State) known(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.val, true
	}
	if v, ok := st.conc[t]; ok {
		return v, true
	}
	sup := st.c.tm.support(t)
	if len(sup) > 64 {
		return 0, false
	}
	for _, v := range sup {
		if !st.fixedVar(v) {
			return 0, false
		}
	}
	return st.evalModel(t), true
}
