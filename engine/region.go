package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// doIf decides a conditional branch. When the condition is symbolic, the
// acyclic region of side-effect free blocks after it is evaluated under guards
// and the path forks once per distinct exit instead of once per comparison.

type rEdge struct {
	pred  int
	guard *Term
}

type rExit struct {
	block int // -1: return
	edges []rEdge
	rets  []Value // per edge, for returns
}

type regEnv struct {
	vals map[int]Value
}

func (c *Ctx) doIf(st *State, f *Frame, d *dinst) {
	cond, ok := st.ev(f, &d.ops[0]).(*Term)
	if !ok {
		panic(unsupported{"unset condition"})
	}
	if cond.op == OConst {
		if cond.val != 0 {
			st.jump(f, 0)
		} else {
			st.jump(f, 1)
		}
		return
	}
	if v, ok := st.known(cond); ok {
		if v != 0 {
			st.jump(f, 0)
		} else {
			st.jump(f, 1)
		}
		return
	}
	rt, _ := st.feasible(cond)
	if rt == Unsat {
		st.remember(cond, false)
		st.jump(f, 1)
		return
	}
	rf, _ := st.feasible(c.tm.not(cond))
	if rf == Unsat {
		st.remember(cond, true)
		st.jump(f, 0)
		return
	}
	c.region(st, f, cond)
}

func (c *Ctx) tryPure(fn func()) (ok bool) {
	save := c.pure
	c.pure = true
	defer func() {
		c.pure = save
		if r := recover(); r != nil {
			switch r.(type) {
			case pureFail, goPanic, unsupported, endPath:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	fn()
	return true
}

func mergeable(vs []Value) bool {
	t0, ok := vs[0].(*Term)
	if !ok {
		// identical non-terms
		for _, v := range vs[1:] {
			if !sameValue(vs[0], v) {
				return false
			}
		}
		return true
	}
	allConst := t0.op == OConst
	same := true
	for _, v := range vs[1:] {
		t, ok := v.(*Term)
		if !ok || t.w != t0.w {
			return false
		}
		if t != t0 {
			same = false
		}
		if t.op != OConst {
			allConst = false
		}
	}
	if same {
		return true
	}
	if allConst && t0.w > 8 && t0.w != WFloat {
		return false
	}
	return true
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.len() != y.len() {
			return false
		}
		if x.t == nil && y.t == nil {
			return x.s == y.s
		}
		if x.t == nil || y.t == nil {
			return false
		}
		for i := range x.t {
			if x.t[i] != y.t[i] {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case ChanRef:
		y, ok := b.(ChanRef)
		return ok && x == y
	case *FuncVal:
		y, ok := b.(*FuncVal)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == nil && y.t == nil || x.t == y.t && x.t != nil && sameValue(x.v, y.v))
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func (c *Ctx) mergeVals(vs []Value, es []rEdge) Value {
	if _, ok := vs[0].(*Term); !ok {
		return vs[0]
	}
	r := vs[len(vs)-1].(*Term)
	for i := len(vs) - 2; i >= 0; i-- {
		r = c.tm.ite(es[i].guard, vs[i].(*Term), r)
	}
	return r
}

func (c *Ctx) region(st *State, f *Frame, cond *Term) {
	tm := c.tm
	fi := f.info
	fn := fi.fn
	b0 := f.block
	blk := fn.Blocks[b0]
	pending := map[int][]rEdge{}
	exits := map[int]*rExit{}
	var exitOrder []int
	var retExit *rExit
	var queue []int
	addEdge := func(from, to int, g *Term) {
		if g == tm.False {
			return
		}
		if fi.rpo[to] <= fi.rpo[b0] || fi.rpo[to] <= fi.rpo[from] {
			e := exits[to]
			if e == nil {
				e = &rExit{block: to}
				exits[to] = e
				exitOrder = append(exitOrder, to)
			}
			e.edges = append(e.edges, rEdge{from, g})
			return
		}
		if _, ok := pending[to]; !ok {
			queue = append(queue, to)
			sort.Slice(queue, func(i, j int) bool { return fi.rpo[queue[i]] < fi.rpo[queue[j]] })
		}
		pending[to] = append(pending[to], rEdge{from, g})
	}
	addEdge(b0, blk.Succs[0].Index, cond)
	addEdge(b0, blk.Succs[1].Index, tm.not(cond))
	// registers computed inside the region are written straight into the
	// frame; they are dead on every path that does not pass their definition
	done := 0
	makeExit := func(b int, es []rEdge) {
		e := exits[b]
		if e == nil {
			e = &rExit{block: b}
			exits[b] = e
			exitOrder = append(exitOrder, b)
		}
		e.edges = append(e.edges, es...)
	}
	type wr struct {
		r int
		v Value
	}
	for len(queue) > 0 {
		b := queue[0]
		queue = queue[1:]
		es := pending[b]
		delete(pending, b)
		if _, isExit := exits[b]; isExit || done > 400 {
			makeExit(b, es)
			continue
		}
		ds := fi.blocks[b]
		// must be a pure block ending in Jump, If or Return
		pureB := true
		for i := range ds {
			if ds[i].pure {
				continue
			}
			switch ds[i].ins.(type) {
			case *ssa.Jump, *ssa.If:
			case *ssa.Return:
				if fn.Recover != nil || len(f.defers) > 0 {
					pureB = false
				}
			default:
				pureB = false
			}
			if !pureB {
				break
			}
		}
		if !pureB {
			makeExit(b, es)
			continue
		}
		guard := es[0].guard
		for _, e := range es[1:] {
			guard = tm.or(guard, e.guard)
		}
		if guard == tm.False {
			continue
		}
		var writes []wr
		var retVal Value
		isRet := false
		var succ []rEdge // pred used as successor index
		saved := map[int]Value{}
		ok := c.tryPure(func() {
			bb := fn.Blocks[b]
			i := 0
			// phis first, from the incoming edges
			for ; i < len(ds); i++ {
				if _, isPhi := ds[i].ins.(*ssa.Phi); !isPhi {
					break
				}
				vs := make([]Value, len(es))
				for k, e := range es {
					vs[k] = st.ev(f, &ds[i].ops[predIndex(bb, e.pred)])
				}
				if !mergeable(vs) {
					panic(pureFail{})
				}
				writes = append(writes, wr{ds[i].dst, c.mergeVals(vs, es)})
			}
			for _, w := range writes {
				saved[w.r] = f.getOr(w.r)
				st.set(f, w.r, w.v)
			}
			for ; i < len(ds); i++ {
				d := &ds[i]
				if d.pure {
					v := c.evalPure(st, f, d)
					saved[d.dst] = f.getOr(d.dst)
					st.set(f, d.dst, v)
					continue
				}
				switch d.ins.(type) {
				case *ssa.Jump:
					succ = append(succ, rEdge{bb.Succs[0].Index, guard})
				case *ssa.If:
					cd, ok := st.ev(f, &d.ops[0]).(*Term)
					if !ok {
						panic(pureFail{})
					}
					if v, ok := st.known(cd); ok {
						k := 1
						if v != 0 {
							k = 0
						}
						succ = append(succ, rEdge{bb.Succs[k].Index, guard})
						continue
					}
					succ = append(succ, rEdge{bb.Succs[0].Index, tm.and(guard, cd)}, rEdge{bb.Succs[1].Index, tm.and(guard, tm.not(cd))})
				case *ssa.Return:
					isRet = true
					switch len(d.ops) {
					case 0:
					case 1:
						retVal = st.ev(f, &d.ops[0])
					default:
						tu := make(Tuple, len(d.ops))
						for k := range d.ops {
							tu[k] = st.ev(f, &d.ops[k])
						}
						retVal = tu
					}
				}
			}
		})
		if !ok {
			for r, v := range saved {
				st.set(f, r, v)
			}
			makeExit(b, es)
			continue
		}
		done++
		if isRet {
			if retExit == nil {
				retExit = &rExit{block: -1}
			}
			retExit.edges = append(retExit.edges, rEdge{b, guard})
			retExit.rets = append(retExit.rets, retVal)
			continue
		}
		for _, s := range succ {
			addEdge(b, s.pred, s.guard)
		}
	}
	// turn exits into alternatives
	type alt struct {
		guard *Term
		block int
		pred  int
		phis  []Value
		ret   Value
		isRet bool
	}
	var alts []alt
	for _, b := range exitOrder {
		e := exits[b]
		ds := fi.blocks[b]
		bb := fn.Blocks[b]
		np := 0
		for np < len(ds) {
			if _, ok := ds[np].ins.(*ssa.Phi); !ok {
				break
			}
			np++
		}
		phiVals := make([][]Value, np)
		merge := true
		for i := 0; i < np; i++ {
			for _, ed := range e.edges {
				phiVals[i] = append(phiVals[i], st.ev(f, &ds[i].ops[predIndex(bb, ed.pred)]))
			}
			if !mergeable(phiVals[i]) {
				merge = false
			}
		}
		if merge {
			g := e.edges[0].guard
			for _, ed := range e.edges[1:] {
				g = tm.or(g, ed.guard)
			}
			a := alt{guard: g, block: b, pred: e.edges[0].pred}
			for i := 0; i < np; i++ {
				a.phis = append(a.phis, c.mergeVals(phiVals[i], e.edges))
			}
			alts = append(alts, a)
			continue
		}
		// group edges with equal phi values
		var gs []alt
		for k, ed := range e.edges {
			a := alt{guard: ed.guard, block: b, pred: ed.pred}
			for i := 0; i < np; i++ {
				a.phis = append(a.phis, phiVals[i][k])
			}
			found := false
			for gi := range gs {
				same := true
				for i := 0; i < np; i++ {
					if !sameValue(gs[gi].phis[i], a.phis[i]) {
						same = false
						break
					}
				}
				if same {
					gs[gi].guard = tm.or(gs[gi].guard, a.guard)
					found = true
					break
				}
			}
			if !found {
				gs = append(gs, a)
			}
		}
		alts = append(alts, gs...)
	}
	if retExit != nil {
		// returns: merge if every component merges
		vs := retExit.rets
		merged := false
		if tu, ok := vs[0].(Tuple); ok {
			okAll := true
			out := make(Tuple, len(tu))
			for i := range tu {
				col := make([]Value, len(vs))
				for k := range vs {
					col[k] = vs[k].(Tuple)[i]
				}
				if !mergeable(col) {
					okAll = false
					break
				}
				out[i] = c.mergeVals(col, retExit.edges)
			}
			if okAll {
				g := retExit.edges[0].guard
				for _, ed := range retExit.edges[1:] {
					g = tm.or(g, ed.guard)
				}
				alts = append(alts, alt{guard: g, ret: out, isRet: true, block: -1})
				merged = true
			}
		} else if mergeable(vs) {
			g := retExit.edges[0].guard
			for _, ed := range retExit.edges[1:] {
				g = tm.or(g, ed.guard)
			}
			alts = append(alts, alt{guard: g, ret: c.mergeVals(vs, retExit.edges), isRet: true, block: -1})
			merged = true
		}
		if !merged {
			var gs []alt
			for k, ed := range retExit.edges {
				found := false
				for gi := range gs {
					if sameValue(gs[gi].ret, vs[k]) {
						gs[gi].guard = tm.or(gs[gi].guard, ed.guard)
						found = true
						break
					}
				}
				if !found {
					gs = append(gs, alt{guard: ed.guard, ret: vs[k], isRet: true, block: -1})
				}
			}
			alts = append(alts, gs...)
		}
	}
	// keep the feasible ones
	type feas struct {
		a  alt
		up map[int32]uint64
	}
	var fs []feas
	for _, a := range alts {
		r, up := st.feasible(a.guard)
		if r == Unsat {
			continue
		}
		if r == Unknown {
			st.unsure = true
		}
		fs = append(fs, feas{a, up})
	}
	if len(fs) == 0 {
		panic(endPath{"infeasible", "no feasible branch"})
	}
	take := func(s *State, x feas) {
		s.add(x.a.guard, x.up)
		s.remember(x.a.guard, true)
		fr := s.top()
		if x.a.isRet {
			c.doReturn(s, x.a.ret)
			return
		}
		ds := fi.blocks[x.a.block]
		for i, v := range x.a.phis {
			s.set(fr, ds[i].dst, v)
		}
		fr.prev = x.a.pred
		fr.block = x.a.block
		fr.info.seen[x.a.block] = true
		fr.pc = len(x.a.phis)
	}
	var others []*State
	for i := 1; i < len(fs); i++ {
		others = append(others, st.clone())
	}
	for i, o := range others {
		take(o, fs[i+1])
	}
	for i := len(others) - 1; i >= 0; i-- {
		c.work = append(c.work, others[i])
	}
	take(st, fs[0])
}

func (f *Frame) getOr(r int) Value {
	return f.get(r)
}
