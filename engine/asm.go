package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/types"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Machine-code functions (assembler sources) are read back from the linked
// replay binary with go tool objdump and executed symbolically.

type asmInst struct {
	addr uint64
	op   string
	args []string
	pos  string
}

type asmFn struct {
	ins []asmInst
	idx map[uint64]int
}

type asmCtx struct {
	mu  sync.Mutex
	bin string
	fns map[string]*asmFn
	err string
}

func (a *asmCtx) get(name string) *asmFn {
	a.mu.Lock()
	defer a.mu.Unlock()
	if f, ok := a.fns[name]; ok {
		return f
	}
	if a.fns == nil {
		a.fns = map[string]*asmFn{}
	}
	i := strings.LastIndex(name, "/")
	re := strings.NewReplacer(".", "\\.", "(", "\\(", ")", "\\)", "*", "\\*").Replace(name[i+1:]) + "(\\.abi0)?$"
	cmd := exec.Command("go", "tool", "objdump", "-s", re, a.bin)
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		a.err = err.Error()
		a.fns[name] = nil
		return nil
	}
	var f *asmFn
	best := false
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "TEXT ") {
			sym := strings.TrimSuffix(strings.Fields(l)[1], "(SB)")
			if best {
				break
			}
			if sym == name+".abi0" || sym == name {
				f = &asmFn{idx: map[uint64]int{}}
				best = sym == name+".abi0"
			} else {
				f = nil
			}
			a.fns[name] = f
			continue
		}
		if f == nil {
			continue
		}
		p := strings.Split(l, "\t")
		// "  file:line", "0xaddr", "", "hex", "", "OP args"
		var fl []string
		for _, x := range p {
			if x = strings.TrimSpace(x); x != "" {
				fl = append(fl, x)
			}
		}
		if len(fl) < 4 {
			continue
		}
		ad, err := strconv.ParseUint(strings.TrimPrefix(fl[1], "0x"), 16, 64)
		if err != nil {
			continue
		}
		t := fl[3]
		op := t
		var args []string
		if k := strings.IndexByte(t, ' '); k >= 0 {
			op = t[:k]
			for _, x := range strings.Split(t[k+1:], ", ") {
				args = append(args, strings.TrimSpace(x))
			}
		}
		f.idx[ad] = len(f.ins)
		f.ins = append(f.ins, asmInst{ad, op, args, fl[0]})
	}
	return a.fns[name]
}

type asmMem struct {
	obj ObjID
	off int32
}

type asmState struct {
	c    *Ctx
	st   *State
	reg  map[string]Value
	xmm  map[string][]*Term
	args map[int64]Value
	mem  map[asmMem]Value
	// lazily evaluated flags
	fa, fb, fr *Term
	fsub       bool
	fov        bool // carry and overflow not modelled
	f          *asmFn
	sig        *types.Signature
	resAt      int64
	path       *Term // merging execution: condition of this side
	paths      *int
}

// byteOff gives the byte offset and the element width of a cell.
func (c *Ctx) cellBytes(t types.Type, cell int) (off int64, ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		es := c.lay.size(u.Elem())
		if es == 0 {
			return 0, false
		}
		o, ok := c.cellBytes(u.Elem(), cell%es)
		return int64(cell/es)*stdSizes.Sizeof(u.Elem()) + o, ok
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := stdSizes.Offsetsof(fs)
		for i := range fs {
			n := c.lay.size(fs[i].Type())
			if cell < n {
				o, ok := c.cellBytes(fs[i].Type(), cell)
				return offs[i] + o, ok
			}
			cell -= n
		}
		return 0, false
	}
	return 0, cell == 0
}

// misaligned reports whether p may fail to be a multiple of 16.
func (c *Ctx) misaligned(st *State, p Ptr, extra int64) bool {
	o := st.obj(p.obj)
	es := c.lay.size(o.typ)
	if es == 0 {
		return true
	}
	b, ok := c.cellBytes(o.typ, int(p.off)%es)
	if !ok {
		return true
	}
	one := stdSizes.Sizeof(o.typ)
	b += int64(int(p.off)/es)*one + extra
	total := one * int64(len(o.cells)/es)
	if roundupSize(int(total))%16 != 0 {
		return true
	}
	return b%16 != 0
}

func (a *asmState) bad(in asmInst) {
	panic(unsupported{fmt.Sprintf("machine instruction %s %s (%s)", in.op, strings.Join(in.args, ", "), in.pos)})
}

type asmAddr struct {
	frame bool
	foff  int64
	p     Ptr
	disp  int64
}

func (a *asmState) addr(in asmInst, s string) asmAddr {
	i := strings.IndexByte(s, '(')
	var disp int64
	if i > 0 {
		d, err := strconv.ParseInt(s[:i], 0, 64)
		if err != nil {
			a.bad(in)
		}
		disp = d
	}
	parts := strings.Split(strings.TrimSuffix(s[i+1:], ")"), ")(")
	base := parts[0]
	if base == "SP" {
		if len(parts) > 1 {
			a.bad(in)
		}
		return asmAddr{frame: true, foff: disp}
	}
	if len(parts) > 1 {
		k := strings.Split(parts[1], "*")
		r, ok := a.reg[k[0]].(*Term)
		if !ok || r.op != OConst || len(k) != 2 {
			a.bad(in)
		}
		m, _ := strconv.ParseInt(k[1], 0, 64)
		disp += int64(r.val) * m
	}
	switch v := a.reg[base].(type) {
	case asmPtr:
		if v.p.obj == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		return asmAddr{p: v.p, disp: disp + v.disp}
	}
	a.bad(in)
	return asmAddr{}
}

type asmPtr struct {
	p    Ptr
	disp int64
}

// cellsAt returns n bytes at the address as (cell pointers, width in bytes).
func (a *asmState) cellsAt(in asmInst, ad asmAddr, n int64) ([]asmMem, int64) {
	o := a.st.obj(ad.p.obj)
	w := stdSizes.Sizeof(o.typ)
	if at, ok := o.typ.Underlying().(*types.Array); ok {
		w = stdSizes.Sizeof(at.Elem())
		if !isScalar(at.Elem()) {
			a.bad(in)
		}
	} else if !isScalar(o.typ) {
		// an array field inside a struct: use the width of the pointed-to cell
		t, ok := o.cells[ad.p.off].(*Term)
		if !ok || t.w == 0 || t.w > 64 {
			a.bad(in)
		}
		w = int64(t.w / 8)
	}
	if w == 0 || ad.disp%w != 0 || n%w != 0 {
		a.bad(in)
	}
	var out []asmMem
	for k := int64(0); k < n/w; k++ {
		off := int64(ad.p.off) + ad.disp/w + k
		if off < 0 || off >= int64(len(o.cells)) {
			panic(goPanic{Iface{types.Typ[types.String], Str{s: "memory access outside the object in machine code"}},
				"machine code at " + in.pos + " touches memory outside the object"})
		}
		out = append(out, asmMem{ad.p.obj, int32(off)})
	}
	return out, w
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (a *asmState) cell(m asmMem) *Term {
	if v, ok := a.mem[m]; ok {
		return v.(*Term)
	}
	return a.st.obj(m.obj).cells[m.off].(*Term)
}

func (a *asmState) load(in asmInst, s string, n int64) Value {
	ad := a.addr(in, s)
	if ad.frame {
		v, ok := a.args[ad.foff]
		if !ok {
			a.bad(in)
		}
		return v
	}
	cs, _ := a.cellsAt(in, ad, n)
	t := a.cell(cs[0])
	for _, m := range cs[1:] {
		t = a.c.tm.concat(a.cell(m), t)
	}
	return t
}

func (a *asmState) store(in asmInst, s string, v Value, n int64) {
	ad := a.addr(in, s)
	if ad.frame {
		a.args[ad.foff] = v
		return
	}
	t, ok := v.(*Term)
	if !ok {
		a.bad(in)
	}
	cs, w := a.cellsAt(in, ad, n)
	for i, m := range cs {
		a.mem[m] = a.c.tm.extract(t, uint8(int64(i)*w*8), uint8(w*8))
	}
}

func (a *asmState) src(in asmInst, s string, w uint8) Value {
	if s[0] == '$' {
		v, err := strconv.ParseInt(s[1:], 0, 64)
		if err != nil {
			u, err2 := strconv.ParseUint(s[1:], 0, 64)
			if err2 != nil {
				a.bad(in)
			}
			v = int64(u)
		}
		return a.c.tm.konst(w, uint64(v))
	}
	if strings.ContainsRune(s, '(') {
		return a.load(in, s, int64(w/8))
	}
	v := a.reg[s]
	if t, ok := v.(*Term); ok && t.w > w {
		return a.c.tm.extract(t, 0, w)
	}
	if v == nil {
		a.bad(in)
	}
	return v
}

func (a *asmState) t(in asmInst, s string, w uint8) *Term {
	t, ok := a.src(in, s, w).(*Term)
	if !ok {
		a.bad(in)
	}
	return t
}

func (a *asmState) put(in asmInst, s string, v Value, w uint8) {
	if strings.ContainsRune(s, '(') {
		a.store(in, s, v, int64(w/8))
		return
	}
	if t, ok := v.(*Term); ok && w == 32 {
		v = a.c.tm.zext(t, 64)
	} else if ok && w < 32 {
		old, _ := a.reg[s].(*Term)
		if old == nil {
			old = a.c.tm.konst(64, 0)
		}
		v = a.c.tm.concat(a.c.tm.extract(old, w, 64-w), t)
	}
	a.reg[s] = v
}

func (a *asmState) flags(r, x, y *Term, sub bool) {
	a.fr, a.fa, a.fb, a.fsub, a.fov = r, x, y, sub, false
}

func (a *asmState) cond(in asmInst, cc string) *Term {
	tm := a.c.tm
	if a.fr == nil {
		a.bad(in)
	}
	z := tm.eq(a.fr, tm.konst(a.fr.w, 0))
	sgn := tm.cmp(OSlt, a.fr, tm.konst(a.fr.w, 0))
	switch cc {
	case "E", "EQ":
		return z
	case "NE":
		return tm.not(z)
	case "S", "MI":
		return sgn
	case "NS", "PL":
		return tm.not(sgn)
	}
	if a.fov {
		a.bad(in)
	}
	if !a.fsub {
		// logical results: carry and overflow are clear
		switch cc {
		case "L", "LT":
			return sgn
		case "GE":
			return tm.not(sgn)
		case "LE":
			return tm.or(sgn, z)
		case "G", "GT":
			return tm.not(tm.or(sgn, z))
		}
		a.bad(in)
	}
	switch cc {
	case "L", "LT":
		return tm.cmp(OSlt, a.fa, a.fb)
	case "GE":
		return tm.not(tm.cmp(OSlt, a.fa, a.fb))
	case "LE":
		return tm.cmp(OSle, a.fa, a.fb)
	case "G", "GT":
		return tm.not(tm.cmp(OSle, a.fa, a.fb))
	case "B", "CS", "LO":
		return tm.cmp(OUlt, a.fa, a.fb)
	case "AE", "CC", "HS":
		return tm.not(tm.cmp(OUlt, a.fa, a.fb))
	case "BE", "LS":
		return tm.cmp(OUle, a.fa, a.fb)
	case "A", "HI":
		return tm.not(tm.cmp(OUle, a.fa, a.fb))
	}
	a.bad(in)
	return nil
}

func sat16(tm *TM, x, y *Term, op Op) *Term {
	s := tm.bin(op, tm.sext(x, 32), tm.sext(y, 32))
	hi, lo := tm.konst(32, 32767), tm.konst(32, 0xffff8000)
	r := tm.ite(tm.cmp(OSlt, hi, s), hi, tm.ite(tm.cmp(OSlt, s, lo), lo, s))
	return tm.extract(r, 0, 16)
}

func (a *asmState) lanes(in asmInst, s string, aligned bool) []*Term {
	if !strings.ContainsRune(s, '(') {
		x, ok := a.xmm[s]
		if !ok {
			a.bad(in)
		}
		return x
	}
	ad := a.addr(in, s)
	if ad.frame {
		a.bad(in)
	}
	if aligned {
		a.checkAlign(in, ad)
	}
	cs, w := a.cellsAt(in, ad, 16)
	if w != 2 {
		a.bad(in)
	}
	var out []*Term
	for _, m := range cs {
		out = append(out, a.cell(m))
	}
	return out
}

func (a *asmState) checkAlign(in asmInst, ad asmAddr) {
	if a.c.misaligned(a.st, ad.p, ad.disp) {
		m := "fault: " + in.op + " at " + in.pos + " needs a 16-byte aligned address"
		panic(goPanic{Iface{types.Typ[types.String], Str{s: m}}, m})
	}
}

func (a *asmState) putLanes(in asmInst, s string, v []*Term, aligned bool) {
	if !strings.ContainsRune(s, '(') {
		a.xmm[s] = v
		return
	}
	ad := a.addr(in, s)
	if ad.frame {
		a.bad(in)
	}
	if aligned {
		a.checkAlign(in, ad)
	}
	cs, w := a.cellsAt(in, ad, 16)
	if w != 2 {
		a.bad(in)
	}
	for i, m := range cs {
		a.mem[m] = v[i]
	}
}

func asmWidth(op string) (string, uint8) {
	switch op[len(op)-1] {
	case 'Q':
		return op[:len(op)-1], 64
	case 'L':
		return op[:len(op)-1], 32
	case 'W':
		return op[:len(op)-1], 16
	case 'B':
		return op[:len(op)-1], 8
	}
	return op, 0
}

// callAsm runs a function without Go body.
func (c *Ctx) callAsm(st *State, fn *ssa.Function, args []Value) (Value, bool) {
	if c.run == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	if !c.run.waitBin() || c.run.asm == nil {
		return nil, false
	}
	f := c.run.asm.get(fn.String())
	if f == nil || len(f.ins) == 0 {
		return nil, false
	}
	c.funcs[fn.String()+" (machine code)"] = true
	a := &asmState{c: c, st: st, reg: map[string]Value{}, xmm: map[string][]*Term{}, args: map[int64]Value{}, mem: map[asmMem]Value{}}
	off := int64(8)
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		al := stdSizes.Alignof(t)
		off = (off + al - 1) / al * al
		switch v := args[i].(type) {
		case Ptr:
			a.args[off] = asmPtr{v, 0}
		default:
			a.args[off] = v
		}
		off += stdSizes.Sizeof(t)
	}
	off = (off + 7) &^ 7
	resAt := off
	a.f, a.resAt, a.sig = f, resAt, sig
	if sig.Results().Len() == 1 {
		if v, ok := a.clone().merged(); ok {
			return v, true
		}
	}
	return a.run(0)
}

type asmNoMerge struct{}

// merged runs the function following both sides of undecided branches and
// joins the results; it gives up when the code writes memory.
func (a *asmState) merged() (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(asmNoMerge); is {
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	n := 0
	a.path, a.paths = a.c.tm.boolConst(true), &n
	return a.run(0)
}

func (a *asmState) clone() *asmState {
	b := *a
	b.reg = make(map[string]Value, len(a.reg))
	for k, v := range a.reg {
		b.reg[k] = v
	}
	b.xmm = make(map[string][]*Term, len(a.xmm))
	for k, v := range a.xmm {
		b.xmm[k] = v
	}
	b.args = make(map[int64]Value, len(a.args))
	for k, v := range a.args {
		b.args[k] = v
	}
	b.mem = make(map[asmMem]Value, len(a.mem))
	for k, v := range a.mem {
		b.mem[k] = v
	}
	return &b
}

func (a *asmState) run(pc int) (Value, bool) {
	c, st, f, sig, resAt := a.c, a.st, a.f, a.sig, a.resAt
	tm := c.tm
	for n := 0; ; n++ {
		if n > 200000 {
			panic(unsupported{"machine code step limit"})
		}
		if pc >= len(f.ins) {
			panic(unsupported{"machine code ran off its end"})
		}
		in := f.ins[pc]
		c.insns++
		pc++
		op := in.op
		A := in.args
		switch op {
		case "RET":
			if a.path != nil && len(a.mem) > 0 {
				panic(asmNoMerge{})
			}
			for m, v := range a.mem {
				st.objW(m.obj).cells[m.off] = v
			}
			switch sig.Results().Len() {
			case 0:
				return nil, true
			case 1:
				v, ok := a.args[resAt]
				if !ok {
					panic(unsupported{"machine code left its result unset"})
				}
				if t, ok := v.(*Term); ok {
					w, _ := basicWidth(sig.Results().At(0).Type().Underlying().(*types.Basic))
					if t.w > w {
						v = tm.extract(t, 0, w)
					}
				}
				return v, true
			}
			a.bad(in)
		case "NOPL", "NOPW", "NOP", "NOOP":
			continue
		case "JMP":
			pc = a.target(in, f)
			continue
		case "MOVDQA", "MOVAPS", "MOVAPD", "MOVO":
			a.putLanes(in, A[1], a.lanes(in, A[0], true), true)
			continue
		case "MOVDQU", "MOVUPS", "MOVUPD", "MOVOU":
			a.putLanes(in, A[1], a.lanes(in, A[0], false), false)
			continue
		case "PADDSW", "PSUBSW", "PADDW", "PSUBW", "PMAXSW", "PMINSW", "PXOR", "PAND", "POR":
			x := a.lanes(in, A[0], true)
			y := a.lanes(in, A[1], true)
			out := make([]*Term, 8)
			for i := range out {
				switch op {
				case "PADDSW":
					out[i] = sat16(tm, y[i], x[i], OAdd)
				case "PSUBSW":
					out[i] = sat16(tm, y[i], x[i], OSub)
				case "PADDW":
					out[i] = tm.bin(OAdd, y[i], x[i])
				case "PSUBW":
					out[i] = tm.bin(OSub, y[i], x[i])
				case "PMAXSW":
					out[i] = tm.ite(tm.cmp(OSlt, y[i], x[i]), x[i], y[i])
				case "PMINSW":
					out[i] = tm.ite(tm.cmp(OSlt, x[i], y[i]), x[i], y[i])
				case "PXOR":
					out[i] = tm.bin(OBXor, y[i], x[i])
				case "PAND":
					out[i] = tm.bin(OBAnd, y[i], x[i])
				case "POR":
					out[i] = tm.bin(OBOr, y[i], x[i])
				}
			}
			a.putLanes(in, A[1], out, false)
			continue
		}
		if strings.HasPrefix(op, "J") {
			cond := a.cond(in, op[1:])
			if a.path != nil && cond.op != OConst {
				if *a.paths++; *a.paths > 64 {
					panic(asmNoMerge{})
				}
				b := a.clone()
				b.path = tm.and(a.path, cond)
				a.path = tm.and(a.path, tm.not(cond))
				t1, p1, ok1 := b.try(a.target(in, f))
				t2, p2, ok2 := a.try(pc)
				switch {
				case ok1 && ok2:
					return tm.ite(cond, t1, t2), true
				case ok1 && p2:
					return t1, true
				case ok2 && p1:
					return t2, true
				}
				panic(asmNoMerge{})
			}
			if st.branch(cond) {
				pc = a.target(in, f)
			}
			continue
		}
		// sign and zero extensions: MOVWQSX, MOVBLZX ...
		if strings.HasPrefix(op, "MOV") && (strings.HasSuffix(op, "SX") || strings.HasSuffix(op, "ZX")) && len(op) == 7 {
			_, sw := asmWidth(op[3:4])
			_, dw := asmWidth(op[4:5])
			v := a.t(in, A[0], sw)
			if op[5] == 'S' {
				v = tm.sext(v, dw)
			} else {
				v = tm.zext(v, dw)
			}
			a.put(in, A[1], v, dw)
			continue
		}
		base, w := asmWidth(op)
		if w == 0 {
			a.bad(in)
		}
		switch base {
		case "MOV":
			v := a.src(in, A[0], w)
			a.put(in, A[1], v, w)
		case "LEA":
			if strings.Contains(A[0], "(SP)") {
				a.bad(in)
			}
			if t, ok := a.reg[strings.TrimSuffix(A[0][strings.IndexByte(A[0], '(')+1:], ")")].(*Term); ok && w == 64 {
				d, err := strconv.ParseInt("0"+strings.TrimPrefix(A[0][:strings.IndexByte(A[0], '(')], "0"), 0, 64)
				if err != nil {
					a.bad(in)
				}
				a.put(in, A[1], tm.bin(OAdd, t, tm.konst(64, uint64(d))), w)
				break
			}
			ad := a.addr(in, A[0])
			a.put(in, A[1], asmPtr{ad.p, ad.disp}, w)
		case "ADD", "SUB":
			if p, ok := a.reg[A[1]].(asmPtr); ok {
				k := a.t(in, A[0], w)
				if k.op != OConst {
					a.bad(in)
				}
				d := sext(k.val, k.w)
				if base == "SUB" {
					d = -d
				}
				a.reg[A[1]] = asmPtr{p.p, p.disp + d}
				a.fr = nil
				break
			}
			x, y := a.t(in, A[1], w), a.t(in, A[0], w)
			if base == "ADD" {
				r := tm.bin(OAdd, x, y)
				a.put(in, A[1], r, w)
				a.flags(r, nil, nil, false)
				a.fov = true
			} else {
				r := tm.bin(OSub, x, y)
				a.flags(r, x, y, true)
				a.put(in, A[1], r, w)
			}
		case "CMP":
			x, y := a.t(in, A[0], w), a.t(in, A[1], w)
			a.flags(tm.bin(OSub, x, y), x, y, true)
		case "TEST":
			x, y := a.t(in, A[0], w), a.t(in, A[1], w)
			a.flags(tm.bin(OBAnd, x, y), nil, nil, false)
		case "INC", "DEC":
			x := a.t(in, A[0], w)
			one := tm.konst(w, 1)
			if base == "INC" {
				r := tm.bin(OAdd, x, one)
				a.flags(r, nil, nil, false)
				a.fov = true
				a.put(in, A[0], r, w)
			} else {
				r := tm.bin(OSub, x, one)
				a.flags(r, x, one, true)
				a.put(in, A[0], r, w)
			}
		case "AND", "OR", "XOR":
			if base == "XOR" && A[0] == A[1] {
				z := tm.konst(w, 0)
				a.flags(z, nil, nil, false)
				a.put(in, A[1], z, w)
				break
			}
			x, y := a.t(in, A[1], w), a.t(in, A[0], w)
			o := map[string]Op{"AND": OBAnd, "OR": OBOr, "XOR": OBXor}[base]
			r := tm.bin(o, x, y)
			a.flags(r, nil, nil, false)
			a.put(in, A[1], r, w)
		case "NOT":
			a.put(in, A[0], tm.bnot(a.t(in, A[0], w)), w)
		case "NEG":
			x := a.t(in, A[0], w)
			r := tm.neg(x)
			a.flags(r, tm.konst(w, 0), x, true)
			a.put(in, A[0], r, w)
		case "SHL", "SHR", "SAR":
			if len(A) == 1 {
				A = []string{"$1", A[0]}
			}
			x := a.t(in, A[1], w)
			var k *Term
			if A[0] == "CL" {
				k = a.t(in, "CX", 8)
			} else {
				k = a.t(in, A[0], 8)
			}
			m := uint64(31)
			if w == 64 {
				m = 63
			}
			k = tm.zext(tm.bin(OBAnd, k, tm.konst(8, m)), 64)
			if w < 64 {
				k = tm.extract(k, 0, w)
			}
			o := map[string]Op{"SHL": OShl, "SHR": OLShr, "SAR": OAShr}[base]
			r := tm.bin(o, x, k)
			a.fr = nil
			if k.op == OConst && k.val != 0 {
				a.flags(r, nil, nil, false)
				a.fov = true
			}
			a.put(in, A[1], r, w)
		case "BSR":
			x := a.t(in, A[0], w)
			r := tm.konst(w, 0)
			for i := uint8(0); i < w; i++ {
				r = tm.ite(tm.eq(tm.extract(x, i, 1), tm.konst(1, 1)), tm.konst(w, uint64(i)), r)
			}
			zero := tm.eq(x, tm.konst(w, 0))
			if a.path != nil {
				// (x unchanged when zero; refused below unless impossible)
				if r, _ := st.feasible(tm.and(a.path, zero)); r != Unsat {
					a.bad(in)
				}
			} else if st.branch(zero) {
				a.bad(in) // destination undefined
			}
			a.fr = nil
			a.put(in, A[1], r, w)
		case "LZCNT":
			x := a.t(in, A[0], w)
			r := tm.konst(w, uint64(w))
			for i := uint8(0); i < w; i++ {
				r = tm.ite(tm.eq(tm.extract(x, i, 1), tm.konst(1, 1)), tm.konst(w, uint64(w-1-i)), r)
			}
			a.fr = nil
			a.put(in, A[1], r, w)
		case "IMUL":
			if len(A) == 2 {
				r := tm.bin(OMul, a.t(in, A[0], w), a.t(in, A[1], w))
				a.fr = nil
				a.put(in, A[1], r, w)
			} else if len(A) == 3 {
				r := tm.bin(OMul, a.t(in, A[0], w), a.t(in, A[1], w))
				a.fr = nil
				a.put(in, A[2], r, w)
			} else {
				a.bad(in)
			}
		case "XCHG":
			x, y := a.src(in, A[0], w), a.src(in, A[1], w)
			a.put(in, A[0], y, w)
			a.put(in, A[1], x, w)
		default:
			if strings.HasPrefix(base, "CMOV") {
				x, y := a.t(in, A[0], w), a.t(in, A[1], w)
				a.put(in, A[1], tm.ite(a.cond(in, strings.TrimPrefix(base, "CMOV")), x, y), w)
				break
			}
			a.bad(in)
		}
	}
}

// try runs one side of a branch. infeas reports that the side cannot be taken.
func (a *asmState) try(pc int) (t *Term, infeas bool, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(asmNoMerge); is {
				panic(r)
			}
			if x, is := r.(unsupported); is {
				if res, _ := a.st.feasible(a.path); res == Unsat {
					t, infeas, ok = nil, true, false
					return
				}
				panic(x)
			}
			panic(r)
		}
	}()
	v, _ := a.run(pc)
	t, ok = v.(*Term)
	if !ok {
		panic(asmNoMerge{})
	}
	return t, false, true
}

func (a *asmState) target(in asmInst, f *asmFn) int {
	s := in.args[0]
	ad, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		a.bad(in)
	}
	i, ok := f.idx[ad]
	if !ok {
		a.bad(in)
	}
	return i
}
