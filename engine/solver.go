package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

type SolverStats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	CacheHit int
	ModelHit int
	Domain   int // decided by byte-set propagation without a solver call
	Time     time.Duration
	Cross    int // queries repeated on a second solver
	CrossBad int
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.CacheHit += b.CacheHit
	a.ModelHit += b.ModelHit
	a.Domain += b.Domain
	a.Time += b.Time
	a.Cross += b.Cross
	a.CrossBad += b.CrossBad
}

type Solver struct {
	tm     *TM
	gen    uint32
	genc   uint32
	cmd    *exec.Cmd
	in     *bufio.Writer
	inc    io.WriteCloser
	out    *bufio.Reader
	ndefs  int
	decl   map[int32]bool
	cache  map[string]Res
	models map[string]map[int32]uint64
	stats  SolverStats
	tmoMS  int
	fp     bool
	bin    []string
	log    io.Writer
}

func newSolver(tm *TM, tmoMS int) *Solver {
	bin := []string{"z3-new", "-in", "-smt2"}
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		bin = strings.Fields(b)
	}
	s := &Solver{tm: tm, tmoMS: tmoMS, bin: bin, cache: map[string]Res{}, models: map[string]map[int32]uint64{}}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%p", p, s))
		s.log = f
	}
	return s
}

func (s *Solver) start() {
	s.ndefs = 0
	s.decl = map[int32]bool{}
	// a fresh generation number per solver and restart
	s.genc++
	s.gen = s.genc
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	logic := "QF_BV"
	s.fp = s.tm.hasFloat
	if s.fp {
		logic = "QF_BVFP"
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic %s)\n", s.tmoMS, logic)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtSort(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == WFloat:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var smtOps = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFSqrt: "fp.sqrt RNE", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
}

func bvLit(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// ref returns the SMT name of t, defining it (and what it needs) if necessary.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch {
		case t.w == 0:
			if t.val != 0 {
				return "true"
			}
			return "false"
		case t.w == WFloat:
			return fmt.Sprintf("((_ to_fp 11 53) %s)", bvLit(64, t.val))
		}
		return bvLit(t.w, t.val)
	case OVar:
		if !s.decl[t.sv] {
			s.decl[t.sv] = true
			s.emit(fmt.Sprintf("(declare-const v%d %s)\n", t.sv, smtSort(t.w)))
		}
		return fmt.Sprintf("v%d", t.sv)
	}
	name := fmt.Sprintf("t%d", t.id)
	if t.smtEp == s.gen {
		return name
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.ref(a)
	}
	var body string
	switch t.op {
	case OIn:
		body = s.inBody(t, args[0])
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, args[0])
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OSToF:
		body = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", args[0])
	case OUToF:
		body = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", args[0])
	case OFToS:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, args[0])
	case OFOfBits:
		body = fmt.Sprintf("((_ to_fp 11 53) %s)", args[0])
	default:
		op, ok := smtOps[t.op]
		if !ok {
			panic(fmt.Sprint("smt op ", t.op))
		}
		body = "(" + op + " " + strings.Join(args, " ") + ")"
	}
	s.emit(fmt.Sprintf("(define-fun %s () %s %s)\n", name, smtSort(t.w), body))
	s.ndefs++
	t.smtEp = s.gen
	return name
}

func (s *Solver) emit(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) inBody(t *Term, v string) string {
	w := t.args[0].w
	if w == 0 {
		if t.set.has(1) {
			return v
		}
		return "(not " + v + ")"
	}
	n := uint64(1) << w
	var parts []string
	for i := uint64(0); i < n; {
		if !t.set.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && t.set.has(j+1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s %s)", v, bvLit(w, i)))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvLit(w, i), v, v, bvLit(w, j)))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// check decides the conjunction of cs. On Sat it returns values for all
// variables of cs.
func (s *Solver) check(cs []*Term) (Res, map[int32]uint64) {
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	var kb strings.Builder
	for i, c := range cs {
		if i > 0 && cs[i-1] == c {
			continue
		}
		kb.WriteString(strconv.Itoa(int(c.id)))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.stats.CacheHit++
		return r, s.models[key]
	}
	if len(s.cache) > 300000 {
		s.cache = map[string]Res{}
		s.models = map[string]map[int32]uint64{}
	}
	t0 := time.Now()
	r, model := s.query(cs)
	s.stats.Queries++
	s.stats.Time += time.Since(t0)
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	s.cache[key] = r
	if model != nil {
		s.models[key] = model
	}
	return r, model
}

func (s *Solver) query(cs []*Term) (Res, map[int32]uint64) {
	if s.cmd == nil || s.ndefs > 150000 || s.tm.hasFloat && !s.fp {
		s.stop()
		s.start()
	}
	names := make([]string, len(cs))
	vs := map[int32]bool{}
	for i, c := range cs {
		names[i] = s.ref(c)
		for _, v := range s.tm.support(c) {
			vs[v] = true
		}
	}
	s.emit("(push 1)\n")
	for _, n := range names {
		s.emit("(assert " + n + ")\n")
	}
	s.emit("(check-sat)\n(echo \"@\")\n")
	// the solver's own timeout does not cover all of its preprocessing
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.tmoMS)*time.Millisecond*3/2+time.Second, func() { proc.Kill() })
	lines, ok := s.readTo()
	dog.Stop()
	if !ok || len(lines) == 0 {
		s.stop()
		return Unknown, nil
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			s.emit("(pop 1)\n")
			return Unknown, nil
		}
	}
	switch lines[0] {
	case "unsat":
		s.emit("(pop 1)\n")
		return Unsat, nil
	case "sat":
	default:
		s.emit("(pop 1)\n")
		return Unknown, nil
	}
	ids := make([]int, 0, len(vs))
	for v := range vs {
		ids = append(ids, int(v))
	}
	sort.Ints(ids)
	model := map[int32]uint64{}
	if len(ids) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range ids {
			fmt.Fprintf(&b, "v%d ", v)
		}
		b.WriteString("))\n(echo \"@\")\n")
		s.emit(b.String())
		lines, ok = s.readTo()
		if !ok {
			s.stop()
			return Unknown, nil
		}
		if !parseModel(strings.Join(lines, " "), model) {
			fmt.Fprintln(os.Stderr, "solver: cannot parse model:", strings.Join(lines, " "))
			s.emit("(pop 1)\n")
			return Unknown, nil
		}
	}
	s.emit("(pop 1)\n")
	return Sat, model
}

func (s *Solver) readTo() ([]string, bool) {
	if err := s.in.Flush(); err != nil {
		return nil, false
	}
	var out []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return out, false
		}
		l = strings.TrimSpace(l)
		if l == "@" || l == "\"@\"" {
			return out, true
		}
		if l != "" {
			out = append(out, l)
		}
	}
}

func parseModel(x string, model map[int32]uint64) bool {
	// ((v1 #x00) (v2 true) (v3 (fp #b0 #b... #x...)))
	toks := []string{}
	i := 0
	for i < len(x) {
		switch c := x[i]; {
		case c == '(' || c == ')':
			toks = append(toks, string(c))
			i++
		case c == ' ':
			i++
		default:
			j := i
			for j < len(x) && x[j] != ' ' && x[j] != '(' && x[j] != ')' {
				j++
			}
			toks = append(toks, x[i:j])
			i = j
		}
	}
	lit := func(t string) (uint64, int, bool) {
		if strings.HasPrefix(t, "#x") {
			v, err := strconv.ParseUint(t[2:], 16, 64)
			return v, 4 * (len(t) - 2), err == nil
		}
		if strings.HasPrefix(t, "#b") {
			v, err := strconv.ParseUint(t[2:], 2, 64)
			return v, len(t) - 2, err == nil
		}
		return 0, 0, false
	}
	p := 1
	for p < len(toks) && toks[p] == "(" {
		if p+2 >= len(toks) || toks[p+1][0] != 'v' {
			return false
		}
		n, err := strconv.Atoi(toks[p+1][1:])
		if err != nil {
			return false
		}
		p += 2
		switch {
		case toks[p] == "true":
			model[int32(n)] = 1
			p++
		case toks[p] == "false":
			model[int32(n)] = 0
			p++
		case toks[p] == "(" && toks[p+1] == "fp":
			a, _, ok1 := lit(toks[p+2])
			b, _, ok2 := lit(toks[p+3])
			c, _, ok3 := lit(toks[p+4])
			if !ok1 || !ok2 || !ok3 {
				return false
			}
			model[int32(n)] = a<<63 | b<<52 | c
			p += 6
		case toks[p] == "(" && toks[p+1] == "_":
			switch toks[p+2] {
			case "+zero":
				model[int32(n)] = 0
			case "-zero":
				model[int32(n)] = 1 << 63
			case "+oo":
				model[int32(n)] = 0x7ff0000000000000
			case "-oo":
				model[int32(n)] = 0xfff0000000000000
			case "NaN":
				model[int32(n)] = 0x7ff8000000000001
			default:
				return false
			}
			p += 6
		default:
			v, _, ok := lit(toks[p])
			if !ok {
				return false
			}
			model[int32(n)] = v
			p++
		}
		if toks[p] != ")" {
			return false
		}
		p++
	}
	return true
}
