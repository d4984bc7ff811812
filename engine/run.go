package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Task struct {
	entry   string
	choices []int
	maxed   bool
}

func (t *Task) name() string { return fmt.Sprintf("%s%v", t.entry, t.choices) }

type NV struct {
	K string
	V uint64
}

type Cand struct {
	ID     int
	Entry  string
	Kind   string // assert, panic, deadlock, hang, sample, unsupported
	Msg    string
	Where  string
	Vals   []NV
	Obs    [][2]string
	Sched  bool
	Unsure bool
	Task   string
	// results of the replay
	Result  string
	Native  string
	Matched bool
}

type EntryStat struct {
	Tasks, Paths, Infeasible, Violating, Unsupported, Cut, Steps, Panics, Deadlocks int
	Reach                                                                           map[string]int
	Insns                                                                           int
	Forks                                                                           int
	Unfinished                                                                      int
	MS                                                                              int64
}

type Run struct {
	prop, tier string
	seed       int64
	repo       string
	verif      string
	tmp        string
	l          *Loaded
	asm        *asmCtx
	solverMS   int
	maxSteps   int
	workers    int
	verbose    bool

	binDone chan bool
	binErr  error
	bin     string

	mu       sync.Mutex
	cv       *sync.Cond
	queue    []*Task
	active   int
	deadline time.Time
	start    time.Time
	stop     int32

	entries   map[string]*EntryStat
	cands     []*Cand
	samples   map[string][]*Cand
	unsup     map[string]int
	cuts      map[string]int
	bounds    map[string]bool
	assumps   map[string]bool
	funcs     map[string]bool
	asserts   map[string]*assertStat
	sstats    SolverStats
	nid       int
	candN     map[string]int
	confirmCh chan *Cand
	confirmed []*Cand
	unconf    []*Cand
	known     []*Cand
	kf        []KnownFinding
	rng       *rand.Rand
	crashes   int
}

type assertStat struct {
	Checked, Trivial, Solver, Unknown, Violated int
}

type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Entry    string `json:"entry,omitempty"`
	Msg      string `json:"msg,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func (r *Run) bound(s string)      { r.mu.Lock(); r.bounds[s] = true; r.mu.Unlock() }
func (r *Run) assumption(s string) { r.mu.Lock(); r.assumps[s] = true; r.mu.Unlock() }
func (r *Run) reach(c *Ctx, st *State, label string) {
	nm := make(map[string]bool, len(st.reach)+1)
	for k := range st.reach {
		nm[k] = true
	}
	nm[label] = true
	st.reach = nm
}

func (r *Run) es(name string) *EntryStat {
	e := r.entries[name]
	if e == nil {
		e = &EntryStat{Reach: map[string]int{}}
		r.entries[name] = e
	}
	return e
}

// nextCase implements v.Case.
func (r *Run) nextCase(c *Ctx, st *State, n int) int {
	if n <= 0 {
		panic(endPath{"infeasible", "no case"})
	}
	k := 0
	for _, x := range st.nds {
		if x.kind == "Case" {
			k++
		}
	}
	t := c.task
	pick := 0
	if k < len(t.choices) {
		pick = t.choices[k]
	} else {
		if st.forks > 0 {
			panic(unsupported{"v.Case after the exploration forked"})
		}
		r.mu.Lock()
		base := append([]int(nil), t.choices...)
		for i := n - 1; i >= 1; i-- {
			nt := &Task{entry: t.entry, choices: append(append([]int(nil), base...), i)}
			r.queue = append(r.queue, nt)
		}
		t.choices = append(base, 0)
		r.es(t.entry).Tasks += n - 1
		r.mu.Unlock()
		r.cv.Broadcast()
	}
	st.nds = append(st.nds, Nondet{"Case", c.tm.konst(64, uint64(pick))})
	return pick
}

func (c *Ctx) evalUnder(st *State, t *Term, model []uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	tm := c.tm
	tm.begin()
	for _, v := range tm.support(t) {
		if int(v) < len(model) {
			tm.assign(v, model[v])
		} else {
			tm.assign(v, 0)
		}
	}
	return tm.eval(t)
}

// diversify replaces input values of a model by random ones wherever the path
// condition allows, so that replayed samples are not all zeros.
func (c *Ctx) diversify(st *State, m []uint64) []uint64 {
	tm := c.tm
	rng := rand.New(rand.NewSource(c.run.seed ^ int64(st.steps)*7919 ^ int64(len(st.nds))))
	out := append([]uint64(nil), m...)
	tries := 0
	for _, i := range rng.Perm(len(st.nds)) {
		t := st.nds[i].t
		if t.op != OVar {
			continue
		}
		sup := tm.support(t)
		if len(sup) != 1 {
			continue
		}
		v := sup[0]
		w := tm.vars[v].w
		var x uint64
		if w <= 8 {
			d := st.domain(v)
			n := d.count()
			if n < 2 {
				continue
			}
			k := rng.Intn(n)
			for b := uint64(0); b < 256; b++ {
				if d.has(b) {
					if k == 0 {
						x = b
						break
					}
					k--
				}
			}
		} else if w <= 64 {
			x = rng.Uint64() & mask(w)
			if rng.Intn(3) == 0 {
				x >>= uint(rng.Intn(int(w)))
			}
		} else {
			continue
		}
		if w > 8 || st.ent[v] {
			if tries++; tries > 200 {
				break
			}
		}
		for int(v) >= len(out) {
			out = append(out, 0)
		}
		old := out[v]
		out[v] = x
		if w > 8 || st.ent[v] {
			for _, mc := range st.multi {
				hit := false
				for _, y := range tm.support(mc) {
					if y == v {
						hit = true
						break
					}
				}
				if hit && c.evalUnder(st, mc, out) == 0 {
					out[v] = old
					break
				}
			}
		}
	}
	return out
}

func (c *Ctx) mkCand(st *State, kind, msg string, up map[int32]uint64) *Cand {
	m := st.modelWith(up)
	if kind == "sample" {
		m = c.diversify(st, m)
	}
	cd := &Cand{Entry: c.task.entry, Kind: kind, Msg: msg, Task: c.task.name(), Sched: len(st.sched) > 0, Unsure: st.unsure}
	func() {
		defer func() { recover() }()
		cd.Where = st.where()
	}()
	for _, n := range st.nds {
		cd.Vals = append(cd.Vals, NV{n.kind, c.evalUnder(st, n.t, m)})
	}
	for _, o := range st.obs {
		switch v := o.val.(type) {
		case *Term:
			cd.Obs = append(cd.Obs, [2]string{o.name, strconv.FormatInt(sext(c.evalUnder(st, v, m), v.w), 10)})
		case Str:
			b := make([]byte, v.len())
			for i := range b {
				b[i] = byte(c.evalUnder(st, c.strAt(v, i), m))
			}
			cd.Obs = append(cd.Obs, [2]string{o.name, hex.EncodeToString(b)})
		}
	}
	return cd
}

func (r *Run) assert(c *Ctx, st *State, cond *Term, msg string) {
	key := c.task.entry + ": " + msg
	r.mu.Lock()
	a := r.asserts[key]
	if a == nil {
		a = &assertStat{}
		r.asserts[key] = a
	}
	a.Checked++
	r.mu.Unlock()
	if cond.op == OConst && cond.val != 0 {
		r.mu.Lock()
		a.Trivial++
		r.mu.Unlock()
		return
	}
	var res Res
	var up map[int32]uint64
	nc := c.tm.not(cond)
	if nc.op == OConst {
		res = Sat
	} else if st.evalModel(nc) != 0 {
		res = Sat
	} else {
		res, up = st.solve(nc)
	}
	r.mu.Lock()
	a.Solver++
	switch res {
	case Unknown:
		a.Unknown++
	case Sat:
		a.Violated++
	}
	n := r.candN[key]
	r.mu.Unlock()
	if res == Sat {
		if n < 6 {
			r.mu.Lock()
			r.candN[key]++
			r.mu.Unlock()
			r.submit(c.mkCand(st, "assert", msg, up))
		}
		st.reachViol(c)
		// go on where the assertion holds
		rr, up2 := st.feasible(cond)
		if rr != Sat {
			panic(endPath{"violated", msg})
		}
		st.add(cond, up2)
		return
	}
	if res == Unsat {
		st.remember(cond, true)
		return
	}
	st.unsure = true
}

func (st *State) reachViol(c *Ctx) {}

func (r *Run) submit(cd *Cand) {
	r.mu.Lock()
	r.nid++
	cd.ID = r.nid
	r.cands = append(r.cands, cd)
	r.mu.Unlock()
	r.confirmCh <- cd
}

// pathEnded accounts for a finished path.
func (r *Run) pathEnded(c *Ctx, st *State, e pathEnd) {
	entry := c.task.entry
	r.mu.Lock()
	es := r.es(entry)
	switch e.kind {
	case "done":
		es.Paths++
		for k := range st.reach {
			es.Reach[k]++
		}
	case "infeasible":
		es.Infeasible++
	case "violated":
		es.Violating++
	case "unsupported":
		es.Unsupported++
		r.unsup[entry+": "+e.why]++
	case "panic":
		es.Panics++
	case "deadlock":
		es.Deadlocks++
	case "cut":
		es.Cut++
		r.cuts[entry+": "+e.why]++
	case "steps":
		es.Steps++
	}
	r.mu.Unlock()
	switch e.kind {
	case "panic", "deadlock", "steps":
		kind := e.kind
		if kind == "steps" {
			kind = "hang"
		}
		key := entry + kind
		why := e.why
		if i := strings.Index(why, " at "); i >= 0 {
			key += why[i:]
		}
		r.mu.Lock()
		n := r.candN[key]
		r.candN[key]++
		r.mu.Unlock()
		if n < 4 {
			r.submit(c.mkCand(st, kind, why, nil))
		}
	case "done", "unsupported":
		r.mu.Lock()
		key := entry
		lim := 24
		if e.kind == "unsupported" {
			key += "\x00unsup"
			lim = 24
		}
		s := r.samples[key]
		take := -1
		tot := es.Paths
		if e.kind == "unsupported" {
			tot = es.Unsupported
		}
		if len(s) < lim {
			take = len(s)
			r.samples[key] = append(s, nil)
		} else if k := r.rng.Intn(tot); k < lim {
			take = k
		}
		r.mu.Unlock()
		if take >= 0 && !st.unsure {
			cd := c.mkCand(st, "sample", "", nil)
			if e.kind == "unsupported" {
				cd.Kind, cd.Msg = "unsupported", e.why
				cd.Obs = nil
			}
			r.mu.Lock()
			r.samples[key][take] = cd
			r.mu.Unlock()
		}
	}
}

func (r *Run) worker(id int, wg *sync.WaitGroup) {
	defer wg.Done()
	var c *Ctx
	flush := func() {
		if c == nil {
			return
		}
		r.mu.Lock()
		r.sstats.add(c.sol.stats)
		c.sol.stats = SolverStats{}
		c.addCover()
		for f := range c.funcs {
			r.funcs[f] = true
		}
		r.mu.Unlock()
	}
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 && !r.stopped() {
			r.cv.Wait()
		}
		if len(r.queue) == 0 || r.stopped() {
			r.mu.Unlock()
			break
		}
		t := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.mu.Unlock()
		if c == nil || c.tm.n > 3000000 {
			if c != nil {
				flush()
				c.sol.stop()
			}
			c = newCtx(r.l, r)
		}
		ok := r.runTask(c, t)
		if !ok {
			flush()
			c.sol.stop()
			c = nil
		} else {
			flush()
		}
		r.mu.Lock()
		r.active--
		r.mu.Unlock()
		r.cv.Broadcast()
	}
	if c != nil {
		flush()
		c.sol.stop()
	}
	r.cv.Broadcast()
}

func (r *Run) stopped() bool {
	return atomic.LoadInt32(&r.stop) != 0 || time.Now().After(r.deadline)
}

func (r *Run) runTask(c *Ctx, t *Task) (ok bool) {
	t0 := time.Now()
	c.task = t
	c.work = nil
	c.pure, c.initing = false, false
	c.deadline = r.deadline
	c.maxSteps = r.maxSteps
	f0, i0 := c.forks, c.insns
	defer func() {
		r.mu.Lock()
		es := r.es(t.entry)
		es.Forks += c.forks - f0
		es.Insns += c.insns - i0
		es.MS += time.Since(t0).Milliseconds()
		if len(c.work) > 0 || !ok {
			es.Unfinished++
		}
		r.mu.Unlock()
		if r.verbose {
			fmt.Fprintf(os.Stderr, "  task %s %.2fs forks %d insns %d\n", t.name(), time.Since(t0).Seconds(), c.forks-f0, c.insns-i0)
		}
	}()
	defer func() {
		if x := recover(); x != nil {
			r.mu.Lock()
			r.crashes++
			r.unsup[t.entry+": engine failure: "+fmt.Sprint(x)]++
			r.es(t.entry).Unsupported++
			r.mu.Unlock()
			if r.verbose {
				fmt.Fprintf(os.Stderr, "engine failure in %s: %v\n%s\n", t.name(), x, debug.Stack())
			}
			ok = false
		}
	}()
	fn := c.l.hpkg.Func(t.entry)
	if fn == nil {
		panic("no entry " + t.entry)
	}
	c.buildPkg(c.l.hpkg)
	st := c.newState()
	st.gors = []*Gor{{owner: st.token}}
	st.pushFrame(0, c.info(fn), nil, nil, -1)
	c.work = []*State{st}
	for len(c.work) > 0 {
		if r.stopped() {
			return true
		}
		s := c.work[len(c.work)-1]
		c.work = c.work[:len(c.work)-1]
		e := c.exec(s)
		c.pure = false
		r.pathEnded(c, s, e)
	}
	return true
}

// ---- native replay ----

func (r *Run) buildBin() {
	defer close(r.binDone)
	r.bin = filepath.Join(r.tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", filepath.Join(r.tmp, "overlay.json"), "-o", r.bin, "./zzv/replay")
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil { // perhaps the added yields do not compile
		cmd = exec.Command("go", "test", "-c", "-vet=off", "-overlay", filepath.Join(r.tmp, "plain.json"), "-o", r.bin, "./zzv/replay")
		cmd.Dir = r.repo
		cmd.Env = goEnv()
		out, err = cmd.CombinedOutput()
	}
	if err != nil {
		r.binErr = fmt.Errorf("%v: %s", err, out)
		return
	}
	r.asm = &asmCtx{bin: r.bin}
}

func (r *Run) waitBin() bool {
	<-r.binDone
	return r.binErr == nil
}

type nativeRes struct {
	ID       int
	Fails    []string
	Panic    string
	Obs      []struct{ N, V string }
	Diverged string
	Done     bool
	crash    string
	hang     bool
	started  bool
}

// replay runs records natively and returns the results by id.
func (r *Run) replay(cs []*Cand, tries int) map[int]*nativeRes {
	out := map[int]*nativeRes{}
	if !r.waitBin() {
		return out
	}
	type rec struct {
		ID    int
		Entry string
		Vals  []NV
		Tries int
		Tier  string
	}
	var recs []rec
	for _, c := range cs {
		n := 1
		if c.Sched {
			n = tries
		}
		recs = append(recs, rec{c.ID, c.Entry, c.Vals, n, r.tier})
	}
	f, err := os.CreateTemp(r.tmp, "rec")
	if err != nil {
		return out
	}
	js, _ := json.Marshal(recs)
	f.Write(js)
	f.Close()
	of := f.Name() + ".out"
	idx := map[int]int{}
	for i, c := range recs {
		idx[c.ID] = i
	}
	from := 0
	for from < len(recs) {
		os.Remove(of)
		cmd := exec.Command(r.bin, "-test.run=TestReplay", "-test.count=1", "-test.timeout=600s")
		cmd.Dir = r.tmp
		cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_OUT="+of, "VERIF_FROM="+strconv.Itoa(from), "GODEBUG=asynctimerchan=0", "GOTRACEBACK=all")
		var buf strings.Builder
		cmd.Stderr = &limWriter{w: &buf, n: 1 << 20}
		cmd.Stdout = cmd.Stderr
		cmd.Start()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(11 * time.Minute):
			cmd.Process.Kill()
			<-done
		}
		b, _ := os.ReadFile(of)
		last := -1
		ended := false
		for _, l := range strings.Split(string(b), "\n") {
			if len(l) == 0 {
				continue
			}
			switch l[0] {
			case 'S':
				last, _ = strconv.Atoi(l[2:])
				if out[last] == nil {
					out[last] = &nativeRes{ID: last, started: true}
				}
			case 'H':
				if n := out[last]; n != nil {
					n.hang = true
				}
			case 'R':
				var n nativeRes
				if json.Unmarshal([]byte(l[2:]), &n) == nil {
					n.started = true
					out[n.ID] = &n
				}
			case 'E':
				ended = true
			}
		}
		if ended || last < 0 {
			break
		}
		if n := out[last]; n != nil && !n.Done && !n.hang {
			n.crash = crashText(buf.String())
		}
		from = idx[last] + 1
	}
	os.Remove(of)
	return out
}

type limWriter struct {
	w *strings.Builder
	n int
}

func (l *limWriter) Write(b []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

func crashText(s string) string {
	for _, k := range []string{"panic: ", "fatal error: ", "deadlock"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 1500 {
				s = s[:1500]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return "process died: " + s
}

// failure text of a native run, "" when the run passed.
func (n *nativeRes) failure() string {
	switch {
	case n == nil || !n.started:
		return ""
	case len(n.Fails) > 0:
		return "assertion failed: " + n.Fails[0]
	case n.Panic != "":
		return "panic: " + n.Panic
	case n.hang:
		return "no progress (hang)"
	case n.crash != "":
		return n.crash
	}
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (r *Run) isKnown(c *Cand) *KnownFinding {
	for i := range r.kf {
		k := &r.kf[i]
		if k.Status != "known" || k.Property != r.prop {
			continue
		}
		if k.Entry == c.Entry && k.Msg == c.Msg {
			return k
		}
	}
	return nil
}

func (r *Run) judge(c *Cand, n *nativeRes) {
	f := n.failure()
	if n != nil && n.Diverged != "" && n.Panic == "" && !n.hang &&
		// stopping early leaves goroutines behind
		(n.crash == "" || strings.Contains(n.crash, "main bubble goroutine has exited")) && len(n.Fails) == 0 {
		f = ""
	}
	c.Native = f
	if n != nil && f == "" {
		c.Native = "passed"
		if n.Diverged != "" {
			c.Native = "diverged: " + n.Diverged
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if f == "" {
		r.unconf = append(r.unconf, c)
		return
	}
	// an assertion other than the predicted one may be the one that fails
	if len(n.Fails) > 0 && (c.Kind == "assert" || c.Kind == "sample" || c.Kind == "unsupported") {
		has := false
		for _, x := range n.Fails {
			if x == c.Msg {
				has = true
			}
		}
		if !has {
			c.Msg = n.Fails[0]
		}
	} else if c.Kind == "sample" || c.Kind == "unsupported" {
		c.Msg = firstLine(f)
	}
	if r.isKnown(c) != nil {
		r.known = append(r.known, c)
		return
	}
	r.confirmed = append(r.confirmed, c)
	atomic.StoreInt32(&r.stop, 1)
	r.cv.Broadcast()
}

func (r *Run) confirmer(done chan bool) {
	defer close(done)
	for {
		c, ok := <-r.confirmCh
		if !ok {
			return
		}
		batch := []*Cand{c}
	drain:
		for len(batch) < 40 {
			select {
			case x, ok := <-r.confirmCh:
				if !ok {
					break drain
				}
				batch = append(batch, x)
			default:
				break drain
			}
		}
		if len(r.confirmed) > 0 {
			continue
		}
		res := r.replay(batch, 300)
		for _, x := range batch {
			r.judge(x, res[x.ID])
		}
	}
}

func (r *Run) runAll() {
	r.cv = sync.NewCond(&r.mu)
	r.start = time.Now()
	for i := len(r.l.entries) - 1; i >= 0; i-- {
		e := r.l.entries[i]
		r.queue = append(r.queue, &Task{entry: e})
		r.es(e).Tasks++
	}
	r.confirmCh = make(chan *Cand, 100000)
	cdone := make(chan bool)
	go r.confirmer(cdone)
	var wg sync.WaitGroup
	for i := 0; i < r.workers; i++ {
		wg.Add(1)
		go r.worker(i, &wg)
	}
	// wake sleepers at the deadline
	tm := time.AfterFunc(time.Until(r.deadline)+time.Second, func() { r.cv.Broadcast() })
	wg.Wait()
	tm.Stop()
	close(r.confirmCh)
	<-cdone
	r.mu.Lock()
	for _, t := range r.queue {
		r.es(t.entry).Unfinished++
	}
	r.mu.Unlock()
}

// declared finds the labels passed to v.Reach in the harness.
func (r *Run) declaredReach() map[string][]string {
	return nil
}

var _ = ssa.BuilderMode(0)

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
