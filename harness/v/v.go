// Package v is the interface between a property harness and the checker.
//
// Under the symbolic engine every function marked (engine) is interpreted by
// the engine itself; the bodies below are the native meaning, used when a
// counterexample or a sampled path is replayed against the compiled code.
package v

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Val struct {
	K string
	V uint64
}

type Record struct {
	ID    int
	Entry string
	Vals  []Val
	Tries int
	Tier  string
}

type ObsVal struct {
	N string
	V string
}

type Result struct {
	ID       int
	Fails    []string
	Panic    string
	Obs      []ObsVal
	Diverged string
	Done     bool
}

type stopSig struct{}

type state struct {
	mu    sync.Mutex
	rec   *Record
	pos   int
	res   *Result
	start uint64
}

var cur *state
var settle func()

func next(k string) uint64 {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	if cur.pos >= len(cur.rec.Vals) {
		if cur.res.Diverged == "" {
			cur.res.Diverged = "more inputs requested than recorded: " + k
		}
		return 0
	}
	x := cur.rec.Vals[cur.pos]
	cur.pos++
	if x.K != k && cur.res.Diverged == "" {
		cur.res.Diverged = "input kind " + k + " requested, recorded " + x.K
	}
	return x.V
}

// Arbitrary values (engine).
func Byte() byte       { return byte(next("Byte")) }
func Int8() int8       { return int8(next("Int8")) }
func Bool() bool       { return next("Bool") != 0 }
func Uint16() uint16   { return uint16(next("Uint16")) }
func Int16() int16     { return int16(next("Int16")) }
func Uint32() uint32   { return uint32(next("Uint32")) }
func Int32() int32     { return int32(next("Int32")) }
func Uint64() uint64   { return next("Uint64") }
func Int64() int64     { return int64(next("Int64")) }
func Int() int         { return int(next("Int")) }
func Float64() float64 { return math.Float64frombits(next("Float64")) }

// Assume restricts the explored inputs (engine).
func Assume(c bool) {
	if !c {
		cur.mu.Lock()
		if cur.res.Diverged == "" {
			cur.res.Diverged = "assumption failed"
		}
		cur.mu.Unlock()
		panic(stopSig{})
	}
}

// Assert states the property (engine).
func Assert(c bool, msg string) {
	if !c {
		cur.mu.Lock()
		cur.res.Fails = append(cur.res.Fails, msg)
		cur.mu.Unlock()
	}
}

// Skip abandons the path (engine).
func Skip() { panic(stopSig{}) }

// Reach marks a point that must be reachable (engine).
func Reach(label string) {}

// Bound and Assumption record what the check leaves out (engine).
func Bound(s string)      {}
func Assumption(s string) {}

// Thorough reports the tier (engine).
func Thorough() bool { return cur.rec.Tier == "thorough" }

// Symbolic is true under the engine (engine).
func Symbolic() bool { return false }

// Obs records an observation compared between engine and compiled code (engine).
func Obs(name, val string) {
	cur.mu.Lock()
	cur.res.Obs = append(cur.res.Obs, ObsVal{name, hex.EncodeToString([]byte(val))})
	cur.mu.Unlock()
}

// ObsInt records an integer observation (engine).
func ObsInt(name string, val int) {
	cur.mu.Lock()
	cur.res.Obs = append(cur.res.Obs, ObsVal{name, strconv.Itoa(val)})
	cur.mu.Unlock()
}

// Interleave switches exploration of goroutine interleavings (engine).
func Interleave(on bool) { yielding.Store(on && cur.rec.Tries > 1) }

var yielding atomic.Bool

// Preemptions limits how often a goroutine that could go on is made to wait
// while interleavings are explored (engine).
func Preemptions(n int) {}

// Yield is a point where another goroutine may run; the replay of a schedule
// puts one before every communication of the code under test (engine).
func Yield() {
	if !yielding.Load() {
		return
	}
	switch rand.IntN(5) {
	case 0, 1:
	case 2:
		runtime.Gosched()
	default:
		// In the bubble everyone else runs until blocked, or asleep for less.
		time.Sleep(time.Duration(1 + rand.IntN(3)))
	}
}

// AbstractRem makes the engine replace remainders of non-negative values by
// their range (engine).
func AbstractRem(on bool) {}

// Settle waits until every other goroutine is blocked (engine).
func Settle() {
	settle()
	if yielding.Load() {
		time.Sleep(time.Microsecond) // longer than all the delays of Yield
		settle()
	}
}

// Goroutines is the number of goroutines that have not ended; only differences
// mean something (engine).
func Goroutines() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		runtime.Gosched()
		if m := runtime.NumGoroutine(); m < n {
			n = m
		}
	}
	return n
}

// Case splits the exploration into n independent tasks (engine).
func Case(n int) int { return int(next("Case")) }

// Choose forks the exploration n ways (engine).
func Choose(n int) int { return int(next("Choose")) }

// Concrete forks over the values of an integer (engine).
func Concrete(x int) int       { return x }
func ConcreteByte(x byte) byte { return x }

// Connectives that evaluate both sides without forking (engine).
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// SameMem reports whether two slices share a backing array (engine).
func SameMem(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	return &a[len(a)-1] == &b[len(b)-1]
}

// ---- helpers executed by the engine like any other code ----

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Str returns an arbitrary string of n bytes.
func Str(n int) string { return string(Bytes(n)) }

// StrUpTo returns an arbitrary string of at most n bytes, forking on length.
func StrUpTo(n int) string { return Str(Choose(n + 1)) }

// InRange returns an arbitrary integer in lo..hi.
func InRange(lo, hi int) int {
	x := Int()
	Assume(And(x >= lo, x <= hi))
	return x
}

// ---- native replay ----

func runOne(f func(), rec *Record, bubble func(func())) *Result {
	res := &Result{ID: rec.ID}
	cur = &state{rec: rec, res: res}
	yielding.Store(false)
	st := cur
	bubble(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopSig); !ok {
					st.mu.Lock()
					buf := make([]byte, 4096)
					res.Panic = fmt.Sprint(r) + "\n" + string(buf[:runtime.Stack(buf, false)])
					st.mu.Unlock()
				}
			}
			res.Done = true
			report(res, rec)
		}()
		f()
	})
	return res
}

var outFile *os.File
var outMu sync.Mutex
var reported map[int]bool

func report(res *Result, rec *Record) {
	outMu.Lock()
	defer outMu.Unlock()
	if rec.Tries > 1 && len(res.Fails) == 0 && res.Panic == "" {
		return
	}
	if reported[rec.ID] {
		return
	}
	reported[rec.ID] = true
	js, _ := json.Marshal(res)
	fmt.Fprintf(outFile, "R %s\n", js)
}

// RunAll replays the records of $VERIF_REPLAY.
func RunAll(entries map[string]func(), bubble func(func()), wait func()) {
	settle = wait
	reported = map[int]bool{}
	p := os.Getenv("VERIF_REPLAY")
	if p == "" {
		return
	}
	var recs []Record
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &recs); err != nil {
		panic(err)
	}
	outFile, err = os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	from, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
	limit := 20 * time.Second
	if s := os.Getenv("VERIF_HANG"); s != "" {
		limit, _ = time.ParseDuration(s)
	}
	for i := from; i < len(recs); i++ {
		rec := &recs[i]
		f := entries[rec.Entry]
		if f == nil {
			continue
		}
		outMu.Lock()
		fmt.Fprintf(outFile, "S %d\n", rec.ID)
		outMu.Unlock()
		done := make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(limit):
				outMu.Lock()
				fmt.Fprintf(outFile, "H %d\n", rec.ID)
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}()
		n := rec.Tries
		if n < 1 {
			n = 1
		}
		for k := 0; k < n; k++ {
			if k == n-1 {
				rec.Tries = 1
			}
			res := runOne(f, rec, bubble)
			if len(res.Fails) > 0 || res.Panic != "" || strings.HasPrefix(res.Diverged, "more") {
				break
			}
		}
		rec.Tries = 1
		if !reported[rec.ID] {
			report(&Result{ID: rec.ID, Done: true}, rec)
		}
		close(done)
	}
	outMu.Lock()
	fmt.Fprintf(outFile, "E\n")
	outMu.Unlock()
}

// SliceLen, SliceSwap and AsTarget serve the library models and exist in the
// engine only.
func SliceLen(x interface{}) int                  { panic("engine only") }
func SliceSwap(x interface{}, i, j int)           { panic("engine only") }
func AsTarget(err error, target interface{}) bool { panic("engine only") }
func ReplacerPairs(r *strings.Replacer) []string  { panic("engine only") }
