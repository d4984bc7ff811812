//go:build go1.27

// Package c99: library coverage self-test (development only).
package c99

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"net/netip"
	"net/textproto"
	"net/url"
	"slices"
	"maps"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"
	"regexp"
	"runtime"
	"text/template"
	"log"
	"container/list"

	"github.com/jart/gosip/zzv/v"
)

func str() string {
	n := v.Choose(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = v.Byte()
	}
	return string(b)
}
func asc() string {
	s := str()
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	return s
}

func H_Fprintf() {
	s := str()
	var b bytes.Buffer
	fmt.Fprintf(&b, "<%s|%d|%02x|%5d|%v|%q>", s, 42, 7, 12, true, "a")
	v.Assert(b.String() == "<"+s+"|42|07|   12|true|\"a\">", "fprintf")
	var sb strings.Builder
	fmt.Fprint(&sb, "x", s)
	fmt.Fprintln(&sb, "y", 3)
	v.Assert(sb.String() == "x"+s+"y 3\n", "fprint")
}
func H_Appendf() {
	x := v.Uint16()
	v.Assert(string(fmt.Appendf(nil, "%d", x)) == strconv.Itoa(int(x)), "appendf")
}
func H_FmtX() {
	x := v.Byte()
	const d = "0123456789abcdef"
	v.Assert(fmt.Sprintf("%02x", x) == string([]byte{d[x>>4], d[x&15]}), "02x")
	v.Assert(strconv.FormatUint(uint64(x)|0x100, 16) == "1"+string([]byte{d[x>>4], d[x&15]}), "fu")
}
func H_Split() {
	s := asc()
	p := strings.Split(s, ",")
	v.Assert(strings.Join(p, ",") == s, "split")
	for _, x := range p {
		v.Assert(strings.IndexByte(x, ',') < 0, "sep")
	}
}
func H_SplitN() {
	s := asc()
	p := strings.SplitN(s, ",", 2)
	v.Assert(strings.Join(p, ",") == s && len(p) <= 2, "splitn")
}
func H_Fields() {
	s := asc()
	for _, x := range strings.Fields(s) {
		v.Assert(len(x) > 0 && strings.IndexAny(x, " \t\r\n") < 0, "fields")
	}
}
func H_Cut() {
	s := str()
	a, b, ok := strings.Cut(s, "=")
	if ok {
		v.Assert(a+"="+b == s, "cut")
	} else {
		v.Assert(a == s && b == "", "nocut")
	}
	x, y, ok2 := bytes.Cut([]byte(s), []byte("="))
	v.Assert(ok == ok2 && string(x) == a && string(y) == b, "bcut")
}
func H_Trim() {
	s := asc()
	t := strings.Trim(s, " \t")
	v.Assert(len(t) <= len(s), "trim")
	v.Assert(len(strings.TrimRight(s, "\r\n")) <= len(s), "trim")
	v.Assert(len(strings.TrimLeft(s, "0")) <= len(s), "trim")
	v.Assert(strings.TrimPrefix("a="+s, "a=") == s, "tp")
	v.Assert(strings.TrimSuffix(s+"b", "b") == s, "ts")
	u, ok := strings.CutPrefix("a="+s, "a=")
	v.Assert(ok && u == s, "cp")
	v.Assert(len(bytes.TrimSpace([]byte(s))) <= len(s), "bts")
	v.Assert(len(strings.TrimFunc(s, unicode.IsSpace)) <= len(s), "tf")
}
func H_Replace() {
	s := asc()
	t := strings.Replace(s, "\r\n", "\n", -1)
	v.Assert(!strings.Contains(t, "\r\n") || strings.Contains(s, "\r\r"), "replace")
	v.Assert(strings.ReplaceAll(s, "a", "a") == s, "ra")
}
func H_Replacer() {
	s := asc()
	r := strings.NewReplacer("\"", "\\\"", "\\", "\\\\")
	v.Assert(len(r.Replace(s)) >= len(s), "nr")
}
func H_Map() {
	s := asc()
	t := strings.Map(func(r rune) rune { if r == 'a' { return 'b' }; return r }, s)
	v.Assert(strings.IndexByte(t, 'a') < 0, "map")
}
func H_Any() {
	s := asc()
	v.Assert(strings.ContainsAny(s, "ab") == (strings.IndexByte(s, 'a') >= 0 || strings.IndexByte(s, 'b') >= 0), "any")
	v.Assert(strings.ContainsRune(s, 'a') == (strings.IndexByte(s, 'a') >= 0), "rune")
	v.Assert(strings.IndexFunc(s, unicode.IsDigit) >= -1, "func")
	v.Assert(bytes.IndexAny([]byte(s), "ab") == strings.IndexAny(s, "ab"), "bany")
	v.Assert(strings.HasPrefix(s, "a") == (len(s) > 0 && s[0] == 'a'), "hp")
}
func H_Lines() {
	s := asc()
	sc := bufio.NewScanner(strings.NewReader(s))
	n := 0
	for sc.Scan() {
		n++
		v.Assert(strings.IndexByte(sc.Text(), '\n') < 0, "nl")
	}
	v.Assert(n <= 4, "n")
}
func H_Reader() {
	s := asc()
	r := bufio.NewReader(strings.NewReader(s))
	l, err := r.ReadString('\n')
	v.Assert(err != nil || l[len(l)-1] == '\n', "rs")
	br := bytes.NewReader([]byte(s))
	b, err := io.ReadAll(br)
	v.Assert(err == nil && string(b) == s, "all")
}
func H_BufWriter() {
	s := asc()
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.WriteString(s)
	w.WriteByte('x')
	w.Flush()
	v.Assert(b.String() == s+"x", "bw")
	_, err := io.WriteString(&b, "y")
	v.Assert(err == nil && b.String() == s+"xy", "iows")
	b.Truncate(len(s))
	v.Assert(b.String() == s, "trunc")
	io.Copy(&b, strings.NewReader("qq"))
	v.Assert(b.String() == s+"qq", "copy")
}
func H_Strconv() {
	s := asc()
	n, err := strconv.Atoi(s)
	if err == nil {
		v.Assert(n < 1000 && n > -100, "atoi")
	}
	u, err := strconv.ParseUint(s, 10, 8)
	if err == nil {
		v.Assert(u < 256, "pu")
	}
	h, err := strconv.ParseInt(s, 16, 64)
	if err == nil {
		v.Assert(h < 4096, "pi")
	}
	if _, err := strconv.ParseBool(s); err == nil {
		v.Reach("bool")
	}
}
func H_Quote() {
	s := asc()
	q := strconv.Quote(s)
	v.Assert(len(q) >= len(s)+2, "q")
	fmt.Sprintf("%q", s)
}
func H_Unquote() {
	s := asc()
	t, err := strconv.Unquote("\"" + s + "\"")
	if err == nil {
		v.Assert(len(t) <= len(s), "uq")
	}
}
func H_Binary() {
	x := v.Uint32()
	var b [8]byte
	binary.BigEndian.PutUint32(b[:], x)
	v.Assert(binary.BigEndian.Uint32(b[:]) == x, "be")
	c := binary.BigEndian.AppendUint16(nil, uint16(x))
	v.Assert(len(c) == 2 && c[1] == byte(x), "app")
	var buf bytes.Buffer
	v.Assert(binary.Write(&buf, binary.BigEndian, x) == nil, "w")
	v.Assert(buf.Len() == 4 && buf.Bytes()[3] == byte(x), "w2")
}
func H_Hex() {
	s := str()
	h := hex.EncodeToString([]byte(s))
	d, err := hex.DecodeString(h)
	v.Assert(err == nil && string(d) == s, "hex")
	v.Assert(fmt.Sprintf("%x", []byte(s)) == h, "%x")
}
func H_URL() {
	s := asc()
	t, err := url.PathUnescape(url.PathEscape(s))
	v.Assert(err == nil && t == s, "pe")
	t, err = url.QueryUnescape(url.QueryEscape(s))
	v.Assert(err == nil && t == s, "qe")
}
func H_Sort() {
	a := []int{int(v.Byte()), int(v.Byte()), int(v.Byte())}
	sort.Ints(a)
	v.Assert(a[0] <= a[1] && a[1] <= a[2], "ints")
	b := []string{asc(), "b", "a"}
	sort.Strings(b)
	v.Assert(b[0] <= b[1] && b[1] <= b[2], "strs")
	c := []int{int(v.Byte()), int(v.Byte()), int(v.Byte())}
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	v.Assert(c[0] <= c[1] && c[1] <= c[2], "slice")
	slices.Sort(c)
	slices.Reverse(c)
	v.Assert(c[0] >= c[1], "rev")
	v.Assert(slices.Contains(c, c[1]), "contains")
	v.Assert(slices.Index(c, c[0]) == 0, "index")
	d := slices.Clone(c)
	v.Assert(slices.Equal(c, d), "eq")
	slices.SortFunc(d, func(x, y int) int { return x - y })
}
func H_Maps() {
	m := map[string]int{"a": 1, "b": 2, asc(): 3}
	k := slices.Sorted(maps.Keys(m))
	v.Assert(len(k) == len(m), "keys")
	for i := range k {
		v.Assert(m[k[i]] > 0, "m")
	}
	delete(m, "a")
	_, ok := m["a"]
	v.Assert(!ok, "del")
	clear(m)
	v.Assert(len(m) == 0, "clear")
}
func H_MinMax() {
	a, b := v.Int16(), v.Int16()
	v.Assert(min(a, b) <= max(a, b), "mm")
	v.Assert(bits.Len16(uint16(a)) <= 16, "len")
	v.Assert(bits.OnesCount8(uint8(a)) <= 8, "oc")
	v.Assert(bits.LeadingZeros32(uint32(b)) <= 32, "lz")
	v.Assert(bits.TrailingZeros16(uint16(b)) <= 16, "tz")
	v.Assert(bits.ReverseBytes16(bits.ReverseBytes16(uint16(a))) == uint16(a), "rb")
	v.Assert(math.MaxInt16 >= a, "c")
	for i := range 3 {
		v.Assert(i < 3, "range int")
	}
}
func H_Once() {
	var o sync.Once
	n := 0
	o.Do(func() { n++ })
	o.Do(func() { n++ })
	v.Assert(n == 1, "once")
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	v.Assert(n == 2, "oncefunc")
	g := sync.OnceValue(func() int { n++; return n })
	v.Assert(g()+g() == 6, "ov")
}
func H_Pool() {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	v.Assert(b.String() == "x", "pool")
}
func H_Mutex() {
	v.Interleave(true)
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 0
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			x := n
			runtime.Gosched()
			n = x + 1
			mu.Unlock()
		}()
	}
	wg.Wait()
	v.Assert(n == 2, "mutex")
	var rw sync.RWMutex
	rw.RLock()
	rw.RLock()
	rw.RUnlock()
	rw.RUnlock()
	rw.Lock()
	defer rw.Unlock()
	wg.Go(func() { n++ })
	wg.Wait()
	v.Assert(n == 3, "go")
}
func H_Atomic() {
	var a atomic.Int32
	a.Store(3)
	a.Add(2)
	v.Assert(a.Load() == 5 && a.CompareAndSwap(5, 6), "ai")
	var b atomic.Bool
	b.Store(true)
	v.Assert(b.Load() && b.Swap(false) && !b.Load(), "ab")
	var p atomic.Pointer[int]
	x := 3
	p.Store(&x)
	v.Assert(*p.Load() == 3, "ap")
	var u atomic.Uint64
	u.Add(7)
	v.Assert(u.Load() == 7 && u.Swap(1) == 7, "au")
	var val atomic.Value
	val.Store("x")
	v.Assert(val.Load().(string) == "x", "av")
	v.Assert(a.And(2) == 6, "and")
}
func H_SyncMap() {
	var m sync.Map
	m.Store("a", 1)
	x, ok := m.Load("a")
	v.Assert(ok && x.(int) == 1, "sm")
	_, l := m.LoadOrStore("a", 2)
	v.Assert(l, "los")
	m.Delete("a")
	_, ok = m.Load("a")
	v.Assert(!ok, "smd")
	m.Store("q", 2)
	n := 0
	m.Range(func(k, v any) bool { n++; return true })
	v.Assert(n == 1, "rng")
}
func H_Timer() {
	n := 0
	t := time.AfterFunc(time.Second, func() { n++ })
	time.Sleep(2 * time.Second)
	v.Assert(n == 1, "af")
	_ = t
	t2 := time.AfterFunc(time.Second, func() { n++ })
	v.Assert(t2.Stop(), "stop")
	time.Sleep(2 * time.Second)
	v.Assert(n == 1, "af2")
	tk := time.NewTicker(time.Second)
	<-tk.C
	<-tk.C
	tk.Stop()
	tm := time.NewTimer(time.Second)
	<-tm.C
	tm.Reset(time.Second)
	<-tm.C
	select {
	case <-time.After(time.Second):
		n++
	}
	v.Assert(n == 2, "n")
	s := time.Now()
	time.Sleep(time.Second)
	v.Assert(time.Since(s) == time.Second, "since")
	v.Assert(time.Now().Sub(s) == time.Second, "sub")
	v.Assert(time.Until(s.Add(2*time.Second)) == time.Second, "until")
	v.Assert(s.Before(time.Now()) && time.Now().After(s), "ba")
	v.Assert(s.Unix() > 0 && s.UnixNano() > 0, "unix")
	v.Assert(time.Duration(1500*time.Millisecond).Seconds() == 1.5, "sec")
	var z time.Time
	v.Assert(z.IsZero() && !s.IsZero(), "zero")
}
func H_Context() {
	ctx, cancel := context.WithCancel(context.Background())
	go func() { cancel() }()
	<-ctx.Done()
	v.Assert(ctx.Err() == context.Canceled, "cancel")
	ctx, cancel = context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	<-ctx.Done()
	v.Assert(ctx.Err() == context.DeadlineExceeded, "to")
}

type myErr struct{ x int }

func (e *myErr) Error() string { return "my" }
func H_Errors() {
	var e error = &myErr{3}
	w := fmt.Errorf("w: %w", e)
	v.Assert(w.Error() == "w: my", "text")
	v.Assert(errors.Is(w, e), "is")
	var m *myErr
	v.Assert(errors.As(w, &m) && m.x == 3, "as")
	j := errors.Join(e, nil)
	v.Assert(errors.Is(j, e), "join")
	v.Assert(errors.Unwrap(w) == e, "unwrap")
}
func H_Unicode() {
	s := str()
	v.Assert(utf8.ValidString(s) == utf8.Valid([]byte(s)), "valid")
	n := 0
	for range s {
		n++
	}
	v.Assert(n == utf8.RuneCountInString(s) && n == len([]rune(s)), "rc")
	for _, r := range s {
		unicode.IsLetter(r)
		unicode.ToLower(r)
		unicode.IsPrint(r)
	}
}
func H_Compare() {
	a, b := asc(), asc()
	v.Assert((strings.Compare(a, b) == 0) == (a == b), "cmp")
	v.Assert(bytes.Compare([]byte(a), []byte(b)) == strings.Compare(a, b), "bcmp")
	v.Assert(strings.EqualFold(a, a), "ef")
	v.Assert(strings.ToLower(strings.ToUpper(a)) == strings.ToLower(a), "ul")
	v.Assert(strings.Repeat(a, 2) == a+a, "rep")
	v.Assert(strings.Title("ab") == "Ab", "title")
	v.Assert(strings.Count(a, "x") <= len(a), "count")
	v.Assert(strings.LastIndex(a, "x") >= strings.Index(a, "x"), "li")
}
func H_Bytes() {
	s := asc()
	b := []byte(s)
	v.Assert(bytes.HasPrefix(append(b, 'x'), b), "hp")
	v.Assert(len(bytes.Split(b, []byte(","))) == strings.Count(s, ",")+1, "split")
	v.Assert(string(bytes.Join([][]byte{b, b}, []byte("-"))) == s+"-"+s, "join")
	v.Assert(bytes.Equal(bytes.ToUpper(b), []byte(strings.ToUpper(s))), "up")
	v.Assert(string(bytes.Repeat(b, 2)) == s+s, "rep")
	v.Assert(string(bytes.Clone(b)) == s, "clone")
	v.Assert(len(bytes.Fields(b)) == len(strings.Fields(s)), "fields")
	v.Assert(bytes.EqualFold(b, b), "ef")
	v.Assert(bytes.ContainsAny(b, "ab") == strings.ContainsAny(s, "ab"), "ca")
	v.Assert(bytes.LastIndexByte(b, 'a') == strings.LastIndexByte(s, 'a'), "lib")
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteRune('é')
	buf.Grow(10)
	v.Assert(buf.Len() == len(b)+2, "len")
	c, err := buf.ReadByte()
	v.Assert(err == nil && (len(b) == 0 || c == b[0]), "rb")
	buf.UnreadByte()
	buf.Next(1)
	buf.ReadFrom(strings.NewReader("abc"))
	l, err := buf.ReadBytes('c')
	v.Assert(err == nil && l[len(l)-1] == 'c', "rbs")
	buf.Reset()
}
func H_Sscanf() {
	var a, b int
	n, err := fmt.Sscanf("12 34", "%d %d", &a, &b)
	v.Assert(err == nil && n == 2 && a == 12 && b == 34, "sscanf")
}
func H_Netip() {
	a, err := netip.ParseAddr("1.2.3.4")
	v.Assert(err == nil && a.Is4() && a.String() == "1.2.3.4", "ip")
	ap := netip.AddrPortFrom(a, v.Uint16())
	v.Assert(ap.Addr() == a, "ap")
}
func H_Textproto() {
	v.Assert(textproto.CanonicalMIMEHeaderKey("call-id") == "Call-Id", "ck")
}
func H_List() {
	l := list.New()
	l.PushBack(1)
	l.PushFront(2)
	v.Assert(l.Len() == 2 && l.Front().Value.(int) == 2, "list")
}
func H_Regexp() {
	re := regexp.MustCompile(`^a+$`)
	v.Assert(re.MatchString("aaa"), "re")
	s := asc()
	re.MatchString(s)
}
func H_Template() {
	t := template.Must(template.New("x").Parse("{{.}}"))
	var b bytes.Buffer
	v.Assert(t.Execute(&b, "y") == nil && b.String() == "y", "t")
}
func H_Log() {
	log.Printf("x %d", 3)
	log.Println("x")
	l := log.New(io.Discard, "p", 0)
	l.Println("q")
	w := tabwriter.NewWriter(io.Discard, 0, 8, 1, ' ', 0)
	fmt.Fprintf(w, "a\tb\n")
	w.Flush()
}
func H_Iter() {
	s := asc()
	n := 0
	for x := range strings.SplitSeq(s, ",") {
		n += len(x)
	}
	v.Assert(n+strings.Count(s, ",") == len(s), "seq")
	for i, x := range slices.All([]int{1, 2}) {
		v.Assert(x == i+1, "all")
	}
}
func gsum[T int | float64](x ...T) (s T) {
	for _, y := range x {
		s += y
	}
	return
}
func H_Generic() {
	v.Assert(gsum(1, 2) == 3 && gsum(1.5, 1) == 2.5, "g")
}
func H_Goto() {
	x := v.Byte()
	switch {
	case x < 10:
		fallthrough
	case x < 20:
		v.Assert(x < 20, "ft")
	default:
		goto out
	}
	return
out:
	v.Assert(x >= 20, "goto")
}
func H_Defer() {
	n := func() (r int) {
		defer func() {
			if e := recover(); e != nil {
				r = 7
			}
		}()
		var a []int
		_ = a[len(asc())]
		return 1
	}()
	v.Assert(n == 7, "rec")
}
func H_Arr() {
	a := [4]byte{1, 2, 3, 4}
	i := v.Byte()
	v.Assume(i < 4)
	a[i] = 9
	b := a
	v.Assert(b == a && b[i] == 9, "arr")
	s := a[:]
	t := [4]byte(s)
	v.Assert(t == a, "conv")
	type k struct{ a, b string }
	m := map[k]int{{"a", "b"}: 1}
	v.Assert(m[k{"a", "b"}] == 1, "mk")
	var f any = k{"a", "b"}
	v.Assert(f == any(k{"a", "b"}), "ifeq")
	c := copy(s, "zz")
	v.Assert(c == 2 && a[0] == 'z', "copy")
}
func H_Fmt() {
	n := v.Int16()
	v.Obs("f", fmt.Sprintf("[%5d|%-5d|%05d|%+d|%x|%X|%08x]", n, n, n, n, uint16(n), uint16(n), uint16(n)))
	s := str()
	v.Obs("s", fmt.Sprintf("[%s|%v|%5s|%-5s|%.2s|%t|%c|%%|%x]", s, s, s, s, "abc", true, 'a', s))
	v.Obs("p", fmt.Sprint("a", 1, 2, "b", true))
	var e error
	v.Obs("e", fmt.Sprintf("%v %v %d %s", e, errors.New("q"), []int{1}[0], []byte(s)))
}
