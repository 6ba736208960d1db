package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// B is a byte string that survives JSON exactly: nil and empty stay different.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	if b == nil {
		return []byte("null"), nil
	}
	return json.Marshal(hex.EncodeToString(b))
}
func (b *B) UnmarshalJSON(d []byte) error {
	if string(d) == "null" {
		*b = nil
		return nil
	}
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*b = append(B{}, v...)
	return err
}

// Ctx is handed to every check of one case.
type Ctx struct {
	nt     bool
	labels []string
}

// NT marks the case non-trivial (by the facet's stated rule).
func (x *Ctx) NT() { x.nt = true }

// Label counts a class of cases in the evidence.
func (x *Ctx) Label(s string) { x.labels = append(x.labels, s) }

type Result struct {
	Facet      string
	Evals      int
	NonTriv    int
	Hashes     []uint64 // of the distinct non-trivial cases
	Labels     map[string]int
	Samples    []json.RawMessage
	Violation  *Violation
	OutOfTime  bool
	WallS      float64
	Incomplete string
}

type Violation struct {
	Prop   string          `json:"property"`
	Facet  string          `json:"facet"`
	Error  string          `json:"error"`
	Case   json.RawMessage `json:"case"`
	Seed   uint64          `json:"seed"`
	Shrunk bool            `json:"shrunk"`
	Build  string          `json:"build,omitempty"`
}

type facet struct {
	prop, name, rule string
	quick, thorough  int
	run              func(f *facet, n int, seed uint64, budget time.Duration, trace string) *Result
	replay           func(raw json.RawMessage) error
}

var facets []*facet

func byProp(p string) (o []*facet) {
	for _, f := range facets {
		if f.prop == p {
			o = append(o, f)
		}
	}
	return
}

// F registers a facet: a generator of JSON-serialisable cases and a check that
// judges one case. Both must depend only on the drawn case.
func F[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, x *Ctx) error) spec[C] {
	register(prop, name, rule, quick, thorough, gen, check)
	return spec[C]{prop, name, gen, check}
}

func register[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, x *Ctx) error) {
	f := &facet{prop: prop, name: name, rule: rule, quick: quick, thorough: thorough}
	f.run = func(f *facet, n int, seed uint64, budget time.Duration, trace string) *Result {
		return runFacet(f, n, seed, budget, trace, gen, check)
	}
	f.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("cannot decode case: %v", err)
		}
		return safeCheck(check, c, &Ctx{}, raw)
	}
	facets = append(facets, f)
}

// ---- deterministic random source -------------------------------------------

type stream struct {
	mu   sync.Mutex
	key  [32]byte
	ctr  uint64
	buf  []byte
	pre  []byte // bytes served first
	reps int
}

func (s *stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(p)
	for len(p) > 0 {
		if len(s.pre) > 0 {
			k := copy(p, s.pre)
			s.pre = s.pre[k:]
			p = p[k:]
			continue
		}
		if len(s.buf) == 0 {
			var b [40]byte
			copy(b[:], s.key[:])
			binary.LittleEndian.PutUint64(b[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(b[:])
			s.buf = h[:]
		}
		k := copy(p, s.buf)
		s.buf = s.buf[k:]
		p = p[k:]
	}
	return n, nil
}

func newStream(key []byte, pre []byte) *stream {
	return &stream{key: sha256.Sum256(key), pre: append([]byte{}, pre...)}
}

// setRand makes the process-wide random source start with pre and continue
// with a uniform stream derived from key.
func setRand(key, pre []byte) { rand.Reader = newStream(key, pre) }

// expand gives n uniform-looking bytes for a seed.
func expand(seed uint64, n int) []byte {
	var k [8]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	o := make([]byte, n)
	newStream(k[:], nil).Read(o)
	return o
}

// ---- one case ---------------------------------------------------------------

func safeCheck[C any](check func(C, *Ctx) error, c C, x *Ctx, raw []byte) (err error) {
	setRand(raw, nil)
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/repo/") && len(keep) < 3 {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if keep == nil {
				keep = []string{st[:min(len(st), 800)]}
			}
			err = fmt.Errorf("panic: %v [%s]", r, strings.Join(keep, " <- "))
		}
	}()
	return check(c, x)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

type ftb struct {
	failed  bool
	skipped bool
	logs    []string
	name    string
}

func (t *ftb) Helper()                   {}
func (t *ftb) Name() string              { return t.name }
func (t *ftb) Logf(f string, a ...any)   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *ftb) Log(a ...any)              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *ftb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *ftb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *ftb) SkipNow()                  { t.skipped = true; runtime.Goexit() }
func (t *ftb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *ftb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *ftb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *ftb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *ftb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *ftb) Fail()                     { t.failed = true }
func (t *ftb) Failed() bool              { return t.failed }

const caseCPULimit = 90.0 // CPU seconds one case may burn before it counts as a hang

// caseIndex is the number of the case being generated, over all shards: facets
// that go through a list take their entry by it. It stands still while a
// failure is shrunk, so that generators stay functions of what they draw.
var caseIndex int

func runFacet[C any](f *facet, n int, seed uint64, budget time.Duration, trace string, gen func(*rapid.T) C, check func(C, *Ctx) error) *Result {
	res := &Result{Facet: f.prop + "/" + f.name, Labels: map[string]int{}}
	start := time.Now()
	seen := map[uint64]bool{}
	var (
		mu       sync.Mutex
		curRaw   []byte
		curCPU   float64
		active   int32
		failing  bool
		fails    int
		lastRaw  []byte
		lastErr  error
		shrinkAt time.Time
	)
	// watchdog: a single case that burns far more CPU than any case needs
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if atomic.LoadInt32(&active) == 0 {
				continue
			}
			mu.Lock()
			raw, c0 := curRaw, curCPU
			mu.Unlock()
			if raw != nil && cpuSeconds()-c0 > caseCPULimit {
				mu.Lock()
				v := &Violation{Prop: f.prop, Facet: f.name, Case: raw, Seed: seed, Error: fmt.Sprintf("no result after %.0f CPU seconds (hang)", caseCPULimit)}
				if failing {
					v = &Violation{Prop: f.prop, Facet: f.name, Case: lastRaw, Seed: seed, Error: lastErr.Error()}
				}
				res.Violation = v
				res.WallS = time.Since(start).Seconds()
				emitResult(res)
				os.Exit(0)
			}
		}
	}()
	prop := func(t *rapid.T) {
		if !failing && time.Since(start) > budget {
			res.OutOfTime = true
			return
		}
		if failing && time.Since(shrinkAt) > 40*time.Second {
			return // stop shrinking: later candidates count as passing
		}
		c := gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		// the check sees what a replay would see
		var c2 C
		if err := json.Unmarshal(raw, &c2); err != nil {
			panic(fmt.Sprintf("case does not round-trip: %v", err))
		}
		if trace != "" {
			os.WriteFile(trace, raw, 0o644)
		}
		x := &Ctx{}
		mu.Lock()
		curRaw, curCPU = raw, cpuSeconds()
		mu.Unlock()
		atomic.StoreInt32(&active, 1)
		err = safeCheck(check, c2, x, raw)
		atomic.StoreInt32(&active, 0)
		if !failing && err == nil {
			caseIndex++
		}
		if !failing {
			res.Evals++
			for _, l := range x.labels {
				res.Labels[l]++
			}
			if x.nt {
				h := sha256.Sum256(raw)
				k := binary.LittleEndian.Uint64(h[:])
				if !seen[k] {
					seen[k] = true
					res.NonTriv++
					if len(res.Samples) < 2 && len(raw) < 1500 {
						res.Samples = append(res.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			mu.Lock()
			if !failing {
				failing = true
				shrinkAt = time.Now()
			}
			fails++
			lastRaw, lastErr = raw, err
			mu.Unlock()
			t.Fatalf("property violated")
		}
	}
	tb := &ftb{name: f.prop + "_" + f.name}
	done := make(chan struct{})
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	if failing {
		res.Violation = &Violation{Prop: f.prop, Facet: f.name, Case: lastRaw, Seed: seed, Error: lastErr.Error(), Shrunk: fails > 1}
	} else if tb.failed || tb.skipped {
		res.Incomplete = strings.Join(tb.logs, "\n")
	}
	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

func emitResult(r *Result) {
	b, _ := json.Marshal(r)
	if p := os.Getenv("VERIF_RESULT"); p != "" {
		os.WriteFile(p+".tmp", b, 0o644)
		os.Rename(p+".tmp", p)
		return
	}
	r.Hashes = nil
	b, _ = json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
}

func initRapid() {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "RAPID_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
}

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
