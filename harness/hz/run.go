package hz

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Ctx is what the run of one case reports about itself.
type Ctx struct {
	classes    map[string]int
	nontrivial bool
	replaying  bool
	counting   bool
}

func (c *Ctx) class(name string) {
	if c.counting {
		c.classes[name]++
	}
}

func (c *Ctx) classIf(b bool, name string) {
	if b {
		c.class(name)
	}
}

// Sub is one generated check of a property.
type Sub struct {
	Name  string
	Quick int // cases per worker in the quick tier
	Deep  int // cases per worker in the thorough tier
	Gen   func(t *rapid.T) any
	New   func() any
	Run   func(c any, x *Ctx) error
	// Batch is the number of cases per rapid run, 0 for the default.
	Batch int
}

// Prop is a property of properties.jsonl with the checks which decide it.
type Prop struct {
	ID      string
	Rule    string // how cases are made, what is non-trivial
	Subs    []Sub
	Race    bool // build with the race detector (and checkptr)
	Env     []string
	Workers int
	Assume  []string
	// Variants name the builds of the harness which the workers take turns to
	// use, none is the harness itself.
	Variants []string
}

var props = map[string]*Prop{}

func addProp(p *Prop) { props[p.ID] = p }

func sub[T any](name string, quick, deep int, gen func(t *rapid.T) T, run func(c T, x *Ctx) error) Sub {
	return Sub{Name: name, Quick: quick, Deep: deep,
		Gen: func(t *rapid.T) any { return gen(t) },
		New: func() any { return new(T) },
		Run: func(c any, x *Ctx) error {
			if p, ok := c.(*T); ok {
				return run(*p, x)
			}
			return run(c.(T), x)
		}}
}

// Replay is a self-contained failing case.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	// Where the case failed, if it does not fail alone: then its failure
	// needs the cases which the worker ran before it.
	Worker *WorkerArgs `json:"worker,omitempty"`
	// The build of the harness which it fails in.
	Variant string `json:"variant,omitempty"`
}

// WorkerArgs are the arguments of a worker.
type WorkerArgs struct {
	Tier   string  `json:"tier"`
	Seed   uint64  `json:"seed"`
	Shard  int     `json:"shard"`
	Shards int     `json:"shards"`
	Only   string  `json:"only,omitempty"`
	Scale  float64 `json:"scale"`
}

// Report is what a worker tells its parent.
type Report struct {
	Evaluations int
	Classes     map[string]int
	Hashes      []uint64 // of distinct non-trivial cases
	Samples     []json.RawMessage
	Fail        *Replay
	PerSub      map[string]int
	Deadline    bool
}

// tb lets rapid run outside of go test.
type tb struct {
	failed bool
	msg    strings.Builder
}

func (t *tb) Helper()              {}
func (t *tb) Name() string         { return "check" }
func (t *tb) Logf(string, ...any)  {}
func (t *tb) Log(...any)           {}
func (t *tb) Skipf(string, ...any) { runtime.Goexit() }
func (t *tb) Skip(...any)          { runtime.Goexit() }
func (t *tb) SkipNow()             { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	fmt.Fprintf(&t.msg, f+"\n", a...)
}
func (t *tb) Error(a ...any)            { t.failed = true; fmt.Fprintln(&t.msg, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func seedOf(seed uint64, parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed, parts)
	s := splitmix(h.Sum64())
	if s == 0 {
		s = 1
	}
	return s
}

// runCase runs one case, panics are errors.
func runCase(s *Sub, c any, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessError); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.Run(c, x)
}

// harnessError is a failure of the machinery, not of the code under test.
type harnessError struct{ err error }

func (h harnessError) Error() string { return h.err.Error() }

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "RomiChan") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Journal keeps the current case on disk, for the parent to find after a crash.
type journal struct {
	f *os.File
}

func (j *journal) write(sub string, c []byte) {
	if j == nil || j.f == nil {
		return
	}
	b, _ := json.Marshal(&Replay{Sub: sub, Case: c})
	b = append([]byte("R"), b...)
	j.f.WriteAt(b, 0)
	j.f.Truncate(int64(len(b)))
}

// done says that the case is over.
func (j *journal) done() {
	if j != nil && j.f != nil {
		j.f.WriteAt([]byte("D"), 0)
	}
}

// watchdog state: when the current case started (in CPU time), and the heap
// then.
var (
	caseNo   atomic.Int64
	caseCPU  atomic.Int64
	caseHeap atomic.Int64
	inCase   atomic.Bool
	waiting  atomic.Bool  // for a child process
	caseMem  atomic.Int64 // memory which the case may use beyond memExcess
)

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Exit codes of a worker.
const (
	ExitFail    = 10 // a case failed, see the report
	ExitHang    = 11
	ExitMemory  = 12
	ExitHarness = 13
)

const (
	hangCPU   = 40 * time.Second
	memExcess = 3 << 30
)

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func watchdog() {
	last, lastCPU, lastRSS := int64(-1), int64(0), int64(0)
	idleSince, idleCPU := time.Now(), int64(0)
	var looked time.Time
	for {
		time.Sleep(50 * time.Millisecond)
		n := caseNo.Load()
		if n != last || !inCase.Load() || waiting.Load() {
			last, lastCPU, lastRSS = n, cpuNow(), rss()
			idleSince, idleCPU = time.Now(), lastCPU
			continue
		}
		// a deadlock: no progress in CPU time (the watchdog itself uses some)
		if c := cpuNow(); c-idleCPU > int64(300*time.Millisecond) {
			idleSince, idleCPU = time.Now(), c
		} else if d := time.Since(idleSince); d > 4*time.Second && time.Since(looked) > 3*time.Second {
			blocked := allBlocked()
			if looked = time.Now(); !blocked && d < 40*time.Second {
				continue // looking takes time itself, hence not too often
			}
			fmt.Fprintln(os.Stderr, "one case waits for ever")
			os.Exit(ExitHang)
		}
		if r := rss() - lastRSS; r > memExcess+caseMem.Load() {
			fmt.Fprintf(os.Stderr, "one case used %d MB more memory than before it\n", r>>20)
			os.Exit(ExitMemory)
		}
		if d := cpuNow() - lastCPU; d > int64(hangCPU)*int64(caseScale()) {
			fmt.Fprintf(os.Stderr, "one case used %v of CPU time\n", time.Duration(d))
			os.Exit(ExitHang)
		}
	}
}

// allBlocked tells whether every goroutine but the caller waits for another
// one: the end of a sleep, a system call or a processor may end other waits.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	if buf = buf[:runtime.Stack(buf, true)]; len(buf) == cap(buf) {
		return false
	}
	n := 0
	for _, l := range strings.Split(string(buf), "\n") {
		_, state, ok := strings.Cut(l, " [")
		if !ok || !strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if n++; n == 1 {
			continue // the caller
		}
		state, _, _ = strings.Cut(state, "]")
		state, _, _ = strings.Cut(state, ",")
		switch state {
		case "chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait":
		default:
			return false
		}
	}
	return true
}

// caseScale multiplies the limit on the CPU time of one case: the race detector
// and a collector which always runs cost a lot.
func caseScale() int {
	if raceEnabled {
		return 4
	}
	return 1
}

// Worker runs the share of one worker of a property's cases.
func Worker(id, tier string, seed uint64, shard, shards int, journalPath string, deadline time.Duration, only string, scale float64) (*Report, error) {
	p := props[id]
	if p == nil {
		return nil, fmt.Errorf("no property %s", id)
	}
	go watchdog()
	rep := &Report{Classes: map[string]int{}, PerSub: map[string]int{}}
	var j *journal
	if journalPath != "" {
		f, err := os.Create(journalPath)
		if err != nil {
			return nil, err
		}
		j = &journal{f}
	}
	hashes := map[uint64]bool{}
	start := time.Now()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	if tier == "thorough" {
		flag.Set("rapid.shrinktime", "60s")
	}
	// Interleave the batches of the subs, so that a deadline cuts all.
	type state struct {
		s          *Sub
		done, want int
		batch      int
	}
	var st []*state
	for i := range p.Subs {
		s := &p.Subs[i]
		if only != "" && s.Name != only {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Deep
		}
		n = int(float64(n) * scale)
		if n > 0 {
			st = append(st, &state{s: s, want: n})
		}
	}
	for round := 0; ; round++ {
		var next *state
		for _, x := range st {
			if x.done < x.want && (next == nil || x.done*next.want < next.done*x.want) {
				next = x
			}
		}
		if next == nil {
			break
		}
		if deadline > 0 && time.Since(start) > deadline {
			rep.Deadline = true
			break
		}
		s := next.s
		batch := s.Batch
		if batch == 0 {
			batch = 100
		}
		batch = min(batch, next.want-next.done)
		flag.Set("rapid.checks", fmt.Sprint(batch))
		flag.Set("rapid.seed", fmt.Sprint(seedOf(seed, id, s.Name, shard, next.batch)))
		next.batch++
		var lastFail *Replay
		prop := func(t *rapid.T) {
			c := s.Gen(t)
			js, err := json.Marshal(c)
			if err != nil {
				panic(harnessError{err})
			}
			x := &Ctx{classes: rep.Classes, counting: lastFail == nil}
			defer func() {
				if r := recover(); r != nil {
					if h, ok := r.(harnessError); ok {
						fmt.Fprintf(os.Stderr, "harness error in %s: %v\n%s\n", s.Name, h.err, js)
						os.Exit(ExitHarness)
					}
					panic(r)
				}
			}()
			j.write(s.Name, js)
			caseNo.Add(1)
			inCase.Store(true)
			err = runCase(s, c, x)
			inCase.Store(false)
			j.done()
			if lastFail == nil {
				rep.Evaluations++
				rep.PerSub[s.Name]++
				if x.nontrivial {
					h := fnv.New64a()
					h.Write([]byte(s.Name))
					h.Write(js)
					k := h.Sum64()
					if !hashes[k] {
						hashes[k] = true
						if len(rep.Samples) < 6 && rep.PerSub[s.Name] > 20 || len(rep.Samples) == 0 {
							if len(js) < 3000 {
								rep.Samples = append(rep.Samples, json.RawMessage(fmt.Sprintf(`{"sub":%q,"case":%s}`, s.Name, js)))
							}
						}
					}
				}
			}
			if err != nil {
				lastFail = &Replay{Property: id, Sub: s.Name, Error: err.Error(), Case: js}
				t.Fatalf("failed: %v", err)
			}
		}
		var harness any
		t := &tb{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					harness = r
				}
			}()
			rapid.Check(t, prop)
		}()
		<-done
		if harness != nil {
			return rep, fmt.Errorf("harness: %v", harness)
		}
		if t.failed {
			if lastFail == nil {
				return rep, errors.New("rapid failed without a failing case: " + t.msg.String())
			}
			rep.Fail = lastFail
			break
		}
		next.done += batch
	}
	for h := range hashes {
		rep.Hashes = append(rep.Hashes, h)
	}
	if len(p.Variants) > 0 {
		v, _, _ := strings.Cut(runtime.Version(), " ")
		rep.Classes["cases on "+runtime.GOARCH+" built by "+v] = rep.Evaluations
	}
	sort.Slice(rep.Hashes, func(i, k int) bool { return rep.Hashes[i] < rep.Hashes[k] })
	return rep, nil
}

// RunReplay runs the case of a replay file.
func RunReplay(path string) error {
	b, err := os.ReadFile(path)
	must(err)
	r := &Replay{}
	must(json.Unmarshal(b, r))
	p := props[r.Property]
	if p == nil {
		must(fmt.Errorf("no property %q", r.Property))
	}
	if w := r.Worker; w != nil {
		rep, err := Worker(r.Property, w.Tier, w.Seed, w.Shard, w.Shards, "", 0, w.Only, w.Scale)
		must(err)
		if rep.Fail != nil {
			return errors.New(rep.Fail.Error)
		}
		return nil
	}
	for i := range p.Subs {
		if p.Subs[i].Name == r.Sub {
			c := p.Subs[i].New()
			must(json.Unmarshal(r.Case, c))
			go watchdog()
			caseNo.Add(1)
			inCase.Store(true)
			return runCase(&p.Subs[i], c, &Ctx{classes: map[string]int{}, replaying: true})
		}
	}
	must(fmt.Errorf("no check %q", r.Sub))
	return nil
}

// PropInfo is for the parent.
func PropInfo(id string) *Prop { return props[id] }

// PropIDs lists all properties.
func PropIDs() (ids []string) {
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return
}

var _ = reflect.TypeFor[int]
var _ = filepath.Join
