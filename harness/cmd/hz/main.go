// Command hz decides the properties of /verif/properties.jsonl.
//
//	hz run -prop C01 ...     parent: starts workers, writes evidence
//	hz worker ...            one worker
//	hz replay FILE           runs the case of a replay file
//	hz isolated              runs a case from standard input
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/hz"
)

func main() {
	testing.Init()
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		shard   = flag.Int("shard", 0, "worker number")
		shards  = flag.Int("shards", 8, "number of workers")
		journal = flag.String("journal", "", "file for the current case")
		out     = flag.String("out", "", "report file of a worker")
		verif   = flag.String("verif", "/verif", "where evidence and replays go")
		work    = flag.String("work", "", "scratch directory")
		only    = flag.String("only", "", "run only this check of the property")
		scale   = flag.Float64("scale", 1, "factor on the number of cases")
		limit   = flag.Duration("limit", 0, "time after which no more cases are started")
		noWrite = flag.Bool("nowrite", false, "write no evidence")
	)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hz run|worker|replay|isolated")
		os.Exit(2)
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	switch mode {
	case "list":
		for _, id := range hz.PropIDs() {
			p := hz.PropInfo(id)
			fmt.Println(id, p.Race)
		}
	case "variants":
		fmt.Println(strings.Join(hz.PropInfo(flag.Arg(0)).Variants, " "))
	case "constants":
		hz.PrintConstants(flag.Arg(0))
	case "worker":
		rep, err := hz.Worker(*prop, *tier, *seed, *shard, *shards, *journal, *limit, *only, *scale)
		if rep != nil {
			b, _ := json.Marshal(rep)
			if e := os.WriteFile(*out, b, 0o644); e != nil {
				err = e
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(hz.ExitHarness)
		}
		if rep.Fail != nil {
			os.Exit(hz.ExitFail)
		}
	case "replay":
		variant(flag.Arg(0))
		err := hz.RunReplay(flag.Arg(0))
		if err != nil {
			fmt.Println("FAILED:", err)
			os.Exit(hz.ExitFail)
		}
		fmt.Println("passed")
	case "isolated":
		err := hz.RunIsolated(os.Stdin)
		if err != nil {
			fmt.Println(err)
			os.Exit(hz.ExitFail)
		}
	case "serve":
		if err := hz.Serve(os.Stdin, os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(hz.ExitHarness)
		}
	case "fuzzsubs":
		fmt.Print(strings.Join(hz.FuzzSubs(flag.Arg(0)), "\n"))
	case "probe":
		hz.RunProbe(flag.Arg(0))
	case "run":
		r := &run{id: *prop, tier: *tier, seed: *seed, shards: *shards, verif: *verif, work: *work, only: *only, scale: *scale, limit: *limit, noWrite: *noWrite}
		os.Exit(r.main())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

type run struct {
	id, tier, verif, work, only string
	seed                        uint64
	shards                      int
	scale                       float64
	limit                       time.Duration
	noWrite                     bool
	p                           *hz.Prop
}

type result struct {
	rep    *hz.Report
	code   int
	stderr string
	crash  *hz.Replay
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return e
}

// binary is the build of the harness for a variant.
func binary(variant string) string {
	if variant == "" {
		return self()
	}
	return filepath.Join(filepath.Dir(self()), "hz-"+variant)
}

// broken says why the code under test does not build for a variant.
func broken(variant string) string {
	b, _ := os.ReadFile(binary(variant) + ".log")
	return string(b)
}

// variant goes on in the build of the harness which the replay file names.
func variant(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	rp := hz.Replay{}
	if json.Unmarshal(b, &rp) != nil || rp.Variant == "" || rp.Variant == os.Getenv("HZ_VARIANT") {
		return
	}
	if e := broken(rp.Variant); e != "" {
		fmt.Println("FAILED: does not build:", e)
		os.Exit(hz.ExitFail)
	}
	if rp.Sub == "build" {
		fmt.Println("passed")
		os.Exit(0)
	}
	err = syscall.Exec(binary(rp.Variant), append([]string{"hz"}, os.Args[1:]...), append(os.Environ(), "HZ_VARIANT="+rp.Variant))
	fmt.Fprintln(os.Stderr, err)
	os.Exit(hz.ExitHarness)
}

func (r *run) variant(i int) string {
	if len(r.p.Variants) == 0 {
		return ""
	}
	return r.p.Variants[i%len(r.p.Variants)]
}

func (r *run) command(args ...string) *exec.Cmd {
	c := exec.Command(self(), args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=10", "HZ_WORK="+r.work, "HZ_VERIF="+r.verif)
	c.Env = append(c.Env, r.p.Env...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

// exec runs a command and gives its exit code (128+signal), and the end of its
// standard error.
func (r *run) exec(c *exec.Cmd) (int, string) {
	var buf tail
	c.Stderr = &buf
	c.Stdout = &buf
	runtime.LockOSThread() // for Pdeathsig
	defer runtime.UnlockOSThread()
	err := c.Start()
	var stalled atomic.Bool
	if err == nil {
		done := make(chan bool)
		go func() {
			if waitStalled(c.Process.Pid, done) {
				stalled.Store(true)
				c.Process.Kill()
			}
		}()
		err = c.Wait()
		close(done)
	}
	code := 0
	if stalled.Load() {
		return hz.ExitHang, buf.String() + "\nthe process makes no progress, not even to notice\n"
	}
	if err != nil {
		code = 255
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				code = 128 + int(ws.Signal())
			} else {
				code = ws.ExitStatus()
			}
		} else {
			buf.Write([]byte(err.Error()))
		}
	}
	return code, buf.String()
}

// waitStalled returns when done is closed, or when a process which should look
// after itself (see watchdog) uses no processor time any more: memory which was
// overwritten may leave its runtime waiting for itself.
func waitStalled(pid int, done chan bool) bool {
	since, last := time.Now(), int64(-1)
	for {
		select {
		case <-done:
			return false
		case <-time.After(2 * time.Second):
		}
		limit := time.Minute
		kids, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
		for _, k := range kids {
			if b, _ := os.ReadFile(k); len(bytes.TrimSpace(b)) > 0 {
				limit = 5 * time.Minute // it may wait for these
			}
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if err != nil || len(f) < 15 {
			since = time.Now()
			continue
		}
		var ticks int64
		for _, x := range f[11:15] { // its own and its children's
			n, _ := strconv.ParseInt(x, 10, 64)
			ticks += n
		}
		if ticks-last > 2 || last < 0 {
			since, last = time.Now(), ticks
		} else if time.Since(since) > limit {
			return true
		}
	}
}

// tail keeps the beginning and drops the rest: the first lines of a crash say
// what happened.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

var crashRE = regexp.MustCompile(`(?m)^(fatal error: .*|WARNING: DATA RACE|unexpected fault address.*|\[signal SIG.*|panic: .*|runtime: .*|SIG[A-Z]+: .*)$`)

func crashText(s string) string {
	if m := crashRE.FindAllString(s, 3); m != nil {
		return strings.Join(m, "; ")
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// genuine says that a crash cannot be for lack of memory or time.
func genuine(s string) bool {
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") || strings.Contains(s, "resource temporarily unavailable") {
		return false
	}
	return crashRE.MatchString(s)
}

func (r *run) main() int {
	start := time.Now()
	r.p = hz.PropInfo(r.id)
	if r.p == nil {
		fmt.Fprintln(os.Stderr, "no property", r.id)
		return 2
	}
	if r.limit == 0 {
		r.limit = 240 * time.Second
		if r.tier == "thorough" {
			r.limit = 720 * time.Second
		}
	}
	if r.work == "" {
		d, err := os.MkdirTemp("", "hz")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.work = d
		defer os.RemoveAll(d)
	}
	n := r.shards
	if r.p.Workers > 0 {
		n = min(n, r.p.Workers)
	}
	results := make([]result, n)
	var wg sync.WaitGroup
	for i := range results {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = r.worker(i, n)
		}()
	}
	wg.Wait()

	ev := map[string]any{}
	evals, classes, perSub := 0, map[string]int{}, map[string]int{}
	hashes := map[uint64]bool{}
	var samples []json.RawMessage
	var fails []*hz.Replay
	deadline := false
	for i, res := range results {
		if res.rep != nil {
			evals += res.rep.Evaluations
			deadline = deadline || res.rep.Deadline
			for k, v := range res.rep.Classes {
				classes[k] += v
			}
			for k, v := range res.rep.PerSub {
				perSub[k] += v
			}
			for _, h := range res.rep.Hashes {
				hashes[h] = true
			}
			if len(samples) < 8 {
				for _, s := range res.rep.Samples {
					if len(s) < 2500 && len(samples) < 8 {
						samples = append(samples, s)
					}
				}
			}
		}
		switch {
		case res.rep != nil && res.rep.Fail != nil && res.code == hz.ExitFail:
			res.rep.Fail.Property = r.id
			res.rep.Fail.Variant = r.variant(i)
			if !r.alone(res.rep.Fail) {
				res.rep.Fail.Worker = r.workerArgs(i, n)
			}
			fails = append(fails, res.rep.Fail)
		case res.crash != nil:
			fails = append(fails, res.crash)
		case res.code != 0:
			fmt.Fprintf(os.Stderr, "worker %d ended with %d:\n%.3000s\n", i, res.code, res.stderr)
		}
	}
	fuzz := map[string]any{}
	if len(fails) == 0 && r.tier == "thorough" {
		fails = append(fails, r.fuzz(fuzz, 830*time.Second-time.Since(start))...)
	}
	code := 0
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool {
			if a, b := fails[i].Worker != nil, fails[j].Worker != nil; a != b {
				return b
			}
			return len(fails[i].Case) < len(fails[j].Case)
		})
		f := fails[0]
		f.Property = r.id
		path, err := r.save(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if f.Variant != "" {
			fmt.Printf("on %s: ", f.Variant)
		}
		fmt.Printf("%s: %s\n", f.Sub, f.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		code = 1
	} else {
		for _, res := range results {
			if res.code != 0 {
				code = 2
			}
		}
	}
	if !r.known() && code == 0 {
		code = 2
	}
	ev["property"] = r.id
	ev["tier"] = r.tier
	ev["seed"] = r.seed
	ev["level"] = "exploration"
	ev["coverage"] = map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": r.p.Rule, "samples": samples,
		"classes": classes, "cases_per_check": perSub, "workers": n, "stopped_by_time": deadline,
	}
	ev["assumptions"] = append([]string{
		"the reference codec in harness/hz/ref.go, and google.golang.org/protobuf v1.27.1 where used, implement the protobuf specification",
	}, r.p.Assume...)
	if len(fuzz) > 0 {
		ev["coverage"].(map[string]any)["coverage_guided"] = fuzz
	}
	ev["wall_s"] = time.Since(start).Seconds()
	ev["violations"] = len(fails)
	if !r.noWrite {
		b, _ := json.MarshalIndent(ev, "", " ")
		dir := filepath.Join(r.verif, "evidence")
		os.MkdirAll(dir, 0o755)
		if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs", r.id, r.tier, r.seed, evals, len(hashes), time.Since(start).Seconds())
	if deadline {
		fmt.Print(" (stopped by time)")
	}
	fmt.Println()
	if os.Getenv("HZ_CLASSES") != "" {
		var ks []string
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %8d %s\n", classes[k], k)
		}
		fmt.Println(" ", perSub)
	}
	return code
}

var fuzzRE = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

// fuzz is the coverage-guided search. What it finds counts if a replay in the
// usual build of the harness confirms it.
func (r *run) fuzz(stats map[string]any, left time.Duration) (fails []*hz.Replay) {
	bin := filepath.Join(filepath.Dir(self()), "fuzz.test")
	subs := hz.FuzzSubs(r.id)
	if _, err := os.Stat(bin); err != nil || len(subs) == 0 || r.only != "" {
		return nil
	}
	left = min(left, 150*time.Second) / time.Duration(len(subs))
	for _, sub := range subs {
		if left < 5*time.Second {
			return nil
		}
		dir := filepath.Join(r.work, "fuzz")
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
		c := r.command()
		c.Path, c.Dir = bin, dir
		c.Args = []string{bin, "-test.run=^$", "-test.fuzz=^FuzzCase$", "-test.fuzztime=" + left.String(), "-test.fuzzminimizetime=200x",
			"-test.fuzzcachedir=" + filepath.Join(dir, "cache"), fmt.Sprintf("-test.parallel=%d", r.shards), fmt.Sprintf("-test.timeout=%s", left+2*time.Minute)}
		c.Env = append(c.Env, "HZ_FUZZ="+r.id+"/"+sub, fmt.Sprintf("HZ_FUZZ_SEED=%d", r.seed), "HZ_WORK="+dir)
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		runtime.LockOSThread() // for Pdeathsig
		err := c.Run()
		runtime.UnlockOSThread()
		if m := fuzzRE.FindAllStringSubmatch(out.String(), -1); m != nil {
			stats[sub] = map[string]any{"executions": json.Number(m[len(m)-1][1]), "new_coverage": json.Number(m[len(m)-1][2])}
		}
		if err == nil {
			continue
		}
		// failing cases, the smallest first, and those during which a worker ended
		var found []*hz.Replay
		names, _ := filepath.Glob(filepath.Join(dir, "fuzz-*.json"))
		for _, n := range names {
			b, _ := os.ReadFile(n)
			if strings.Contains(n, "journal") {
				if len(b) == 0 || b[0] != 'R' {
					continue
				}
				b = b[1:]
			}
			rp := &hz.Replay{}
			if json.Unmarshal(b, rp) == nil {
				rp.Property = r.id
				if rp.Error == "" {
					rp.Error = "crash or hang"
				}
				found = append(found, rp)
			}
		}
		sort.SliceStable(found, func(i, j int) bool { return len(found[i].Case) < len(found[j].Case) })
		for i, rp := range found {
			if i < 20 && r.alone(rp) {
				return []*hz.Replay{rp}
			}
		}
		fmt.Fprintf(os.Stderr, "the coverage-guided search of %s ended early, with nothing that fails when replayed:\n%.600s\n", sub, out.String())
	}
	return nil
}

func (r *run) worker(i, n int) (res result) {
	out := filepath.Join(r.work, fmt.Sprintf("report%d.json", i))
	j := filepath.Join(r.work, fmt.Sprintf("journal%d.json", i))
	c := r.command("worker", "-prop", r.id, "-tier", r.tier, "-seed", fmt.Sprint(r.seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n),
		"-journal", j, "-out", out, "-limit", fmt.Sprint(r.limit), "-only", r.only, "-scale", fmt.Sprint(r.scale))
	v := r.variant(i)
	if v != "" {
		c.Path = binary(v)
		c.Env = append(c.Env, "HZ_VARIANT="+v)
	}
	if e := broken(v); v != "" && e != "" {
		res.code = hz.ExitFail
		res.crash = &hz.Replay{Sub: "build", Error: "does not build for " + v + ": " + e, Variant: v}
		return
	}
	res.code, res.stderr = r.exec(c)
	if b, err := os.ReadFile(out); err == nil {
		rep := &hz.Report{}
		if json.Unmarshal(b, rep) == nil {
			res.rep = rep
		}
	}
	if res.code == 0 && res.rep != nil || res.code == hz.ExitFail && res.rep != nil && res.rep.Fail != nil || res.code == hz.ExitHarness {
		return
	}
	if res.code == 0 {
		res.code = 255
	}
	// The worker crashed, hung or ran out of memory: find out whether the
	// case in its journal does that by itself.
	b, err := os.ReadFile(j)
	if err != nil {
		return
	}
	rp := &hz.Replay{}
	if len(b) < 2 || json.Unmarshal(b[1:], rp) != nil {
		return
	}
	running := b[0] == 'R'
	rp.Property, rp.Variant = r.id, v
	what := map[int]string{hz.ExitHang: "does not end", hz.ExitMemory: "uses up memory"}[res.code]
	if what == "" {
		what = "crash"
	}
	rp.Error = what + ": " + crashText(res.stderr)
	tmp := filepath.Join(r.work, fmt.Sprintf("crash%d.json", i))
	b, _ = json.Marshal(rp)
	os.WriteFile(tmp, b, 0o644)
	confirmed := 0
	for k := 0; k < 3 && confirmed == 0; k++ {
		code, text := r.exec(r.command("replay", tmp))
		switch {
		case code == hz.ExitHarness || code == 0:
		case code == hz.ExitFail:
			rp.Error = what + "; replayed: " + text
			confirmed++
		case (code == hz.ExitHang || code == hz.ExitMemory) && code == res.code:
			confirmed++
		case genuine(text):
			rp.Error = "crash: " + crashText(text)
			confirmed++
		}
	}
	if confirmed == 0 && genuine(res.stderr) && res.code != hz.ExitHang && res.code != hz.ExitMemory &&
		(running || !strings.Contains(res.stderr, "stack overflow")) {
		// it needs the cases before it, or luck
		rp.Worker = r.workerArgs(i, n)
		confirmed++
	}
	if confirmed > 0 {
		res.crash = rp
	}
	return
}

func (r *run) workerArgs(i, n int) *hz.WorkerArgs {
	return &hz.WorkerArgs{Tier: r.tier, Seed: r.seed, Shard: i, Shards: n, Only: r.only, Scale: r.scale}
}

// alone says whether the case fails in a process of its own.
func (r *run) alone(f *hz.Replay) bool {
	tmp := filepath.Join(r.work, "alone.json")
	b, _ := json.Marshal(f)
	os.WriteFile(tmp, b, 0o644)
	code, _ := r.exec(r.command("replay", tmp))
	return code != 0 && code != hz.ExitHarness
}

func (r *run) save(f *hz.Replay) (string, error) {
	dir := filepath.Join(r.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, _ := json.MarshalIndent(f, "", " ")
	h := fnv.New32a()
	h.Write(b)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", f.Property, h.Sum32()))
	return path, os.WriteFile(path, b, 0o644)
}

// known checks the known findings of the property: each one is demonstrated
// and reported on a line of its own.
func (r *run) known() bool {
	f, err := os.Open(filepath.Join(r.verif, "known_findings.txt"))
	if err != nil {
		return true
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "known: property="+r.id+" id=")
		if !ok {
			continue
		}
		id, text, _ := strings.Cut(rest, " ")
		code, out := r.exec(r.command("probe", id))
		switch code {
		case hz.ProbeFails:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, text)
		case hz.ProbeCrashes:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, text)
		case 0:
			fmt.Printf("known finding %s does not show any more: %s\n", id, text)
		default:
			if hz.ProbeMayCrash(id) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, text)
				continue
			}
			fmt.Fprintf(os.Stderr, "probe %s: exit %d\n%s\n", id, code, out)
			return false
		}
	}
	return true
}

var _ = io.EOF
