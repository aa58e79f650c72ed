// Package rt runs checks: it shards cases over worker processes, makes every
// case deterministic and replayable, watches resource budgets, and writes
// evidence and verdicts.
package rt

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Rule  string // how cases are made and what counts as distinct and non-trivial
	Cases func(tier string) int
	Run   func(c *Case)
	// Need lists counters that must reach a minimum at the quick tier, or the
	// run observed too little to mean anything.
	Need        map[string]int64
	Assumptions []string
	Level       string
	// CPU is the processor-time budget of one case; a case that needs more does
	// not terminate as it should. Default 150 s; cases take well under 10 s.
	CPU time.Duration
	// Mem is the live heap one case may reach. Default 3 GB.
	Mem uint64
	// Workers limits the number of worker processes (default: CPUs).
	Workers int
	// OneWorkerEnv adds environment variables to the workers.
	Env []string
	// PostWorker may inspect a finished worker's leftovers (race logs).
	Race bool
}

// Registry holds all checks by ID.
var Registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	Registry[c.ID] = c
}

// Case is one execution of a check's workload.
type Case struct {
	Check *Check
	Idx   int
	Seed  uint64
	Tier  string
	R     *mrand.Rand
	Rand  *DRBG

	w     *worker
	trace []string
	mu    sync.Mutex
}

type violation struct {
	Case int      `json:"case"`
	Sig  string   `json:"sig"`
	Msg  string   `json:"msg"`
	Log  []string `json:"log"`
	Stk  string   `json:"stack,omitempty"`
}

type workerOut struct {
	Cases      int64            `json:"cases"`
	Evals      int64            `json:"evals"`
	Counters   map[string]int64 `json:"counters"`
	Sigs       []string         `json:"sigs"`
	SigOver    int64            `json:"sig_over"`
	Samples    []any            `json:"samples"`
	Violations []violation      `json:"violations"`
}

type worker struct {
	mu       sync.Mutex
	out      workerOut
	sigs     map[[8]byte]struct{}
	curCase  atomic.Int64
	cpuStart atomic.Int64
	outPath  string
}

type abort struct{ v violation }

// Count adds to a coverage counter.
func (c *Case) Count(name string, n int64) {
	c.w.mu.Lock()
	c.w.out.Counters[name] += n
	c.w.mu.Unlock()
}

// Max keeps the maximum of a counter.
func (c *Case) Max(name string, n int64) {
	c.w.mu.Lock()
	if c.w.out.Counters[name] < n {
		c.w.out.Counters[name] = n
	}
	c.w.mu.Unlock()
}

// Sig records a distinct non-trivial behaviour.
func (c *Case) Sig(parts ...any) {
	h := sha256.New()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		case error:
			io.WriteString(h, errKind(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	var k [8]byte
	copy(k[:], h.Sum(nil))
	c.w.mu.Lock()
	c.w.sigs[k] = struct{}{}
	c.w.out.Evals++
	c.w.mu.Unlock()
}

// errKind reduces an error to the words of its text, without the values in it.
func errKind(err error) string {
	var b []byte
	for _, x := range []byte(err.Error()) {
		if x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x == ' ' {
			b = append(b, x)
		}
		if len(b) == 24 {
			break
		}
	}
	return string(b)
}

// Sample keeps an example for the evidence file (only a few are kept).
func (c *Case) Sample(v any) {
	c.w.mu.Lock()
	if len(c.w.out.Samples) < 2 {
		c.w.out.Samples = append(c.w.out.Samples, v)
	}
	c.w.mu.Unlock()
}

// Logf adds to the case's trace, shown when it fails.
func (c *Case) Logf(f string, a ...any) {
	c.mu.Lock()
	if len(c.trace) < 3000 {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// TraceSample returns the first n trace lines, for use as a sample.
func (c *Case) TraceSample(n int) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) < n {
		n = len(c.trace)
	}
	return append([]string{}, c.trace[:n]...)
}

// Fail records a violation and ends the case. sig identifies the kind of
// failure independently of random values.
func (c *Case) Fail(sig, f string, a ...any) {
	c.mu.Lock()
	tr := append([]string{}, c.trace...)
	c.mu.Unlock()
	panic(abort{violation{Case: c.Idx, Sig: sig, Msg: fmt.Sprintf(f, a...), Log: tr}})
}

// Must fails unless ok.
func (c *Case) Must(ok bool, sig, f string, a ...any) {
	if !ok {
		c.Fail(sig, f, a...)
	}
}

// NoErr fails on an error.
func (c *Case) NoErr(err error, sig string, a ...any) {
	if err != nil {
		c.Fail(sig, "unexpected error: %v %v", err, fmt.Sprint(a...))
	}
}

// Try runs f and returns a description of its panic, or "".
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if ab, ok := r.(abort); ok {
				panic(ab)
			}
			p = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "panic(") || strings.Contains(l, "libsignal-protocol-go") || strings.Contains(l, "/repo/") || strings.Contains(l, "verif/checks") || strings.Contains(l, "verif/sim") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func mix(seed uint64, id string, idx int) uint64 {
	h := sha256.New()
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], seed)
	binary.BigEndian.PutUint64(b[8:], uint64(idx))
	h.Write(b[:])
	h.Write([]byte(id))
	return binary.BigEndian.Uint64(h.Sum(nil)[:8])
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (w *worker) runCase(ch *Check, idx int, seed uint64, tier string) {
	c := &Case{Check: ch, Idx: idx, Seed: seed, Tier: tier, w: w}
	s := mix(seed, ch.ID, idx)
	c.R = mrand.New(mrand.NewSource(int64(s)))
	c.Rand = NewDRBG(s, "entropy")
	crand.Reader = c.Rand
	w.curCase.Store(int64(idx))
	w.cpuStart.Store(cpuNow())
	defer func() {
		w.cpuStart.Store(0)
		if r := recover(); r != nil {
			if ab, ok := r.(abort); ok {
				w.add(ab.v)
				return
			}
			c.mu.Lock()
			tr := append([]string{}, c.trace...)
			c.mu.Unlock()
			w.add(violation{Case: idx, Sig: "panic", Msg: fmt.Sprintf("panic: %v", r), Log: tr, Stk: trimStack(debug.Stack())})
		}
	}()
	ch.Run(c)
	w.mu.Lock()
	w.out.Cases++
	w.mu.Unlock()
}

func (w *worker) add(v violation) {
	w.mu.Lock()
	if len(w.out.Violations) < 20 {
		w.out.Violations = append(w.out.Violations, v)
	}
	w.out.Counters["violations_seen"]++
	w.out.Cases++
	w.mu.Unlock()
}

func (w *worker) flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.out.Sigs = nil
	for k := range w.sigs {
		w.out.Sigs = append(w.out.Sigs, hex.EncodeToString(k[:]))
	}
	b, _ := json.Marshal(&w.out)
	tmp := w.outPath + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, w.outPath)
}

func runWorker(ch *Check, k, n, total int, seed uint64, tier, outPath string, only int) {
	w := &worker{sigs: map[[8]byte]struct{}{}, outPath: outPath}
	w.out.Counters = map[string]int64{}
	cpu := ch.CPU
	if cpu == 0 {
		cpu = 150 * time.Second
	}
	mem := ch.Mem
	if mem == 0 {
		mem = 3 << 30
	}
	log.SetOutput(io.Discard)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			st := w.cpuStart.Load()
			if st == 0 {
				continue
			}
			used := time.Duration(cpuNow() - st)
			runtime.ReadMemStats(&ms)
			why := ""
			if used > cpu {
				why = fmt.Sprintf("the case used more than %v of processor time without finishing", cpu)
			} else if ms.HeapAlloc > mem {
				why = fmt.Sprintf("the case holds more than %d MB of memory", mem>>20)
			}
			if why != "" && st == w.cpuStart.Load() {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				w.add(violation{Case: int(w.curCase.Load()), Sig: "budget", Msg: why, Stk: trimStack(buf)})
				w.flush()
				os.Exit(0)
			}
		}
	}()
	if only >= 0 {
		w.runCase(ch, only, seed, tier)
	} else {
		for i := k; i < total; i += n {
			os.WriteFile(outPath+".cur", []byte(strconv.Itoa(i)), 0o644)
			w.runCase(ch, i, seed, tier)
			w.mu.Lock()
			stop := len(w.out.Violations) >= 5
			w.mu.Unlock()
			if stop {
				break
			}
		}
	}
	w.flush()
}

// Options of a run.
type Options struct {
	Prop, Tier string
	Seed       uint64
	Verif      string // the /verif directory
	Replay     string
	worker, of int
	out        string
	only       int
	Cases      int
}

type replayFile struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Seed     uint64    `json:"seed"`
	V        violation `json:"violation"`
}

type known struct{ prop, sig, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> sig=<signature> <what fails>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 {
			ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "sig="), f[2]})
		}
	}
	return ks
}

// Main runs one check and returns the exit code.
func Main(args []string) int {
	o := Options{Tier: "quick", Seed: 1, only: -1, worker: -1}
	for i := 0; i+1 < len(args); i += 2 {
		v := args[i+1]
		switch args[i] {
		case "-prop":
			o.Prop = v
		case "-tier":
			o.Tier = v
		case "-seed":
			s, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				h := sha256.Sum256([]byte(v))
				s = int64(binary.BigEndian.Uint64(h[:8]) >> 1)
			}
			o.Seed = uint64(s)
		case "-verif":
			o.Verif = v
		case "-replay":
			o.Replay = v
		case "-worker":
			o.worker, _ = strconv.Atoi(v)
		case "-of":
			o.of, _ = strconv.Atoi(v)
		case "-out":
			o.out = v
		case "-only":
			o.only, _ = strconv.Atoi(v)
		case "-cases":
			o.Cases, _ = strconv.Atoi(v)
		}
	}
	if o.Replay != "" {
		b, err := os.ReadFile(o.Replay)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			return 2
		}
		o.Prop, o.Tier, o.Seed, o.only = r.Property, r.Tier, r.Seed, r.V.Case
	}
	ch := Registry[o.Prop]
	if ch == nil {
		fmt.Println("no such check:", o.Prop)
		return 2
	}
	total := ch.Cases(o.Tier)
	if o.Cases > 0 {
		total = o.Cases
	}
	if o.worker >= 0 {
		runWorker(ch, o.worker, o.of, total, o.Seed, o.Tier, o.out, o.only)
		return 0
	}
	return parent(ch, o, total)
}

func parent(ch *Check, o Options, total int) int {
	start := time.Now()
	n := ch.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if n > total {
		n = total
	}
	if o.only >= 0 {
		n = 1
	}
	dir, err := os.MkdirTemp("", "vmon-"+ch.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	type res struct {
		out    workerOut
		ok     bool
		crash  string
		cur    int
		stdout string
	}
	run := func(k, of, only int) res {
		out := filepath.Join(dir, fmt.Sprintf("w%d-%d.json", k, only))
		args := []string{"-prop", ch.ID, "-tier", o.Tier, "-seed", strconv.FormatUint(o.Seed, 10), "-worker", strconv.Itoa(k), "-of", strconv.Itoa(of), "-out", out, "-only", strconv.Itoa(only), "-verif", o.Verif}
		if o.Cases > 0 {
			args = append(args, "-cases", strconv.Itoa(o.Cases))
		}
		cmd := exec.Command(self, args...)
		var buf bytes.Buffer
		cmd.Stdout = &buf
		cmd.Stderr = &buf
		cmd.Env = append(os.Environ(), ch.Env...)
		// The runtime's own report of a crash must not be cut short.
		cmd.Env = append(cmd.Env, "GOTRACEBACK=all", "VMON_SCRATCH="+dir)
		if ch.Race {
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
		}
		err := cmd.Run()
		var r res
		b, rerr := os.ReadFile(out)
		if rerr == nil && json.Unmarshal(b, &r.out) == nil && err == nil {
			r.ok = true
			return r
		}
		s := buf.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		r.crash = fmt.Sprintf("worker ended abnormally (%v): %s", err, s)
		r.cur = -1
		if cb, e := os.ReadFile(out + ".cur"); e == nil {
			r.cur, _ = strconv.Atoi(strings.TrimSpace(string(cb)))
		}
		return r
	}
	results := make([]res, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			results[k] = run(k, n, o.only)
		}(k)
	}
	wg.Wait()
	agg := workerOut{Counters: map[string]int64{}}
	sigs := map[string]struct{}{}
	inconclusive := ""
	for k := range results {
		r := results[k]
		if !r.ok {
			// A fatal runtime error of the code under test (stack overflow, concurrent
			// map access, out of memory) cannot be recovered: confirm it by running
			// the case alone.
			if r.cur >= 0 {
				r2 := run(1000+k, 1, r.cur)
				if !r2.ok {
					agg.Violations = append(agg.Violations, violation{Case: r.cur, Sig: "crash", Msg: r2.crash})
					continue
				}
				agg.Violations = append(agg.Violations, r2.out.Violations...)
				if len(r2.out.Violations) > 0 {
					continue
				}
			}
			inconclusive = r.crash
			continue
		}
		agg.Cases += r.out.Cases
		agg.Evals += r.out.Evals
		for c, v := range r.out.Counters {
			if strings.HasPrefix(c, "max_") {
				if agg.Counters[c] < v {
					agg.Counters[c] = v
				}
			} else {
				agg.Counters[c] += v
			}
		}
		for _, s := range r.out.Sigs {
			sigs[s] = struct{}{}
		}
		if len(agg.Samples) < 4 {
			agg.Samples = append(agg.Samples, r.out.Samples...)
		}
		agg.Violations = append(agg.Violations, r.out.Violations...)
	}
	if ch.Race {
		agg.Violations = append(agg.Violations, raceReports(dir)...)
	}
	sort.SliceStable(agg.Violations, func(i, j int) bool { return agg.Violations[i].Case < agg.Violations[j].Case })
	ks := loadKnown(filepath.Join(o.Verif, "known-findings.txt"))
	seenKnown := map[string]bool{}
	var bad []violation
	for _, v := range agg.Violations {
		hit := false
		for _, k := range ks {
			if k.prop == ch.ID && k.sig == v.Sig {
				hit = true
				if !seenKnown[k.sig] {
					seenKnown[k.sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k.text)
				}
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	if o.Replay != "" {
		if len(bad) == 0 {
			fmt.Println("replay: no violation")
			return 0
		}
		b, _ := json.MarshalIndent(bad[0], "", " ")
		fmt.Println(string(b))
		return 1
	}
	if len(agg.Samples) > 4 {
		agg.Samples = agg.Samples[:4]
	}
	cov := map[string]any{
		"evaluations":         max(agg.Evals, agg.Cases),
		"distinct_nontrivial": len(sigs),
		"rule":                ch.Rule,
		"samples":             agg.Samples,
		"observed":            agg.Counters,
		"worker_processes":    n,
	}
	if agg.Evals > agg.Cases {
		cov["cases"] = agg.Cases
	}
	ev := map[string]any{
		"property": ch.ID, "tier": o.Tier, "seed": o.Seed, "level": ch.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations": len(bad), "assumptions": ch.Assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(o.Verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)

	keys := make([]string, 0, len(agg.Counters))
	for k := range agg.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: %d cases, %d distinct, %.1fs\n", ch.ID, o.Tier, agg.Cases, len(sigs), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s=%d", k, agg.Counters[k])
	}
	fmt.Println()
	if len(bad) > 0 {
		rd := filepath.Join(o.Verif, "out", "replay")
		os.MkdirAll(rd, 0o755)
		v := bad[0]
		p := filepath.Join(rd, fmt.Sprintf("%s-case%d.json", ch.ID, v.Case))
		rb, _ := json.MarshalIndent(replayFile{ch.ID, o.Tier, o.Seed, v}, "", " ")
		os.WriteFile(p, rb, 0o644)
		kinds := map[string]int{}
		for _, x := range bad {
			kinds[x.Sig]++
		}
		fmt.Printf("case %d [%s]: %s\n%s\n", v.Case, v.Sig, v.Msg, v.Stk)
		fmt.Println("kinds:", kinds)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 2
	}
	for k, min := range ch.Need {
		if agg.Counters[k] < min {
			fmt.Printf("INCONCLUSIVE: observed %s=%d, need %d\n", k, agg.Counters[k], min)
			return 2
		}
	}
	return 0
}

// raceReports collects the race detector's reports, deduplicated by the pair
// of accessing functions. Only reports with a frame of the library count.
func raceReports(dir string) []violation {
	files, _ := filepath.Glob(filepath.Join(dir, "race*"))
	seen := map[string]bool{}
	var vs []violation
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") || !strings.Contains(blk, "libsignal-protocol-go") {
				continue
			}
			var fr []string
			lines := strings.Split(blk, "\n")
			for i, l := range lines {
				if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous")) && i+1 < len(lines) {
					for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
						t := strings.TrimSpace(lines[j])
						if strings.Contains(t, "libsignal-protocol-go") {
							fr = append(fr, t)
							break
						}
					}
				}
			}
			sort.Strings(fr)
			key := strings.Join(fr, " | ")
			if seen[key] {
				continue
			}
			seen[key] = true
			if len(blk) > 5000 {
				blk = blk[:5000]
			}
			vs = append(vs, violation{Case: 0, Sig: "race:" + key, Msg: "data race: " + key, Stk: blk})
		}
	}
	return vs
}

// Sub is a case that shares this one's counters but has its own random
// choices and trace, for use by one goroutine.
func (c *Case) Sub(n int) *Case {
	s := &Case{Check: c.Check, Idx: c.Idx, Seed: c.Seed, Tier: c.Tier, Rand: c.Rand, w: c.w}
	s.R = mrand.New(mrand.NewSource(int64(mix(c.Seed, c.Check.ID+"/sub"+strconv.Itoa(n), c.Idx))))
	return s
}

// Par runs f in n goroutines at once, each with its own sub-case, and passes
// on the first failure or panic.
func (c *Case) Par(n int, f func(i int, c *Case)) {
	fails := make([]any, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sub := c.Sub(i)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); !ok {
						r = abort{violation{Case: c.Idx, Sig: "panic", Msg: fmt.Sprintf("panic: %v", r), Log: sub.TraceSample(200), Stk: trimStack(debug.Stack())}}
					}
					fails[i] = r
				}
			}()
			<-start
			f(i, sub)
		}(i)
	}
	close(start)
	wg.Wait()
	for _, r := range fails {
		if r != nil {
			panic(r)
		}
	}
}
