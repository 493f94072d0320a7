package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	readability "github.com/giulianopz/go-readability"
)

// A Family is a finite, totally enumerable space of executions: case i, for
// 0 <= i < N, is decoded into an input (or an operation sequence, a history, a
// schedule...), run against the real code and judged by the oracle.
type Family struct {
	Name string
	N    uint64
	Run  func(t *T, i uint64)
	// Quick limits the indices of the quick tier (0: all of them). The space is
	// ordered simplest first, so this is a depth bound, not a sample.
	Quick uint64
	// Slow families get a bigger watchdog.
	Slow bool
	// Limit replaces the watchdog's limit for one case.
	Limit time.Duration
	// Serial families hold internal parallelism or global state: all of their
	// cases are run by one worker.
	Serial bool
}

// A Prop is one property together with the spaces explored to decide it.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Families func(tier string) []Family
	Assume   []string
}

// T collects what one worker observes.
type T struct {
	tier     string
	fam      *Family
	idx      uint64
	failure  string
	desc     string
	Evals    uint64
	Trans    uint64
	Traces   uint64
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	samples  []string
	sampled  map[string]int
}

func newT(tier string) *T {
	return &T{tier: tier, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, sampled: map[string]int{}}
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Desc records the case in readable form, for samples and replays.
func (t *T) Desc(format string, args ...any) { t.desc = fmt.Sprintf(format, args...) }

// Fail records the first failure of the current case.
func (t *T) Fail(format string, args ...any) {
	if t.failure == "" {
		t.failure = fmt.Sprintf(format, args...)
	}
}
func (t *T) Failed() bool { return t.failure != "" }

// State records a distinct non-trivial state reached.
func (t *T) State(parts ...string) { t.states[hash64(parts...)] = struct{}{} }

// Outcome records a distinct observed behaviour of the implementation.
func (t *T) Outcome(parts ...string) {
	if len(t.outcomes) < 1<<20 {
		t.outcomes[hash64(parts...)] = struct{}{}
	}
}

// Trace records that a prediction of the model was compared with the code.
func (t *T) Trace() { t.Traces++ }

func (t *T) sample() {
	if t.sampled[t.fam.Name] >= 2 || t.desc == "" {
		return
	}
	t.sampled[t.fam.Name]++
	s := t.desc
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	t.samples = append(t.samples, t.fam.Name+"#"+strconv.FormatUint(t.idx, 10)+": "+s)
}

// New and Parse, counted.
func (t *T) Parse(html, uri string, opts ...readability.Option) (*readability.Result, error) {
	t.Trans++
	r, err := readability.New(html, uri, opts...)
	if err != nil {
		return nil, err
	}
	t.Trans++
	return r.Parse()
}

func (t *T) MustParse(html, uri string, opts ...readability.Option) *readability.Result {
	res, err := t.Parse(html, uri, opts...)
	if err != nil {
		t.Fail("an article is expected, got the error: %v", err)
		return nil
	}
	if res == nil {
		t.Fail("neither a result nor an error")
	}
	return res
}

// run executes one case; a panic of the code under test is a failure.
func (t *T) run(f *Family, i uint64) {
	t.fam, t.idx, t.failure, t.desc = f, i, "", ""
	t.Evals++
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				t.Fail("panic: %v\n%s", e, trimStack(st))
			}
		}()
		f.Run(t, i)
	}()
	t.sample()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "go-readability") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if i > 60 {
			break
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func quiet() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)})))
	log.SetOutput(io.Discard)
}

func (f *Family) size(tier string) uint64 {
	if tier == "quick" && f.Quick > 0 && f.Quick < f.N {
		return f.Quick
	}
	return f.N
}

type failureMsg struct {
	Family  string
	Index   uint64
	Message string
	Desc    string
}

type summary struct {
	Evals, Trans, Traces uint64
	Outcomes             int
	Samples              []string
	Done                 bool
	PerFamily            map[string]uint64
	Failure              *failureMsg
}

const nWorkers = 8

// progress file: [0:8] family+1, [8:16] index, [16:24] heartbeat
func mmapFile(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	check(err)
	check(f.Truncate(4096))
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
	f.Close()
	return b
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: internal error:", err)
		os.Exit(3)
	}
}

// worker explores shard k: the indices congruent to k modulo nWorkers of every family.
func worker(p *Prop, tier string, k int, dir string, deadline time.Time, startFam int, startIdx uint64, stopFam int, stopIdx uint64) {
	quiet()
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	mm := mmapFile(filepath.Join(dir, fmt.Sprintf("prog%d", k)))
	t := newT(tier)
	sum := summary{Done: true, PerFamily: map[string]uint64{}}
	fams := p.Families(tier)
	stride := uint64(1) // development only: a look at every n-th case
	if n, err := strconv.Atoi(os.Getenv("MC_STRIDE")); err == nil {
		stride = uint64(n)
	}
loop:
	for fi := range fams {
		f := &fams[fi]
		if fi < startFam {
			continue
		}
		first, step := uint64(k), uint64(nWorkers)
		if f.Serial {
			if k != fi%nWorkers {
				continue
			}
			first, step = 0, 1
		}
		n := f.size(tier)
		if n > 4000 {
			step *= stride
		}
		for i := first; i < n; i += step {
			if fi == startFam && i < startIdx {
				continue
			}
			if fi == stopFam && i > stopIdx {
				break loop
			}
			binary.LittleEndian.PutUint64(mm[8:], i)
			binary.LittleEndian.PutUint64(mm[0:], uint64(fi)+1)
			binary.LittleEndian.PutUint64(mm[16:], binary.LittleEndian.Uint64(mm[16:])+1)
			t.run(f, i)
			sum.PerFamily[f.Name]++
			if t.failure != "" {
				sum.Failure = &failureMsg{f.Name, i, t.failure, t.desc}
				sum.Done = false
				break loop
			}
			if t.Evals%64 == 0 && time.Now().After(deadline) {
				sum.Done = false
				break loop
			}
		}
		if fi == stopFam {
			break
		}
	}
	sum.Evals, sum.Trans, sum.Traces, sum.Samples, sum.Outcomes = t.Evals, t.Trans, t.Traces, t.samples, len(t.outcomes)
	writeSet(filepath.Join(dir, fmt.Sprintf("states%d", k)), t.states)
	writeSet(filepath.Join(dir, fmt.Sprintf("outcomes%d", k)), t.outcomes)
	b, err := json.Marshal(sum)
	check(err)
	os.Stdout.Write(b)
	os.Stdout.Write([]byte("\n"))
}

func writeSet(path string, set map[uint64]struct{}) {
	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	check(err)
	w := bufio.NewWriter(f)
	var b [8]byte
	for h := range set {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	check(w.Flush())
	f.Close()
}

func readSets(dir, prefix string) int {
	all := map[uint64]struct{}{}
	for k := 0; k < nWorkers; k++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s%d", prefix, k)))
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			all[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	return len(all)
}

type procResult struct {
	sum   *summary
	crash string // "", or how the process ended
	fi    int
	idx   uint64
}

// superviseWorker runs one worker process and watches over it.
func superviseWorker(p *Prop, tier string, k int, dir string, deadline time.Time, stop <-chan struct{}, fams []Family, args []string) procResult {
	mm := mmapFile(filepath.Join(dir, fmt.Sprintf("prog%d", k)))
	for i := range mm {
		mm[i] = 0
	}
	cmd := exec.Command(os.Args[0], args...)
	var errb strings.Builder
	cmd.Stderr = &limitWriter{w: &errb, n: 1 << 16}
	out, err := cmd.StdoutPipe()
	check(err)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	check(cmd.Start())
	done := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(out)
		done <- b
	}()
	last, lastChange := uint64(0), time.Now()
	killed := ""
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case b := <-done:
			werr := cmd.Wait()
			fi := int(binary.LittleEndian.Uint64(mm[0:])) - 1
			idx := binary.LittleEndian.Uint64(mm[8:])
			if killed == "stopped" {
				return procResult{}
			}
			if killed != "" {
				return procResult{crash: killed, fi: fi, idx: idx}
			}
			var s summary
			if werr == nil && json.Unmarshal(b, &s) == nil {
				return procResult{sum: &s}
			}
			msg := errb.String()
			if i := strings.Index(msg, "\n\n"); i > 0 && i < 600 {
				msg = msg[:i]
			}
			if len(msg) > 600 {
				msg = msg[:600]
			}
			return procResult{crash: fmt.Sprintf("the process died (%v): %s", werr, msg), fi: fi, idx: idx}
		case <-tick.C:
			hb := binary.LittleEndian.Uint64(mm[16:])
			if hb != last {
				last, lastChange = hb, time.Now()
			}
			limit := 60 * time.Second
			if fi := int(binary.LittleEndian.Uint64(mm[0:])) - 1; fi >= 0 && fi < len(fams) && fams[fi].Slow {
				limit = 400 * time.Second
				if fams[fi].Limit > 0 {
					limit = fams[fi].Limit
				}
			}
			if time.Since(lastChange) > limit && hb > 0 {
				killed = fmt.Sprintf("no answer within %v", limit)
				cmd.Process.Kill()
			}
			if rss(cmd.Process.Pid) > 3<<30 {
				killed = "more than 3 GB of memory in use"
				cmd.Process.Kill()
			}
		case <-stop:
			killed = "stopped"
			cmd.Process.Kill()
			stop = nil
		}
	}
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	m := len(b)
	if m > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	if len(b) > 0 {
		l.w.Write(b)
	}
	return m, nil
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// runCheck explores every family of the property in parallel workers.
func runCheck(p *Prop, tier string) int {
	start := time.Now()
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		n, err := strconv.Atoi(s)
		check(err)
		budget = time.Duration(n) * time.Second
	}
	deadline := start.Add(budget)
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	check(err)
	defer os.RemoveAll(dir)
	fams := p.Families(tier)

	var mu sync.Mutex
	var sums []*summary
	var fails []failureMsg
	var notes []string
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for k := 0; k < nWorkers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sf, si := 0, uint64(0)
			for {
				args := []string{"worker", p.ID, tier, strconv.Itoa(k), dir, strconv.FormatInt(deadline.UnixNano(), 10), strconv.Itoa(sf), strconv.FormatUint(si, 10), "-1", "0"}
				res := superviseWorker(p, tier, k, dir, deadline, stop, fams, args)
				if res.sum != nil {
					mu.Lock()
					sums = append(sums, res.sum)
					mu.Unlock()
					f := res.sum.Failure
					if f == nil {
						return
					}
					if confirm(p, tier, k, dir, fams, f, false) {
						mu.Lock()
						fails = append(fails, *f)
						mu.Unlock()
						once.Do(func() { close(stop) })
						return
					}
					mu.Lock()
					notes = append(notes, fmt.Sprintf("unconfirmed: %s#%d %s", f.Family, f.Index, f.Message))
					mu.Unlock()
					for fi := range fams {
						if fams[fi].Name == f.Family {
							sf, si = fi, f.Index+1
						}
					}
					continue
				}
				if res.crash == "" {
					return // stopped
				}
				if res.fi < 0 {
					fmt.Fprintln(os.Stderr, "mc: worker did not start:", res.crash)
					os.Exit(3)
				}
				f := &failureMsg{Family: fams[res.fi].Name, Index: res.idx, Message: res.crash}
				if confirm(p, tier, k, dir, fams, f, true) {
					mu.Lock()
					fails = append(fails, *f)
					mu.Unlock()
					once.Do(func() { close(stop) })
					return
				}
				mu.Lock()
				notes = append(notes, fmt.Sprintf("unconfirmed: %s#%d %s", f.Family, f.Index, f.Message))
				mu.Unlock()
				sf, si = res.fi, res.idx+1
			}
		}(k)
	}
	wg.Wait()

	// evidence
	ev := map[string]any{}
	cov := map[string]any{}
	var evals, trans, traces uint64
	var samples []string
	perFam := map[string]uint64{}
	complete := len(fails) == 0 && len(notes) == 0
	for _, s := range sums {
		evals += s.Evals
		trans += s.Trans
		traces += s.Traces
		if len(samples) < 16 {
			samples = append(samples, s.Samples...)
		}
		if !s.Done {
			complete = false
		}
		for f, n := range s.PerFamily {
			perFam[f] += n
		}
	}
	sort.Strings(samples)
	if len(samples) > 12 {
		// keep some of every family
		seen := map[string]bool{}
		var keep, rest []string
		for _, s := range samples {
			f, _, _ := strings.Cut(s, "#")
			if !seen[f] {
				seen[f] = true
				keep = append(keep, s)
			} else {
				rest = append(rest, s)
			}
		}
		samples = append(keep, rest...)
		if len(samples) > 12 {
			samples = samples[:12]
		}
	}
	spaces := map[string]any{}
	for i := range fams {
		n := fams[i].size(tier)
		spaces[fams[i].Name] = map[string]any{"size": n, "run": perFam[fams[i].Name]}
		if perFam[fams[i].Name] < n {
			complete = false
		}
	}
	states := readSets(dir, "states")
	outcomes := readSets(dir, "outcomes")
	cov["evaluations"] = evals
	cov["distinct_nontrivial"] = states
	cov["rule"] = p.Rule
	cov["samples"] = samples
	cov["exhaustive"] = complete
	cov["families"] = spaces
	cov["distinct_outcomes"] = outcomes
	if p.Level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev["property"] = p.ID
	ev["tier"] = tier
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["seed"] = seed
	ev["level"] = p.Level
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{"the verdict covers the stated bounded spaces only; the seed is unused because nothing is sampled"}, p.Assume...)
	ev["wall_s"] = time.Since(start).Seconds()
	ev["violations"] = len(fails)
	b, err := json.MarshalIndent(ev, "", " ")
	check(err)
	check(os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755))
	check(os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o644))

	fmt.Printf("%s %s: %d executions, %d distinct non-trivial states, %d outcomes, %d transitions, exhaustive=%v, %.1fs\n",
		p.ID, tier, evals, states, outcomes, trans, complete, time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for _, k := range knownFindings(p.ID) {
		fmt.Println("KNOWN-FINDING: property=" + p.ID + " " + k)
	}
	if len(fails) > 0 {
		f := fails[0]
		path := writeReplay(p, tier, f)
		fmt.Println(indent(f.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	return 0
}

func indent(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return "  | " + strings.ReplaceAll(s, "\n", "\n  | ")
}

func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

// confirm re-runs the failing case in fresh processes: alone first, then after
// the history which led to it (the failure may depend on what ran before).
func confirm(p *Prop, tier string, k int, dir string, fams []Family, f *failureMsg, crash bool) bool {
	fi := 0
	for i := range fams {
		if fams[i].Name == f.Family {
			fi = i
		}
	}
	again := func(sf int, si uint64) (bool, string, string) {
		d, err := os.MkdirTemp(dir, "confirm")
		check(err)
		defer os.RemoveAll(d)
		args := []string{"worker", p.ID, tier, strconv.Itoa(k), d, strconv.FormatInt(time.Now().Add(time.Hour).UnixNano(), 10),
			strconv.Itoa(sf), strconv.FormatUint(si, 10), strconv.Itoa(fi), strconv.FormatUint(f.Index, 10)}
		res := superviseWorker(p, tier, k, d, time.Time{}, nil, fams, args)
		if res.crash != "" {
			return true, res.crash, ""
		}
		if res.sum != nil && res.sum.Failure != nil {
			return true, res.sum.Failure.Message, res.sum.Failure.Desc
		}
		return false, "", ""
	}
	hits := 0
	for n := 0; n < 5; n++ {
		began := time.Now()
		ok, msg, desc := again(fi, f.Index)
		if ok {
			hits++
			if f.Message == "" || crash {
				f.Message = msg
			}
			if desc != "" {
				f.Desc = desc
			}
		}
		if n == 0 && ok && (strings.HasPrefix(msg, "no answer") || time.Since(began) > 5*time.Second) {
			break // one confirmation of a hang is enough, or of what takes long
		}
	}
	if hits > 0 {
		if f.Desc == "" {
			f.Desc = describe(p, tier, fi, f.Index)
		}
		return true
	}
	for n := 0; n < 2; n++ {
		if ok, msg, _ := again(0, 0); ok {
			f.Message = "after the previous cases of the same shard: " + msg
			return true
		}
	}
	return false
}

// describe asks a case for its description without keeping its outcome.
func describe(p *Prop, tier string, fi int, idx uint64) string {
	out, _ := exec.Command("timeout", "20", os.Args[0], "describe", p.ID, tier, strconv.Itoa(fi), strconv.FormatUint(idx, 10)).Output()
	return string(out)
}

func writeReplay(p *Prop, tier string, f failureMsg) string {
	dir := filepath.Join(verifDir(), "replays")
	check(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, f.Family, f.Index))
	b, err := json.MarshalIndent(map[string]any{
		"property": p.ID, "tier": tier, "family": f.Family, "index": f.Index,
		"case": f.Desc, "observed": f.Message,
		"replay_cmd": "bash /verif/run.sh replay " + path,
	}, "", " ")
	check(err)
	check(os.WriteFile(path, append(b, '\n'), 0o644))
	return path
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID TIER | replay FILE | list")
		os.Exit(2)
	}
	get := func(id string) *Prop {
		p := props[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "mc: unknown property", id)
			os.Exit(2)
		}
		return p
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(get(os.Args[2]), os.Args[3]))
	case "worker":
		a := os.Args[2:]
		k, _ := strconv.Atoi(a[2])
		dl, _ := strconv.ParseInt(a[4], 10, 64)
		sf, _ := strconv.Atoi(a[5])
		si, _ := strconv.ParseUint(a[6], 10, 64)
		ef, _ := strconv.Atoi(a[7])
		ei, _ := strconv.ParseUint(a[8], 10, 64)
		worker(get(a[0]), a[1], k, a[3], time.Unix(0, dl), sf, si, ef, ei)
	case "instrument":
		instrument(os.Args[2], os.Args[3])
	case "c14job":
		i, _ := strconv.Atoi(os.Args[2])
		c14RunJob(i)
	case "c14alike":
		i, _ := strconv.Atoi(os.Args[2])
		c14RunAlike(i)
	case "c14race":
		i, _ := strconv.Atoi(os.Args[2])
		c14Race(i)
	case "describe":
		a := os.Args[2:]
		quiet()
		fi, _ := strconv.Atoi(a[2])
		ix, _ := strconv.ParseUint(a[3], 10, 64)
		t := newT(a[1])
		fams := get(a[0]).Families(a[1])
		go func() {
			// the description is set before the code under test is called
			time.Sleep(2 * time.Second)
			fmt.Print(t.desc)
			os.Exit(0)
		}()
		debug.SetMaxStack(64 << 20)
		descHook = func(s string) { fmt.Print(s); os.Exit(0) }
		t.run(&fams[fi], ix)
		fmt.Print(t.desc)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		check(err)
		var m struct {
			Property, Tier, Family string
			Index                  uint64
		}
		check(json.Unmarshal(b, &m))
		quiet()
		p := get(m.Property)
		t := newT(m.Tier)
		fams := p.Families(m.Tier)
		for i := range fams {
			if fams[i].Name == m.Family {
				t.run(&fams[i], m.Index)
				fmt.Println("case:", t.desc)
				if t.failure != "" {
					fmt.Println(indent(t.failure))
					fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, os.Args[2])
					os.Exit(1)
				}
				fmt.Println("the property holds on this case")
				return
			}
		}
		fmt.Fprintln(os.Stderr, "mc: no such family", m.Family)
		os.Exit(2)
	case "scan": // development aid: every failure of a property, grouped by family
		quiet()
		p := get(os.Args[2])
		tier := "quick"
		t := newT(tier)
		fams := p.Families(tier)
		for i := range fams {
			if len(os.Args) > 3 && os.Args[3] != fams[i].Name {
				continue
			}
			n, shown := 0, 0
			step := uint64(1)
			if len(os.Args) > 4 {
				step, _ = strconv.ParseUint(os.Args[4], 10, 64)
			}
			for k := uint64(0); k < fams[i].size(tier); k += step {
				t.run(&fams[i], k)
				if t.failure != "" {
					n++
					if shown < 4000 {
						shown++
						fmt.Printf("%s#%d %s\n   %s\n", fams[i].Name, k, t.failure, short(t.desc))
					}
				}
			}
			fmt.Println(fams[i].Name, "failures:", n, "of", fams[i].size(tier)/step)
		}
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, tier := range []string{"quick", "thorough"} {
				tot := uint64(0)
				var parts []string
				for _, f := range props[id].Families(tier) {
					tot += f.size(tier)
					parts = append(parts, fmt.Sprintf("%s=%d", f.Name, f.size(tier)))
				}
				fmt.Println(id, tier, tot, strings.Join(parts, " "))
			}
		}
	default:
		os.Exit(2)
	}
}

var descHook func(string)

// Begin sets the description of the case before anything is executed.
func (t *T) Begin(format string, args ...any) {
	t.desc = fmt.Sprintf(format, args...)
	if descHook != nil {
		descHook(t.desc)
	}
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }
