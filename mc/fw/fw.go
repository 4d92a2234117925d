// Package fw is the driver of the bounded exhaustive explorations: it
// enumerates the cases of a property, runs them in worker processes (so that a
// crash, exit or hang of the code under test is an observation and not the end
// of the check), collects counts, and writes the evidence file.
package fw

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Ctx is what one case sees.
type Ctx struct {
	Tier  string
	Dir   string // scratch directory of this worker
	Desc  string
	Index int64

	states, transitions, traces, execs int64
	outcomes                           map[uint64]struct{}
	caseOutcome                        uint64
	fails                              []Violation
	samples                            []string
	notes                              map[string]int64
}

// Thorough tells which tier is running.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// State counts n distinct explored states (or executions' end states).
func (c *Ctx) State(n int) { c.states += int64(n) }

// Trans counts n explored transitions (operations executed on the real code).
func (c *Ctx) Trans(n int) { c.transitions += int64(n) }

// Trace counts n model traces compared with the implementation.
func (c *Ctx) Trace(n int) { c.traces += int64(n) }

// Note counts a named event (for the evidence file).
func (c *Ctx) Note(name string, n int) {
	if c.notes == nil {
		c.notes = map[string]int64{}
	}
	c.notes[name] += int64(n)
}

// Outcome records an observed outcome; the number of distinct ones is reported.
func (c *Ctx) Outcome(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	c.outcomes[h.Sum64()] = struct{}{}
}

// Sample keeps a few written-out cases for the evidence.
func (c *Ctx) Sample(s string) {
	if len(c.samples) < 3 {
		c.samples = append(c.samples, s)
	}
}

// Violation is one broken case.
type Violation struct {
	Index  int64  `json:"index"`
	Desc   string `json:"desc"`
	Key    string `json:"key"` // stable identification, used by the known-findings file
	Detail string `json:"detail"`
}

// Failf records a violation of the property by the current case. The key
// identifies the failing behaviour together with the case description.
func (c *Ctx) Failf(format string, args ...any) {
	if len(c.fails) < 4 {
		c.fails = append(c.fails, Violation{c.Index, c.Desc, c.Desc, fmt.Sprintf(format, args...)})
	}
}

// Failed tells whether the current case has already failed.
func (c *Ctx) Failed() bool { return len(c.fails) > 0 }

// Yield is given each case: a lazily computed description and the body.
type Yield func(desc func() string, run func(*Ctx))

// Prop is one property's check.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Bounds      func(tier string) string
	Enumerate   func(tier string, y Yield)
	// Workers caps the number of worker processes (0: one per core).
	Workers int
	// MemLimitMB is the address-space limit of a worker (0: none).
	MemLimitMB int
	// DeathOK, if set, classifies a worker death; "" means it is a violation,
	// anything else is counted under that name and ignored.
	DeathOK func(stderr string) string
	// CaseCPU is the CPU time in seconds after which a case counts as not
	// terminating (0: 120).
	CaseCPU int
}

var props = map[string]*Prop{}

// Register adds a property to the binary.
func Register(p *Prop) { props[p.ID] = p }

type delta struct {
	Cases, States, Trans, Traces int64
	Outcomes                     []uint64
	Samples                      []string
	Notes                        map[string]int64
	Viol                         []Violation
	Done                         bool
	Total                        int64
	Capped                       bool
}

const (
	exitHang = 97
)

func scratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		p, err := os.MkdirTemp(d, "verifmc-")
		if err == nil {
			return p
		}
	}
	panic("no scratch directory")
}

// Main is the entry point.
func Main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		worker   = flag.String("worker", "", "internal: i/n")
		start    = flag.Int64("start", 0, "internal: first index")
		only     = flag.Int64("only", -1, "run a single case")
		progress = flag.String("progress", "", "internal")
		dir      = flag.String("dir", "", "internal: scratch directory")
		verif    = flag.String("verif", "/verif", "verif directory")
		budget   = flag.Int("budget", 0, "seconds after which exploration stops (not exhaustive)")
		list     = flag.Bool("list", false, "list cases")
		replay   = flag.String("replay", "", "replay file")
		nw       = flag.Int("workers", 0, "worker processes")
		grep     = flag.String("grep", "", "with -list or alone: only cases whose description contains this")
		maxviol  = flag.Int("maxviol", 20, "stop after this many violations")
		short    = flag.Bool("short", false, "with -summary: leave out what comes before the first colon")
		summary  = flag.Bool("summary", false, "print violations by kind (with digits and quoted text removed) instead of one by one")
	)
	flag.Parse()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct {
			Property, Tier string
			Index          int64
			Desc           string
		}
		json.Unmarshal(b, &r)
		*prop, *tier, *only = r.Property, r.Tier, r.Index
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("no such property", *prop)
		os.Exit(2)
	}
	if *list {
		i := int64(0)
		p.Enumerate(*tier, func(d func() string, _ func(*Ctx)) {
			s := d()
			if strings.Contains(s, *grep) {
				fmt.Println(i, s)
			}
			i++
		})
		return
	}
	if *worker != "" {
		runWorker(p, *tier, *worker, *start, *only, *progress, *dir, *budget, *grep)
		return
	}
	summaryOnly, shortKinds = *summary, *short
	os.Exit(coordinate(p, *tier, *verif, *budget, *nw, *only, *grep, *maxviol))
}

var summaryOnly, shortKinds bool

var reNoise = regexp.MustCompile(`"[^"]*"|[0-9]+`)

func kinds(vs []Violation) {
	type k struct {
		n     int
		first Violation
	}
	m := map[string]*k{}
	for _, v := range vs {
		key := v.Detail
		if len(key) > 300 {
			key = key[:300]
		}
		key = reNoise.ReplaceAllString(strings.SplitN(key, "\n", 2)[0], "#")
		if k := strings.Index(key, ": "); shortKinds && k >= 0 {
			key = key[k:]
		}
		if m[key] == nil {
			m[key] = &k{0, v}
		}
		m[key].n++
	}
	var keys []string
	for key := range m {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool { return m[keys[i]].n > m[keys[j]].n })
	for i, key := range keys {
		if i >= 60 {
			fmt.Printf("... %d more kinds\n", len(keys)-i)
			break
		}
		d := m[key].first.Detail
		if len(d) > 900 {
			d = d[:900] + "..."
		}
		fmt.Printf("%6d x %s\n       e.g. case %d: %s\n       %s\n", m[key].n, key, m[key].first.Index, m[key].first.Desc, d)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func runWorker(p *Prop, tier, shard string, start, only int64, progress, dir string, budget int, grep string) {
	debug.SetGCPercent(200)
	var me, n int64
	fmt.Sscanf(shard, "%d/%d", &me, &n)
	if p.MemLimitMB > 0 {
		l := uint64(p.MemLimitMB) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: l, Max: l})
	}
	runtime.GOMAXPROCS(2)
	pf, err := os.OpenFile(progress, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	ctx := &Ctx{Tier: tier, Dir: dir, outcomes: map[uint64]struct{}{}}
	// Results go to the original stdout; anything the code under test prints is dropped.
	out := bufio.NewWriterSize(os.NewFile(3, "results"), 1<<16)
	enc := json.NewEncoder(out)
	sent := map[uint64]struct{}{}
	var cases int64
	var viols []Violation
	flush := func(done bool, total int64, capped bool) {
		d := delta{Cases: cases, States: ctx.states, Trans: ctx.transitions, Traces: ctx.traces,
			Samples: ctx.samples, Notes: ctx.notes, Viol: viols, Done: done, Total: total, Capped: capped}
		for h := range ctx.outcomes {
			if _, has := sent[h]; !has {
				sent[h] = struct{}{}
				d.Outcomes = append(d.Outcomes, h)
			}
		}
		enc.Encode(d)
		out.Flush()
		cases, ctx.states, ctx.transitions, ctx.traces, viols = 0, 0, 0, 0, nil
		ctx.notes = nil
		ctx.outcomes = map[uint64]struct{}{}
		if len(ctx.samples) > 0 {
			ctx.samples = make([]string, 0)
			for range 3 {
				ctx.samples = append(ctx.samples, "") // no more samples from this worker
			}
		}
	}
	// watchdog
	var mu sync.Mutex
	caseStartCPU, caseStartWall := cpuSeconds(), time.Now()
	limit := float64(p.CaseCPU)
	if limit == 0 {
		limit = 120
	}
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			c, w := cpuSeconds()-caseStartCPU, time.Since(caseStartWall)
			mu.Unlock()
			if c > limit || w > 300*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG: case did not finish (cpu %.0fs wall %.0fs)\n%s\n", c, w.Seconds(), buf)
				os.Exit(exitHang)
			}
		}
	}()
	begin := time.Now()
	lastFlush := begin
	idx := int64(-1)
	capped := false
	var total int64
	p.Enumerate(tier, func(desc func() string, run func(*Ctx)) {
		idx++
		total = idx + 1
		if only >= 0 && idx != only {
			return
		}
		if only < 0 && (idx%n != me || idx < start) {
			return
		}
		if grep != "" && !strings.Contains(desc(), grep) {
			return
		}
		if capped {
			return
		}
		if budget > 0 && time.Since(begin) > time.Duration(budget)*time.Second {
			capped = true
			return
		}
		var b [8]byte
		for i := range 8 {
			b[i] = byte(idx >> (8 * i))
		}
		pf.WriteAt(b[:], 0)
		mu.Lock()
		caseStartCPU, caseStartWall = cpuSeconds(), time.Now()
		mu.Unlock()
		ctx.Index, ctx.Desc = idx, desc()
		ctx.fails = nil
		run(ctx)
		cases++
		if cases == 1 || ctx.fails != nil {
			viols = append(viols, ctx.fails...)
		}
		if len(ctx.fails) > 0 || time.Since(lastFlush) > time.Second {
			flush(false, 0, false)
			lastFlush = time.Now()
		}
	})
	flush(true, total, capped)
	os.Exit(0)
}

type finding struct {
	prop, key, text, what string
}

func loadFindings(path string) []finding {
	var fs []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		// finding: property=C17 key="..." what
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property=")
		sp := strings.IndexByte(rest, ' ')
		f := finding{prop: rest[:sp]}
		rest = strings.TrimSpace(rest[sp:])
		rest = strings.TrimPrefix(rest, "key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		f.key, _ = strconv.Unquote(q)
		rest = strings.TrimSpace(rest[len(q):])
		if r, has := strings.CutPrefix(rest, "text="); has {
			// only violations that say so
			q, err := strconv.QuotedPrefix(r)
			if err != nil {
				continue
			}
			f.text, _ = strconv.Unquote(q)
			rest = strings.TrimSpace(r[len(q):])
		}
		f.what = rest
		fs = append(fs, f)
	}
	return fs
}

func coordinate(p *Prop, tier, verif string, budget, nw int, only int64, grep string, maxviol int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if p.Workers > 0 && nw > p.Workers {
		nw = p.Workers
	}
	if only >= 0 {
		nw = 1
	}
	root := scratchRoot()
	defer os.RemoveAll(root)
	self, _ := os.Executable()
	var mu sync.Mutex
	var agg delta
	agg.Notes = map[string]int64{}
	outs := map[uint64]struct{}{}
	var viols []Violation
	var broken []string
	total := int64(0)
	stop := make(chan struct{})
	var stopOnce sync.Once
	runShard := func(i int) {
		start := int64(0)
		for {
			dir := filepath.Join(root, fmt.Sprint("w", i))
			os.MkdirAll(dir, 0o700)
			prog := filepath.Join(root, fmt.Sprint("p", i))
			os.Remove(prog)
			args := []string{"-prop", p.ID, "-tier", tier, "-worker", fmt.Sprintf("%d/%d", i, nw),
				"-start", fmt.Sprint(start), "-progress", prog, "-dir", dir, "-only", fmt.Sprint(only), "-grep", grep}
			if budget > 0 {
				left := budget - int(time.Since(t0).Seconds())
				if left < 1 {
					left = 1
				}
				args = append(args, "-budget", fmt.Sprint(left))
			}
			cmd := exec.Command(self, args...)
			r, w, _ := os.Pipe()
			cmd.ExtraFiles = []*os.File{w}
			errf, _ := os.Create(filepath.Join(root, fmt.Sprint("e", i)))
			cmd.Stderr = errf
			cmd.Stdout = nil
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Dir = dir
			if err := cmd.Start(); err != nil {
				mu.Lock()
				broken = append(broken, err.Error())
				mu.Unlock()
				return
			}
			w.Close()
			exited := make(chan struct{})
			go func() {
				select {
				case <-stop:
					cmd.Process.Kill()
				case <-exited:
				}
			}()
			done := false
			dec := json.NewDecoder(bufio.NewReader(r))
			for {
				var d delta
				if err := dec.Decode(&d); err != nil {
					break
				}
				mu.Lock()
				agg.Cases += d.Cases
				agg.States += d.States
				agg.Trans += d.Trans
				agg.Traces += d.Traces
				for k, v := range d.Notes {
					agg.Notes[k] += v
				}
				for _, h := range d.Outcomes {
					outs[h] = struct{}{}
				}
				for _, s := range d.Samples {
					if s != "" && len(agg.Samples) < 6 {
						agg.Samples = append(agg.Samples, s)
					}
				}
				viols = append(viols, d.Viol...)
				if d.Done {
					done = true
					total = d.Total
					agg.Capped = agg.Capped || d.Capped
				}
				if len(viols) >= maxviol*50 && !summaryOnly {
					stopOnce.Do(func() { close(stop) })
				}
				mu.Unlock()
			}
			cmd.Wait()
			close(exited)
			r.Close()
			errf.Close()
			os.RemoveAll(dir)
			if done {
				return
			}
			select {
			case <-stop:
				return
			default:
			}
			// The worker died: an observation about the case it was running.
			b, _ := os.ReadFile(prog)
			eb, _ := os.ReadFile(filepath.Join(root, fmt.Sprint("e", i)))
			tail := string(eb)
			if len(tail) > 3000 {
				tail = tail[:1500] + "\n...\n" + tail[len(tail)-1500:]
			}
			mu.Lock()
			if len(b) < 8 {
				broken = append(broken, "worker died before its first case: "+cmd.ProcessState.String()+"\n"+tail)
				mu.Unlock()
				return
			}
			idx := int64(0)
			for k := range 8 {
				idx |= int64(b[k]) << (8 * k)
			}
			class := ""
			if p.DeathOK != nil {
				class = p.DeathOK(string(eb))
			}
			if class != "" {
				agg.Notes[class]++
			} else {
				desc := caseDesc(p, tier, idx)
				viols = append(viols, Violation{Index: idx, Desc: desc, Key: desc,
					Detail: "process ended (" + cmd.ProcessState.String() + ") during this case: " + deathCause(string(eb)) + "\n" + tail})
			}
			agg.Cases++
			nviol := len(viols)
			mu.Unlock()
			if only >= 0 || nviol > maxviol*50 && !summaryOnly {
				return
			}
			start = idx + 1
		}
	}
	var wg sync.WaitGroup
	for i := range nw {
		wg.Add(1)
		go func() { defer wg.Done(); runShard(i) }()
	}
	wg.Wait()

	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	findings := loadFindings(filepath.Join(verif, "known-findings.txt"))
	seenFinding := map[string]bool{}
	var real []Violation
	for _, v := range viols {
		known := false
		for _, f := range findings {
			if f.prop == p.ID && f.key == v.Key && strings.Contains(v.Detail, f.text) {
				known = true
				if !seenFinding[f.key] {
					seenFinding[f.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.ID, f.what, f.key)
				}
			}
		}
		if !known {
			real = append(real, v)
		}
	}
	// Confirm each violation by itself in a fresh process before reporting it.
	exhaustive := !agg.Capped && only < 0 && grep == "" && len(real) == 0
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"wall_s": 0.0, "violations": len(real),
		"assumptions": p.Assumptions,
	}
	states := agg.States
	cov := map[string]any{
		"exhaustive": exhaustive,
		"rule":       p.Rule,
		"bounds":     p.Bounds(tier),
		"samples":    agg.Samples,
	}
	if states == 0 {
		// the states of this property are the distinct results it reached
		states = int64(len(outs))
	} else {
		cov["distinct_outcomes"] = len(outs)
	}
	if agg.Cases != agg.Traces {
		cov["cases"] = agg.Cases
	}
	if agg.Cases != total {
		cov["cases_in_space"] = total
	}
	cov["states"] = states
	cov["transitions"] = agg.Trans
	cov["traces_validated_against_impl"] = agg.Traces
	for k, v := range agg.Notes {
		cov["n_"+k] = v
	}
	ev["coverage"] = cov
	ev["wall_s"] = time.Since(t0).Seconds()
	if only < 0 && grep == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		eb, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(eb, '\n'), 0o644)
	}
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d distinct_outcomes=%d exhaustive=%v violations=%d wall=%.1fs notes=%v\n",
		p.ID, tier, agg.Cases, total, states, agg.Trans, agg.Traces, len(outs), exhaustive, len(real), time.Since(t0).Seconds(), agg.Notes)
	if len(broken) > 0 && len(real) == 0 {
		fmt.Println("CHECK BROKEN:", broken[0])
		return 2
	}
	if summaryOnly {
		kinds(real)
		return 1
	}
	if len(real) > 0 {
		rdir := filepath.Join(verif, "replays")
		os.MkdirAll(rdir, 0o755)
		for i, v := range real {
			if i >= maxviol {
				fmt.Printf("... and %d more\n", len(real)-i)
				break
			}
			rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", p.ID, tier, v.Index))
			rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "tier": tier, "index": v.Index,
				"desc": v.Desc, "detail": v.Detail,
				"how": "bash /verif/run.sh --replay " + rp}, "", " ")
			os.WriteFile(rp, rb, 0o644)
			det := v.Detail
			if len(det) > 600 {
				det = det[:600] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  case %d: %s\n  %s\n", p.ID, rp, v.Index, v.Desc, det)
		}
		return 1
	}
	return 0
}

// deathCause gives the reason and the place from what a dead worker wrote.
func deathCause(stderr string) string {
	var reason, place string
	for _, l := range strings.Split(stderr, "\n") {
		if reason == "" && (strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "HANG:") || strings.Contains(l, "FATAL")) {
			reason = l
		}
		if place == "" && strings.HasPrefix(l, "github.com/batchatco/go-native-netcdf/") && !strings.Contains(l, "/verifmc/") && strings.Contains(l, "(") {
			place = l[:strings.LastIndexByte(l, '(')]
		}
	}
	if reason == "" {
		reason = strings.SplitN(stderr, "\n", 2)[0]
	}
	return reason + " at " + place
}

func caseDesc(p *Prop, tier string, want int64) (s string) {
	i := int64(0)
	type found struct{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(found); !ok {
				panic(r)
			}
		}
	}()
	p.Enumerate(tier, func(d func() string, _ func(*Ctx)) {
		if i == want {
			s = d()
			panic(found{})
		}
		i++
	})
	return s
}
