// Command zzverif is the runtime-monitoring harness. It is compiled into the repository's module
// through 'go build -overlay' and lives in /verif/harness.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one checked property.
type Prop struct {
	ID    string
	Level string
	Rule  string
	Run   func(r *Run)
	Limit time.Duration // no-progress limit of one case (default 240 s)
	Assum []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is what a monitor reports.
type Violation struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Case     int      `json:"case"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	History  []string `json:"history"`
}

// Run is the state of one child process.
type Run struct {
	P         *Prop
	Tier      string
	Seed      int64
	OnlyPart  string
	OnlyCase  int
	Scratch   string
	Self      string
	start     time.Time
	mu        sync.Mutex
	viol      []Violation
	known     map[string]string
	knownHit  map[string]string
	evals     int64
	checks    int64
	distinct  map[string]bool
	counters  map[string]int64
	sets      map[string]map[string]bool
	samples   []any
	stop      atomic.Bool
	harnessEr []string
	truncated atomic.Bool
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the case count of the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Count adds to a named coverage counter.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Seen records a distinct observed value under a name (reported as a cardinality).
func (r *Run) Seen(name, value string) {
	r.mu.Lock()
	m := r.sets[name]
	if m == nil {
		m = map[string]bool{}
		r.sets[name] = m
	}
	if len(m) < 200000 {
		m[value] = true
	}
	r.mu.Unlock()
}

// Case is one generated execution.
type Case struct {
	*Run
	Part   string
	Idx    int
	R      *rand.Rand
	Dir    string
	hmu    sync.Mutex
	hist   []string
	nt     bool
	nops   int
	lastOp atomic.Int64
}

type caseStop struct{}

// Op appends an event to the case's history.
func (c *Case) Op(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	c.hmu.Lock()
	c.nops++
	if len(c.hist) < 4000 {
		c.hist = append(c.hist, s)
	} else {
		copy(c.hist[3000:], c.hist[3001:])
		c.hist[len(c.hist)-1] = s
	}
	c.hmu.Unlock()
	c.lastOp.Store(time.Now().UnixNano())
}

// Nontrivial marks the case as one that reached what the rule asks for.
func (c *Case) Nontrivial() { c.nt = true }

// Checked counts monitor evaluations.
func (c *Case) Checked(n int) { atomic.AddInt64(&c.Run.checks, int64(n)) }

// Fail reports a violation and ends the case. Only call it from the case's own goroutine.
func (c *Case) Fail(sig, format string, a ...any) {
	c.Report(sig, format, a...)
	panic(caseStop{})
}

// Report reports a violation without ending the goroutine.
func (c *Case) Report(sig, format string, a ...any) {
	c.hmu.Lock()
	h := append([]string(nil), c.hist...)
	c.hmu.Unlock()
	c.Run.report(Violation{Property: c.P.ID, Part: c.Part, Case: c.Idx, Sig: sig, Msg: fmt.Sprintf(format, a...), History: h})
}

// Check evaluates one monitor assertion.
func (c *Case) Check(ok bool, sig, format string, a ...any) {
	atomic.AddInt64(&c.Run.checks, 1)
	if !ok {
		c.Fail(sig, format, a...)
	}
}

// Must stops the whole run as a harness error (not a violation).
func (c *Case) Must(err error, what string) {
	if err != nil {
		c.Run.harness(fmt.Sprintf("%s case %d: %s: %v", c.Part, c.Idx, what, err))
		panic(caseStop{})
	}
}

func (r *Run) report(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if d, ok := r.known[v.Sig]; ok {
		r.knownHit[v.Sig] = d
		return
	}
	for _, o := range r.viol {
		if o.Sig == v.Sig {
			return
		}
	}
	r.viol = append(r.viol, v)
	if len(r.viol) >= 4 || os.Getenv("VERIF_KEEPGOING") == "" {
		r.stop.Store(true)
	}
}

func (r *Run) harness(msg string) {
	r.mu.Lock()
	r.harnessEr = append(r.harnessEr, msg)
	r.mu.Unlock()
	r.stop.Store(true)
}

// Parallel runs n seed-determined cases named part on up to workers goroutines.
func (r *Run) Parallel(part string, n, workers int, f func(c *Case)) {
	if r.OnlyPart != "" && r.OnlyPart != part {
		return
	}
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.stop.Load() {
					return
				}
				if r.OnlyCase >= 0 && i != r.OnlyCase {
					continue
				}
				if time.Since(r.start) > r.budget() {
					r.truncated.Store(true)
					return
				}
				r.one(part, i, f)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) budget() time.Duration {
	if r.Thorough() {
		return 720 * time.Second
	}
	return 480 * time.Second
}

func (r *Run) one(part string, i int, f func(c *Case)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", r.P.ID, part, r.Seed, i)
	c := &Case{Run: r, Part: part, Idx: i, R: rand.New(rand.NewSource(int64(h.Sum64())))}
	c.Dir = filepath.Join(r.Scratch, fmt.Sprintf("%s-%d", part, i))
	if err := os.MkdirAll(c.Dir, 0o755); err != nil {
		r.harness("mkdir: " + err.Error())
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(caseStop); ok {
					return
				}
				st := string(debug.Stack())
				if site := repoFrame(st); site != "" {
					c.Report("panic@"+site, "panic in repository code: %v\n%s", e, st)
				} else {
					r.harness(fmt.Sprintf("%s case %d: harness panic: %v\n%s", part, i, e, st))
				}
			}
		}()
		f(c)
	}()
	limit := r.P.Limit
	if limit == 0 {
		limit = 240 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		d1 := allStacks()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			d2 := allStacks()
			sig, why := hangVerdict(d1, d2)
			if sig != "" {
				c.Report(sig, "no progress for %v: %s\n%s", limit, why, clip(d2, 60000))
			} else {
				r.harness(fmt.Sprintf("%s case %d made no progress for %v and no goroutine is in repository code\n%s", part, i, limit, clip(d2, 20000)))
			}
			r.stop.Store(true)
		}
	}
	os.RemoveAll(c.Dir)
	c.hmu.Lock()
	hh := sha256.Sum256([]byte(part + "\x00" + strings.Join(c.hist, "\x00")))
	sample := c.hist
	nt := c.nt
	c.hmu.Unlock()
	r.mu.Lock()
	r.evals++
	if nt {
		r.distinct[hex.EncodeToString(hh[:8])] = true
	}
	if len(r.samples) < 3 && nt || len(r.samples) == 0 {
		if len(sample) > 25 {
			sample = append(append([]string(nil), sample[:25]...), fmt.Sprintf("… %d more events", len(sample)-25))
		}
		r.samples = append(r.samples, map[string]any{"part": part, "case": i, "events": append([]string(nil), sample...)})
	}
	r.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n…"
	}
	return s
}

func allStacks() string {
	buf := make([]byte, 16<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var frameRe = regexp.MustCompile(`(?m)^github\.com/liliang-cn/cortexdb/v2/((?:pkg|internal|cmd)[^\s(]*(?:\(\*[A-Za-z0-9_]+\))?[^\s(]*)\(`)

// repoFrame returns the innermost repository function (not the harness) in a stack.
func repoFrame(stack string) string {
	for _, m := range frameRe.FindAllStringSubmatch(stack, -1) {
		if !strings.HasPrefix(m[1], "internal/zzverif") {
			return m[1]
		}
	}
	return ""
}

// hangVerdict decides whether goroutines that did not move between two dumps sit in repository code.
func hangVerdict(d1, d2 string) (string, string) {
	idRe := regexp.MustCompile(`^goroutine (\d+) \[([^\],]+)`)
	first := map[string]string{}
	for _, g := range strings.Split(d1, "\n\n") {
		if m := idRe.FindStringSubmatch(g); m != nil {
			first[m[1]] = repoFrame(g)
		}
	}
	var blocked []string
	for _, g := range strings.Split(d2, "\n\n") {
		m := idRe.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		f := repoFrame(g)
		if f != "" && first[m[1]] == f {
			blocked = append(blocked, f+" ["+m[2]+"]")
		}
	}
	if len(blocked) == 0 {
		return "", ""
	}
	sort.Strings(blocked)
	return "hang@" + strings.Fields(blocked[0])[0], strings.Join(blocked, "; ")
}

type result struct {
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Harness    []string          `json:"harness_errors"`
	Evals      int64             `json:"evals"`
	Checks     int64             `json:"checks"`
	Distinct   int               `json:"distinct"`
	Counters   map[string]int64  `json:"counters"`
	Sets       map[string]int    `json:"sets"`
	Samples    []any             `json:"samples"`
	Truncated  bool              `json:"truncated"`
}

var (
	fProp  = flag.String("prop", "", "property id")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fSeed  = flag.Int64("seed", 1, "seed")
	fSup   = flag.Bool("supervise", false, "supervise a child")
	fVerif = flag.String("verif", "/verif", "verif directory")
	fRepo  = flag.String("repo", "/repo", "repository")
	fPart  = flag.String("part", "", "only this part")
	fCase  = flag.Int("case", -1, "only this case")
	fRes   = flag.String("result", "", "child: result file")
	fScr   = flag.String("scratch", "", "child: scratch directory")
	fAux   = flag.String("aux", "", "auxiliary process role")
	fAuxA  = flag.String("auxarg", "", "auxiliary process argument")
)

func main() {
	flag.Parse()
	if *fAux != "" {
		auxMain(*fAux, *fAuxA)
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fSup {
		os.Exit(supervise(p))
	}
	r := &Run{P: p, Tier: *fTier, Seed: *fSeed, OnlyPart: *fPart, OnlyCase: *fCase, Scratch: *fScr, start: time.Now(),
		distinct: map[string]bool{}, counters: map[string]int64{}, sets: map[string]map[string]bool{}, known: loadKnown(p.ID), knownHit: map[string]string{}}
	r.Self, _ = os.Executable()
	p.Run(r)
	r.flush()
}

func (r *Run) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := result{Violations: r.viol, Known: r.knownHit, Harness: r.harnessEr, Evals: r.evals, Checks: atomic.LoadInt64(&r.checks), Distinct: len(r.distinct), Counters: r.counters, Sets: map[string]int{}, Samples: r.samples, Truncated: r.truncated.Load()}
	for k, v := range r.sets {
		res.Sets[k] = len(v)
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal result:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(*fRes, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(2)
	}
}

// loadKnown reads known_findings.txt lines "finding: property=<id> sig=<sig> <text>".
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			out[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

func supervise(p *Prop) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "zzverif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	resFile := filepath.Join(scratch, "result.json")
	errFile := filepath.Join(scratch, "stderr")
	raceLog := filepath.Join(scratch, "race")
	ef, err := os.Create(errFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	work := filepath.Join(scratch, "work")
	os.MkdirAll(work, 0o755)
	cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-repo", *fRepo,
		"-part", *fPart, "-case", fmt.Sprint(*fCase), "-result", resFile, "-scratch", work)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog, "GOTRACEBACK=all", "TMPDIR="+work)
	runErr := cmd.Run()
	ef.Close()
	stderrB, _ := os.ReadFile(errFile)
	stderrS := string(stderrB)
	var res result
	rb, rerr := os.ReadFile(resFile)
	haveRes := rerr == nil && json.Unmarshal(rb, &res) == nil
	if res.Counters == nil {
		res.Counters = map[string]int64{}
	}
	known := loadKnown(p.ID)
	add := func(v Violation) {
		if d, ok := known[v.Sig]; ok {
			if res.Known == nil {
				res.Known = map[string]string{}
			}
			res.Known[v.Sig] = d
			return
		}
		res.Violations = append(res.Violations, v)
	}
	// race detector reports
	logs, _ := filepath.Glob(raceLog + "*")
	races := map[string]string{}
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			sig := raceSig(rep)
			if sig == "" {
				res.Harness = append(res.Harness, "race without repository frames:\n"+clip(rep, 4000))
				continue
			}
			if _, ok := races[sig]; !ok {
				races[sig] = rep
			}
			res.Counters["race_reports"]++
		}
	}
	for _, sig := range sortedKeys(races) {
		add(Violation{Property: p.ID, Part: "race-detector", Case: -1, Sig: sig, Msg: races[sig]})
	}
	if !haveRes || runErr != nil {
		fatal := ""
		for _, k := range []string{"panic:", "fatal error:", "SIGSEGV", "unexpected fault address"} {
			if strings.Contains(stderrS, k) {
				fatal = k
				break
			}
		}
		if fatal != "" {
			at := stderrS[strings.Index(stderrS, fatal):]
			first := at
			if i := strings.Index(at, "\n\ngoroutine "); i >= 0 {
				rest := at[i+2:]
				if j := strings.Index(rest, "\n\n"); j >= 0 {
					first = rest[:j]
				} else {
					first = rest
				}
			}
			site := repoFrame(first)
			if site == "" && strings.Contains(fatal, "fatal") {
				site = repoFrame(at)
			}
			if site != "" {
				add(Violation{Property: p.ID, Part: "crash", Case: -1, Sig: "crash@" + site, Msg: "process crashed: " + clip(at, 60000)})
			} else {
				res.Harness = append(res.Harness, "child crashed outside repository code: "+clip(at, 6000))
			}
		} else if !haveRes {
			res.Harness = append(res.Harness, fmt.Sprintf("child ended without a result (%v): %s", runErr, clip(stderrS, 4000)))
		}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]any{"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule, "samples": res.Samples,
		"monitor_checks": res.Checks, "observed": res.Counters, "distinct_observed": res.Sets}
	if res.Samples == nil {
		cov["samples"] = []any{}
	}
	if res.Truncated {
		cov["truncated"] = true
	}
	if len(res.Known) > 0 {
		cov["known_findings_hit"] = len(res.Known)
	}
	ev := map[string]any{"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": level, "coverage": cov,
		"assumptions": append([]string{"modernc.org/sqlite, the Go runtime and the harness model are trusted"}, p.Assum...), "wall_s": time.Since(start).Seconds(), "violations": len(res.Violations)}
	if *fPart == "" && *fCase < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 2
		}
	}
	for _, sig := range sortedKeys(res.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, res.Known[sig])
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor checks, %d violations, %.1fs\n", p.ID, *fTier, *fSeed, res.Evals, res.Distinct, res.Checks, len(res.Violations), time.Since(start).Seconds())
	for _, k := range sortedKeys(res.Counters) {
		fmt.Printf("  %s=%d", k, res.Counters[k])
	}
	for _, k := range sortedKeys(res.Sets) {
		fmt.Printf("  distinct %s=%d", k, res.Sets[k])
	}
	fmt.Println()
	if len(res.Violations) > 0 {
		for i, v := range res.Violations {
			rp := filepath.Join(*fVerif, "replays", fmt.Sprintf("%s-%d-%d.txt", p.ID, *fSeed, i))
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s part %s case %d seed %d sig %s\nreplay: VERIF_SEED=%d bash run.sh %s %s -part %s -case %d\n\n%s\n\nhistory:\n", v.Property, v.Part, v.Case, *fSeed, v.Sig, *fSeed, p.ID, *fTier, v.Part, v.Case, v.Msg)
			for _, h := range v.History {
				sb.WriteString("  " + h + "\n")
			}
			os.WriteFile(rp, []byte(sb.String()), 0o644)
			fmt.Printf("  [%s] %s\n", v.Sig, clip(v.Msg, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		}
		return 1
	}
	if len(res.Harness) > 0 {
		for _, h := range res.Harness {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h)
		}
		return 2
	}
	return 0
}

// raceSig names a race by the two innermost repository functions involved, order-independent.
func raceSig(rep string) string {
	var sites []string
	for _, blk := range strings.Split(rep, "\n\n") {
		b := strings.TrimSpace(blk)
		b = strings.TrimPrefix(b, "WARNING: DATA RACE\n")
		if !(strings.HasPrefix(b, "Read at") || strings.HasPrefix(b, "Write at") || strings.HasPrefix(b, "Previous") || strings.HasPrefix(b, "Atomic")) {
			continue
		}
		for _, l := range strings.Split(b, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/liliang-cn/cortexdb/v2/") && !strings.Contains(l, "internal/zzverif") {
				if i := strings.Index(l, "("); i > 0 {
					sites = append(sites, strings.TrimSuffix(strings.TrimPrefix(l, "github.com/liliang-cn/cortexdb/v2/"), "()"))
				}
				break
			}
		}
	}
	if len(sites) == 0 {
		return ""
	}
	sort.Strings(sites)
	return "race@" + strings.Join(sites, "+")
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func auxMain(role, arg string) {
	f := auxRoles[role]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown role", role)
		os.Exit(2)
	}
	f(arg)
}

var auxRoles = map[string]func(arg string){}
