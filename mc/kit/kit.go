// Package kit runs a bounded exhaustive enumeration of cases against the real code.
//
// The enumeration is deterministic: every worker process walks through all cases and
// executes those of its shard. A worker that dies or hangs in a case is a violation of
// that case; the parent confirms it by running the case alone.
package kit

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Levels of the evidence schema.
const (
	ModelChecking    = "model_checking"
	Exploration      = "exploration"
	FaultEnumeration = "fault_enumeration"
)

// Violation is one failing case.
type Violation struct {
	Key        string `json:"key"`
	Message    string `json:"message"`
	Case       int64  `json:"case"`
	Reproduced int    `json:"reproduced"`
	Runs       int    `json:"runs"`
}

// Run is the state of one worker.
type Run struct {
	ID       string
	Thorough bool
	Scratch  string // empty directory of this worker

	shard, shards int
	only          int64
	onlyKey       string
	skip          map[int64]bool
	n             int64
	executed      int64
	evals         int64
	trans         int64
	traces        int64
	distinct      map[uint64]struct{}
	states        map[uint64]struct{}
	samples       []interface{}
	sections      map[string]int64
	section       string
	notes         map[string]interface{}
	violations    []Violation
	known         map[string]string
	knownHit      map[string]string
	deadline      time.Time
	capped        bool
	progress      []byte
	dirN          int
	flaky         []string
	looked        time.Time
}

type result struct {
	N, Executed, Evals, Trans, Traces int64
	Samples                           []interface{}
	Sections                          map[string]int64
	Notes                             map[string]interface{}
	Violations                        []Violation
	KnownHit                          map[string]string
	Capped                            bool
	Flaky                             []string
}

// Config describes a check.
type Config struct {
	ID, Level   string
	Rule        string
	Assumptions []string
	Shards      int           // worker processes, default NumCPU
	CaseTimeout time.Duration // a case which takes longer is a hang, default 90s
	Budget      time.Duration // wall time per worker, default 500s quick, 3000s thorough
	Body        func(r *Run)
	Loud        bool // keep log output
}

const slotSize = 8192

// Main is the entry point of a check.
func Main(c Config) {
	if c.Shards == 0 {
		c.Shards = runtime.NumCPU()
	}
	if s := os.Getenv("KIT_SHARDS"); s != "" {
		c.Shards, _ = strconv.Atoi(s)
	}
	if c.CaseTimeout == 0 {
		c.CaseTimeout = 90 * time.Second
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if c.Budget == 0 {
		c.Budget = 500 * time.Second
		if thorough {
			c.Budget = 3600 * time.Second
		}
	}
	if os.Getenv("KIT_CHILD") != "" {
		child(c, thorough)
		return
	}
	parent(c, thorough)
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		l := s.Text()
		p := "finding: property=" + id + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		kv := strings.SplitN(l[len(p):], " :: ", 2)
		if len(kv) == 2 {
			out[kv[0]] = kv[1]
		}
	}
	return out
}

func child(c Config, thorough bool) {
	r := &Run{ID: c.ID, Thorough: thorough, distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{},
		sections: map[string]int64{}, notes: map[string]interface{}{}, known: loadKnown(c.ID), knownHit: map[string]string{},
		skip: map[int64]bool{}, only: -1}
	r.shard, _ = strconv.Atoi(os.Getenv("KIT_SHARD"))
	r.shards = c.Shards
	if s := os.Getenv("KIT_ONLY"); s != "" {
		r.only, _ = strconv.ParseInt(s, 10, 64)
	}
	r.onlyKey = os.Getenv("KIT_KEY")
	for _, s := range strings.Split(os.Getenv("KIT_SKIP"), ",") {
		if s != "" {
			n, _ := strconv.ParseInt(s, 10, 64)
			r.skip[n] = true
		}
	}
	r.deadline = time.Now().Add(c.Budget)
	r.Scratch = filepath.Join(os.Getenv("KIT_DIR"), fmt.Sprintf("w%d", r.shard))
	must(os.RemoveAll(r.Scratch))
	must(os.MkdirAll(r.Scratch, 0755))
	must(os.Chdir(r.Scratch))
	pf, err := os.OpenFile(filepath.Join(os.Getenv("KIT_DIR"), fmt.Sprintf("progress%d", r.shard)), os.O_RDWR|os.O_CREATE, 0644)
	must(err)
	must(pf.Truncate(slotSize))
	r.progress, err = syscall.Mmap(int(pf.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	if !c.Loud && os.Getenv("KIT_LOUD") == "" {
		log.SetOutput(io.Discard)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stop); !ok {
					panic(p)
				}
			}
		}()
		c.Body(r)
	}()
	binary.LittleEndian.PutUint64(r.progress, ^uint64(0))
	res := result{r.n, r.executed, r.evals, r.trans, r.traces, r.samples, r.sections, r.notes, r.violations, r.knownHit, r.capped, r.flaky}
	base := filepath.Join(os.Getenv("KIT_DIR"), fmt.Sprintf("out%d", r.shard))
	dump(base+".distinct", r.distinct)
	dump(base+".states", r.states)
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(base+".json", b, 0644))
	os.Exit(0)
}

func dump(name string, m map[uint64]struct{}) {
	f, err := os.Create(name)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	var b [8]byte
	for h := range m {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	must(w.Flush())
	must(f.Close())
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit:", err)
		os.Exit(3)
	}
}

type stop struct{}

// Section names the cases which follow, for the evidence.
func (r *Run) Section(s string) {
	if os.Getenv("KIT_TIMES") != "" && r.shard == 0 {
		f, _ := os.OpenFile(os.Getenv("KIT_TIMES"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		fmt.Fprintf(f, "%q until %v left\n", r.section, time.Until(r.deadline).Round(time.Millisecond))
		f.Close()
	}
	r.section = s
}

// Check executes one case. key identifies the case for replay; f returns nil when the
// property holds. f must set up everything it needs itself and may be run again.
func (r *Run) Check(key string, f func() error) {
	n := r.n
	r.n++
	if r.onlyKey != "" {
		if key != r.onlyKey {
			return
		}
	} else if r.only >= 0 {
		if n != r.only {
			return
		}
	} else {
		if int(n%int64(r.shards)) != r.shard || r.skip[n] {
			return
		}
		if time.Now().After(r.deadline) {
			r.capped = true
			panic(stop{})
		}
		if time.Since(r.looked) > time.Second {
			r.looked = time.Now()
			if since, ok := sinceFirst(os.Getenv("KIT_DIR")); ok && since > grace {
				r.capped = true
				panic(stop{})
			}
		}
	}
	copy(r.progress[16:], key)
	if len(key) < slotSize-16 {
		r.progress[16+len(key)] = 0
	}
	binary.LittleEndian.PutUint64(r.progress, uint64(n))
	r.executed++
	r.sections[r.section]++
	r.distinct[Hash(r.section, key)] = struct{}{}
	if e := r.sections[r.section]; r.shard == 0 && e == 1 || r.shard == 1 && e == 40 || r.shard == 2 && e == 5000 {
		if len(r.samples) < 40 {
			r.samples = append(r.samples, r.section+": "+key)
		}
	}
	began := time.Now()
	err := guard(f)
	if s := os.Getenv("KIT_SLOW"); s != "" && time.Since(began) > time.Second {
		f, _ := os.OpenFile(s, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		fmt.Fprintf(f, "%v %s\n", time.Since(began).Round(time.Millisecond), key)
		f.Close()
	}
	if err == nil {
		return
	}
	v := Violation{Key: key, Message: err.Error(), Case: n, Reproduced: 1, Runs: 1}
	for i := 0; i < 4 && (i == 0 || time.Since(began) < 30*time.Second); i++ {
		v.Runs++
		if guard(f) != nil {
			v.Reproduced++
		}
	}
	if v.Reproduced == 1 {
		r.flaky = append(r.flaky, key+": "+v.Message)
		if len(r.flaky) < 2 {
			return
		}
	}
	if what, ok := r.known[key]; ok {
		r.knownHit[key] = what
		return
	}
	r.violations = append(r.violations, v)
	first(os.Getenv("KIT_DIR"))
	if len(r.violations) >= 5 || r.only >= 0 || r.onlyKey != "" {
		panic(stop{})
	}
}

// grace is how long the workers go on after the first violation.
const grace = 15 * time.Second

// sinceFirst tells how long ago a worker saw the first violation.
func sinceFirst(dir string) (time.Duration, bool) {
	fi, err := os.Stat(filepath.Join(dir, "found"))
	if err != nil {
		return 0, false
	}
	return time.Since(fi.ModTime()), true
}

// first notes that a violation was seen, and leaves the file KIT_FIRST for callers which
// want no more.
func first(dir string) {
	if _, ok := sinceFirst(dir); !ok {
		os.WriteFile(filepath.Join(dir, "found"), nil, 0644)
	}
	if s := os.Getenv("KIT_FIRST"); s != "" {
		os.WriteFile(s, nil, 0644)
	}
}

func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	return f()
}

// Try runs f and turns a panic into an error (with ok=false).
func Try(f func()) (err error) {
	return guard(func() error { f(); return nil })
}

// Eval counts evaluations inside a case.
func (r *Run) Eval(n int) { r.evals += int64(n) }

// Distinct counts one distinct evaluated input, given its hash.
func (r *Run) Distinct(h uint64) { r.distinct[h] = struct{}{} }

// State records a reached state, given its hash.
const maxStates = 3 << 20

func (r *Run) State(h uint64) {
	if len(r.states) < maxStates { // more are not counted
		r.states[h] = struct{}{}
	}
}

// Trans counts n transitions.
func (r *Run) Trans(n int) { r.trans += int64(n) }

// Trace counts one execution compared with the implementation.
func (r *Run) Trace() { r.traces++ }

// Sample keeps a written-out case.
func (r *Run) Sample(s interface{}) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
}

// Note adds a value to the evidence.
func (r *Run) Note(k string, v interface{}) { r.notes[k] = v }

// MaxNote keeps the largest value.
func (r *Run) MaxNote(k string, v int) {
	if o, ok := r.notes[k].(int); !ok || o < v {
		r.notes[k] = v
	}
}

// Capped says that a bound was not reached.
func (r *Run) Capped() { r.capped = true }

// Left is the time left.
func (r *Run) Left() time.Duration { return time.Until(r.deadline) }

// Dir returns an empty directory. It is removed by the next call of Dir with the same name.
func (r *Run) Dir(name string) string {
	d := filepath.Join(r.Scratch, name)
	must(os.RemoveAll(d))
	must(os.MkdirAll(d, 0755))
	return d
}

// Hash hashes strings.
func Hash(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		io.WriteString(h, x)
		h.Write([]byte{0xff, 0})
	}
	return h.Sum64()
}

// HashB hashes bytes.
func HashB(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Quick picks a bound by tier.
func Pick[T any](r *Run, quick, thorough T) T {
	if r.Thorough {
		return thorough
	}
	return quick
}

// ---------------------------------------------------------------- parent

type worker struct {
	shard   int
	skip    []int64
	crashes int
	res     *result
}

func parent(c Config, thorough bool) {
	start := time.Now()
	dir := os.Getenv("KIT_DIR")
	if dir == "" {
		var err error
		dir, err = os.MkdirTemp("", "kit")
		must(err)
		defer os.RemoveAll(dir)
	}
	os.Remove(filepath.Join(dir, "found"))
	self, err := os.Executable()
	must(err)
	if k := os.Getenv("KIT_KEY"); k != "" {
		c.Shards = 1
	}

	var crashed []Violation
	ch := make(chan *worker)
	for i := 0; i < c.Shards; i++ {
		w := &worker{shard: i}
		go func() {
			for {
				died, n, msg := runChild(c, self, dir, w, -1)
				key := readKey(filepath.Join(dir, fmt.Sprintf("progress%d", w.shard)))
				if !died {
					break
				}
				w.crashes++
				// confirm by running the case alone
				v := Violation{Case: n, Message: msg, Runs: 1, Reproduced: 1}
				if n >= 0 {
					for k := 0; k < 2; k++ {
						v.Runs++
						d, _, m := runChild(c, self, dir, w, n)
						if d {
							v.Reproduced++
							v.Message = m
						} else if w.res != nil && len(w.res.Violations) > 0 {
							v.Reproduced++
						}
					}
					v.Key = key
					w.skip = append(w.skip, n)
				}
				v.Message = "the process died or hung: " + v.Message
				w.res = nil
				chCrash(&crashed, v)
				if v.Reproduced > 1 {
					first(dir)
					break
				}
				if w.crashes >= 3 || n < 0 {
					break
				}
			}
			ch <- w
		}()
	}
	var all []*worker
	for i := 0; i < c.Shards; i++ {
		all = append(all, <-ch)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].shard < all[j].shard })

	sum := result{Sections: map[string]int64{}, Notes: map[string]interface{}{}, KnownHit: map[string]string{}}
	distinct, states := map[uint64]struct{}{}, map[uint64]struct{}{}
	complete := true
	for _, w := range all {
		if w.res == nil {
			complete = false
			continue
		}
		r := w.res
		if r.N > sum.N {
			sum.N = r.N
		}
		sum.Executed += r.Executed
		sum.Evals += r.Evals
		sum.Trans += r.Trans
		sum.Traces += r.Traces
		for _, s := range r.Samples {
			if len(sum.Samples) < 60 {
				sum.Samples = append(sum.Samples, s)
			}
		}
		for k, v := range r.Sections {
			sum.Sections[k] += v
		}
		for k, v := range r.Notes {
			if f, ok := v.(float64); ok {
				if o, ok := sum.Notes[k].(float64); ok && o > f {
					continue
				}
			}
			sum.Notes[k] = v
		}
		sum.Violations = append(sum.Violations, r.Violations...)
		sum.Flaky = append(sum.Flaky, r.Flaky...)
		for k, v := range r.KnownHit {
			sum.KnownHit[k] = v
		}
		if r.Capped || len(w.skip) > 0 {
			complete = false
		}
		load(filepath.Join(dir, fmt.Sprintf("out%d.distinct", w.shard)), distinct)
		load(filepath.Join(dir, fmt.Sprintf("out%d.states", w.shard)), states)
	}
	for _, v := range crashed {
		if v.Reproduced < 2 && v.Case >= 0 {
			sum.Flaky = append(sum.Flaky, v.Key+": "+v.Message)
			if !strings.Contains(v.Message, "panic") && !strings.Contains(v.Message, "fatal error") && !strings.Contains(v.Message, "exit status 1") {
				continue // ended from outside, e.g. out of memory
			}
		}
		sum.Violations = append(sum.Violations, v)
	}
	sort.Slice(sum.Violations, func(i, j int) bool { return sum.Violations[i].Case < sum.Violations[j].Case })

	if os.Getenv("KIT_KEY") == "" && len(sum.Violations) == 0 && sum.Executed == 0 {
		fmt.Fprintln(os.Stderr, "kit: nothing was executed")
		os.Exit(2)
	}

	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"samples": sum.Samples, "sections": sum.Sections, "exhaustive": complete && len(sum.Violations) == 0,
		"rule": c.Rule, "cases_in_the_bounded_space": sum.N, "cases_executed": sum.Executed, "workers": c.Shards,
	}
	for k, v := range sum.Notes {
		cov[k] = v
	}
	if len(sum.Flaky) > 0 {
		cov["not_reproduced"] = sum.Flaky
	}
	if c.Level == ModelChecking {
		cov["states"] = len(states)
		cov["transitions"] = sum.Trans
		cov["traces_validated_against_impl"] = sum.Traces
		cov["distinct_cases"] = len(distinct)
	} else {
		cov["evaluations"] = sum.Executed + sum.Evals
		cov["distinct_nontrivial"] = len(distinct)
	}
	vdir := os.Getenv("VERIF_DIR")
	evDir := filepath.Join(vdir, "evidence")
	os.MkdirAll(evDir, 0755)
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(sum.Violations),
	}
	if os.Getenv("KIT_KEY") == "" {
		b, err := json.MarshalIndent(ev, "", " ")
		must(err)
		must(os.WriteFile(filepath.Join(evDir, c.ID+".json"), b, 0644))
	}

	var hits []string
	for k := range sum.KnownHit {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	for _, k := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.ID, sum.KnownHit[k], k)
	}
	for i, v := range sum.Violations {
		if i == 5 {
			break
		}
		rp := filepath.Join(evDir, fmt.Sprintf("%s.violation%d.json", c.ID, i))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.ID, "key": v.Key, "case": v.Case, "tier": tier, "message": v.Message,
			"reproduced": fmt.Sprintf("%d of %d runs", v.Reproduced, v.Runs),
			"how":        "./replay.sh " + rp,
		}, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		m := v.Message
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("  case: %s\n  %s\n", v.Key, strings.ReplaceAll(m, "\n", "\n  "))
	}
	if len(sum.Violations) > 0 {
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s executed=%d evaluations=%d distinct=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n",
		c.ID, tier, sum.Executed, sum.Executed+sum.Evals, len(distinct), len(states), sum.Trans, complete, time.Since(start).Seconds())
	os.Exit(0)
}

var crashMu = make(chan struct{}, 1)

func chCrash(l *[]Violation, v Violation) {
	crashMu <- struct{}{}
	*l = append(*l, v)
	<-crashMu
}

func load(name string, m map[uint64]struct{}) {
	b, err := os.ReadFile(name)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// runChild runs one worker. only >= 0 runs that case alone.
func runChild(c Config, self, dir string, w *worker, only int64) (died bool, n int64, msg string) {
	outName := filepath.Join(dir, fmt.Sprintf("out%d.json", w.shard))
	prName := filepath.Join(dir, fmt.Sprintf("progress%d", w.shard))
	errName := filepath.Join(dir, fmt.Sprintf("stderr%d", w.shard))
	os.Remove(outName)
	os.Remove(prName)
	must(os.WriteFile(prName, make([]byte, slotSize), 0644))
	ef, err := os.Create(errName)
	must(err)
	defer ef.Close()
	cmd := exec.Command(self)
	var skip []string
	for _, s := range w.skip {
		skip = append(skip, strconv.FormatInt(s, 10))
	}
	cmd.Env = append(os.Environ(), "KIT_CHILD=1", fmt.Sprintf("KIT_SHARD=%d", w.shard), fmt.Sprintf("KIT_SHARDS=%d", c.Shards),
		"KIT_DIR="+dir, "KIT_SKIP="+strings.Join(skip, ","))
	if os.Getenv("GOMAXPROCS") == "" && c.Shards > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	if only >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("KIT_ONLY=%d", only))
	}
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(cmd.Start())
	exit := make(chan error, 1)
	go func() { exit <- cmd.Wait() }()
	last, lastAt := int64(-2), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-exit:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			if b, e := os.ReadFile(outName); e == nil && err == nil {
				w.res = &result{}
				if json.Unmarshal(b, w.res) == nil {
					return false, 0, ""
				}
			}
			return true, readProgress(prName), fmt.Sprintf("%v\n%s", err, head(errName))
		case <-tick.C:
			p := readProgress(prName)
			if p != last {
				last, lastAt = p, time.Now()
			} else if time.Since(lastAt) > c.CaseTimeout && p != -1 {
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-exit:
				case <-time.After(5 * time.Second):
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return true, p, fmt.Sprintf("panic: no answer within %v\n%s", c.CaseTimeout, head(errName))
			}
		}
	}
}

func readProgress(name string) int64 {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func readKey(name string) string {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 17 {
		return ""
	}
	return string(bytes.SplitN(b[16:], []byte{0}, 2)[0])
}

func head(name string) string {
	b, _ := os.ReadFile(name)
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// Bare is a run of a process which a case starts.
func Bare(scratch string) *Run {
	log.SetOutput(io.Discard)
	return &Run{distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}, sections: map[string]int64{}, notes: map[string]interface{}{},
		known: map[string]string{}, knownHit: map[string]string{}, skip: map[int64]bool{}, only: -1, shards: 1, Scratch: scratch, deadline: time.Now().Add(time.Hour)}
}

// Guard turns a panic of f into an error.
func Guard(f func() error) error { return guard(f) }

// Counts are the evaluations, transitions, traces and states so far.
func (r *Run) Counts() (evals, trans, traces int64, states int) {
	return r.evals, r.trans, r.traces, len(r.states)
}
