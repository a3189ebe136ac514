//go:build go1.22

// Command semmon runs the semantic network under monitors and decides the
// properties listed in /verif/properties.jsonl.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/store"
)

// Case is one execution: everything it does follows from these values.
type Case struct {
	Kind string       `json:"kind"`
	Seed int64        `json:"seed"`
	N    int          `json:"n,omitempty"`
	M    int          `json:"m,omitempty"`
	Cfg  store.Config `json:"cfg"`
	Ops  []Op         `json:"ops,omitempty"`
}

// Stats is what one worker observed.
type Stats struct {
	progress     uint64
	inOp         int32
	opName       atomic.Value
	Ops          map[string]int
	Calls        uint64
	ByMethod     [9]uint64
	Observations int
	Evaluations  int
	Extra        map[string]int
	States       map[uint64]struct{}
	Sigs         map[uint64]struct{}
	Known        map[string]string
	lastMethods  [9]uint64
}

func newStats() *Stats {
	return &Stats{Ops: map[string]int{}, Extra: map[string]int{}, States: map[uint64]struct{}{}, Sigs: map[uint64]struct{}{}, Known: map[string]string{}}
}

func (s *Stats) begin(op string) {
	s.Ops[op]++
	s.opName.Store(op)
	atomic.AddUint64(&s.progress, 1)
	atomic.StoreInt32(&s.inOp, 1)
}

func (s *Stats) end(m *store.Mon) {
	atomic.StoreInt32(&s.inOp, 0)
	s.Calls += uint64(m.Calls)
}

func (s *Stats) eval(sig uint64, nontrivial bool) {
	s.Evaluations++
	if nontrivial {
		s.Sigs[sig] = struct{}{}
	}
}

func (s *Stats) state(d uint64) {
	if len(s.States) < 1<<20 {
		s.States[d] = struct{}{}
	}
}

func (s *Stats) merge(o *Stats) {
	for k, v := range o.Ops {
		s.Ops[k] += v
	}
	for k, v := range o.Extra {
		if strings.HasPrefix(k, "worst") || strings.HasPrefix(k, "calls_") || strings.HasPrefix(k, "longest") {
			s.Extra[k] = max(s.Extra[k], v)
		} else {
			s.Extra[k] += v
		}
	}
	for k := range o.States {
		s.States[k] = struct{}{}
	}
	for k := range o.Sigs {
		s.Sigs[k] = struct{}{}
	}
	for k, v := range o.Known {
		s.Known[k] = v
	}
	s.Calls += o.Calls
	s.Observations += o.Observations
	s.Evaluations += o.Evaluations
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	// Cases lists the executions of a tier; they depend on the seed only.
	Cases func(tier string, seed int64) []Case
	// Run performs one; a violation is reported with fail.
	Run func(c Case, st *Stats)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// lenient is set while a failing history is shrunk: a shorter history a check
// cannot run does not count as failing.
var lenient int32

// runCase performs one case and returns the violation seen.
func runCase(c *Check, cs Case, st *Stats) (v *Viol) {
	defer func() {
		atomic.StoreInt32(&st.inOp, 0)
		if x := recover(); x != nil {
			if vv, ok := x.(*Viol); ok {
				v = vv
				return
			}
			if atomic.LoadInt32(&lenient) != 0 {
				v = nil
				return
			}
			stack := string(debug.Stack())
			fmt.Fprintf(os.Stderr, "harness error in %s case %+v: %v\n%s\n", c.ID, Case{Kind: cs.Kind, Seed: cs.Seed, N: cs.N, M: cs.M, Cfg: cs.Cfg}, x, stack)
			os.Exit(2)
		}
	}()
	c.Run(cs, st)
	return nil
}

// shrink removes steps from a failing history as long as it keeps failing.
func shrink(c *Check, cs Case, v *Viol) (Case, *Viol) {
	if len(cs.Ops) == 0 {
		return cs, v
	}
	atomic.StoreInt32(&lenient, 1)
	defer atomic.StoreInt32(&lenient, 0)
	tries := 0
	until := time.Now().Add(20 * time.Second)
	try := func(ops []Op) bool {
		tries++
		if len(ops) == 0 || time.Now().After(until) {
			return false
		}
		n := cs
		n.Ops = ops
		if vv := runCase(c, n, newStats()); vv != nil {
			cs, v = n, vv
			return true
		}
		return false
	}
	for size := len(cs.Ops) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(cs.Ops) && tries < 400; {
			end := min(at+size, len(cs.Ops))
			ops := append(append([]Op{}, cs.Ops[:at]...), cs.Ops[end:]...)
			if !try(ops) {
				at = end
			}
		}
	}
	for i := range cs.Ops {
		if tries > 600 {
			break
		}
		for _, via := range []int{1, 0} {
			if cs.Ops[i].Via != via {
				ops := append([]Op{}, cs.Ops...)
				ops[i].Via = via
				if try(ops) {
					break
				}
			}
		}
		if len(cs.Ops[i].O) > 1 || len(cs.Ops[i].P) > 1 {
			ops := append([]Op{}, cs.Ops...)
			if ops[i].O != "" && !strings.HasPrefix(ops[i].K, "bad") {
				ops[i].O = "a"
			}
			if ops[i].P != "" && !strings.HasPrefix(ops[i].K, "bad") {
				ops[i].P = "a"
			}
			try(ops)
		}
	}
	return cs, v
}

type replayFile struct {
	Property string `json:"property"`
	Message  string `json:"message"`
	Case     *Case  `json:"case,omitempty"`
	Steps    []string
	Report   string `json:"report,omitempty"`
	Tier     string `json:"tier,omitempty"`
	Seed     int64  `json:"seed"`
}

func writeReplay(dir, prop string, r replayFile) string {
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+".json")
	if r.Case != nil {
		for _, o := range r.Case.Ops {
			r.Steps = append(r.Steps, o.String())
		}
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// probeLayers reaches the inner layers once, if they are compiled in.
var probeLayers func() bool

func main() {
	id := flag.String("check", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	root := flag.String("root", "/verif", "where evidence and replays go")
	replay := flag.String("replay", "", "replay file")
	worker := flag.Bool("worker", false, "run in this process")
	digest := flag.String("digest", "", "perform the cases of a file and print their digests")
	racebin := flag.String("racebin", "", "the same program built with the race detector, to run after this one")
	only := flag.Int("case", -1, "run one case only")
	record := flag.String("record", "", "write recordings of stored graphs to this file")
	from := flag.String("from", "", "what to call the version that is recorded")
	others := flag.String("others", "", "file with recordings to take over")
	probe := flag.Bool("probe", false, "try to reach the inner layers")
	flag.Parse()
	if *probe {
		if probeLayers == nil || !probeLayers() {
			os.Exit(3)
		}
		return
	}
	readFindings(*root)
	rootDir = *root

	if *record != "" {
		recordMain(*record, *from, *others)
		return
	}

	if *digest != "" {
		digestMain(*digest)
		return
	}
	if *replay != "" {
		var r replayFile
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || r.Case == nil {
			fmt.Println("nothing to replay:", err, r.Message)
			os.Exit(2)
		}
		c := checks[r.Property]
		v := runCase(c, *r.Case, newStats())
		if v != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", r.Property, *replay, v.Msg)
			os.Exit(1)
		}
		fmt.Println("held on this case")
		return
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(2)
	}
	if !*worker {
		code := supervise(os.Args[0], *id, *tier, *seed, *root)
		if code == 0 && *racebin != "" {
			sub := filepath.Join(*root, "replays", "race")
			code = supervise(*racebin, *id, *tier, *seed, sub)
			patchEvidence(*root, *id, func(m map[string]interface{}) {
				if code != 0 {
					m["violations"] = 1
				}
				var r map[string]interface{}
				b, err := os.ReadFile(filepath.Join(sub, "evidence", *id+".json"))
				if err == nil && json.Unmarshal(b, &r) == nil {
					c, _ := r["coverage"].(map[string]interface{})
					delete(c, "samples")
					delete(c, "rule")
					m["coverage"].(map[string]interface{})["race_detector_build"] = c
					m["wall_s"] = m["wall_s"].(float64) + r["wall_s"].(float64)
				}
			})
		}
		os.Exit(code)
	}
	os.Exit(work(c, *tier, *seed, *root, *only))
}

// findings holds the known findings that are listed for each property.
var findings = map[string]map[string]bool{}

func readFindings(root string) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f struct{ Property, Status, What string }
		if json.Unmarshal([]byte(l), &f) == nil && f.Status == "known" {
			if findings[f.Property] == nil {
				findings[f.Property] = map[string]bool{}
			}
			findings[f.Property][f.What] = true
		}
	}
}

func listed(property, what string) bool { return findings[property][what] }

// supervise runs the check in a child process, so that the end of that
// process (a fatal error the runtime does not let anyone catch, a data race)
// is observed too.
func supervise(bin, id, tier string, seed int64, root string) int {
	var tail tailBuffer
	raceLog := filepath.Join(os.TempDir(), fmt.Sprintf("semmon-race-%s-%d", id, os.Getpid()))
	cmd := exec.Command(bin, "-worker", "-check", id, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-root", root)
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tail
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog, "GOTRACEBACK=all")
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	logs, _ := filepath.Glob(raceLog + ".*")
	var races []string
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, part := range strings.Split(string(b), "==================") {
			if strings.Contains(part, "WARNING: DATA RACE") {
				races = append(races, part)
			}
		}
		os.Remove(l)
	}
	dir := filepath.Join(root, "replays")
	if len(races) > 0 && code != 1 {
		var own []string
		for _, r := range races {
			if strings.Contains(r, "mem-memov/semnet") || strings.Contains(r, "/repo/") {
				own = append(own, r)
			}
		}
		if len(own) == 0 {
			fmt.Fprintln(os.Stderr, "data race outside the code under test:", races[0])
			return 2
		}
		p := writeReplay(dir, id, replayFile{Property: id, Message: fmt.Sprintf("%d data race reports", len(own)), Report: own[0], Tier: tier, Seed: seed})
		patchEvidence(root, id, func(m map[string]interface{}) {
			m["violations"] = 1
			if cov, ok := m["coverage"].(map[string]interface{}); ok {
				cov["race_reports"] = len(own)
			}
		})
		fmt.Printf("%s\n", firstLines(own[0], 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	if code == 0 || code == 1 {
		os.Stderr.WriteString(tail.String())
		return code
	}
	out := tail.String()
	fatal := ""
	for _, s := range []string{"fatal error: concurrent map", "stack overflow", "goroutine stack exceeds", "fatal error: all goroutines are asleep", "panic: "} {
		if strings.Contains(out, s) {
			fatal = s
			break
		}
	}
	if fatal != "" && code == 2 && !strings.Contains(out, "harness error") && strings.Contains(out, "mem-memov/semnet") {
		p := writeReplay(dir, id, replayFile{Property: id, Message: "the process ended: " + fatal, Report: firstLines(out, 200), Tier: tier, Seed: seed})
		fmt.Println(firstLines(out, 25))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	fmt.Fprintln(os.Stderr, out)
	fmt.Fprintln(os.Stderr, "the check gave no answer:", err)
	return 2
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// tailBuffer keeps the beginning and the end of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.head.Len() < 1<<18 {
		t.head.Write(p)
	} else {
		t.tail = append(t.tail, p...)
		if len(t.tail) > 1<<18 {
			t.tail = t.tail[len(t.tail)-1<<17:]
		}
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return t.head.String() + string(t.tail) }

func patchEvidence(root, id string, f func(map[string]interface{})) {
	p := filepath.Join(root, "evidence", id+".json")
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return
	}
	f(m)
	b, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(p, b, 0o644)
}

func work(c *Check, tier string, seed int64, root string, only int) int {
	start := time.Now()
	debug.SetMaxStack(256 << 20)
	cases := spread(c.ID, c.Cases(tier, seed))
	if only >= 0 {
		cases = cases[only : only+1]
	}
	nw := runtime.GOMAXPROCS(0)
	if nw > 8 {
		nw = 8
	}
	stats := make([]*Stats, nw)
	current := make([]int64, nw)
	var next int64 = -1
	var stop int32
	type hit struct {
		i int
		v *Viol
	}
	var mu sync.Mutex
	var hits []hit
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		stats[k] = newStats()
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(cases) {
					return
				}
				atomic.StoreInt64(&current[k], int64(i))
				if v := runCase(c, cases[i], stats[k]); v != nil {
					mu.Lock()
					hits = append(hits, hit{i, v})
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
				}
			}
		}(k)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()

	// The watchdog reports an operation that neither ends nor calls the
	// storage during many of its own turns.
	last := make([]uint64, nw)
	still := make([]int, nw)
	tick := time.NewTicker(time.Second)
	var hung = -1
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			for k, s := range stats {
				p := atomic.LoadUint64(&s.progress)
				if atomic.LoadInt32(&s.inOp) == 1 && p == last[k] {
					still[k]++
				} else {
					still[k] = 0
				}
				last[k] = p
				if still[k] >= 90 && hung < 0 {
					hung = k
					break wait
				}
			}
		}
	}
	dir := filepath.Join(root, "replays")
	total := newStats()
	if hung < 0 {
		for _, s := range stats {
			total.merge(s)
		}
	}
	code := 0
	if hung >= 0 {
		cs := cases[atomic.LoadInt64(&current[hung])]
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		name, _ := stats[hung].opName.Load().(string)
		p := writeReplay(dir, c.ID, replayFile{Property: c.ID, Message: name + " hangs without calling the storage", Case: &cs, Report: string(buf), Tier: tier, Seed: seed})
		fmt.Printf("%s hangs without calling the storage\n", name)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		code = 1
	} else if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
		cs, v := shrink(c, cases[hits[0].i], hits[0].v)
		p := writeReplay(dir, c.ID, replayFile{Property: c.ID, Message: v.Msg, Case: &cs, Tier: tier, Seed: seed})
		fmt.Printf("case %d (%s): %s\n", hits[0].i, cs.Kind, v.Msg)
		for i, o := range cs.Ops {
			if i >= 40 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  ", o.String())
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		code = 1
	} else {
		var keys []string
		for k := range total.Known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, k, total.Known[k])
		}
	}
	writeEvidence(c, tier, seed, root, cases, total, time.Since(start), code)
	if d := os.Getenv("SEMMON_COVER"); d != "" && hung < 0 {
		coverage.WriteMetaDir(d)
		coverage.WriteCountersDir(d)
	}
	return code
}

func writeEvidence(c *Check, tier string, seed int64, root string, cases []Case, st *Stats, wall time.Duration, code int) {
	byKind := map[string]int{}
	var samples []interface{}
	for _, cs := range cases {
		byKind[cs.Kind]++
		if byKind[cs.Kind] <= 2 && len(samples) < 12 {
			x := cs
			if len(x.Ops) > 12 {
				x.Ops = x.Ops[:12]
			}
			for i := range x.Ops {
				x.Ops[i].O = clip(x.Ops[i].O)
				x.Ops[i].P = clip(x.Ops[i].P)
			}
			samples = append(samples, x)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         st.Evaluations,
		"distinct_nontrivial": len(st.Sigs),
		"rule":                c.Rule,
		"samples":             samples,
		"cases":               len(cases),
		"cases_by_kind":       byKind,
		"operations":          st.Ops,
	}
	if st.Calls > 0 {
		cov["storage_calls_seen"] = st.Calls
	}
	if st.Observations > 0 {
		cov["remark_observations"] = st.Observations
	}
	if len(st.States) > 0 {
		cov["distinct_storage_states"] = len(st.States)
	}
	for k, v := range st.Extra {
		cov[k] = v
	}
	if len(st.Known) > 0 {
		cov["known_findings_seen"] = st.Known
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume, "wall_s": wall.Seconds(), "violations": code,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), b, 0o644)
}

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s…(%d bytes)", strings.ToValidUTF8(s[:80], ""), len(s))
	}
	return s
}

// seeds derives the seeds of n cases.
func seeds(seed int64, salt string, n int) []int64 {
	r := rand.New(rand.NewSource(seed*1000003 + int64(hashStr(salt)&0xffffffff)))
	out := make([]int64, n)
	for i := range out {
		out[i] = r.Int63()
	}
	return out
}
