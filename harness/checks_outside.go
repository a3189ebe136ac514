//go:build go1.22

package main

import (
	"bytes"
	"context"
	rand2 "crypto/rand"
	"database/sql"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"runtime/trace"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func init() {
	register(&Check{
		ID: "C31", Level: "exploration",
		Rule:   "processes of their own perform generated histories (refused texts, unknown identifiers, failing and panicking storage calls, storages that break their contract, reading through every kind of handle) under strace, which reports every system call between the first operation and the last that opens, reads, writes or asks for a file, a stream, a socket or a process; their standard streams are pipes that have to stay empty, and working directory, environment, open files, signal handling, limits of the runtime and the settings of the standard library are compared before and after; an evaluation is one history; distinct by history and storage",
		Assume: []string{"what the library does depends on the operations only, so that what is not seen in these histories is not there", "without strace the streams and the settings are compared only"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C31", pick(tier, 32, 320)) {
				cs = append(cs, Case{Kind: "outside", Seed: s, N: pick(tier, 20, 60), M: i})
			}
			return
		},
		Run: runC31,
	})
}

// commonSeed is what the process gave to the generator of the standard library.
const commonSeed = 20240229

const markStart, markEnd = "semmon starts", "semmon has ended"

type outsideReport struct {
	Changed []string
	Steps   int
	Calls   uint64
	Reads   int
	Sigs    []uint64
}

// surroundings are the settings of the process an operation could change.
// The library may not make the standard library load what it loads but once,
// so with fresh the settings that need it are left out.
func surroundings(fresh bool) map[string]string {
	out := map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	out["the environment"] = strings.Join(env, "\n")
	wd, _ := os.Getwd()
	out["the working directory"] = wd
	out["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	out["the memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	s := []metrics.Sample{{Name: "/gc/gogc:percent"}}
	metrics.Read(s)
	if s[0].Value.Kind() == metrics.KindUint64 {
		out["the garbage collection percentage"] = fmt.Sprint(s[0].Value.Uint64())
	}
	out["the standard logger"] = fmt.Sprintf("%d %q %v", log.Flags(), log.Prefix(), log.Writer())
	out["the default structured logger"] = fmt.Sprintf("%p", slog.Default())
	out["the standard streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	out["the arguments"] = fmt.Sprintf("%q", os.Args)
	out["the time zone"] = fmt.Sprintf("%p %v", time.Local, *time.UTC)
	if !fresh {
		out["the name of the time zone"] = time.Local.String()
	}
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			for _, k := range []string{"Umask", "SigIgn", "SigCgt", "Uid", "Gid", "Groups", "Seccomp", "NoNewPrivs"} {
				if strings.HasPrefix(l, k+":") {
					out[k] = l
				}
			}
		}
	}
	var lim syscall.Rlimit
	for _, k := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_FSIZE} {
		syscall.Getrlimit(k, &lim)
		out[fmt.Sprint("limit ", k)] = fmt.Sprint(lim)
	}
	fds, _ := filepath.Glob("/proc/self/fd/*")
	var open []string
	for _, f := range fds {
		l, err := os.Readlink(f)
		if err == nil {
			open = append(open, filepath.Base(f)+" "+l)
		}
	}
	sort.Strings(open)
	out["the open files"] = strings.Join(open, "\n")
	n := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(n)
	out["the largest stack"] = fmt.Sprint(n)
	n = debug.SetMaxThreads(10000)
	debug.SetMaxThreads(n)
	out["the number of threads"] = fmt.Sprint(n)
	p := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(p)
	out["panics on faults"] = fmt.Sprint(p)
	out["profiling"] = fmt.Sprint(runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	var names []string
	for _, p := range pprof.Profiles() {
		names = append(names, p.Name())
	}
	flag.VisitAll(func(f *flag.Flag) { names = append(names, "-"+f.Name+"="+f.Value.String()) })
	names = append(names, sql.Drivers()...)
	out["profiles, flags and drivers"] = strings.Join(names, " ")
	out["variables of packages"] = fmt.Sprintf("%p %p %p %p %p %p %p %p %p %p", io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrNoProgress, io.Discard, rand2.Reader, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid) +
		fmt.Sprintf(" %p %p %p %d %s", context.Canceled, context.DeadlineExceeded, flag.CommandLine, len(unicode.Categories), utf8Tables())
	// of the goroutine
	var profile, labels bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&profile, 1)
	for _, part := range strings.Split(profile.String(), "\n\n") {
		if strings.Contains(part, "main.outsideMain") {
			for _, l := range strings.Split(part, "\n") {
				if strings.HasPrefix(l, "# labels") {
					labels.WriteString(l)
				}
			}
		}
	}
	out["the labels of the goroutine"] = labels.String()
	own := make([]byte, 1<<10)
	own = own[:runtime.Stack(own, false)]
	out["the lock on the thread"] = fmt.Sprint(strings.Contains(strings.SplitN(string(own), "\n", 2)[0], "locked to thread"))
	out["tracing"] = fmt.Sprint(trace.IsEnabled())
	// a second processor profile cannot be started
	if err := pprof.StartCPUProfile(io.Discard); err != nil {
		out["processor profiling"] = err.Error()
	} else {
		pprof.StopCPUProfile()
		out["processor profiling"] = "off"
	}
	more(out, fresh)
	return out
}

// met are values of the library, whose types nobody should know.
var met []interface{}

// more are surroundings that take long to compile, see surroundings_more.go.
var more = func(map[string]string, bool) {}

// utf8Tables is a digest of the tables of characters.
func utf8Tables() string {
	h := fnv.New64a()
	for _, t := range []*unicode.RangeTable{unicode.Letter, unicode.Upper, unicode.Space, unicode.Punct, unicode.Digit, unicode.Mn} {
		fmt.Fprintf(h, "%p %d %d;", t, len(t.R16), len(t.R32))
	}
	return fmt.Sprint(h.Sum64(), unicode.IsSpace(' '), unicode.IsLetter('x'), len(unicode.CaseRanges), len(unicode.Scripts))
}

// oddStorage breaks the contract.
type oddStorage struct {
	store.Backend
	rng *rand.Rand
	how int
	n   int
}

func (s *oddStorage) Create() (uint, error) {
	s.n++
	if s.how == 0 && s.n == 1 {
		s.Backend.Create()
	}
	return s.Backend.Create()
}

func (s *oddStorage) list(l []uint, err error) ([]uint, error) {
	if s.rng.Intn(8) == 0 {
		switch s.how {
		case 1:
			return nil, err
		case 2:
			return append(append([]uint{}, l...), l...), err
		case 3:
			return []uint{1, 2, 9}, err
		}
	}
	return l, err
}

func (s *oddStorage) ReadTargets(id uint) ([]uint, error) { return s.list(s.Backend.ReadTargets(id)) }
func (s *oddStorage) ReadSources(id uint) ([]uint, error) { return s.list(s.Backend.ReadSources(id)) }

func outsideMain(c Case) {
	report := os.NewFile(3, "report")
	var rep outsideReport
	scripts := repeatScripts(c)
	// half of the processes handle signals themselves
	signals := []os.Signal{os.Interrupt, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGQUIT, syscall.SIGCHLD, syscall.SIGPIPE}
	arrived := make(chan os.Signal, 64)
	if c.M%2 == 1 {
		signal.Notify(arrived, signals...)
	}
	if c.M%3 < 2 {
		rand.Seed(commonSeed)
	}
	fresh := c.M%4 < 2
	surroundings(fresh)
	before := surroundings(fresh)
	syscall.Write(-1, []byte(markStart))
	for i, s := range scripts {
		s.runAll()
		w, r := s.w, s.r
		rep.Sigs = append(rep.Sigs, sig(c.Seed, i))
		rep.Steps += s.at
		if len(w.rems) == 0 {
			continue
		}
		for _, g := range w.handles {
			met = append(met, g)
		}
		for _, m := range w.rems {
			met = append(met, m.val)
		}
		for n := 0; n < 60; n++ {
			m := w.rems[r.Intn(len(w.rems))]
			name := readOps[r.Intn(len(readOps))]
			g := w.handle(n)
			if n%3 == 0 {
				g = w.newGraph()
			}
			o := w.output(g)
			var x semnet.Remark
			w.call("GetRemark", nil, func() (err error) {
				x, err = g.GetRemark(m.id)
				return
			})
			if isNil(x) {
				continue
			}
			id := m.id
			if n%4 == 1 {
				id = uint(r.Intn(3000))
			}
			w.call(name, func(mon *store.Mon) {
				if n%2 == 0 {
					mon.FaultAt, mon.FaultMode = 1+r.Intn(40), store.FaultBefore
					mon.Panics = n%8 == 0
				}
			}, func() error {
				_, err := readOp(name, g, o, id, x)
				return err
			})
			rep.Reads++
		}
		rep.Calls += w.mon.Total
	}
	// one handle used for very long
	if c.M%16 < 2 {
		w := newWorld(store.Config{}, nil, c.Seed)
		w.mon.MaxCalls = 1 << 40
		g := w.g()
		o := semnet.NewOutput(g)
		texts := []string{"a", "b c", "d"}
		for n := 0; n < 150*c.N; n++ {
			a, b := texts[n%3], texts[n/3%3]
			w.call("long", nil, func() error {
				x, err := g.CreateStory(a, b)
				if err != nil {
					return err
				}
				x.AddRemarkToFact(b)
				x.AddFactToStory(b, a)
				x.CreateChildStory(b, a)
				for _, name := range readOps {
					readOp(name, g, o, x.GetIdentifier(), x)
				}
				g.CreateStory("", a)
				return nil
			})
			rep.Steps += 5
		}
		rep.Calls += w.mon.Total
	}
	// storages on which nothing can be done, or that are damaged
	for n := 0; n < 12; n++ {
		mem := store.NewMem(store.Config{})
		if n%3 > 0 {
			g := semnet.NewGraph(mem)
			if x, err := g.CreateStory("a b", "c"); err == nil && n%3 == 2 {
				x.AddFactToStory("d", "e")
				x.CreateChildStory("d", "e")
			}
		}
		odd := &oddStorage{Backend: mem, rng: rand.New(rand.NewSource(c.Seed + int64(n))), how: n % 4}
		w := &World{mon: store.NewMon(odd)}
		w.mon.MaxCalls = 50_000
		g := w.newGraph()
		o := semnet.NewOutput(g)
		for k := 0; k < 6; k++ {
			w.call("CreateStory", nil, func() error {
				_, err := g.CreateStory([]string{"a b", "", "q"}[k%3], "x")
				return err
			})
			for _, id := range []uint{9, 0, 4, ^uint(0)} {
				w.call("reading", nil, func() error {
					x, err := g.GetRemark(id)
					if err != nil || isNil(x) {
						return err
					}
					for _, name := range readOps {
						readOp(name, g, o, id, x)
					}
					x.AddRemarkToFact("y")
					x.AddFactToStory("y", "z")
					x.CreateChildStory("z", "y")
					return nil
				})
			}
		}
		rep.Calls += w.mon.Total
	}
	syscall.Write(-1, []byte(markEnd))
	after := surroundings(fresh)
	for k, v := range before {
		if after[k] != v {
			rep.Changed = append(rep.Changed, fmt.Sprintf("%s: %s became %s", k, v, after[k]))
		}
	}
	if c.M%3 < 2 {
		// others may take numbers from it, but it has to go on as it was seeded
		next, known := rand.Int63(), false
		for n, own := 0, rand.New(rand.NewSource(commonSeed)); n < 4<<20 && !known; n++ {
			known = own.Int63() == next
		}
		if !known {
			rep.Changed = append(rep.Changed, "the generator of random numbers: it was seeded again")
		}
	}
	if c.M%2 == 1 {
		for _, s := range signals {
			syscall.Kill(os.Getpid(), s.(syscall.Signal))
			for got := false; !got; {
				select {
				case x := <-arrived:
					got = x == s
				case <-time.After(20 * time.Second):
					rep.Changed = append(rep.Changed, fmt.Sprint("the handling of signals: ", s, " does not arrive any more"))
					got = true
				}
			}
		}
	}
	json.NewEncoder(report).Encode(rep)
}

var canTrace = sync.OnceValue(func() bool {
	p, err := exec.LookPath("strace")
	if err != nil {
		return false
	}
	return exec.Command(p, "-f", "-qq", "-y", "-o", "/dev/null", "-e", traced, "true").Run() == nil
})

const traced = "trace=%file,%network,%process,%desc,%ipc,%creds,?kill,?tkill,?setpriority,?sched_setscheduler,?sched_setattr,?sched_setparam,?sched_setaffinity,?ioprio_set," +
	"?setrlimit,?prlimit64,?setitimer,?alarm,?timer_create,?personality,?seccomp,?umask,?setsid,?setpgid,?sethostname,?setdomainname,?settimeofday,?clock_settime,?adjtimex," +
	"?mlock,?mlock2,?mlockall,?memfd_secret,?ptrace,?process_vm_readv,?process_vm_writev,?process_madvise,?add_key,?request_key,?keyctl,?bpf,?perf_event_open,?syslog,?uname,?sysinfo,?acct,?reboot,?init_module"

// what the runtime needs for itself
var ofRuntime = regexp.MustCompile(`^(clone3?|exit|mmap|munmap|epoll_\w+|eventfd2|arch_prctl|rseq|set_tid_address|wait4|waitid|pipe2)\(`)

func runC31(c Case, st *Stats) {
	dir, err := os.MkdirTemp("", "semmon-outside")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	trace := filepath.Join(dir, "trace")
	b, _ := json.Marshal(c)
	args := []string{os.Args[0], "-digest", string(b)}
	if canTrace() {
		args = append([]string{"strace", "-f", "-qq", "-y", "-s", "80", "-o", trace, "-e", traced}, args...)
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer rd.Close()
	var out, errs bytes.Buffer
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
	if c.M%8 > 0 {
		cmd.Env = append(cmd.Env, "TZ=Europe/Berlin")
	}
	if c.M%8 > 3 {
		cmd.Env = append(cmd.Env, variables()...)
	}
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.ExtraFiles = []*os.File{wr}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	wr.Close()
	var rep outsideReport
	bad := json.NewDecoder(rd).Decode(&rep)
	end := cmd.Wait()
	if bad != nil && strings.Contains(errs.String(), "goroutine ") {
		panic(fmt.Sprint("the process gave no report: ", end, " ", short(errs.String())))
	}
	if canTrace() {
		t, err := os.ReadFile(trace)
		if err != nil {
			panic(err)
		}
		inside := false
		for _, l := range strings.Split(string(t), "\n") {
			_, call, _ := strings.Cut(l, " ")
			call = strings.TrimLeft(call, " ")
			switch {
			case strings.Contains(call, markStart):
				inside = true
				st.Extra["traced_processes"]++
				continue
			case strings.Contains(call, markEnd):
				inside = false
				continue
			case !inside || call == "" || ofRuntime.MatchString(call) || strings.HasPrefix(call, "<... ") || strings.HasPrefix(call, "---") || strings.HasPrefix(call, "+++"):
				continue
			case strings.Contains(call, "anon_inode:[event"):
				continue
			}
			fail("during the operations the process called %s", call)
		}
	}
	if out.Len() > 0 || errs.Len() > 0 {
		fail("the operations wrote to the standard streams: %s %s", short(out.String()), short(errs.String()))
	}
	if bad != nil || end != nil {
		fail("the process ended during the operations: %v", end)
	}
	if len(rep.Changed) > 0 {
		fail("the operations changed the process: %s", strings.Join(rep.Changed, "; "))
	}
	for _, s := range rep.Sigs {
		st.eval(s, true)
	}
	st.Calls += rep.Calls
	st.Ops["steps"] += rep.Steps
	st.Ops["reading operations, half of them with failing calls"] += rep.Reads
	st.Extra["processes"]++
}
