//go:build go1.22

package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func init() {
	register(&Check{
		ID: "C26", Level: "exploration",
		Rule:   "generated histories with refusals, failing calls, reads and several handles, in which every storage call is attributed to a goroutine; after operations the stacks of all goroutines are searched for ones the library left; in processes with a simulated clock a hundredth of a second to a year passes after operations, in which the storage may not be called; and, in processes of their own, thousands of operations (with different texts, long texts, that only read, are refused, fail or panic, on a handle each, or on a remark reached from the one before) after which the memory freed by letting go of these, and the memory that stays after letting go of the storage too, are measured at two lengths; an evaluation is one operation attributed or one measurement; distinct by operation and history",
		Assume: []string{"a goroutine of the library that lives for a second after the operation is left behind", "memory is measured by the garbage collector, with room of 16 bytes for an operation that stores something"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i := 0; i < pick(tier, 7, 21); i++ {
				cs = append(cs, Case{Kind: "memory", Seed: seed + int64(i), N: pick(tier, 1500, 6000), M: i % 7})
			}
			if fakeBin != "" {
				for i, s := range seeds(seed, "C26t", pick(tier, 12, 60)) {
					cs = append(cs, Case{Kind: "later", Seed: s, N: pick(tier, 6, 12), M: i})
				}
			}
			for i, s := range seeds(seed, "C26", pick(tier, 500, 8000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Open, p.Reopen, p.Bad, p.Read = 1, 1, 1, 3
				p.Long = i%12 == 0
				if i%4 == 0 {
					p.SmallPool = 2 + r.Intn(4)
				}
				cfg := cfgFor(i)
				cfg.Backend = ""
				cs = append(cs, Case{Kind: "calls", Seed: s, N: i, M: i % 2, Cfg: cfg, Ops: genOps(r, 3+r.Intn(30), p)})
			}
			for i, s := range seeds(seed, "C26l", pick(tier, 6, 24)) { // long texts, stories, families
				r := rand.New(rand.NewSource(s))
				n := pick(tier, 1500, 6000) + r.Intn(500)
				words := strings.TrimSuffix(strings.Repeat("a b c d ", n/4), " ")
				letters := strings.Repeat("abcd", n/4)
				ops := []Op{{K: "story", O: words, P: letters}, {K: "fact", O: letters, P: "x"}, {K: "child", O: "x", P: letters}, {K: "remark", P: words, T: 1}}
				if i%3 > 0 {
					ops = grown(r, pick(tier, 350, 1300), []string{"fact", "child"}[i%3-1], 5)
				}
				cs = append(cs, Case{Kind: "calls", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}, Ops: ops})
			}
			return
		},
		Run: runC26,
	})
	register(&Check{
		ID: "C27", Level: "fault_enumeration",
		Rule:   "the executions of C13 (every operation repeated once for each of its storage calls with that call failing, from the same stored state, and sequences with random failures, public operations and those of the layers), where each failure is an error value of its own; the error the operation returns has to be or to wrap (errors.Is) the value of a call that failed within it; besides, refused operations on a storage that works, whose errors may not be those of a storage; an evaluation is one such run; distinct by operation, graph and failing call",
		Assume: []string{"an operation that reports no error or does not end is left to C13"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for _, c := range checks["C13"].Cases(tier, seed+7) {
				cs = append(cs, c)
			}
			for i, s := range seeds(seed, "C27b", pick(tier, 300, 4000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Bad = 12
				cs = append(cs, Case{Kind: "refusals", Seed: s, N: i, Cfg: cfgFor(i), Ops: genOps(r, 4+r.Intn(25), p)})
			}
			return
		},
		Run: func(c Case, st *Stats) { runFaults(c, st, true) },
	})
	register(&Check{
		ID: "C28", Level: "exploration",
		Rule:   "the content of storages recorded with the code as it was when this check was made (harness/golden.gz: generated histories of all kinds of operations, some with failures and crashes in between, besides graphs stored by the first version of the repository) is opened with the present code, on storages listing in any order; every remark is compared with the recorded texts, navigation, next remark and rendering, the members of the classes with the texts, known texts are stored again (nothing new for the texts), more operations follow, and everything is compared again; an evaluation is one remark compared; distinct by remark, recording and order of lists",
		Assume: []string{"the recordings stand for what users have stored"},
		Cases: func(tier string, seed int64) (cs []Case) {
			n := len(recordings())
			for k, s := range seeds(seed, "C28", pick(tier, 16, 80)) {
				for i := 0; i < n; i++ {
					if k >= pick(tier, 2, 8) && len(recordings()[i].Rems) > 60 {
						continue
					}
					cs = append(cs, Case{Kind: "stored", Seed: s + int64(i), N: i, Cfg: store.Config{Order: k % 4, Lenient: k/4%2 == 1}})
				}
			}
			return
		},
		Run: runC28,
	})
}

// origin tells where the calling goroutine was started. Those of the monitors
// are started elsewhere than any of the library.
func origin(room *[2048]uintptr) uintptr {
	n := runtime.Callers(1, room[:])
	if n < 2 || n == len(room) {
		return 0
	}
	return room[n-2]
}

// left lists the goroutines that run code of the library but were not started
// by the monitors.
func left() map[string]string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "mem-memov/semnet") || strings.Contains(g, "\nmain.") {
			continue
		}
		head, _, _ := strings.Cut(g, " [")
		out[head] = g
	}
	return out
}

func runC26(c Case, st *Stats) {
	if c.Kind == "memory" {
		measureMemory(c, st)
		return
	}
	if c.Kind == "later" {
		lookLater(c, st)
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	var room, there [2048]uintptr
	own := origin(&room)
	var foreign atomic.Value
	w.mon.Yield = func() {
		if o := origin(&there); o != 0 && o != own {
			msg := "the storage is called by a goroutine of the library, not by the one the operation runs on"
			foreign.Store(msg)
			panic(msg)
		}
	}
	look := func(after string) {
		if m := foreign.Load(); m != nil {
			fail("%s: %s", after, m)
		}
		ls := left()
		for try := 0; try < 50 && len(ls) > 0; try++ {
			time.Sleep(20 * time.Millisecond)
			now := left()
			for id := range ls {
				if _, ok := now[id]; !ok {
					delete(ls, id)
				}
			}
		}
		for _, g := range ls {
			fail("%s left a goroutine running: %s", after, clip(g))
		}
		st.Extra["searches_for_goroutines"]++
	}
	for i, op := range c.Ops {
		if c.M == 1 && creating(op.K) && r.Intn(3) == 0 {
			op2 := op
			t := w.target(op.T)
			if t == nil {
				op2.K = "story"
			}
			var x semnet.Remark
			if t != nil {
				x = w.get(t, op.Via, op.H)
			}
			// failed operations have to be over too
			w.mem.Mark()
			w.disturbed(x, op2, func(m *store.Mon) { m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(300)) })
			w.mem.Rollback()
			w.reopen()
		}
		if t := w.target(r.Intn(1 + len(w.rems))); t != nil && r.Intn(2) == 0 {
			x := w.get(t, op.Via, op.H)
			for _, k := range r.Perm(len(readOps))[:3] {
				name := readOps[k]
				how := w.cost(name, op.H, t.id, x)
				w.answer(name, op.H, t.id, x, func(m *store.Mon) {
					m.FaultAt, m.FaultMode = 1+r.Intn(1+how), store.FaultBefore
				})
			}
			if r.Intn(5) == 0 {
				look("a reading operation that failed")
			}
		}
		w.apply(op)
		st.eval(sig(c.Seed, i, op.K), true)
		if r.Intn(5) == 0 {
			look(op.K)
		}
	}
	for _, m := range w.rems {
		w.observe(w.get(m, r.Intn(5), r.Intn(4)), FAll, r.Intn(4))
	}
	look("the history")
	st.Extra["storage_calls_attributed"] += int(w.mon.Total)
	st.state(w.mem.Digest())
}

// cost is the number of calls a reading operation makes.
func (w *World) cost(name string, h int, id uint, x semnet.Remark) int {
	w.answer(name, h, id, x, nil)
	return w.mon.Calls
}

// What happened in a process where time passes after operations.
type laterSeen struct {
	Bad    string
	Pauses int
	Slept  time.Duration
	Calls  uint64
}

// laterMain is the process, built with the simulated clock: histories where
// seconds to weeks pass after each operation. Nothing may call the storage
// meanwhile.
func laterMain(c Case) {
	var out laterSeen
	for i, s := range repeatScripts(c) {
		s, r := s, rand.New(rand.NewSource(c.Seed+int64(i)))
		idle, calls, what := false, s.w.mon.Total, ""
		s.w.mon.Yield = func() {
			if idle && what == "" {
				buf := make([]byte, 1<<14)
				what = string(buf[:runtime.Stack(buf, false)])
			}
		}
		pause := func(op string, d time.Duration) {
			calls, idle = s.w.mon.Total, true
			digest := s.w.mem.Digest()
			time.Sleep(d)
			idle = false
			out.Pauses++
			out.Slept += d
			if out.Bad != "" {
				return
			}
			if s.w.mon.Total != calls {
				out.Bad = fmt.Sprintf("within %v after %s was over the storage is called %d times: %s", d, op, s.w.mon.Total-calls, clip(what))
			} else if s.w.mem.Digest() != digest {
				out.Bad = fmt.Sprintf("within %v after %s was over the storage changes", d, op)
			}
			for _, g := range left() {
				out.Bad = fmt.Sprintf("%v after %s a goroutine is left: %s", d, op, clip(g))
			}
		}
		s.step = func() { // a hundredth of a second to weeks, or not at all
			if r.Intn(3) > 0 {
				pause("an operation ("+s.ops[s.at-1].K+")", time.Duration(float64(10*time.Millisecond)*math.Exp(r.Float64()*18)))
			}
		}
		s.runAll()
		if s.bad != nil { // other properties decide
			continue
		}
		for _, d := range []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour, 365 * 24 * time.Hour} {
			pause("the history", d)
		}
		out.Calls += s.w.mon.Total
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func lookLater(c Case, st *Stats) {
	b, _ := json.Marshal(c)
	ctx, end := context.WithTimeout(context.Background(), 2*time.Minute)
	defer end()
	cmd := exec.CommandContext(ctx, fakeBin, "-digest", string(b))
	cmd.Env = append(os.Environ(), "GOGC=off", "GOMAXPROCS=1")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if ctx.Err() != nil { // the runtime does not promise to get along with its simulated clock
		st.Extra["processes_with_another_clock_given_up"]++
		return
	}
	var seen laterSeen
	if err != nil || json.Unmarshal(withoutHeads(out), &seen) != nil {
		if s := string(withoutHeads(stderr.Bytes())); strings.Contains(s, "mem-memov/semnet") && !strings.Contains(s, "\nmain.") {
			fail("something the library left behind ends the process: %s", clip(s))
		}
		panic(fmt.Sprintf("no answer from the process where time passes: %v %s %s", err, out, stderr.String()))
	}
	if seen.Bad != "" {
		fail("%s", seen.Bad)
	}
	st.Extra["pauses_after_operations"] += seen.Pauses
	st.Extra["days_passed"] += int(seen.Slept / (24 * time.Hour))
	st.Extra["storage_calls_in_histories_with_pauses"] += int(seen.Calls)
	st.Extra["processes_with_another_clock"]++
	for i := 0; i < seen.Pauses; i++ {
		st.eval(sig(c.Seed, "later", i), true)
	}
}

type memoryUse struct {
	Handle []int64 // bytes freed by letting go of the handle, by length of the history
	Stays  []int64 // bytes in use when all is let go of, after each history
}

func heap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// useMemory performs a history of n operations on a graph of its own and
// measures what letting go of the handle frees.
func useMemory(kind, n, salt int) int64 {
	mem := store.NewMem(store.Config{})
	g := semnet.NewGraph(mem)
	o := semnet.NewOutput(g)
	ids := make([]uint, 0, 4*n+16)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	text := func(i, k int) string { return fmt.Sprintf("%x %x", (salt*131071+i*2654435761)&0xffff, k*7+i&0xff) }
	first, err := g.CreateStory(text(0, 9), text(0, 8))
	must(err)
	id, last := first.GetIdentifier(), first
	ids = append(ids, id)
	if kind == 3 {
		return useUp(mem, n)
	}
	if kind == 4 {
		for i := 1; i <= 4*n; i++ {
			g := semnet.NewGraph(mem)
			o := semnet.NewOutput(g)
			if i%5 == 0 {
				_, err = g.CreateStory(text(i%97, 1), text(i%89, 2))
				must(err)
			}
			m, err := g.GetRemark(id)
			must(err)
			_, err = o.GetStory(m)
			must(err)
		}
	}
	if kind == 5 { // long texts
		for i := 1; i <= n/5; i++ {
			x, y := strings.Repeat(text(i, 1)[:2], 60), strings.Repeat(text(i, 2)+" ", 15)
			x, y = strings.ReplaceAll(x, " ", "")+fmt.Sprint(salt, "x", i), y+fmt.Sprint(salt, "y", i)
			m, err := g.CreateStory(x, y)
			must(err)
			if i%2 == 0 {
				a, err := m.AddFactToStory(y, x+"a")
				must(err)
				_, _, err = a.GetObjectAndProperty()
				must(err)
			}
			_, err = o.GetStory(m)
			must(err)
		}
	}
	if kind == 6 { // from remark to remark, each reached from the one before
		walk, err := first.GetFirstFact()
		must(err)
		child, err := first.CreateChildStory(text(1, 1), text(1, 2))
		must(err)
		for i := 0; i < n; i++ {
			walk, err = walk.AddFactToStory(text(i%50, 1), text(i%50, 2))
			must(err)
			if i < 1500 {
				_, err = first.CreateChildStory(text(i%50, 3), text(i%50, 4))
				must(err)
			}
		}
		fact, err := first.GetFirstFact()
		must(err)
		for _, way := range []int{0, 1} {
			for i := 1; i < n && i < 1500; i++ {
				if way == 0 {
					fact, err = fact.GetNextFact()
				} else {
					child, err = child.GetNextStory()
				}
				must(err)
			}
		}
		first2, err := walk.GetFirstFact()
		must(err)
		for i := 0; i < n; i++ {
			first2, err = first2.GetFirstFact()
			must(err)
		}
		added, err := first.CreateChildStory(text(1, 1), text(1, 2))
		must(err)
		for i := 1; i <= n; i++ {
			switch i % 3 {
			case 0:
				added, err = added.AddRemarkToFact(text(i%50, 2))
			case 1:
				added, err = added.AddFactToStory(text(i%50, 2), text(i%50, 3))
			case 2:
				added, err = added.CreateChildStory(text(i%50, 2), text(i%50, 3))
			}
			must(err)
		}
		_, err = o.GetStory(last)
		must(err)
		with := heap()
		runtime.KeepAlive(g)
		runtime.KeepAlive(o)
		runtime.KeepAlive(first)
		runtime.KeepAlive(last)
		runtime.KeepAlive([]interface{}{walk, fact, child, first2, added})
		g, o, first, last = nil, nil, semnet.Remark{}, semnet.Remark{}
		walk, fact, child, first2, added = nil, nil, nil, nil, nil
		without := heap()
		runtime.KeepAlive(mem)
		return with - without
	}
	for i := 1; i <= n && kind < 3; i++ {
		x, y := text(i, 1), text(i, 2)
		switch {
		case kind == 0: // stories
			last, err = g.CreateStory(x, y)
			must(err)
		case kind == 1: // through the remark kept since the beginning
			a, err := first.AddRemarkToFact(y)
			must(err)
			last = semnet.Remark{Aggregate: a}
		case i%400 == 0:
			last, err = g.CreateStory(x, y)
			must(err)
		case i%2 == 0:
			a, err := last.AddFactToStory(x, y)
			must(err)
			last = semnet.Remark{Aggregate: a}
		default:
			a, err := last.CreateChildStory(x, y)
			must(err)
			ids = append(ids, a.GetIdentifier())
		}
		ids = append(ids, last.GetIdentifier())
		m, err := g.GetRemark(ids[(i*7919)%len(ids)])
		must(err)
		_, _, err = m.GetObjectAndProperty()
		must(err)
		if _, err := g.CreateStory("", x); err == nil {
			panic("accepted")
		}
		if i%10 == 0 {
			_, err = o.GetStory(m)
			must(err)
		}
	}
	with := heap()
	runtime.KeepAlive(g)
	runtime.KeepAlive(o)
	runtime.KeepAlive(first)
	runtime.KeepAlive(last)
	g, o, first, last = nil, nil, semnet.Remark{}, semnet.Remark{}
	without := heap()
	runtime.KeepAlive(mem)
	runtime.KeepAlive(ids)
	return with - without
}

// failing is a storage with failures, each an error of its own.
type failing struct {
	store.Backend
	left, n int
	panics  bool
}

func (s *failing) enter() error {
	s.left--
	if s.left != 0 {
		return nil
	}
	s.n++
	err := fmt.Errorf("failure %d", s.n)
	if s.panics {
		panic(err)
	}
	return err
}

func (s *failing) Has(id uint) (bool, error) {
	if err := s.enter(); err != nil {
		return false, err
	}
	return s.Backend.Has(id)
}

func (s *failing) Create() (uint, error) {
	if err := s.enter(); err != nil {
		return 0, err
	}
	return s.Backend.Create()
}

func (s *failing) ReadSources(id uint) ([]uint, error) {
	if err := s.enter(); err != nil {
		return nil, err
	}
	return s.Backend.ReadSources(id)
}

func (s *failing) ReadTargets(id uint) ([]uint, error) {
	if err := s.enter(); err != nil {
		return nil, err
	}
	return s.Backend.ReadTargets(id)
}

func (s *failing) SetReference(a, b uint) error {
	if err := s.enter(); err != nil {
		return err
	}
	return s.Backend.SetReference(a, b)
}

func (s *failing) GetReference(id uint) (uint, uint, error) {
	if err := s.enter(); err != nil {
		return 0, 0, err
	}
	return s.Backend.GetReference(id)
}

func (s *failing) Connect(a, b uint) error {
	if err := s.enter(); err != nil {
		return err
	}
	return s.Backend.Connect(a, b)
}

// useUp performs operations that store nothing: they read, are refused, fail
// or panic.
func useUp(mem *store.Mem, n int) int64 {
	f := &failing{Backend: mem}
	g := semnet.NewGraph(f)
	o := semnet.NewOutput(g)
	var rems []semnet.Remark
	for i := 0; i < 6; i++ {
		m, err := g.CreateStory(fmt.Sprint("a b", i), "c")
		if err == nil && i > 2 {
			if a, e := m.AddFactToStory("d", fmt.Sprint(i)); e == nil {
				_, err = a.CreateChildStory("e", "f")
			} else {
				err = e
			}
		}
		if err != nil {
			panic(err)
		}
		rems = append(rems, m)
	}
	var others []uint // nodes that are no remarks
	for i := 0; i < n; i++ {
		id, err := mem.Create()
		if err == nil {
			err = mem.Connect(id, []uint{1, 2, 3, 4, 5, 7, 8}[i%7])
		}
		if err != nil {
			panic(err)
		}
		others = append(others, id)
	}
	for i := 1; i <= 8*n; i++ {
		m := rems[i%len(rems)]
		f.left, f.panics = 0, i%16 == 9
		if i%8 == 1 {
			f.left = 1 + i%37
		}
		func() {
			defer func() {
				if p := recover(); p != nil && !f.panics {
					panic(p)
				}
			}()
			switch {
			case i%8 == 0:
				g.CreateStory(fmt.Sprintf("a%d  b", i), "x")
			case i%8 == 2:
				m.AddFactToStory("x", fmt.Sprintf("a\xff%d", i))
			case i%8 == 3:
				m.AddRemarkToFact(fmt.Sprintf(" %d", i))
			case i%8 == 4:
				m.CreateChildStory(fmt.Sprintf("%d ", i), "x")
			case i%8 == 5 && i%3 == 0:
				g.GetRemark(uint(1<<30 + i))
			case i%8 == 5:
				g.GetRemark(others[i/8%len(others)])
			case i%8 == 1 && i%3 == 0: // fails before anything is written
				f.left = 1 + i%7
				m.AddRemarkToFact("b c")
			default:
				readOp(readOps[i/8%len(readOps)], g, o, m.GetIdentifier(), m)
			}
		}()
		f.left = 0
	}
	with := heap()
	runtime.KeepAlive(g)
	runtime.KeepAlive(o)
	runtime.KeepAlive(rems)
	g, o, rems = nil, nil, nil
	without := heap()
	runtime.KeepAlive(mem)
	runtime.KeepAlive(f)
	runtime.KeepAlive(others)
	return with - without
}

// memoryMain is the process that measures.
func memoryMain(c Case) {
	var u memoryUse
	for i, n := range []int{c.N / 4, c.N, c.N, c.N} {
		u.Handle = append(u.Handle, useMemory(c.M, n, int(c.Seed%1000)*10+i))
		u.Stays = append(u.Stays, heap())
	}
	json.NewEncoder(os.Stdout).Encode(u)
}

func measureMemory(c Case, st *Stats) {
	b, _ := json.Marshal(c)
	cmd := exec.Command(os.Args[0], "-digest", string(b))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	var u memoryUse
	if err != nil || json.Unmarshal(out, &u) != nil {
		panic(fmt.Sprintf("no measurement: %v %s %s", err, out, stderr.String()))
	}
	room := int64(16 * c.N)
	if c.M > 2 { // nothing is stored
		room = 16 << 10
	} else if room < 64<<10 {
		room = 64 << 10
	}
	st.Extra["memory_measurements"] += len(u.Handle)
	if h := u.Handle[1]; h > room && h > 2*u.Handle[0] {
		fail("after %d operations a handle holds %d bytes, after %d operations %d", c.N/4, u.Handle[0], c.N, h)
	}
	if s := u.Stays[3] - u.Stays[1]; s > 2*room {
		fail("%d operations on graphs that are let go of leave %d bytes behind", 2*c.N, s)
	}
	st.Extra["worst_bytes_held_by_handle"] = max(st.Extra["worst_bytes_held_by_handle"], int(u.Handle[1]))
	st.eval(sig(c.Seed, "memory", c.M), true)
	st.eval(sig(c.Seed, "stays", c.M), true)
}

// runRefusals looks at the errors of operations refused while the storage
// works.
func runRefusals(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	for i, op := range c.Ops {
		if !strings.HasPrefix(op.K, "bad") {
			w.apply(op)
			continue
		}
		if op.K != "badstory" && len(w.rems) == 0 {
			continue
		}
		_, err, pan, _ := w.perform(op, nil)
		if pan == nil && err != nil && (errors.Is(err, store.ErrInjected) || errors.Is(err, store.ErrUnknown)) {
			fail("%s %s %s is refused with the error of a storage that works: %v", op.K, short(op.O), short(op.P), err)
		}
		st.eval(sig(c.Seed, i, op.K), true)
	}
}

// A recording is the content of a storage, and what was seen in it. Nodes are
// numbered in order of creation.
type recording struct {
	From    string
	IDs     int
	Healthy bool // no failed operation in its history
	Extras  bool // next remarks and renderings were recorded too
	Nodes   []byte
	Rems    []recordedRem
	Facts   []int // story of each
	Stories []int // parent of each, -1 none
}

type recordedRem struct {
	Node, Fact int
	O, P       string
	HasNR      bool
	NextR      int
	Render     string
}

var goldenPath = "harness/golden.gz"
var rootDir = "."
var recorded []recording

func recordings() []recording {
	if recorded != nil {
		return recorded
	}
	b, err := unpack(goldenPath)
	if err == nil {
		err = json.Unmarshal(b, &recorded)
	}
	if err != nil {
		panic(fmt.Sprintf("no recordings: %v", err))
	}
	return recorded
}

// unpack reads a compressed file.
func unpack(path string) ([]byte, error) {
	b, err := os.ReadFile(filepath.Join(rootDir, path))
	if err != nil {
		return nil, err
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

var formLines []string

// forms lists characters with their other forms (normal forms, other case),
// see tools/gen_forms.py.
func forms() []string {
	if formLines == nil {
		b, err := unpack("harness/forms.gz")
		if err != nil {
			panic(fmt.Sprintf("no forms: %v", err))
		}
		formLines = strings.Split(string(b), "\n")
	}
	return formLines
}

// record takes down a world.
func (w *World) record(from string, healthy bool) recording {
	rec := recording{From: from, IDs: w.cfg.IDs, Healthy: healthy, Extras: from != "first"}
	dense := map[uint]int{}
	for i, id := range w.mem.AllIDs() {
		dense[id] = i + 1
	}
	rec.Nodes = w.mem.Dump()
	stories, facts := map[*MStory]int{}, map[*MFact]int{}
	for i, s := range w.stories {
		stories[s] = i
	}
	for _, s := range w.stories {
		p := -1
		if s.parent != nil {
			p = stories[s.parent]
		}
		rec.Stories = append(rec.Stories, p)
		for _, f := range s.facts {
			facts[f] = len(rec.Facts)
			rec.Facts = append(rec.Facts, stories[s])
		}
	}
	for _, m := range w.rems {
		r := recordedRem{Node: dense[m.id], Fact: facts[m.fact], O: m.o, P: m.p}
		if rec.Extras {
			x := w.extra(m)
			r.HasNR, r.Render = x.hasNR, x.render
			if x.hasNR {
				r.NextR = dense[x.nextR]
			}
		}
		rec.Rems = append(rec.Rems, r)
	}
	return rec
}

// replayed opens a recording.
func replayed(rec recording, cfg store.Config, st *Stats, seed int64) *World {
	cfg.IDs = rec.IDs
	mem, err := store.Load(cfg, rec.Nodes)
	if err != nil {
		panic(err)
	}
	w := openWorld(mem, cfg, st, seed)
	for _, p := range rec.Stories {
		s := &MStory{}
		if p >= 0 {
			s.parent = w.stories[p]
			s.pos = len(s.parent.children)
			s.parent.children = append(s.parent.children, s)
		}
		w.stories = append(w.stories, s)
	}
	var facts []*MFact
	for _, s := range rec.Facts {
		f := &MFact{story: w.stories[s], pos: len(w.stories[s].facts)}
		w.stories[s].facts = append(w.stories[s].facts, f)
		facts = append(facts, f)
	}
	for i, m := range rec.Rems {
		r := &MRem{idx: i, id: mem.ExtID(m.Node), o: m.O, p: m.P, fact: facts[m.Fact]}
		r.fact.rems = append(r.fact.rems, r)
		w.rems = append(w.rems, r)
	}
	return w
}

func runC28(c Case, st *Stats) {
	rec := recordings()[c.N]
	w := replayed(rec, c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	compare := func(extras bool) {
		for i, m := range w.rems {
			w.checkRem(m, 1+r.Intn(4), r.Intn(4), FModel)
			if extras && rec.Extras {
				want := seenExtra{hasNR: rec.Rems[i].HasNR, render: rec.Rems[i].Render}
				if want.hasNR {
					want.nextR = w.mem.ExtID(rec.Rems[i].NextR)
				}
				if got := w.extra(m); got != want {
					fail("remark #%d (id %d): next remark and rendering were recorded as %v, are %v", i, m.id, want, got)
				}
			}
			st.eval(sig(c.N, i, c.Cfg.Order, len(w.rems) > len(rec.Rems)), true)
		}
	}
	n := w.mem.Len()
	compare(true)
	if w.mem.Len() != n {
		fail("reading the stored graph added %d nodes", w.mem.Len()-n)
	}
	st.Extra["recordings_opened"]++
	if !rec.Extras {
		return // the first version did not store these well enough to go on
	}
	v := newVocab()
	for _, m := range w.rems {
		v.add(m.o, m.p)
	}
	counts := func() [4]int {
		return [4]int{len(w.members(classCharacter)), len(w.members(classWord)), len(w.members(classPhrase)), len(w.members(classDetail))}
	}
	conserved := func(after string, before [4]int, b4 [4]int) {
		got, want := counts(), [4]int{len(v.bits), len(v.words), len(v.phrases), len(v.pairs)}
		for i := range got {
			if got[i]-before[i] != want[i]-b4[i] {
				fail("%s: %v characters, words, phrases and details were %v, of which %v are needed now and were %v", after, got, before, want, b4)
			}
		}
	}
	before, b4 := counts(), [4]int{len(v.bits), len(v.words), len(v.phrases), len(v.pairs)}
	if rec.Healthy && before != b4 {
		fail("%v characters, words, phrases and details are stored instead of %v", before, b4)
	}
	// known texts
	k := len(w.rems)
	for i := 0; i < 6 && k > 0; i++ {
		m := w.rems[r.Intn(k)]
		w.apply(Op{K: []string{"story", "fact", "child"}[r.Intn(3)], T: r.Intn(k), Via: 1 + r.Intn(4), O: m.o, P: m.p})
		conserved("a known pair was stored again", before, b4)
	}
	// known and unknown ones
	p := mixed
	p.Open, p.Reopen = 1, 1
	for _, op := range genOps(r, 4+r.Intn(12), p) {
		if r.Intn(3) == 0 && k > 0 && creating(op.K) {
			m := w.rems[r.Intn(k)]
			op.O, op.P = m.p, m.o
		}
		if m := w.apply(op); m != nil {
			v.add(m.o, m.p)
		}
	}
	if rec.Healthy && c.Cfg.Order != 3 {
		conserved("more was stored", before, b4)
	}
	compare(false)
	st.state(w.mem.Digest())
}

// largeHistories have long texts, all kinds of characters, and many of
// everything.
func largeHistories() (all [][]Op) {
	r := rand.New(rand.NewSource(77))
	word := func(n int, letters string) string {
		l := []rune(letters)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(l[r.Intn(len(l))])
		}
		return b.String()
	}
	stories := func(texts []string) (ops []Op) {
		for i, t := range texts {
			ops = append(ops, Op{K: "story", O: t, P: texts[(i+1)%len(texts)]})
		}
		return
	}
	var texts []string
	for _, n := range []int{65, 80, 129, 257, 300, 513, 1025, 2049, 5000} {
		texts = append(texts, word(n, "ab"), word(n, "abcdefgé漢😀"))
	}
	all = append(all, stories(texts))
	texts = nil
	for _, n := range []int{12, 17, 33, 65, 130, 257, 520, 1030} {
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, word(1+r.Intn(3), "abcé"))
		}
		texts = append(texts, strings.Join(ws, " "), strings.TrimSuffix(strings.Repeat("a ", n), " "))
	}
	all = append(all, stories(texts))
	texts = nil
	var runes []rune
	for k := 1; k < 21; k++ {
		for d := -2; d < 3; d++ {
			runes = append(runes, rune(1<<k+d))
		}
	}
	for i := 0; i < 1500; i++ {
		runes = append(runes, rune(r.Intn(1<<uint(1+r.Intn(21)))))
	}
	for len(runes) > 0 {
		var b strings.Builder
		for n := 1 + r.Intn(12); n > 0 && len(runes) > 0; n-- {
			if c := runes[0]; utf8.ValidRune(c) && c != ' ' && c >= 0 {
				b.WriteRune(c)
			}
			runes = runes[1:]
		}
		if b.Len() > 0 {
			texts = append(texts, b.String())
		}
	}
	all = append(all, stories(texts))
	var words, phrases []string
	for i := 0; i < 300; i++ {
		words = append(words, "w"+string(rune(0x4e00+7*i)))
		phrases = append(phrases, "w "+words[i])
	}
	all = append(all, stories(words), stories(phrases))
	for i := 0; i < 2; i++ {
		for _, k := range []string{"fact", "remark", "child"} {
			all = append(all, grown(r, 400, k, 5+i))
		}
	}
	ops := []Op{{K: "story", O: "a", P: "b"}}
	for i := 0; i < 200; i++ {
		ops = append(ops, Op{K: "child", T: i, O: "a", P: "b", Via: 1})
	}
	all = append(all, ops)
	ops = nil
	for i := 0; i < 700; i++ {
		ops = append(ops, Op{K: "story", O: texts[i%9], P: texts[i%11]})
	}
	all = append(all, ops)
	for i := 0; i < 4; i++ {
		p := mixed
		p.Long = i == 3
		all = append(all, genOps(r, 250, p))
	}
	return
}

// recordMain writes the recordings; others are those made by other versions.
func recordMain(path, from, others string) {
	var all []recording
	if others != "" {
		goldenPath, rootDir = others, ""
		for _, r := range recordings() {
			all = append(all, r)
		}
	}
	first := from == "first"
	one := func(i int) (rec *recording) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(*Viol); !ok || !first {
					panic(x)
				}
				rec = nil // beyond that version
			}
		}()
		s := int64(1000 + i)
		r := rand.New(rand.NewSource(s))
		w := newWorld(store.Config{IDs: i % 4, Order: i / 4 % 3, Lenient: first}, nil, s)
		healthy := !first
		p := mixed
		p.Open, p.Reopen = 1, 1
		if i%3 == 0 {
			p.SmallPool = 2 + r.Intn(5)
		}
		n := 2 + r.Intn(5+i/3)
		if first {
			p = Profile{Story: 5}
			if i%2 == 1 {
				p.SmallPool = 3
			}
			n = 1 + r.Intn(8)
		}
		for _, op := range genOps(r, n, p) {
			if !first && i%4 == 3 && creating(op.K) && len(w.rems) > 0 && r.Intn(2) == 0 {
				healthy = false
				t := w.target(op.T)
				crash := r.Intn(2) == 0
				out, err, _, crashed := w.disturbed(w.get(t, op.Via, op.H), op, func(m *store.Mon) {
					if crash {
						m.CrashAt = 1 + r.Intn(1+r.Intn(60))
					} else {
						m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(300))
					}
				})
				if crashed {
					w.reopen()
				}
				if err != nil || crashed {
					w.settle(op, t)
					continue
				}
				m := w.model(op, t) // it was over before
				m.id = w.id(out)
				continue
			}
			w.apply(op)
		}
		if len(w.rems) == 0 {
			return nil
		}
		w.reopen()
		if first {
			w.checkAll(FID | FText)
		} else {
			w.checkAll(FModel)
		}
		x := w.record(from, healthy)
		return &x
	}
	if from == "large" { // added to those there are
		for i, ops := range largeHistories() {
			w := newWorld(store.Config{IDs: i % 7, Order: i / 4 % 3}, nil, int64(i))
			w.run(ops)
			w.reopen()
			w.checkAll(FModel)
			all = append(all, w.record(from, true))
		}
	}
	for i := 0; i < 70 && from != "large"; i++ {
		if rec := one(i); rec != nil {
			all = append(all, *rec)
		}
	}
	b, _ := json.Marshal(all)
	var buf bytes.Buffer
	z, _ := gzip.NewWriterLevel(&buf, gzip.BestCompression)
	z.Write(b)
	z.Close()
	os.WriteFile(path, buf.Bytes(), 0o644)
	fmt.Println(len(all), "recordings,", buf.Len(), "bytes")
}
