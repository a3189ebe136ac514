//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func init() {
	register(&Check{
		ID: "C12", Level: "exploration",
		Rule:   "each generated history is performed twice, through one handle and through several handles (some opened while the storage was empty, others opened again at any step, remarks kept from old handles); after every step the identifiers, the outcome and the whole content of both storages are compared, and at intervals everything observable through all handles; further histories let the same changing call fail in both; an evaluation is one step compared; distinct by step, handle and history",
		Assume: []string{"handles are used in turn, not at the same time", "storages that list connections in a stable order"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C12", pick(tier, 1200, 15000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Open, p.Reopen, p.Read, p.Bad = 3, 3, 2, 1
				if i%3 == 0 {
					p.SmallPool = 2 + r.Intn(4)
				}
				p.Long = i%20 == 0
				cs = append(cs, Case{Kind: "handles", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 4+r.Intn(50), p)})
			}
			for i, s := range seeds(seed, "C12l", pick(tier, 6, 40)) {
				r := rand.New(rand.NewSource(s))
				c := Case{Kind: "handles", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}}
				n := pick(tier, 300, 900)
				if i%3 == 2 {
					c.Ops = genOps(r, n, Profile{Story: 6, Fact: 4, Remark: 4, Child: 4, Open: 1, Reopen: 2, Read: 1, Bad: 1})
				} else {
					c.Ops = grown(r, n, []string{"fact", "child", "remark"}[i/3%3], 4)
				}
				cs = append(cs, c)
			}
			for i, s := range seeds(seed, "C12f", pick(tier, 1500, 15000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "failing", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 3+r.Intn(8))})
			}
			return
		},
		Run: func(c Case, st *Stats) {
			if c.Kind == "failing" {
				runC12Failing(c, st)
				return
			}
			runC12(c, st)
		},
	})
	register(&Check{
		ID: "C17", Level: "exploration",
		Rule:   "each generated history is performed on storages that list connections in four orders (one of them different at every call), hand out identifiers in seven ways and treat unknown nodes strictly or leniently, and on the storage of the project's own tests, each of these also as a value of a type that cannot be compared, of one that is a slice, and of types with 78 methods of their own that are for others to call; every observation of every remark is compared with the model and across the storages, the monitor reports each identifier passed that was never handed out, also under failing calls, and each list it handed out that was written to, or behind its end; an evaluation is one history on one storage; distinct by history and storage",
		Assume: []string{"a storage hands out 1 to 8 first, as the class nodes are looked for there", "connections are kept without duplicates"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C17", pick(tier, 250, 3000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Open, p.Reopen, p.Read, p.Bad = 1, 1, 1, 1
				if i%3 == 0 {
					p.SmallPool = 1 + r.Intn(4)
				}
				cs = append(cs, Case{Kind: "storages", Seed: s, N: i, Ops: genOps(r, 4+r.Intn(30), p)})
			}
			for i, s := range seeds(seed, "C17l", pick(tier, 8, 60)) {
				cs = append(cs, Case{Kind: "storages", Seed: s, N: i, Ops: grown(rand.New(rand.NewSource(s)), 60, []string{"fact", "child", "remark"}[i%3], 5)})
			}
			for i, s := range seeds(seed, "C17f", pick(tier, 400, 4000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "faults", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 5+r.Intn(25), mixed)})
			}
			return
		},
		Run: runC17,
	})
	register(&Check{
		ID: "C18", Level: "exploration",
		Rule:   "groups of graphs on storages of their own perform generated histories (some with refused texts and failing calls) alone, in turn operation by operation, in turn storage call by storage call (an order decided by the seed) and in parallel, in a build with the race detector too; the log of identifiers, answers and errors and the final content of each storage are compared with those of the run alone; an evaluation is one history compared; distinct by history and order of turns",
		Assume: []string{"the race detector reports races of the executions performed only"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C18", pick(tier, 300, 3000)) {
				cs = append(cs, Case{Kind: []string{"turns", "calls", "parallel"}[i%3], Seed: s, N: 2 + i%5, M: 5 + i%20})
			}
			return
		},
		Run: runC18,
	})
	register(&Check{
		ID: "C19", Level: "exploration",
		Rule:   "generated graphs, used through the handle that made them or through one opened afterwards, which then reads one remark's texts; then up to 12 goroutines perform random reading operations on shared remarks, in parallel in a build with the race detector and storage call by storage call in an order decided by the seed; every answer is compared with the one obtained alone before (in a third of the cases some nodes cannot be read meanwhile, and failures are accepted); an evaluation is one reading operation; distinct by question, remark, goroutine and case",
		Assume: []string{"the storage itself can be read in parallel", "the race detector reports races of the executions performed only"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C19", pick(tier, 300, 3000)) {
				r := rand.New(rand.NewSource(s))
				ops := genOps(r, 3+r.Intn(25), mixed)
				if i%10 > 7 {
					ops = withLongWords(r, ops)
				}
				cs = append(cs, Case{Kind: []string{"parallel", "calls"}[i%2], Seed: s, N: 2 + i%11, M: i % 3, Cfg: store.Config{Order: i / 2 % 3, IDs: i / 6 % store.IDKinds}, Ops: ops})
			}
			return
		},
		Run: runC19,
	})
	register(&Check{
		ID: "C20", Level: "exploration",
		Rule:   "each generated history, refused texts and failing calls included, is performed several times in one process and in other processes with other settings of the runtime (number of threads, garbage collection), another environment and working directory, and with a simulated clock, where the storage takes milliseconds to days for a call and days pass between operations; the log of identifiers, answers and errors and the content of the storage are compared; an evaluation is one repetition; distinct by history and repetition",
		Assume: []string{"equal storages answer equal calls equally"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C20", pick(tier, 24, 240)) {
				cs = append(cs, Case{Kind: "repeat", Seed: s, N: 25, M: i})
			}
			return
		},
		Run: runC20,
	})
	register(&Check{
		ID: "C21", Level: "exploration",
		Rule:   "the storage calls of every operation are counted in a small graph and in the same graph after thousands of stories, facts, children and remarks with equal and with unrelated texts were added elsewhere, through handles in use and just opened; the count may not grow by more than a quarter and 16 calls; each operation of long lives of one handle, in which the same is done thousands of times, is counted too; adding facts, remarks and children is counted at sizes that double, and may grow in proportion, and every reading operation is counted at several places among them; and every operation is counted with texts of doubling lengths (long words, many words, equal and different characters), new and known ones, where calls may grow in proportion; an evaluation is one operation counted; distinct by operation, graph and size",
		Assume: []string{"unrelated texts share no beginning and no word with the texts of the operation counted", "work is measured in storage calls"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C21", pick(tier, 24, 100)) {
				cs = append(cs, Case{Kind: "elsewhere", Seed: s, N: pick(tier, 4000, 25000), M: i % 4})
			}
			for i, s := range seeds(seed, "C21g", pick(tier, 8, 40)) {
				cs = append(cs, Case{Kind: "growth", Seed: s, N: pick(tier, 512, 4096), M: i % 4})
			}
			for i, s := range seeds(seed, "C21s", pick(tier, 8, 32)) {
				cs = append(cs, Case{Kind: "steady", Seed: s, N: pick(tier, 2200, 12000), M: i, Cfg: store.Config{Order: i % 3}})
			}
			for i, s := range seeds(seed, "C21l", pick(tier, 18, 90)) {
				cs = append(cs, Case{Kind: "length", Seed: s, N: pick(tier, 1024, 8192), M: i % 9})
			}
			return
		},
		Run: runC21,
	})
}

// runC12Failing lets operations fail at one of their changes, through one
// handle all of them, and through others in turn, and compares.
func runC12Failing(c Case, st *Stats) {
	r := rand.New(rand.NewSource(c.Seed))
	a := newWorld(c.Cfg, st, c.Seed)
	b := newWorld(c.Cfg, st, c.Seed)
	for i := 0; i < 1+r.Intn(3); i++ {
		b.handles = append(b.handles, semnet.NewGraph(b.mon))
	}
	same := func(what string) {
		if d := a.mem.Diff(b.mem); d != "" {
			fail("%s: the content written through one handle and through others differs: %s", what, d)
		}
	}
	both := func(what string, op Op, h int) {
		op.H, op.Via = 0, 1
		m := a.apply(op)
		op.H = h
		n := b.apply(op)
		if m.id != n.id {
			fail("%s gives remark %d through one handle and %d through others", what, m.id, n.id)
		}
		same(what)
	}
	for i, op := range c.Ops {
		h := r.Intn(4)
		if i > 0 || r.Intn(3) > 0 {
			at, mode := 1+r.Intn(1+r.Intn(70)), store.FaultBefore+r.Intn(2)
			if len(a.rems) == 0 {
				at = 1 + r.Intn(400)
			}
			if i == 0 {
				op.K = "story"
			}
			try := func(w *World, h int) (*MRem, error) {
				t := w.target(op.T)
				if t == nil {
					op.K = "story"
				}
				if op.K == "story" && op.O == "" {
					op.O = op.P
				}
				o := op
				o.H, o.Via = h, 1
				var x semnet.Remark
				if t != nil && o.K != "story" {
					x = w.get(t, 1, h)
				}
				out, err, pan, _ := w.disturbed(x, o, func(m *store.Mon) { m.FailWrite, m.FaultMode = at, mode })
				if pan != nil {
					fail("step %d %s with change %d failing panicked: %v [%s]", i, o.K, at, pan.val, trimStack(pan.stack))
				}
				if err == nil {
					m := w.model(o, t)
					m.id, m.val, m.kept = w.id(out), out, true
					return m, nil
				}
				return w.settle(o, t), err
			}
			what := fmt.Sprintf("step %d %s with change %d failing", i, op.K, at)
			ma, ea := try(a, 0)
			mb, eb := try(b, h)
			if (ea == nil) != (eb == nil) || (ma == nil) != (mb == nil) {
				fail("%s: %v through one handle, %v through another", what, ea, eb)
			}
			if ma != nil && ma.id != mb.id {
				fail("%s gives remark %d through one handle and %d through others", what, ma.id, mb.id)
			}
			same(what)
			if ea != nil {
				st.Extra["failed_operations"]++
			}
		}
		what := fmt.Sprintf("step %d %s through another handle after a failure", i, op.K)
		// through another, and then through the one that failed
		both(what, op, h+1+r.Intn(2))
		if r.Intn(3) > 0 {
			o := op
			switch r.Intn(3) {
			case 0:
				if o.K != "remark" {
					o.O, o.P = o.P, o.O
				}
			case 1:
				o.P += " " + o.P
			}
			if o.K != "remark" && o.O == "" {
				o.O = o.P
			}
			both(what+", then the one that failed", o, h)
		}
		st.eval(sig(c.Seed, i, op.K, len(b.handles)), len(a.rems) > 1)
	}
	for j := range a.rems {
		for h := range b.handles {
			b.checkRem(b.rems[j], 1, h, FModel)
		}
		a.checkRem(a.rems[j], 1, 0, FModel)
	}
	st.state(a.mem.Digest())
}

func runC12(c Case, st *Stats) {
	r := rand.New(rand.NewSource(c.Seed))
	a := newWorld(c.Cfg, st, c.Seed)
	b := newWorld(c.Cfg, st, c.Seed)
	for i := 0; i < r.Intn(3); i++ { // opened on the empty storage
		b.handles = append(b.handles, semnet.NewGraph(b.mon))
	}
	// remarks kept by b from any handle, closed ones included
	kept := map[int][]semnet.Remark{}
	for i, op := range c.Ops {
		if r.Intn(8) == 0 {
			b.handles = []*semnet.Graph{semnet.NewGraph(b.mon)}
		}
		if op.K == "open" || op.K == "reopen" {
			b.apply(op)
			continue
		}
		if op.K == "read" {
			b.apply(op)
			continue
		}
		opA := op
		opA.H, opA.Via = 0, 0
		var m, n *MRem
		if strings.HasPrefix(op.K, "bad") {
			if op.K != "badstory" && len(a.rems) == 0 {
				continue
			}
			_, ea, pa, _ := a.perform(opA, nil)
			_, eb, pb, _ := b.perform(op, nil)
			if pa != nil || pb != nil || (ea == nil) != (eb == nil) {
				fail("step %d %s: %v %v through one handle, %v %v through others", i, op.K, ea, pa, eb, pb)
			}
		} else {
			m = a.apply(opA)
			t := b.target(op.T)
			if t != nil && op.K != "story" && len(kept[t.idx]) > 0 && r.Intn(3) == 0 {
				// through a remark kept from any handle
				x := kept[t.idx][r.Intn(len(kept[t.idx]))]
				out, err, pan, _ := b.performOn(x, op, nil)
				if err != nil || pan != nil || isNil(out) {
					fail("step %d %s through a remark of an earlier handle: %v %v", i, op.K, err, pan)
				}
				n = b.model(op, t)
				n.id = b.id(out)
				n.val, n.kept = out, true
			} else {
				n = b.apply(op)
			}
			if m.id != n.id {
				fail("step %d %s gives remark %d through one handle and %d through others", i, op.K, m.id, n.id)
			}
			kept[n.idx] = append(kept[n.idx], b.get(n, 1, r.Intn(6)))
		}
		if d := a.mem.Diff(b.mem); d != "" {
			fail("step %d %s: the content written through one handle and through others differs: %s", i, op.K, d)
		}
		st.eval(sig(c.Seed, i, op.K, len(b.handles)), len(a.rems) > 0)
		if m != nil && (i%5 == 0 || i == len(c.Ops)-1) {
			for k := 0; k < 3; k++ {
				j := r.Intn(len(a.rems))
				oa := a.observe(a.get(a.rems[j], 1, 0), FAll, 0)
				for h := range b.handles {
					if d := diffObs(b.observe(b.get(b.rems[j], 1, h), FAll, h), oa); d != "" {
						fail("step %d: remark #%d through handle %d shows %s", i, j, h, d)
					}
				}
				if len(kept[j]) > 0 {
					if d := diffObs(b.observe(kept[j][r.Intn(len(kept[j]))], FAll, 0), oa); d != "" {
						fail("step %d: remark #%d kept from an earlier handle shows %s", i, j, d)
					}
				}
			}
		}
	}
	b.handles = append(b.handles, semnet.NewGraph(b.mon))
	for j := range a.rems {
		oa := a.observe(a.get(a.rems[j], 0, 0), FAll, 0)
		if d := diffObs(oa, b.observe(b.get(b.rems[j], 4, 0), FAll, len(b.handles)-1)); d != "" {
			fail("remark #%d through a handle just opened shows something else: %s", j, d)
		}
		a.checkRem(a.rems[j], 0, 0, FModel)
	}
	st.state(a.mem.Digest())
}

func allConfigs() (out []store.Config) {
	for o := 0; o < 4; o++ {
		for i := 0; i < store.IDKinds; i++ {
			out = append(out, store.Config{Order: o, IDs: i, Lenient: (o+i)%2 == 0})
		}
	}
	out = append(out, store.Config{Lenient: true}, store.Config{Order: 3, IDs: 2}, store.Config{Backend: "clew"})
	return
}

func runC17(c Case, st *Stats) {
	r := rand.New(rand.NewSource(c.Seed))
	unknown := func(w *World, cfg store.Config) {
		w.mon.LookAtLists()
		if len(w.mon.Written) > 0 {
			fail("storage %+v: %s", cfg, w.mon.Written[0])
		}
		if len(w.mon.Unknown) > 0 {
			fail("storage %+v: %s", cfg, w.mon.Unknown[0])
		}
	}
	if c.Kind == "faults" {
		w := newWorld(c.Cfg, st, c.Seed)
		w.dressUp(c.N)
		w.mon.KeepLists = true
		for i, op := range c.Ops {
			t := w.target(op.T)
			if t != nil {
				x := w.get(t, op.Via, op.H)
				name := readOps[r.Intn(len(readOps))]
				w.answer(name, op.H, t.id, x, func(m *store.Mon) { m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(60)) })
				_, _, _, _ = w.disturbed(x, op, func(m *store.Mon) { m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(600)) })
			}
			w.apply(Op{K: "story", O: op.P, P: op.P})
			unknown(w, c.Cfg)
			st.eval(sig(c.Seed, i), true)
		}
		return
	}
	type shown struct {
		o, p, render   string
		nf, ns, nr, ff int
	}
	var base []shown
	for k, cfg := range allConfigs() {
		w := newWorld(cfg, st, c.Seed)
		w.dressUp(k + c.N)
		w.mon.KeepLists = true
		for _, op := range c.Ops {
			w.apply(op)
			if op.K == "reopen" {
				unknown(w, cfg)
			}
		}
		byID := map[uint]int{}
		for _, m := range w.rems {
			byID[m.id] = m.idx
		}
		at := func(has bool, id uint) int {
			if !has {
				return -1
			}
			if i, ok := byID[id]; ok {
				return i
			}
			return -2
		}
		var all []shown
		for _, m := range w.rems {
			w.checkRem(m, r.Intn(5), r.Intn(5), FModel)
			o := w.observe(w.get(m, 1, 0), FAll, 0)
			all = append(all, shown{o.O, o.P, o.Render, at(o.HasNF, o.NextF), at(o.HasNS, o.NextS), at(o.HasNR, o.NextR), at(true, o.First)})
		}
		unknown(w, cfg)
		if k == 0 {
			base = all
		} else {
			for i := range base {
				if all[i] != base[i] {
					fail("remark #%d shows %+v on storage %+v and %+v on the plain one", i, all[i], cfg, base[i])
				}
			}
		}
		if w.mem != nil {
			st.state(w.mem.Digest())
		}
		st.eval(sig(c.Seed, k), len(w.rems) > 1)
	}
}

// script performs a history step by step and keeps a log of all that was
// answered. It uses no memory of other scripts.
type script struct {
	w    *World
	ops  []Op
	r    *rand.Rand
	at   int
	log  []string
	bad  *Viol
	step func() // between steps
	prob float64
}

func newScript(cfg store.Config, seed int64, ops []Op, prob float64) *script {
	return &script{w: newWorld(cfg, nil, seed), ops: ops, r: rand.New(rand.NewSource(seed)), prob: prob}
}

func (s *script) add(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

func (s *script) next() (more bool) {
	if s.at >= len(s.ops) || s.bad != nil {
		return false
	}
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(*Viol); ok {
				s.bad = v
				more = false
				return
			}
			panic(x)
		}
	}()
	op := s.ops[s.at]
	s.at++
	w := s.w
	t := w.target(op.T)
	switch {
	case op.K == "open" || op.K == "reopen":
		w.apply(op)
	case op.K == "read":
		if t != nil {
			s.add("%v", w.observe(w.get(t, op.Via, op.H), FAll, op.H))
		}
	case strings.HasPrefix(op.K, "bad"):
		if op.K == "badstory" || t != nil {
			out, err, pan, _ := w.perform(op, nil)
			s.add("%s %v %v %v", op.K, isNil(out), err, pan != nil)
		}
	default:
		if s.prob > 0 && t != nil && s.r.Float64() < 0.4 {
			x := w.get(t, op.Via, op.H)
			_, err, pan, _ := w.disturbed(x, op, func(m *store.Mon) { m.FaultRng, m.FaultProb = s.r, s.prob })
			s.add("disturbed %s %v %v", op.K, err, pan != nil)
			if err == nil || op.K == "fact" || op.K == "child" {
				w.reopen()
				op.K = "story" // the story of t is not in the model any more
				op.O = op.P
			}
		}
		m := w.apply(op)
		s.add("%s %d", op.K, m.id)
		if len(s.log)%4 == 0 {
			s.add("%v", w.observe(m.val, FAll, 0))
		}
	}
	return true
}

func (s *script) runAll() {
	for s.next() {
		if s.step != nil {
			s.step()
		}
	}
}

func sameScript(what string, a, b *script) {
	if a.bad != nil && b.bad != nil {
		return // wrong in the same way; other properties decide
	}
	if a.bad != nil || b.bad != nil {
		v := a.bad
		if v == nil {
			v = b.bad
		}
		fail("%s: only one of two runs went wrong: %s", what, v.Msg)
	}
	for i := range a.log {
		if i >= len(b.log) || a.log[i] != b.log[i] {
			o := "nothing"
			if i < len(b.log) {
				o = b.log[i]
			}
			fail("%s: answer %d differs: %s against %s", what, i, short(a.log[i]), short(o))
		}
	}
	if a.w.mem != nil {
		if d := a.w.mem.Diff(b.w.mem); d != "" {
			fail("%s: the stored content differs: %s", what, d)
		}
	}
}

// waitFor waits for goroutines; a deadlock is reported, generously.
func waitFor(wg *sync.WaitGroup, what string) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(400 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		panic(&Viol{Msg: what + " do not end", Log: []string{string(buf)}})
	}
}

// withLongWords puts texts of hundreds of characters in some places.
func withLongWords(r *rand.Rand, ops []Op) []Op {
	letters := []string{"a", "bc", "ж", "語", "😀x", "def"}
	for k := range ops {
		if creating(ops[k].K) && (k == 0 || r.Intn(8) == 0) {
			n := 100 + r.Intn(900)
			if ns := sizes(100, 10000, 4); len(ns) > 0 && r.Intn(3) == 0 {
				n = ns[r.Intn(len(ns))] + 2
			}
			t := strings.Repeat(letters[r.Intn(len(letters))], n)
			if r.Intn(3) == 0 {
				t = strings.TrimSuffix(strings.Repeat(letters[r.Intn(len(letters))]+" ", n), " ")
			}
			if ops[k].O != "" && r.Intn(2) == 0 {
				ops[k].O = t
			} else {
				ops[k].P = t
			}
		}
	}
	return ops
}

func runC18(c Case, st *Stats) {
	if raceBuild && c.Kind == "calls" {
		return // the turns would hide races
	}
	r := rand.New(rand.NewSource(c.Seed))
	var cfgs []store.Config
	var opss [][]Op
	var sds []int64
	equal := r.Intn(2) == 0
	n := c.N
	prob := 0.0
	if c.Seed%3 == 0 { // some operations fail
		prob = 1.0 / 200
	}
	for i := 0; i < n; i++ {
		p := mixed
		p.Open, p.Reopen, p.Read, p.Bad = 1, 1, 3, 1
		if r.Intn(2) == 0 {
			p.SmallPool = 3
		}
		if i > 0 && equal { // the same history in both
			opss = append(opss, opss[0])
			sds = append(sds, sds[0])
			cfgs = append(cfgs, cfgs[0])
			continue
		}
		ops := genOps(r, 5+r.Intn(c.M+1), p)
		if c.M%4 == 1 {
			ops = withLongWords(r, ops)
		}
		opss = append(opss, ops)
		sds = append(sds, r.Int63())
		cfgs = append(cfgs, store.Config{Order: r.Intn(4), IDs: r.Intn(5)})
	}
	make_ := func() (out []*script) {
		for i := range opss {
			out = append(out, newScript(cfgs[i], sds[i], opss[i], prob))
		}
		return
	}
	var alone []*script
	if c.Kind != "parallel" || r.Intn(2) == 0 {
		alone = make_()
		for _, s := range alone {
			s.runAll()
		}
	}
	got := make_()
	order := uint64(0)
	switch c.Kind {
	case "turns":
		live := n
		for live > 0 {
			live = 0
			for k := 0; k < n; k++ {
				if got[r.Intn(n)].next() {
					live++
				}
			}
			for _, s := range got {
				if s.at < len(s.ops) && s.bad == nil {
					live++
				}
			}
		}
		order = hashStr(fmt.Sprint(c.Seed))
	case "calls":
		sch := store.NewSched(n, c.Seed, 1+r.Intn(6))
		var fs []func()
		for _, s := range got {
			s := s
			s.w.mon.Yield = sch.Yield
			fs = append(fs, s.runAll)
		}
		det, ended := sch.Run(fs)
		if !ended {
			fail("graphs used in turn do not end")
		}
		if !det {
			st.Extra["orders_left_to_the_runtime"]++
		}
		st.Extra["switches_between_graphs"] += sch.Switches
		order = sch.Hash
	case "parallel":
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, s := range got {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				s.runAll()
			}()
		}
		close(start)
		waitFor(&wg, "graphs used in parallel")
		order = sig(c.Seed, "parallel")
		st.Extra["parallel_runs"]++
	}
	if alone == nil { // the first use of anything in the process was parallel
		alone = make_()
		for _, s := range alone {
			s.runAll()
		}
	}
	for i := range got {
		sameScript(fmt.Sprintf("graph %d of %d, %s, compared with the run alone", i, n, c.Kind), got[i], alone[i])
		st.eval(sig(order, i, c.Seed), n > 1)
		if got[i].w.mem != nil {
			st.state(got[i].w.mem.Digest())
		}
		st.Ops["logged answers"] += len(got[i].log)
		st.Calls += got[i].w.mon.Total
	}
}

func runC19(c Case, st *Stats) {
	if raceBuild && c.Kind == "calls" {
		return
	}
	r := rand.New(rand.NewSource(c.Seed))
	w := newWorld(c.Cfg, nil, c.Seed)
	w.run(c.Ops)
	if len(w.rems) == 0 {
		return
	}
	mem := w.mem
	digest := mem.Digest()
	var sch *store.Sched
	active := false
	// in a third of the cases some nodes cannot be read
	broken := &store.Broken{Backend: mem, Seed: uint64(c.Seed)}
	breaking := c.N%3 == 0
	var b store.Backend = broken
	if c.Kind == "calls" {
		sch = store.NewSched(c.N, c.Seed, 1+r.Intn(8))
		b = store.Yielding{B: broken, F: func() {
			if active {
				sch.Yield()
			}
		}}
	}
	// what each question is answered alone, by a handle of its own
	type quest struct {
		rem  int
		name string
	}
	want := map[quest]string{}
	bad := map[quest]bool{}
	ref := semnet.NewGraph(mem)
	refOut := semnet.NewOutput(ref)
	// what is no remark
	isRem := map[uint]bool{}
	for _, m := range w.rems {
		isRem[m.id] = true
	}
	others := []uint{0, ^uint(0)}
	for _, k := range r.Perm(mem.Len())[:min(20, mem.Len())] {
		if id := mem.AllIDs()[k]; !isRem[id] {
			others = append(others, id)
		}
	}
	for _, id := range others {
		if _, err := ref.GetRemark(id); err == nil {
			fail("GetRemark(%d) succeeded", id)
		}
	}
	for _, m := range w.rems {
		x, err := ref.GetRemark(m.id)
		if err != nil {
			fail("GetRemark(%d) failed: %v", m.id, err)
		}
		for _, name := range readOps {
			ans, err := readOp(name, ref, refOut, m.id, x)
			want[quest{m.idx, name}] = ans
			bad[quest{m.idx, name}] = err != nil
		}
	}
	var g *semnet.Graph
	if c.M == 0 && c.Kind == "parallel" && !breaking {
		// the handle that wrote, without the monitor in between
		mem2 := store.NewMem(c.Cfg)
		w2 := &World{cfg: c.Cfg, back: mem2, rng: rand.New(rand.NewSource(c.Seed ^ 0x5eed))}
		w2.mon = store.NewMon(mem2)
		w2.mem = mem2
		g = semnet.NewGraph(mem2)
		w2.handles = []*semnet.Graph{g}
		for _, op := range c.Ops {
			if creating(op.K) {
				w2.apply(op)
			}
		}
		if d := mem2.Diff(mem); d != "" {
			fail("the same history gives other content: %s", d)
		}
	} else {
		g = semnet.NewGraph(b)
	}
	k := r.Intn(len(w.rems))
	x, err := g.GetRemark(w.rems[k].id)
	if err != nil {
		fail("GetRemark failed: %v", err)
	}
	if _, _, err = x.GetObjectAndProperty(); err != nil {
		fail("GetObjectAndProperty failed: %v", err)
	}
	shared := make([]semnet.Remark, len(w.rems))
	for i := range shared { // some remarks are fetched before and shared
		if c.M == 1 || i == k || r.Intn(2) == 0 {
			shared[i], _ = g.GetRemark(w.rems[i].id)
		}
	}
	type res struct {
		msg       string
		n, failed int
		sigs      []uint64
	}
	results := make([]res, c.N)
	out := semnet.NewOutput(g)
	ownOut := r.Intn(2) == 0
	var fs []func()
	for q := 0; q < c.N; q++ {
		q := q
		rr := rand.New(rand.NewSource(c.Seed + int64(q)*7919))
		if r.Intn(2) == 0 { // all ask the same
			rr = rand.New(rand.NewSource(c.Seed))
		}
		o := out
		if ownOut {
			o = semnet.NewOutput(g)
		}
		fs = append(fs, func() {
			out := &results[q]
			defer func() {
				if x := recover(); x != nil {
					out.msg = fmt.Sprintf("panic: %v", x)
				}
			}()
			for i := 0; i < 40; i++ {
				j := rr.Intn(len(w.rems))
				id := w.rems[j].id
				x := shared[j]
				if rr.Intn(4) == 0 {
					other := others[rr.Intn(len(others))]
					if _, err := g.GetRemark(other); err == nil {
						out.msg = fmt.Sprintf("GetRemark(%d) succeeded", other)
						return
					}
					out.n++
				}
				if isNil(x) || rr.Intn(3) == 0 {
					var err error
					x, err = g.GetRemark(id)
					if err != nil && breaking {
						out.failed++
						continue
					}
					if err != nil {
						out.msg = fmt.Sprintf("GetRemark(%d) failed: %v", id, err)
						return
					}
				}
				name := readOps[rr.Intn(len(readOps))]
				ans, err := readOp(name, g, o, id, x)
				qu := quest{j, name}
				if err != nil && breaking {
					out.failed++
					continue
				}
				if (err != nil) != bad[qu] || err == nil && ans != want[qu] {
					out.msg = fmt.Sprintf("%s of remark #%d gave %s (%v), alone %s", name, j, ans, err, want[qu])
					return
				}
				out.n++
				out.sigs = append(out.sigs, sig(c.Seed, q, j, name))
			}
		})
	}
	broken.On = breaking
	if sch != nil {
		active = true
		det, ended := sch.Run(fs)
		if !ended {
			fail("readers taking turns do not end")
		}
		if !det {
			st.Extra["orders_left_to_the_runtime"]++
		}
		st.Extra["switches_between_readers"] += sch.Switches
		st.state(sch.Hash)
		active = false
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		waitFor(&wg, "parallel readers")
		st.Extra["parallel_readers"] += c.N
	}
	for q, o := range results {
		if o.msg != "" {
			fail("reader %d of %d: %s", q, c.N, o.msg)
		}
		for _, s := range o.sigs {
			st.eval(s, c.N > 1)
		}
		st.Ops["parallel reading operations"] += o.n
		st.Ops["parallel reading operations on a storage that fails"] += o.failed
	}
	if mem.Digest() != digest {
		fail("reading in parallel changed the storage")
	}
}

// repeatOps are the histories of one case of C20.
func repeatScripts(c Case) (out []*script) {
	for i, s := range seeds(c.Seed, "C20r", c.N) {
		r := rand.New(rand.NewSource(s))
		p := mixed
		p.Open, p.Reopen, p.Read, p.Bad = 1, 1, 2, 1
		if i%3 == 0 {
			p.SmallPool = 2 + r.Intn(6)
		}
		p.Long = i%10 == 0
		prob := 0.0
		if i%4 == 3 {
			prob = 1.0 / 300
		}
		out = append(out, newScript(store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds}, s, genOps(r, 10+r.Intn(50), p), prob))
	}
	return
}

type scriptDigest struct {
	Log, Mem uint64
	Bad      string
}

func (s *script) digest() scriptDigest {
	d := scriptDigest{Log: hashStr(strings.Join(s.log, "\n"))}
	if s.w.mem != nil {
		d.Mem = s.w.mem.Digest()
	}
	if s.bad != nil {
		d.Bad = s.bad.Msg
	}
	return d
}

// A surrounding is where a history is repeated.
type surrounding struct {
	what, bin, dir string
	env            []string
	clock          int
	busy           bool
}

// The program built with the runtime's simulated clock (which goes on when all
// goroutines wait) can let years pass within a history.
var (
	fakeBin = os.Getenv("SEMMON_FAKE")
	clock   = flag.Int("clock", 0, "the way time passes in a process with a simulated clock")
	busy    = flag.Bool("busy", false, "have other goroutines and much memory in use")
)

const clocks = 4

// passTime lets time pass within and between the operations of a script.
func passTime(s *script, seed int64, way int) {
	r := rand.New(rand.NewSource(seed ^ int64(way)))
	long := func() time.Duration { // a millisecond to days, the shorter ones as often as the longer ones
		return time.Duration(float64(time.Millisecond) * math.Exp(r.Float64()*20))
	}
	n := 0
	switch way {
	case 1: // a slow storage
		s.w.mon.Yield = func() {
			if n++; n%8 == 0 {
				time.Sleep(50 * time.Millisecond)
			}
		}
	case 2: // pauses between operations
		s.step = func() { time.Sleep(long()) }
	case 3: // a storage that hangs now and then
		s.w.mon.Yield = func() {
			if r.Intn(30) == 0 {
				time.Sleep(long())
			}
		}
		s.step = func() { time.Sleep(time.Duration(r.Int63n(int64(4 * time.Second)))) }
	case 4: // a very slow storage, in another time
		time.Sleep(time.Duration(r.Int63n(int64(10 * 365 * 24 * time.Hour))))
		s.w.mon.Yield = func() {
			if n++; n%8 == 0 {
				time.Sleep(time.Duration(r.Int63n(int64(3 * time.Minute))))
			}
		}
	}
}

// withoutHeads removes what the simulated clock puts before each output: two
// zero bytes, "PB", the time and the length.
func withoutHeads(b []byte) (out []byte) {
	for len(b) >= 16 && string(b[:4]) == "\x00\x00PB" {
		n := 16 + int(binary.BigEndian.Uint32(b[12:16]))
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[16:n]...)
		b = b[n:]
	}
	return append(out, b...)
}

func runC20(c Case, st *Stats) {
	first := repeatScripts(c)
	for _, s := range first {
		s.runAll()
		st.state(s.w.mem.Digest())
		st.Calls += s.w.mon.Total
		st.Ops["steps"] += s.at
		st.Ops["logged answers"] += len(s.log)
	}
	for rep := 0; rep < 3; rep++ {
		for i, s := range repeatScripts(c) {
			s.runAll()
			sameScript(fmt.Sprintf("history %d repeated in the same process", i), s, first[i])
			st.eval(sig(c.Seed, i, rep), len(s.log) > 3)
		}
	}
	b, _ := json.Marshal(c)
	surroundings := []surrounding{
		{what: "another process", env: append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")},
		{what: "another process", env: append(variables(), "GOMAXPROCS=3", "GOGC=5", "TZ=Pacific/Apia", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "TMPDIR=/nonexistent", "SEMNET="+os.Getenv("SEMNET")), dir: "/"},
		{what: "a process that is busy otherwise", env: append(os.Environ(), "GOMAXPROCS=64", "GODEBUG=madvdontneed=1"), dir: "/tmp", busy: true},
	}
	if fakeBin != "" {
		for k := 0; k < 2; k++ {
			surroundings = append(surroundings, surrounding{what: "a process with another clock, where calls take their time", bin: fakeBin, env: append(os.Environ(), "GOGC=off", "GOMAXPROCS=1"), clock: 1 + (c.M+k)%clocks})
		}
	}
	for rep, sur := range surroundings {
		if sur.bin == "" {
			sur.bin = os.Args[0]
		}
		args := []string{"-digest", string(b), "-clock", fmt.Sprint(sur.clock)}
		if sur.busy {
			args = append(args, "-busy")
		}
		patience := 15 * time.Minute
		if sur.clock > 0 {
			patience = 2 * time.Minute
		}
		ctx, end := context.WithTimeout(context.Background(), patience)
		cmd := exec.CommandContext(ctx, sur.bin, args...)
		cmd.Env, cmd.Dir = sur.env, sur.dir
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		late := ctx.Err() != nil
		end()
		if sur.clock > 0 {
			if late { // the runtime does not promise to get along with its simulated clock
				st.Extra["processes_with_another_clock_given_up"]++
				continue
			}
			out = withoutHeads(out)
			st.Extra["processes_with_another_clock"]++
		}
		if err != nil {
			panic(fmt.Sprint("the other process: ", err))
		}
		var ds []scriptDigest
		if err := json.Unmarshal(out, &ds); err != nil || len(ds) != len(first) {
			panic(fmt.Sprint("the other process answered ", string(out)))
		}
		for i, d := range ds {
			e := first[i].digest()
			if d.Log != e.Log && d.Bad == e.Bad {
				fail("history %d gives other answers in %s", i, sur.what)
			}
			if d.Mem != e.Mem {
				fail("history %d gives other stored content in %s", i, sur.what)
			}
			if d.Bad != e.Bad {
				fail("history %d goes wrong here or in %s only: %s%s", i, sur.what, d.Bad, e.Bad)
			}
			st.eval(sig(c.Seed, i, "process", rep), true)
		}
		st.Extra["other_processes"]++
	}
}

// beBusy keeps goroutines, memory and a thread in use.
func beBusy() {
	for i := 0; i < 20_000; i++ {
		go func() { select {} }()
	}
	held := make([]byte, 192<<20)
	for i := 0; i < len(held); i += 4096 {
		held[i] = 1
	}
	go func() {
		runtime.LockOSThread()
		for i := 0; ; i++ {
			held[i%len(held)]++
			if i%1000 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
}

func digestMain(arg string) {
	if *busy {
		beBusy()
	}
	var c Case
	if err := json.Unmarshal([]byte(arg), &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if c.Kind == "outside" {
		outsideMain(c)
		return
	}
	if c.Kind == "memory" {
		memoryMain(c)
		return
	}
	if c.Kind == "later" {
		laterMain(c)
		return
	}
	var ds []scriptDigest
	for i, s := range repeatScripts(c) {
		passTime(s, c.Seed+int64(i), *clock)
		s.runAll()
		ds = append(ds, s.digest())
	}
	json.NewEncoder(os.Stdout).Encode(ds)
}

// measure counts the storage calls of an operation, on the content as it is.
func (w *World) measure(f func() error) int {
	var n int
	w.mem.Mark()
	err, pan, _ := w.call("measured", nil, f)
	n = w.mon.Calls
	w.mem.Rollback()
	if pan != nil || err != nil {
		fail("an operation to be counted failed: %v %v", err, pan)
	}
	return n
}

// measureRefused does it for one that has to be refused.
func (w *World) measureRefused(what string, f func() error) int {
	w.mem.Mark()
	err, pan, _ := w.call(what, nil, f)
	n := w.mon.Calls
	w.mem.Rollback()
	if pan != nil || err == nil {
		fail("%s is not refused: %v", what, pan)
	}
	return n
}

// measureLengths counts the calls of operations with texts whose lengths double.
func (w *World) measureLengths(c Case, r *rand.Rand) {
	text := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if c.M%3 == 1 && i > 0 {
				b.WriteByte(' ') // words of one letter
			}
			switch {
			case c.M%3 == 2 && i%8 == 7 && i < n-1:
				b.WriteByte(' ')
			case c.M/3 == 0:
				b.WriteByte('x')
			default:
				b.WriteByte("abcdefghij"[r.Intn(10)])
			}
		}
		return b.String()
	}
	last := map[string]int{}
	size := 0
	counted := func(what string, f func() error) {
		var failed error
		n := w.measure(func() error { failed = f(); return failed })
		if failed != nil {
			fail("%s with texts of length %d failed: %v", what, size, failed)
		}
		if old, ok := last[what]; ok && n > 2*old+old/2+64 {
			fail("%s takes %d calls with texts of length %d and %d with texts of length %d", what, old, size/2, n, size)
		}
		last[what] = n
		w.st.eval(sig("length", what, size, c.M, c.Seed), true)
		w.st.Extra["most_calls_by_length"] = max(w.st.Extra["most_calls_by_length"], n)
	}
	for size = 8; size <= c.N; size *= 2 {
		// in a graph of their own, as texts with common beginnings may cost more
		w2 := newWorld(w.cfg, w.st, c.Seed)
		w2.apply(Op{K: "story", O: "q", P: "qq"})
		w.mem, w.mon, w.handles, w.rems, w.stories = w2.mem, w2.mon, w2.handles, w2.rems, w2.stories
		o, p := text(size), text(size)
		if c.M/3 == 2 {
			p = "y" // only one of them grows
		}
		one := func() semnet.Remark { return w.get(w.rems[len(w.rems)-1], 1, 0) }
		for _, known := range []string{"", " known"} {
			for _, k := range []string{"story", "fact", "remark", "child"} {
				w.reopen()
				h, x := w.handles[0], one()
				counted(k+known, func() (err error) {
					switch k {
					case "story":
						_, err = h.CreateStory(o, p)
					case "fact":
						_, err = x.AddFactToStory(o, p)
					case "remark":
						_, err = x.AddRemarkToFact(p)
					default:
						_, err = x.CreateChildStory(o, p)
					}
					return
				})
			}
			w.reopen()
			w.apply(Op{K: "story", O: o, P: p})
			w.reopen()
			h, x := w.handles[0], one()
			for _, name := range readOps {
				if name == "GetNextFact" || name == "GetNextRemark" || name == "GetNextStory" {
					continue
				}
				counted(name, func() error {
					_, err := readOp(name, h, semnet.NewOutput(h), x.GetIdentifier(), x)
					return err
				})
			}
		}
	}
}

// measureSteady counts what each single operation takes in a long life of one
// handle in which the same things are done over and over.
func (w *World) measureSteady(c Case, r *rand.Rand) {
	type quest struct {
		name string
		v    int
	}
	texts := []string{"a", "b a", "abc", "c d e", strings.Repeat("ab ", 20) + "c", strings.Repeat("bca", 20)}
	most, items, seen := map[quest]int{}, map[quest]int{}, map[quest]int{}
	did := func(round int, name string, v int, f func() error) {
		q := quest{name, v}
		err, pan, _ := w.call(name, nil, f)
		if refused := strings.HasPrefix(name, "refused"); pan != nil || (err != nil) != refused {
			fail("%s in round %d: %v %v", name, round, err, pan)
		}
		n, m := w.mon.Calls, w.mon.Items
		if seen[q]++; seen[q] <= 10 {
			most[q], items[q] = max(most[q], n), max(items[q], m)
			return
		}
		if old := most[q]; n > old+old/4+16 {
			fail("%s (%d) takes %d calls in round %d of the same operations, and at most %d in the first", name, v, n, round, old)
		}
		if old := items[q]; isReadOp(name) && m > old+old/2+32 {
			fail("%s (%d) is handed %d identifiers in round %d of the same operations, and at most %d in the first", name, v, m, round, old)
		}
		w.st.eval(sig("steady", name, v, round, c.Seed), true)
	}
	for i, t := range texts { // all are known from now on
		w.apply(Op{K: "story", O: t, P: texts[(i+1)%len(texts)]})
	}
	h := w.handles[0]
	o := w.output(h)
	long := w.rems[len(w.rems)-1].val // kept all the time
	only := ""
	if c.M%4 == 3 { // the others but once in a while
		only = []string{"story", "read", "refused", "fact"}[c.M/4%4]
	}
	for round := 0; round < c.N; round++ {
		v := r.Intn(len(texts))
		t, p := texts[v], texts[(v+1)%len(texts)]
		if c.M%2 == 0 {
			v, t, p = 0, "a", "b a"
		}
		var x, y semnet.Remark
		is := func(k string) bool { return only == "" || only == k || round < 8 || round%64 == 0 }
		keep := func(to *semnet.Remark) func(semnet.Remark, error) error {
			return func(m semnet.Remark, err error) error { *to = m; return err }
		}
		did(round, "CreateStory", v, func() error { return keep(&x)(h.CreateStory(t, p)) })
		if is("fact") {
			did(round, "AddFactToStory", v, func() error { _, err := x.AddFactToStory(t, p); return err })
			did(round, "AddRemarkToFact", v, func() error { _, err := x.AddRemarkToFact(p); return err })
			did(round, "CreateChildStory", v, func() error { _, err := x.CreateChildStory(t, p); return err })
		}
		if is("read") {
			id := x.GetIdentifier()
			did(round, "fetch", v, func() error { return keep(&y)(h.GetRemark(id)) })
			for _, name := range readOps {
				did(round, name, v, func() error { readOp(name, h, o, id, y); return nil })
				did(round, name, 1000, func() error { readOp(name, h, o, long.GetIdentifier(), long); return nil })
			}
		}
		if is("refused") {
			did(round, "refused story", v, func() error { _, err := h.CreateStory(t+" ", p); return err })
			did(round, "refused fact", v, func() error { _, err := x.AddFactToStory(t, p+"\xff"); return err })
			did(round, "refused fetch", v, func() error { _, err := h.GetRemark(uint(round % 9)); return err })
		}
	}
	w.st.Extra["longest_steady_life"] = max(w.st.Extra["longest_steady_life"], c.N)
}

func isReadOp(name string) bool {
	for _, n := range readOps {
		if n == name {
			return true
		}
	}
	return false
}

func runC21(c Case, st *Stats) {
	w := newWorld(store.Config{Order: c.M % 3}, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	if c.Kind == "steady" {
		w.measureSteady(c, r)
		return
	}
	if c.Kind == "length" {
		w.measureLengths(c, r)
		return
	}
	if c.Kind == "growth" {
		kind := []string{"fact", "child", "fact", "remark"}[c.M%4]
		w.apply(Op{K: "story", O: "root", P: "of all"})
		count := func(x semnet.Remark) int {
			// the handle is not used after the content was taken back
			return w.measure(func() error {
				var err error
				switch kind {
				case "fact":
					_, err = x.AddFactToStory("a", "b")
				case "remark":
					_, err = x.AddRemarkToFact("b")
				default:
					_, err = x.CreateChildStory("a", "b")
				}
				return err
			})
		}
		w.apply(Op{K: "story", O: "a", P: "b"})
		w.apply(Op{K: kind, T: 0, O: "a", P: "b"})
		last, lastN := 0, 1
		leasts := map[string]int{}
		for size := 2; size <= c.N; size *= 2 {
			for lastN < size {
				w.apply(Op{K: kind, T: 0, O: "a", P: "b", Via: 1})
				lastN++
			}
			ids := []int{0}
			if kind != "child" {
				ids = append(ids, len(w.rems)-1, 2+r.Intn(len(w.rems)-2))
			}
			worst := 0
			for _, i := range ids {
				w.reopen()
				n := count(w.get(w.rems[i], 1, 0))
				worst = max(worst, n)
				st.eval(sig(kind, size, c.Seed, i), true)
			}
			w.reopen()
			if last > 0 && worst > last*2+last/2+64 {
				fail("adding a %s takes %d calls with %d there, and %d calls with %d", kind, last, size/2, worst, size)
			}
			last = worst
			// reading costs the same wherever one is
			if size >= 4 {
				places := []int{2, 3, len(w.rems) / 2, len(w.rems) - 2}
				for _, name := range readOps {
					var cost []int
					for _, i := range places {
						w.reopen()
						m := w.rems[i]
						h := w.handles[0]
						x := w.get(m, 1, 0)
						var err error
						cost = append(cost, w.measure(func() error {
							_, err = readOp(name, h, semnet.NewOutput(h), m.id, x)
							return nil
						}))
						if n := cost[len(cost)-1]; err == nil && w.mon.Items > 2*n+32 {
							fail("%s is handed %d identifiers by %d calls, at a place among %d additions of a %s", name, w.mon.Items, n, size, kind)
						}
						if err != nil {
							cost = cost[:len(cost)-1] // none there
							continue
						}
						st.eval(sig(kind, name, size, c.Seed, i), true)
					}
					least := 0
					for _, n := range cost {
						if least == 0 || n < least {
							least = n
						}
					}
					if old, ok := leasts[name]; ok && old < least {
						least = old
					}
					if len(cost) > 0 {
						leasts[name] = least
					}
					for _, n := range cost {
						if n > least+least/4+16 {
							fail("%s takes %v calls, at least %d, depending on the place among %d additions of a %s", name, cost, least, size, kind)
						}
					}
				}
			}
			st.Extra[fmt.Sprintf("calls_add_%s_%d", kind, size)] = max(st.Extra[fmt.Sprintf("calls_add_%s_%d", kind, size)], worst)
		}
		return
	}
	// a small graph
	g := &textGen{r: r, alpha: []rune("abcdefg"), only: true}
	pairs := [][2]string{{"a", "b"}, {"a", "bc d"}, {g.freshText(), g.freshText()}}
	for _, p := range pairs {
		w.apply(Op{K: "story", O: p[0], P: p[1]})
	}
	w.apply(Op{K: "fact", T: 0, O: "a", P: "b"})
	w.apply(Op{K: "fact", T: 0, O: "b a", P: "b"})
	w.apply(Op{K: "child", T: 1, O: "c", P: "b"})
	w.apply(Op{K: "child", T: 1, O: "c d", P: "b"})
	w.apply(Op{K: "remark", T: 1, P: "bb"})
	small := len(w.rems)
	// identifiers of other nodes, and of none
	var others []uint
	isRemark := map[uint]bool{}
	for _, m := range w.rems {
		isRemark[m.id] = true
	}
	for _, id := range w.mem.AllIDs() {
		if !isRemark[id] && (len(others) < 16 || r.Intn(8) == 0) {
			others = append(others, id)
		}
	}
	others = append(others, 0, 1<<63, ^uint(0), ^uint(0)-3)
	bad := []string{"", " a", "a ", "a  b", "a b  a", "\xff", "ab\xff", "a b\xc3", strings.Repeat("ab ", 40), strings.Repeat("ab", 40) + "\x80"}
	type quest struct {
		name  string
		i     int
		fresh bool
	}
	counts := func() (map[quest]int, map[quest]int) {
		out, items := map[quest]int{}, map[quest]int{}
		for _, fresh := range []bool{false, true} {
			for i, id := range others {
				w.reopen()
				h := w.handles[0]
				if fresh {
					h = w.newGraph()
				}
				q := quest{"a fetch of the identifier of no remark", i, fresh}
				out[q] = w.measureRefused(q.name, func() error { _, err := h.GetRemark(id); return err })
				if c.M == 1 || c.M == 3 || i < 11 || i >= len(others)-4 {
					items[q] = w.mon.Items
				}
			}
			for i := 0; i < small; i += 3 {
				for v, t := range bad {
					for pos := 0; pos < 2; pos++ {
						for _, k := range []string{"story", "fact", "remark", "child"} {
							w.reopen()
							h := w.handles[0]
							x := w.get(w.rems[i], 1, 0)
							if fresh {
								h = w.newGraph()
							}
							o, p := t, "b"
							if pos == 1 {
								o, p = "a", t
							}
							if k == "remark" && pos == 0 {
								continue
							}
							q := quest{fmt.Sprintf("a %s with the text %q (%d) refused", k, t, pos), i*100 + v, fresh}
							out[q] = w.measureRefused(q.name, func() (err error) {
								switch k {
								case "story":
									_, err = h.CreateStory(o, p)
								case "fact":
									_, err = x.AddFactToStory(o, p)
								case "remark":
									_, err = x.AddRemarkToFact(p)
								case "child":
									_, err = x.CreateChildStory(o, p)
								}
								return
							})
							items[q] = w.mon.Items
						}
					}
				}
			}
			for i := 0; i < small; i++ {
				m := w.rems[i]
				for _, name := range readOps {
					w.reopen()
					h := w.handles[0]
					x := w.get(m, 1, 0)
					if fresh {
						h = w.newGraph()
					}
					var err error
					e, pan, _ := w.call(name, func(mon *store.Mon) { mon.Allowed, mon.IsOwn = m.id, true }, func() error {
						_, err = readOp(name, h, semnet.NewOutput(h), m.id, x)
						return nil
					})
					if e != nil || pan != nil {
						fail("%s: %v %v", name, e, pan)
					}
					q := quest{name, i, fresh}
					if err != nil {
						q.name += ", refused"
					}
					out[q] = w.mon.Calls
					items[q] = w.mon.Items
				}
				for _, k := range []string{"story", "fact", "remark", "child"} {
					for v, p := range [][2]string{{"a", "b"}, {"ac", "dd a"}, {"g a", "b"}} {
						w.reopen()
						x := w.get(m, 1, 0)
						h := w.handles[0]
						if fresh {
							h = w.newGraph()
						}
						q := quest{fmt.Sprint(k, v), i, fresh}
						out[q] = w.measure(func() error {
							var err error
							switch k {
							case "story":
								_, err = h.CreateStory(p[0], p[1])
							case "fact":
								_, err = x.AddFactToStory(p[0], p[1])
							case "remark":
								_, err = x.AddRemarkToFact(p[1])
							case "child":
								_, err = x.CreateChildStory(p[0], p[1])
							}
							return err
						})
						items[q] = w.mon.Items
					}
				}
			}
		}
		w.reopen()
		return out, items
	}
	before, itemsBefore := counts()
	// the same and unrelated texts elsewhere
	far := &textGen{r: r, alpha: []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"), only: true}
	ops := genOps(r, c.N, Profile{Story: 4, Fact: 4, Remark: 4, Child: 4, Recent: 60, SmallPool: 1})
	base := len(w.rems)
	made := 0
	for i, op := range ops {
		switch c.M {
		case 0: // the very same texts
			op.O, op.P = pairs[i%3][0], pairs[i%3][1]
		case 1:
			op.O, op.P = far.freshText(), far.freshText()
		case 2:
			if i%2 == 0 {
				op.O, op.P = far.freshText(), far.freshText()
			} else {
				op.O, op.P = "a", "b"
			}
		case 3: // every text with a character of its own
			op.O, op.P = string(rune(0x4e00+i)), string(rune(0x4e00+i))+" z"
		}
		if made == 0 {
			op.K = "story"
		} else {
			op.T = base + op.T%made
		}
		op.Via = 1
		w.apply(op)
		made++
		if i%500 == 499 {
			w.reopen()
		}
	}
	after, itemsAfter := counts()
	worst := 0.0
	for q, a := range before {
		b, ok := after[q]
		if !ok {
			fail("%s of remark #%d fails in the big graph", q.name, q.i)
		}
		if b > a+a/4+16 {
			fail("%s of remark #%d takes %d calls in a small graph and %d in one with %d more remarks elsewhere (handle just opened: %v)", q.name, q.i, a, b, len(w.rems)-small, q.fresh)
		}
		// the texts of c.M == 2 share words with those that are stored here
		n, m := itemsBefore[q], itemsAfter[q]
		if (c.M != 2 || isReadOp(strings.TrimSuffix(q.name, ", refused"))) && m > n+n/2+32 {
			fail("%s of remark #%d is handed %d identifiers in a small graph and %d in one with %d more remarks elsewhere (handle just opened: %v)", q.name, q.i, n, m, len(w.rems)-small, q.fresh)
		}
		st.Extra["most_identifiers_handed_out"] = max(st.Extra["most_identifiers_handed_out"], m)
		worst = max(worst, float64(b)/float64(max(a, 1)))
		st.eval(sig(c.Seed, q), true)
	}
	st.Extra["worst_growth_percent"] = max(st.Extra["worst_growth_percent"], int(worst*100))
	st.state(w.mem.Digest())
}
