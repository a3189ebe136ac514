//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func init() {
	register(&Check{
		ID: "C29", Level: "exploration",
		Rule:   "a generated history is first performed alone, and after each of its operations every reading operation on every remark is answered; then it is performed by one goroutine while up to four others read through handles of their own, all taking turns at storage calls in an order decided by the seed, or in parallel in a build with the race detector; besides, all questions are asked after every single change the writer makes, and whole operations of the writer are performed at every place of a reading operation; each answer has to be one that was right at some moment between the start and the end of the reading operation, remarks reached before the writer has returned them have to be whole, and what the writer stores has to be what it stored alone; an evaluation is one reading operation; distinct by question, remark, moment and order of turns",
		Assume: []string{"the storage performs its calls one at a time", "there is one writer, and each reading handle has completed one reading before"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C29", pick(tier, 800, 9000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				switch i % 5 {
				case 1:
					p = Profile{Story: 1, Fact: 6, Recent: 80}
				case 2:
					p = Profile{Story: 1, Fact: 1, Remark: 6, Recent: 80}
				case 3:
					p = Profile{Story: 1, Child: 6, Recent: 20}
				}
				if i%2 == 0 {
					p.SmallPool = 2 + r.Intn(3)
				}
				cfg := store.Config{Order: i / 2 % 3, IDs: i / 6 % store.IDKinds, Lenient: i%7 < 3}
				cs = append(cs, Case{Kind: []string{"calls", "calls", "parallel"}[i%3], Seed: s, N: 1 + i%4, M: 1 + r.Intn(4), Cfg: cfg, Ops: genOps(r, 4+r.Intn(10), p)})
				if i%4 == 0 {
					p.SmallPool = 3 + r.Intn(6)
					cs = append(cs, Case{Kind: []string{"inside", "between"}[i/4%2], Seed: s, Cfg: cfg, Ops: genOps(r, []int{10, 60}[i/4%2]+r.Intn(20), p)})
				}
			}
			return
		},
		Run: runC29,
	})
}

// moment is what every reading operation on every remark answers at one time.
type moment []map[string]string // by remark and operation; errors are empty

func (w *World) moment() (out moment) {
	g := semnet.NewGraph(w.back)
	o := semnet.NewOutput(g)
	for _, m := range w.rems {
		x, err := g.GetRemark(m.id)
		if err != nil {
			fail("GetRemark(%d) failed: %v", m.id, err)
		}
		ans := map[string]string{}
		for _, name := range readOps {
			a, err := readOp(name, g, o, m.id, x)
			if err != nil {
				a = ""
			}
			ans[name] = a
		}
		out = append(out, ans)
	}
	return
}

// nextOf goes on from x as one of the reading operations does.
func nextOf(name string, x semnet.Remark) (y semnet.Remark, err error) {
	switch name {
	case "GetFirstFact":
		y.Aggregate, err = x.GetFirstFact()
	case "GetNextFact":
		y.Aggregate, err = x.GetNextFact()
	case "GetNextRemark":
		y.Aggregate, err = x.GetNextRemark()
	case "GetNextStory":
		y.Aggregate, err = x.GetNextStory()
	}
	return
}

func runC29(c Case, st *Stats) {
	if raceBuild && c.Kind != "parallel" || len(c.Ops) < 2 {
		return
	}
	switch c.Kind {
	case "inside":
		runInside(c, st)
		return
	case "between":
		runBetween(c, st)
		return
	}
	r := rand.New(rand.NewSource(c.Seed))
	pre := min(c.M, len(c.Ops)-1)
	// alone
	a := newWorld(c.Cfg, st, c.Seed)
	a.run(c.Ops[:pre])
	a.linkSome(c.Seed)
	moments := []moment{a.moment()}
	for _, op := range c.Ops[pre:] {
		a.apply(op)
		moments = append(moments, a.moment())
	}
	// the questions whose answers each operation of the writer changes
	type quest struct {
		rem  int
		name string
	}
	changing := make([][]quest, len(moments))
	for k := 1; k < len(moments); k++ {
		for j, ans := range moments[k-1] {
			for _, name := range readOps {
				if moments[k][j][name] != ans[name] {
					changing[k-1] = append(changing[k-1], quest{j, name})
				}
			}
		}
	}
	byID := map[uint]int{}
	for _, m := range a.rems {
		byID[m.id] = m.idx
	}
	if len(byID) == 0 {
		return
	}
	// with readers
	b := newWorld(c.Cfg, nil, c.Seed)
	locked := &store.Locked{B: b.mem}
	b.mon.B = locked
	b.run(c.Ops[:pre])
	b.linkSome(c.Seed)
	if len(b.rems) == 0 {
		return
	}
	var sch *store.Sched
	var back store.Backend = locked
	active := false
	pause := func() {}
	if c.Kind == "calls" {
		sch = store.NewSched(c.N+1, c.Seed, 1+r.Intn(8))
		yield := func() {
			if active {
				sch.Yield()
			}
		}
		// the writer goes on undisturbed most of the time, but not when it
		// has just changed something
		rr, was := rand.New(rand.NewSource(c.Seed+1)), 0
		quiet := 1 + r.Intn(30)
		b.mon.Yield = func() {
			if now := b.mon.Writes; now != was || rr.Intn(quiet) == 0 {
				was = now
				yield()
			}
		}
		pause = func() {
			for n := rr.Intn(12); n > 0; n-- {
				yield()
			}
		}
		back = store.Yielding{B: locked, F: yield}
	}
	begun, done, shown := new(int64), new(int64), new(int64)
	// what an earlier reading operation has shown stays
	since := func() int64 { return max(atomic.LoadInt64(done), atomic.LoadInt64(shown)) }
	over := new(int32)
	res := make([]struct {
		msg      string
		n, early int
		sigs     []uint64
	}, c.N+1)
	guard := func(q int, f func()) func() {
		return func() {
			defer func() {
				if x := recover(); x != nil {
					if v, ok := x.(*Viol); ok {
						res[q].msg = v.Msg
					} else {
						res[q].msg = fmt.Sprintf("panic: %v", x)
					}
				}
				if q == 0 {
					atomic.StoreInt32(over, 1)
				}
			}()
			f()
		}
	}
	fs := []func(){guard(0, func() {
		for _, op := range c.Ops[pre:] {
			atomic.AddInt64(begun, 1)
			b.apply(op)
			pause()
			atomic.AddInt64(done, 1)
			res[0].n++
		}
	})}
	var common *semnet.Graph
	for q := 1; q <= c.N; q++ {
		q := q
		g := common
		if g == nil || r.Intn(3) > 0 {
			g = semnet.NewGraph(back)
			x, err := g.GetRemark(b.rems[r.Intn(len(b.rems))].id)
			if err == nil {
				_, _, err = x.GetObjectAndProperty()
			}
			if err != nil {
				fail("the first reading failed: %v", err)
			}
			common = g
		}
		rr := rand.New(rand.NewSource(c.Seed + int64(q)*7919))
		recent := rr.Intn(3) > 0
		fs = append(fs, guard(q, func() {
			o := semnet.NewOutput(g)
			kept := map[int]semnet.Remark{}
			var from, to int64
			// one of the answers that were right meanwhile
			judge := func(j int, name, ans string, err error) {
				if err != nil {
					ans = ""
				}
				var right []string
				for k := from; k <= to; k++ {
					if j >= len(moments[k]) {
						continue
					}
					if moments[k][j][name] == ans {
						if k > from {
							res[q].early++
							for v := atomic.LoadInt64(shown); v < k && !atomic.CompareAndSwapInt64(shown, v, k); {
								v = atomic.LoadInt64(shown)
							}
						}
						res[q].n++
						res[q].sigs = append(res[q].sigs, sig(c.Seed, q, j, name, k, to))
						return
					}
					right = append(right, moments[k][j][name])
				}
				if ans == "" {
					ans = fmt.Sprint("error ", err)
				}
				fail("%s of remark #%d, started after %d operations of the writer and ended during number %d, gave %s; right are %q", name, j, from, to, ans, right)
			}
			for i := 0; i < 400; i++ {
				if atomic.LoadInt32(over) != 0 && i > 20 {
					return
				}
				from = atomic.LoadInt64(done)
				n := len(moments[from])
				j := rr.Intn(n)
				if recent && rr.Intn(3) > 0 {
					j = n - 1 - rr.Intn(min(3, n))
				}
				name := readOps[rr.Intn(len(readOps))]
				if l := changing[from]; len(l) > 0 && rr.Intn(3) > 0 {
					qu := l[rr.Intn(len(l))]
					j, name = qu.rem, qu.name
				}
				x, ok := kept[j]
				if !ok || rr.Intn(3) == 0 {
					var err error
					x, err = g.GetRemark(a.rems[j].id)
					if err != nil || isNil(x) {
						fail("GetRemark(%d) of remark #%d, after %d operations of the writer: %v", a.rems[j].id, j, from, err)
					}
					if rr.Intn(2) == 0 {
						kept[j] = x
					}
				}
				from = since()
				switch name {
				case "GetFirstFact", "GetNextFact", "GetNextRemark", "GetNextStory":
					y, err := nextOf(name, x)
					to = atomic.LoadInt64(begun)
					if err != nil || isNil(y) {
						judge(j, name, "", fmt.Errorf("%v", err))
						continue
					}
					id := y.GetIdentifier()
					judge(j, name, fmt.Sprint("remark ", id), nil)
					k, ok := byID[id]
					if !ok {
						continue // judged already
					}
					if rr.Intn(2) == 0 {
						kept[k] = y
					}
					// what was reached has to be whole
					name := readOps[rr.Intn(len(readOps))]
					from = since()
					ans, err := readOp(name, g, o, id, y)
					to = atomic.LoadInt64(begun)
					judge(k, name, ans, err)
				default:
					ans, err := readOp(name, g, o, a.rems[j].id, x)
					to = atomic.LoadInt64(begun)
					judge(j, name, ans, err)
				}
			}
		}))
	}
	if sch != nil {
		active = true
		det, ended := sch.Run(fs)
		if !ended {
			fail("a writer and readers taking turns do not end")
		}
		if !det {
			st.Extra["orders_left_to_the_runtime"]++
		}
		st.Extra["switches"] += sch.Switches
		st.state(sch.Hash)
		active = false
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		waitFor(&wg, "a writer and readers in parallel")
		st.Extra["parallel_runs"]++
	}
	for q, x := range res {
		if x.msg != "" {
			who := "the writer"
			if q > 0 {
				who = fmt.Sprintf("reader %d of %d", q, c.N)
			}
			fail("%s: %s", who, x.msg)
		}
		for _, s := range x.sigs {
			st.eval(s, true)
		}
		if q > 0 {
			st.Ops["reading operations beside a writer"] += x.n
			st.Extra["answers_that_show_an_operation_before_it_returned"] += x.early
		} else {
			st.Ops["operations of the writer"] += x.n
		}
	}
	if d := b.mem.Diff(a.mem); d != "" {
		fail("the storage holds something else than after the same operations alone: %s", d)
	}
}

// reader is a handle whose storage calls are watched.
type reader struct {
	g     *semnet.Graph
	o     *semnet.Output
	calls int
	at    func(call int) // before each call
	kept  map[uint]semnet.Remark
}

const readerCalls = 1 << 20

func (w *World) reader() *reader {
	rd := &reader{kept: map[uint]semnet.Remark{}}
	rd.g = semnet.NewGraph(store.Yielding{B: w.back, F: func() {
		rd.calls++
		if rd.calls > readerCalls {
			fail("a reading operation beside a writer does not end within %d storage calls", readerCalls)
		}
		if rd.at != nil {
			rd.at(rd.calls)
		}
	}})
	rd.o = semnet.NewOutput(rd.g)
	return rd
}

// remark is the one with the identifier, a value kept from before if old.
func (rd *reader) remark(id uint, old bool) semnet.Remark {
	if x, ok := rd.kept[id]; ok && old {
		return x
	}
	rd.calls = 0
	x, err := rd.g.GetRemark(id)
	if err != nil || isNil(x) {
		fail("GetRemark(%d) beside a writer: %v", id, err)
	}
	rd.kept[id] = x
	return x
}

// ask gives the answer, which is empty if it is an error.
func (rd *reader) ask(name string, id uint, x semnet.Remark) (string, error) {
	rd.calls = 0
	ans, err := readOp(name, rd.g, rd.o, id, x)
	if err != nil {
		ans = ""
	}
	return ans, err
}

func (w *World) askFresh(name string, id uint) string {
	rd := w.reader()
	ans, _ := rd.ask(name, id, rd.remark(id, false))
	return ans
}

// near are remarks an operation through t may have to do with, and others.
func (w *World) near(r *rand.Rand, t *MRem, n int) (out []*MRem) {
	seen := map[*MRem]bool{}
	add := func(m *MRem) {
		if !seen[m] && len(out) < n {
			seen[m] = true
			out = append(out, m)
		}
	}
	s := t.fact.story
	l := []*MRem{t, s.head(), s.facts[len(s.facts)-1].rems[0], w.rems[len(w.rems)-1], w.rems[r.Intn(len(w.rems))]}
	for _, family := range []*MStory{s, s.parent} {
		if family != nil && len(family.children) > 0 {
			k := len(family.children)
			l = append(l, family.children[k-1].head(), family.children[r.Intn(k)].head(), family.children[0].head())
		}
	}
	if k := len(t.fact.rems); k > 1 {
		l = append(l, t.fact.rems[r.Intn(k)], t.fact.rems[k-1])
	}
	for _, i := range r.Perm(len(l)) {
		add(l[i])
	}
	return
}

// seen is an answer given while the writer was at work.
type seenAnswer struct {
	id        uint
	name, ans string
	err       error
	write     int
}

// runInside asks everything about the remarks near by after every change that
// the writer makes, through a handle of its own.
func runInside(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.apply(Op{K: "story", O: c.Ops[0].O + "a", P: "b"})
	w.handles = append(w.handles, w.newGraph())
	rd := w.reader()
	rd.ask("GetObjectAndProperty", w.rems[0].id, rd.remark(w.rems[0].id, false))
	for i, op := range c.Ops {
		if i%4 == 3 {
			w.linkSome(c.Seed + int64(i))
		}
		t := w.target(op.T)
		near := w.near(r, t, 6)
		before := map[uint]map[string]string{}
		for _, m := range near {
			before[m.id] = map[string]string{}
			for _, name := range readOps {
				before[m.id][name] = w.askFresh(name, m.id)
			}
		}
		var seen []seenAnswer
		busy := false
		look := func() {
			busy = true
			var found []uint // remarks not known yet
			for _, i := range r.Perm(len(near)) {
				m := near[i]
				x := rd.remark(m.id, r.Intn(2) == 0)
				k := r.Intn(len(readOps)) // in turn, so that each Has comes before its Get
				for j := range readOps {
					name := readOps[(j+k)%len(readOps)]
					ans, err := rd.ask(name, m.id, x)
					seen = append(seen, seenAnswer{m.id, name, ans, err, w.mon.Writes})
					if ans != before[m.id][name] {
						if y, err := nextOf(name, x); err == nil && !isNil(y) {
							found = append(found, y.GetIdentifier())
							for _, name := range readOps {
								ans, err := rd.ask(name, y.GetIdentifier(), y)
								seen = append(seen, seenAnswer{y.GetIdentifier(), name, ans, err, w.mon.Writes})
							}
						}
					}
				}
			}
			st.Extra["remarks_reached_before_they_were_returned"] += len(found)
			busy = false
		}
		was := w.mon.Writes
		w.mon.Yield = func() {
			if now := w.mon.Writes; now != was && !busy {
				was = now
				look()
			}
		}
		first := w.mon.Writes
		made := w.apply(op)
		w.mon.Yield = nil
		look()
		after := map[uint]map[string]string{}
		right := func(id uint, name string) string {
			if after[id] == nil {
				after[id] = map[string]string{}
			}
			if _, ok := after[id][name]; !ok {
				after[id][name] = w.askFresh(name, id)
			}
			return after[id][name]
		}
		done := -1 // the answer that showed the operation
		for i, a := range seen {
			old, known := before[a.id][a.name]
			now := right(a.id, a.name)
			if !known && (made == nil || a.id != made.id) {
				old, known = now, true // a remark elsewhere, which nothing may have changed
			}
			ans := a.ans
			if ans == "" {
				ans = fmt.Sprint("error ", a.err)
			}
			switch {
			case a.ans == now && (!known || a.ans != old):
				if done < 0 {
					done = i
				}
			case a.ans == now:
			case known && a.ans == old:
				if done >= 0 {
					b := seen[done]
					fail("during %s through remark #%d, after change %d, a reader was given %s of %d as it was before (%s), though %s of %d had shown the operation after change %d", op.K, t.idx, a.write-first, a.name, a.id, ans, b.name, b.id, b.write-first)
				}
			default:
				fail("during %s through remark #%d, after change %d, a reader was given %s of %d as %s, which is neither what was right before (%q) nor after (%q)", op.K, t.idx, a.write-first, a.name, a.id, ans, old, now)
			}
		}
		st.Ops["reading operations between the changes of a writer"] += len(seen)
		st.eval(sig("inside", c.Seed, op.K, op.T, len(w.rems)), true)
	}
	st.state(w.mem.Digest())
}

// runBetween performs whole operations of the writer in the middle of reading
// operations.
func runBetween(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.apply(Op{K: "story", O: c.Ops[0].O + "a", P: "b"})
	w.handles = append(w.handles, w.newGraph())
	rd := w.reader()
	rd.ask("GetObjectAndProperty", w.rems[0].id, rd.remark(w.rems[0].id, false))
	for i := 0; i < len(c.Ops); {
		if r.Intn(4) == 0 {
			w.linkSome(c.Seed + int64(i))
		}
		n := 1
		if r.Intn(4) == 0 {
			n += r.Intn(3)
		}
		ops := c.Ops[i:min(i+n, len(c.Ops))]
		i += len(ops)
		near := w.near(r, w.target(ops[0].T), 6)
		m := near[r.Intn(len(near))]
		name := readOps[1+r.Intn(len(readOps)-1)]
		x := rd.remark(m.id, r.Intn(2) == 0)
		right := []string{w.askFresh(name, m.id)}
		rd.ask(name, m.id, x)
		total := rd.calls
		next := 0
		step := func() {
			w.apply(ops[next])
			next++
			right = append(right, w.askFresh(name, m.id))
		}
		places := make([]int, len(ops))
		for k := range places {
			places[k] = 1 + r.Intn(max(total, 1))
		}
		sort.Ints(places)
		busy := false
		rd.at = func(call int) {
			if busy {
				return
			}
			busy = true
			for next < len(ops) && places[next] <= call {
				step()
			}
			busy = false
		}
		ans, err := rd.ask(name, m.id, x)
		rd.at = nil
		ok := false
		for _, a := range right {
			ok = ok || a == ans
		}
		if !ok {
			fail("%s of remark #%d, with %d operations of a writer (%s through #%d) before its calls %v of %d, gave %q (%v); right were %q", name, m.idx, next, ops[0].K, w.target(ops[0].T).idx, places, total, ans, err, right)
		}
		for next < len(ops) {
			step()
		}
		st.Ops["reading operations around whole operations of a writer"]++
		st.eval(sig("between", c.Seed, i, name, places), len(right) > 1)
	}
	st.state(w.mem.Digest())
}
