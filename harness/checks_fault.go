//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

var tinyTexts = []string{"a", "b", "a b", "ab", "ba", "b a", "a a", "é", "aé", "c", "b a b", "日", "x", "q w", "\x01"}

// tinyOps makes short histories with short texts, for checks that repeat an
// operation once for every place where it may be disturbed.
func tinyOps(r *rand.Rand, n int) []Op {
	k := 3 + r.Intn(6)
	off := r.Intn(len(tinyTexts))
	text := func() string {
		if r.Intn(8) == 0 {
			return tinyTexts[r.Intn(len(tinyTexts))]
		}
		return tinyTexts[(off+r.Intn(k))%len(tinyTexts)]
	}
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{K: []string{"story", "fact", "remark", "child", "fact", "child"}[r.Intn(6)], Via: r.Intn(5), O: text(), P: text()}
		if i == 0 {
			op.K = "story"
		} else {
			op.T = r.Intn(i)
			if r.Intn(3) == 0 {
				op.T = i - 1
			}
		}
		if op.K == "remark" {
			op.O = ""
		}
		ops = append(ops, op)
	}
	return ops
}

// disturbed runs a creating operation that may be failed or stopped by the
// monitor. Faults with a probability end with it.
func (w *World) disturbed(t semnet.Remark, op Op, setup func(*store.Mon)) (out semnet.Remark, err error, pan *opPanic, crashed bool) {
	defer func() { w.mon.FaultProb = 0; w.mon.FaultAt = 0; w.mon.CrashAt = 0; w.mon.FailWrite = 0 }()
	if op.K == "story" {
		return w.perform(op, setup)
	}
	return w.performOn(t, op, setup)
}

// passed decides whether the panic of a storage call has come through, and
// makes an error of it if it has.
func (w *World) passed(what string, err error, pan *opPanic) (error, *opPanic) {
	if w.mon.Injected == 0 {
		return err, pan
	}
	was := w.mon.Errs[0]
	if pan == nil {
		fail("%s: the storage panicked in %s, and the operation returned (%v)", what, w.mon.FaultOn, err)
	}
	if pan.val != w.mon.Thrown {
		fail("%s: the storage panicked in %s with %v, the caller has to deal with %v", what, w.mon.FaultOn, w.mon.Thrown, pan.val)
	}
	if pan.val == (store.Exit{}) {
		w.st.Extra["ends_of_the_goroutine"]++
	}
	w.st.Extra["panics_in_"+w.mon.FaultOn]++
	return was, nil
}

type seenExtra struct {
	hasNR  bool
	nextR  uint
	render string
}

func (w *World) extra(m *MRem) seenExtra {
	o := w.observe(w.get(m, 1, 0), FNextRemark|FRender, 0)
	return seenExtra{o.HasNR, o.NextR, o.Render}
}

func (w *World) extras() (out []seenExtra) {
	for _, m := range w.rems {
		out = append(out, w.extra(m))
	}
	return
}

// settle finds out whether the disturbed operation took place as a whole, and
// takes it into the model if it did.
func (w *World) settle(op Op, t *MRem) *MRem {
	isNew := func(id uint) {
		for _, m := range w.rems {
			if m.id == id {
				fail("after the disturbed %s the walk leads from the end back to remark #%d (%d)", op.K, m.idx, id)
			}
		}
	}
	switch op.K {
	case "fact":
		s := t.fact.story
		x := w.get(s.facts[len(s.facts)-1].rems[0], 1, 0)
		if !w.has("HasNextFact", x.HasNextFact) {
			return nil
		}
		id := w.id(w.nextFact(x))
		isNew(id)
		r := w.model(op, t)
		r.id = id
		return r
	case "child":
		s := t.fact.story
		if len(s.children) == 0 {
			return nil
		}
		x := w.get(s.children[len(s.children)-1].head(), 1, 0)
		if !w.has("HasNextStory", x.HasNextStory) {
			return nil
		}
		id := w.id(w.nextStory(x))
		isNew(id)
		r := w.model(op, t)
		r.id = id
		return r
	}
	return nil
}

// sound compares the whole graph with the model, and what the model does not
// predict with what was seen before.
func (w *World) sound(what string, pre []seenExtra) {
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(*Viol); ok {
				v.Msg = what + ": " + v.Msg
			}
			panic(x)
		}
	}()
	for _, m := range w.rems {
		w.checkRem(m, 1+w.rng.Intn(3), w.rng.Intn(4), FModel)
	}
	for i := range pre {
		if now := w.extra(w.rems[i]); now != pre[i] {
			fail("remark #%d: next remark and rendering were %v, are %v", i, pre[i], now)
		}
	}
}

// again applies an operation that has to succeed and checks its remark.
func (w *World) again(what string, op Op) *MRem {
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(*Viol); ok {
				v.Msg = what + ": " + v.Msg
			}
			panic(x)
		}
	}()
	m := w.apply(op)
	for _, o := range w.rems {
		if o != m && o.id == m.id {
			fail("%s gave remark identifier %d, which remark #%d has", op.K, m.id, o.idx)
		}
	}
	w.checkRem(m, 0, 0, FModel)
	return m
}

var readOps = []string{"GetRemark", "GetObjectAndProperty", "GetFirstFact", "HasNextFact", "GetNextFact", "HasNextRemark", "GetNextRemark", "HasNextStory", "GetNextStory", "GetStory"}

// readOp performs one reading operation and describes its answer.
func readOp(name string, g *semnet.Graph, o *semnet.Output, id uint, x semnet.Remark) (ans string, err error) {
	rem := func(a interface{ GetIdentifier() uint }, err error) (string, error) {
		if err != nil {
			return "", err
		}
		if a == nil {
			return "nothing", nil
		}
		return fmt.Sprint("remark ", a.GetIdentifier()), nil
	}
	switch name {
	case "GetRemark":
		r, err := g.GetRemark(id)
		if err != nil {
			return "", err
		}
		if isNil(r) {
			return "nothing", nil
		}
		return fmt.Sprint("remark ", r.GetIdentifier()), nil
	case "GetObjectAndProperty":
		o, p, err := x.GetObjectAndProperty()
		return fmt.Sprintf("%q %q", o, p), err
	case "GetFirstFact":
		a, err := x.GetFirstFact()
		if a == nil {
			return rem(nil, err)
		}
		return rem(a, err)
	case "HasNextFact":
		b, err := x.HasNextFact()
		return fmt.Sprint(b), err
	case "GetNextFact":
		a, err := x.GetNextFact()
		if a == nil {
			return rem(nil, err)
		}
		return rem(a, err)
	case "HasNextRemark":
		b, err := x.HasNextRemark()
		return fmt.Sprint(b), err
	case "GetNextRemark":
		a, err := x.GetNextRemark()
		if a == nil {
			return rem(nil, err)
		}
		return rem(a, err)
	case "HasNextStory":
		b, err := x.HasNextStory()
		return fmt.Sprint(b), err
	case "GetNextStory":
		a, err := x.GetNextStory()
		if a == nil {
			return rem(nil, err)
		}
		return rem(a, err)
	case "GetStory":
		s, err := o.GetStory(x)
		return fmt.Sprintf("%q", s), err
	}
	panic(name)
}

// answer runs a reading operation under the monitor; errors become answers.
func (w *World) answer(name string, h int, id uint, x semnet.Remark, setup func(*store.Mon)) (string, error) {
	var ans string
	out := w.output(w.handle(h))
	err, pan, _ := w.call(name, func(m *store.Mon) {
		m.Allowed, m.IsOwn = id, true
		if setup != nil {
			setup(m)
		}
	}, func() error {
		var err error
		ans, err = readOp(name, w.handle(h), out, id, x)
		return err
	})
	w.mon.FaultProb = 0
	if pan != nil {
		fail("%s panicked: %v [%s]", name, pan.val, trimStack(pan.stack))
	}
	return ans, err
}

func init() {
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule:   "generated graphs on all kinds of storages, some after operations that failed or were stopped half-way, then thousands of reading operations in random order through kept, copied, fetched and navigated remarks and several handles, some with failing storage calls and some that have to fail; every effective write the monitor sees is a violation, the digest of the storage is compared, and every answer is compared with the first answer to the same question; what failed operations left of remarks nobody was given is read too; besides, for small graphs, every creating operation stopped after each of its changes, and everything read then; an evaluation is one reading operation; distinct by question, remark and graph",
		Assume: []string{"the graph has content: the very first operation on an empty storage creates the basic nodes"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C09", pick(tier, 3000, 30000)) {
				r := rand.New(rand.NewSource(s))
				c := store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%3 == 0}
				p := mixed
				p.Open, p.Bad = 1, 1
				cs = append(cs, Case{Kind: "reads", Seed: s, Cfg: c, N: 300 + r.Intn(500), M: max(0, r.Intn(12)-4), Ops: genOps(r, 3+r.Intn(30), p)})
			}
			for i, s := range seeds(seed, "C09p", pick(tier, 150, 2500)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%3 == 0}, Ops: tinyOps(r, 2+r.Intn(7))})
			}
			return append(cs, askedCases(tier, seed, "C09a", mixed)...)
		},
		Run: runC09,
	})
	register(&Check{
		ID: "C13", Level: "fault_enumeration",
		Rule:   "for generated graphs and every kind of operation, reading and writing, the first on an empty storage and through new handles included, the operation is repeated once for each of its storage calls with that call failing (writes also with the failure reported after the effect), each time from the same stored state; an operation that then panics, does not end or reports success is a violation; an evaluation is one such run; distinct by operation, graph and failing call; besides, sequences with random failures, outages of the storage of up to 300 operations, and the same for the operations of the inner layers (looking entities up, asking them, linking them, class membership), where these can be compiled in",
		Assume: []string{"the storage reports the failure as an error and is usable again afterwards"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C13", pick(tier, 500, 6000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 1+r.Intn(9))})
			}
			for i, s := range seeds(seed, "C13e", pick(tier, 6, 24)) {
				cs = append(cs, Case{Kind: "empty", Seed: s, N: i, Ops: tinyOps(rand.New(rand.NewSource(s)), 1)})
			}
			for i, s := range seeds(seed, "C13r", pick(tier, 2500, 30000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "random", Seed: s, N: i, Ops: genOps(r, 10+r.Intn(30), mixed)})
			}
			if layerFaults != nil {
				for i, s := range seeds(seed, "C13l", pick(tier, 100, 1200)) {
					r := rand.New(rand.NewSource(s))
					cs = append(cs, Case{Kind: "layers", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 3+r.Intn(12))})
				}
			}
			cs = append(cs, outages(tier, seed, "C13o")...)
			return
		},
		Run: func(c Case, st *Stats) { runFaults(c, st, false) },
	})
	register(&Check{
		ID: "C14", Level: "fault_enumeration",
		Rule:   "for generated graphs and every kind of creating operation, the first on an empty storage included, the operation is repeated once for each of its storage calls with that call failing (writes before and after their effect); after each failure all remarks are compared with the model without and with the operation, the operation is repeated through the same handle, more operations of every kind follow, and the whole graph is compared with the model; besides, histories in which any call may fail, outages of the storage (all calls, all changing or reading ones, or one method) that last for up to 300 operations, and every reading operation once for each of its calls failing, asked again then; an evaluation is one failed operation followed up; distinct by operation, graph and failing call",
		Assume: []string{"whether a failed operation took place is decided by what is reachable by navigation; a story or remark whose identifier was never returned is not observable"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C14", pick(tier, 250, 4000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 2+r.Intn(8))})
			}
			for i, s := range seeds(seed, "C14e", pick(tier, 4, 16)) {
				cs = append(cs, Case{Kind: "empty", Seed: s, N: i, Ops: tinyOps(rand.New(rand.NewSource(s)), 1)})
			}
			for i, s := range seeds(seed, "C14r", pick(tier, 400, 6000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "random", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}, Ops: tinyOps(r, 8+r.Intn(25))})
			}
			for i, s := range seeds(seed, "C14d", pick(tier, 200, 4000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "reads", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 2+r.Intn(12))})
			}
			cs = append(cs, outages(tier, seed, "C14o")...)
			return
		},
		Run: func(c Case, st *Stats) {
			if c.Kind == "reads" {
				runReads(c, st, false)
				return
			}
			if c.Kind == "outage" {
				runOutage(c, st, "fail")
				return
			}
			runDisturbed(c, st, "fail")
		},
	})
	register(&Check{
		ID: "C15", Level: "fault_enumeration",
		Rule:   "for generated graphs and every kind of creating operation, the first on an empty storage included, the operation is stopped right after each of its effective changes of the storage in turn; a graph is opened on what is stored then, all remarks are compared with the model without and with the operation, operations of every kind follow, and the whole graph is compared with the model; besides, histories with many crashes; an evaluation is one crash followed up; distinct by operation, graph and place of the crash",
		Assume: []string{"the storage keeps what it was told before the crash, in order", "a story or remark whose identifier was never returned is not observable"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C15", pick(tier, 500, 8000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 2+r.Intn(8))})
			}
			for i, s := range seeds(seed, "C15e", pick(tier, 6, 24)) {
				cs = append(cs, Case{Kind: "empty", Seed: s, N: i, Cfg: store.Config{Order: i % 3}, Ops: tinyOps(rand.New(rand.NewSource(s)), 1)})
			}
			for i, s := range seeds(seed, "C15r", pick(tier, 500, 8000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "random", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}, Ops: tinyOps(r, 8+r.Intn(25))})
			}
			return
		},
		Run: func(c Case, st *Stats) { runDisturbed(c, st, "crash") },
	})
	register(&Check{
		ID: "C30", Level: "fault_enumeration",
		Rule:   "for generated graphs and every kind of operation, reading and writing, the first on an empty storage included, the operation is repeated once for each of its storage calls with that call panicking (writes before and after their effect); the caller has to meet the very value of that panic (some calls end their goroutine instead, as runtime.Goexit does, and it has to be ended then); then the same handle is used on: after a reading operation every answer is compared with the one before, after a creating one all remarks are compared with the model without and with the operation, it is repeated through the same handle, more operations of every kind follow, and the whole graph is compared with the model; besides, histories in which any call may panic, and outages in which all calls, or those of some methods, do for up to 300 operations; an evaluation is one panic followed up; distinct by operation, graph and call",
		Assume: []string{"whoever calls the operation recovers from the panic, and the storage is usable again afterwards", "whether the operation took place is decided by what is reachable by navigation"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C30", pick(tier, 120, 2500)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 2+r.Intn(8))})
			}
			for i, s := range seeds(seed, "C30e", pick(tier, 4, 16)) {
				cs = append(cs, Case{Kind: "empty", Seed: s, N: i, Ops: tinyOps(rand.New(rand.NewSource(s)), 1)})
			}
			for i, s := range seeds(seed, "C30r", pick(tier, 300, 5000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "random", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}, Ops: tinyOps(r, 8+r.Intn(25))})
			}
			for i, s := range seeds(seed, "C30d", pick(tier, 300, 5000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "reads", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 2+r.Intn(12))})
			}
			cs = append(cs, outages(tier, seed, "C30o")...)
			return
		},
		Run: runC30,
	})
	register(&Check{
		ID: "C16", Level: "exploration",
		Rule:   "generated histories on all kinds of storages with refused texts, failing calls, crashes, reopening and several handles; for small graphs every operation once for each of its storage calls failing and once for each crash between its changes, followed by further operations; the monitor reports every removed node or connection and every changed reference, and at intervals an earlier copy of the storage is compared with the present content; an evaluation is one operation; distinct by operation, history and disturbance",
		Assume: []string{"operations are done one after another"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C16", pick(tier, 6000, 60000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Open, p.Reopen, p.Bad, p.Read = 1, 1, 1, 2
				if i%5 == 0 {
					p.SmallPool = 2
				}
				cs = append(cs, Case{Kind: []string{"plain", "faults", "crashes"}[i%3], Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 5+r.Intn(50), p)})
			}
			for i, s := range seeds(seed, "C16p", pick(tier, 200, 3000)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "points", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 1+r.Intn(10))})
			}
			for i, s := range seeds(seed, "C16l", pick(tier, 6, 30)) {
				cs = append(cs, Case{Kind: "plain", Seed: s, N: i, Ops: grown(rand.New(rand.NewSource(s)), 300, []string{"fact", "child", "remark"}[i%3], 5)})
			}
			return
		},
		Run: runC16,
	})
}

// everythingRead reads all there is, also what interrupted operations left,
// which may answer or not.
func (w *World) everythingRead(r *rand.Rand) {
	for _, id := range w.members(classRemark) {
		var x semnet.Remark
		err, pan, _ := w.call("GetRemark", func(m *store.Mon) { m.Allowed, m.IsOwn = id, true }, func() error {
			var err error
			x, err = w.handle(r.Intn(4)).GetRemark(id)
			return err
		})
		if pan != nil {
			fail("GetRemark(%d) panicked: %v", id, pan.val)
		}
		if err != nil {
			continue
		}
		for _, name := range readOps {
			w.answer(name, r.Intn(4), id, x, nil)
		}
	}
}

// runC09Points stops an operation after each of its changes and reads.
func runC09Points(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.readsQuiet = true
	w.run(c.Ops[:len(c.Ops)-1])
	w.linkSome(c.Seed)
	if len(w.rems) == 0 {
		return
	}
	last := c.Ops[len(c.Ops)-1]
	last.T = r.Intn(len(w.rems))
	for _, kind := range []string{"story", "fact", "remark", "child"} {
		op := last
		op.K = kind
		if op.O == "" {
			op.O = op.P
		}
		if kind == "remark" {
			op.O = ""
		}
		for k := 1; ; k++ {
			n := len(w.rems)
			w.mem.Mark()
			w.reopen()
			t := w.target(op.T)
			var x semnet.Remark
			if kind != "story" {
				x = w.get(t, op.Via, 0)
			}
			_, err, pan, crashed := w.disturbed(x, op, func(m *store.Mon) {
				if m.CrashAt = k; k%2 == 0 && r.Intn(2) == 0 { // the handle goes on
					m.CrashAt, m.FailWrite, m.FaultMode = 0, k, store.FaultBefore
				}
			})
			reached := crashed || w.mon.Injected > 0
			if pan != nil {
				fail("%s stopped after change %d: panic %v [%s]", kind, k, pan.val, trimStack(pan.stack))
			}
			if reached && (crashed || err != nil) {
				if crashed {
					w.reopen()
				}
				w.settle(op, t)
				w.checkAll(FModel)
				w.everythingRead(r)
				st.eval(sig(c.Seed, kind, k), true)
			}
			w.mem.Rollback()
			for len(w.rems) > n {
				w.unmodel(w.rems[len(w.rems)-1])
			}
			if !reached {
				break
			}
		}
	}
	st.state(w.mem.Digest())
}

func runC09(c Case, st *Stats) {
	if c.Kind == "points" {
		runC09Points(c, st)
		return
	}
	if c.Kind == "asked" {
		runAsked(c, st, FModel|FRender, true)
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	w.readsQuiet = true
	r := rand.New(rand.NewSource(c.Seed))
	w.run(c.Ops)
	w.linkSome(c.Seed)
	if len(w.rems) == 0 {
		return
	}
	if c.M > 0 { // operations that failed or were stopped leave more than histories that went well
		for i := 0; i < c.M; i++ {
			o := tinyOps(r, 2)[1]
			o.T = r.Intn(len(w.rems))
			t := w.target(o.T)
			x := w.get(t, r.Intn(3), 0)
			out, err, pan, crashed := w.disturbed(x, o, func(m *store.Mon) {
				if r.Intn(2) == 0 {
					m.CrashAt = 1 + r.Intn(1+r.Intn(60))
				} else {
					m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(200))
				}
			})
			switch {
			case crashed || pan != nil:
				w.reopen()
				w.settle(o, t)
			case err != nil:
				w.settle(o, t)
			case !isNil(out):
				m := w.model(o, t)
				m.val, m.kept = out, true
				m.id = w.id(out)
			}
			st.Extra["disturbed_operations"]++
		}
	}
	if r.Intn(2) == 0 {
		w.reopen()
	}
	var all = w.mem.AllIDs()
	isRem := map[uint]bool{}
	for _, m := range w.rems {
		isRem[m.id] = true
	}
	for _, id := range w.members(classRemark) { // what refused operations left
		isRem[id] = true
	}
	digest := w.mem.Digest()
	st.state(digest)
	first := map[string]string{}
	held := map[int][]semnet.Remark{}
	quiet := func(what string) {
		if w.mon.Writes != 0 {
			fail("%s changed the storage: %v", what, w.mon.Mutations)
		}
	}
	for i := 0; i < c.N; i++ {
		k := r.Intn(len(w.rems))
		m := w.rems[k]
		if len(held[k]) == 0 || r.Intn(4) == 0 {
			v0 := w.mem.Version()
			x := w.get(m, r.Intn(5), r.Intn(6))
			if w.mem.Version() != v0 {
				fail("obtaining remark #%d changed the storage: %v", k, w.mon.Mutations)
			}
			held[k] = append(held[k], x)
		}
		x := held[k][r.Intn(len(held[k]))]
		if r.Intn(3) == 0 { // a copy
			y := x
			x = y
		}
		if r.Intn(40) == 0 && len(w.handles) < 6 {
			w.handles = append(w.handles, w.newGraph())
		}
		name := readOps[r.Intn(len(readOps))]
		if r.Intn(25) == 0 { // fetch something that is no remark
			id := uint(r.Intn(12))
			if r.Intn(2) == 0 {
				id = all[r.Intn(len(all))]
			}
			if !isRem[id] {
				_, err := w.answer("GetRemark", r.Intn(6), id, x, nil)
				quiet(fmt.Sprintf("GetRemark(%d)", id))
				if err == nil {
					fail("GetRemark(%d) succeeded, that is no remark", id)
				}
				continue
			}
		}
		if r.Intn(5) == 0 {
			_, err := w.answer(name, r.Intn(6), m.id, x, func(mon *store.Mon) {
				mon.FaultRng = r
				mon.FaultProb = []float64{0.3, 0.05, 0.01}[r.Intn(3)]
			})
			quiet(name + " (with failing calls)")
			if err == nil && w.mon.Injected > 0 {
				st.Extra["hidden_failures"]++ // decided by C13
			}
			continue
		}
		ans, err := w.answer(name, r.Intn(6), m.id, x, nil)
		quiet(name)
		if err != nil {
			ans = "an error"
		}
		q := fmt.Sprint(name, " of remark #", k)
		if old, ok := first[q]; ok {
			if old != ans {
				fail("%s gave %s first and %s later", q, old, ans)
			}
			st.Extra["repeated_answers"]++
		} else {
			first[q] = ans
		}
		st.eval(sig(c.Seed, q), true)
	}
	// what failed operations left of remarks answers or not, but stays as it is
	known := map[uint]bool{}
	for _, m := range w.rems {
		known[m.id] = true
	}
	for _, id := range w.members(classRemark) {
		if known[id] {
			continue
		}
		for try := 0; try < 2; try++ {
			var x semnet.Remark
			h := w.handle(r.Intn(6))
			err, pan, _ := w.call("GetRemark", func(m *store.Mon) { m.Allowed, m.IsOwn = id, true }, func() (err error) {
				x, err = h.GetRemark(id)
				return
			})
			quiet(fmt.Sprintf("GetRemark(%d), of a remark that was not completed,", id))
			if pan != nil {
				fail("GetRemark(%d), of a remark that was not completed, panicked: %v", id, pan.val)
			}
			if err != nil || isNil(x) {
				continue
			}
			for _, name := range readOps {
				ans, err := w.answer(name, r.Intn(6), id, x, nil)
				quiet(fmt.Sprintf("%s of a remark (%d) that was not completed", name, id))
				if err != nil {
					ans = "an error"
				}
				q := fmt.Sprint(name, " of the incomplete remark ", id)
				if old, ok := first[q]; ok && old != ans {
					fail("%s gave %s first and %s later", q, old, ans)
				}
				first[q] = ans
				st.Extra["reads_of_incomplete_remarks"]++
			}
		}
	}
	if w.mem.Digest() != digest {
		fail("the storage changed while only reading")
	}
}

// points repeats an operation with each of its storage calls failing.
func points(run func(setup func(*store.Mon)) (injected int, on string)) {
	for k := 1; ; k++ {
		k := k
		inj, on := run(func(m *store.Mon) { m.FaultAt, m.FaultMode = k, store.FaultBefore })
		if inj == 0 {
			return
		}
		switch on {
		case "Create", "SetReference", "Connect", "Disconnect", "Delete":
			run(func(m *store.Mon) { m.FaultAt, m.FaultMode = k, store.FaultAfter })
		}
	}
}

// layerFaults repeats the operations of the inner layers with failing calls, if
// these could be compiled in.
var layerFaults func(w *World, r *rand.Rand, judge func(name string, err error, pan *opPanic, m *store.Mon))

// runFaults decides whether failing calls are reported, and if own is set
// whether they are reported as themselves.
func runFaults(c Case, st *Stats, own bool) {
	if c.Kind == "refusals" {
		runRefusals(c, st)
		return
	}
	if c.Kind == "outage" {
		runOutage(c, st, map[bool]string{false: "hidden", true: "own"}[own])
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	judge := func(name string, err error, pan *opPanic, mon *store.Mon) {
		if own {
			if err == nil || pan != nil || len(mon.Errs) == 0 {
				return
			}
			for _, e := range mon.Errs {
				if errors.Is(err, e) {
					st.Extra["recognised_"+mon.FaultOn]++
					return
				}
			}
			fail("%s failed as call %d (%s) did, but with an error of its own: %v", name, mon.FaultAt, mon.FaultOn, err)
		}
		if pan != nil {
			fail("%s panicked after call %d (%s) failed: %v [%s]", name, mon.FaultAt, mon.FaultOn, pan.val, trimStack(pan.stack))
		}
		if mon.Injected > 0 && err == nil {
			fail("%s reported success although call %d (%s) failed", name, mon.FaultAt, mon.FaultOn)
		}
		if mon.Injected > 0 {
			st.Extra["failed_"+mon.FaultOn]++
		}
	}
	w.mon.MaxCalls = 3_000_000
	switch c.Kind {
	case "random":
		for _, op := range c.Ops {
			t := w.target(op.T)
			if t == nil {
				op.K = "story"
				if op.O == "" {
					op.O = op.P
				}
			}
			for try := 0; ; try++ {
				var x semnet.Remark
				if t != nil {
					x = w.get(t, op.Via, op.H)
					if r.Intn(2) == 0 {
						name := readOps[r.Intn(len(readOps))]
						_, err := w.answer(name, op.H, t.id, x, func(m *store.Mon) {
							m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(60))
						})
						judge(name, err, nil, w.mon)
					}
				}
				_, err, pan, _ := w.disturbed(x, op, func(m *store.Mon) {
					if try < 3 {
						m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(1500))
					}
				})
				judge(op.K, err, pan, w.mon)
				st.eval(sig(c.Seed, len(w.rems), op.K, try, w.mon.Calls), w.mon.Injected > 0)
				if w.mon.Injected == 0 {
					if err != nil {
						fail("%s failed although no storage call did: %v", op.K, err)
					}
					break
				}
			}
			// whether the result is right is decided by C14
			if op.K == "story" && len(w.rems) < 12 {
				w.apply(op)
			}
		}
		return
	case "empty":
		op := c.Ops[0]
		op.K = "story"
		points(func(setup func(*store.Mon)) (int, string) {
			w.mem.Mark()
			w.reopen()
			_, err, pan, _ := w.disturbed(semnet.Remark{}, op, setup2(setup))
			judge("the first CreateStory", err, pan, w.mon)
			st.eval(sig(c.Seed, w.mon.Calls, w.mon.FaultOn), true)
			i, on := w.mon.Injected, w.mon.FaultOn
			w.mem.Rollback()
			return i, on
		})
		return
	}
	w.run(c.Ops)
	w.linkSome(c.Seed)
	if len(w.rems) == 0 {
		return
	}
	if c.Kind == "layers" {
		layerFaults(w, r, judge)
		return
	}
	// reading operations, through a handle just opened and one in use
	for _, fresh := range []bool{true, false} {
		for i := 0; i < 2; i++ {
			m := w.rems[r.Intn(len(w.rems))]
			for _, name := range readOps {
				g := w.newGraph()
				x := w.get(m, 1, 0)
				points(func(setup func(*store.Mon)) (int, string) {
					var err error
					var pan *opPanic
					if fresh {
						g = w.newGraph()
					}
					o := w.output(g)
					err, pan, _ = w.call(name, func(mon *store.Mon) {
						mon.Allowed, mon.IsOwn = m.id, true
						setup(mon)
					}, func() error {
						_, err := readOp(name, g, o, m.id, x)
						return err
					})
					judge(name, err, pan, w.mon)
					st.eval(sig(c.Seed, m.idx, name, fresh, w.mon.Calls), true)
					return w.mon.Injected, w.mon.FaultOn
				})
			}
		}
	}
	var others []Op
	for _, k := range []string{"story", "fact", "remark", "child"} {
		op := tinyOps(r, 1)[0]
		op.K = k
		op.T = r.Intn(len(w.rems))
		others = append(others, op)
	}
	for _, op := range others {
		m := w.target(op.T)
		points(func(setup func(*store.Mon)) (int, string) {
			w.mem.Mark()
			w.reopen()
			x := w.get(m, 1, 0)
			_, err, pan, _ := w.disturbed(x, op, setup2(setup))
			judge(op.K, err, pan, w.mon)
			st.eval(sig(c.Seed, op.K, op.T, op.O, op.P, w.mon.Calls), true)
			i, on := w.mon.Injected, w.mon.FaultOn
			w.mem.Rollback()
			return i, on
		})
	}
	w.reopen()
	w.checkAll(FModel)
	st.state(w.mem.Digest())
}

// setup2 keeps the place of the fault readable after the operation.
func setup2(f func(*store.Mon)) func(*store.Mon) { return f }

// runDisturbed decides C14 (failing calls), C15 (crashes) and C30 (calls that
// panic).
func runDisturbed(c Case, st *Stats, how string) {
	crash, panics := how == "crash", how == "panic"
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.mon.MaxCalls = 3_000_000
	follow := func(what string, n int) {
		for i := 0; i < n; i++ {
			op := tinyOps(r, 1)[0]
			op.K = []string{"story", "fact", "remark", "child"}[r.Intn(4)]
			op.T = r.Intn(len(w.rems))
			op.Via = 1 + r.Intn(3)
			w.again(what, op)
		}
	}
	if c.Kind == "random" {
		for i, op := range c.Ops {
			t := w.target(op.T)
			if t == nil {
				op.K = "story"
				if op.O == "" {
					op.O = op.P
				}
			}
			done := false
			for try := 0; try < 4 && !done; try++ {
				pre := w.extras()
				if r.Intn(3) == 0 {
					w.reopen()
				}
				var x semnet.Remark
				if t != nil {
					x = w.get(t, op.Via, op.H)
				}
				out, err, pan, crashed := w.disturbed(x, op, func(m *store.Mon) {
					if crash {
						m.CrashAt = 1 + r.Intn(1+r.Intn(60))
						if len(w.rems) == 0 && r.Intn(2) == 0 {
							m.CrashAt = 1 + r.Intn(900)
						}
					} else {
						m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(400))
						m.Panics, m.Exits = panics, panics && c.N%2 == 0
					}
				})
				what := fmt.Sprintf("step %d %s", i, op.K)
				if panics {
					err, pan = w.passed(what, err, pan)
				}
				if pan != nil {
					fail("%s panicked: %v [%s]", what, pan.val, trimStack(pan.stack))
				}
				if crashed {
					w.reopen()
				}
				if err == nil && !crashed {
					if isNil(out) {
						fail("%s gave no remark and no error", what)
					}
					m := w.model(op, t)
					m.val, m.kept = out, true
					m.id = w.id(out)
					done = true
				} else {
					if err != nil && w.mon.Injected == 0 {
						fail("%s failed although the storage worked: %v", what, err)
					}
					if w.settle(op, t) != nil {
						st.Extra["took_place"]++
					} else {
						st.Extra["no_effect"]++
					}
					if len(w.rems) <= 20 || r.Intn(5) == 0 {
						if op.K == "remark" {
							pre = nil
						}
						w.sound("after the disturbed "+what, pre)
					}
					st.eval(sig(c.Seed, i, try, op.K, w.mon.Calls), true)
				}
			}
			if !done {
				w.again(fmt.Sprintf("step %d undisturbed after failures", i), op)
			}
		}
		w.sound("at the end", nil)
		st.state(w.mem.Digest())
		return
	}

	at := func(m *store.Mon, k, mode int) {
		if crash {
			m.CrashAt = k
		} else {
			m.FaultAt, m.FaultMode, m.Panics = k, mode, panics
			m.Exits = panics && c.N%2 == 0
		}
	}
	// one place of disturbance; tells whether it was reached
	one := func(op Op, k, mode int) (reached bool, on string) {
		n := len(w.rems)
		w.mem.Mark()
		w.reopen()
		t := w.target(op.T)
		var x semnet.Remark
		if op.K != "story" {
			x = w.get(t, op.Via, 0)
		}
		var pre []seenExtra
		if k%3 == 1 && op.K != "remark" {
			pre = w.extras()
		}
		_, err, pan, crashed := w.disturbed(x, op, func(m *store.Mon) { at(m, k, mode) })
		reached = crashed || w.mon.Injected > 0
		on = w.mon.FaultOn
		what := fmt.Sprintf("after %s was stopped after its change %d", op.K, k)
		if !crash {
			what = fmt.Sprintf("after %s with call %d (%s) failing, mode %d", op.K, k, on, mode)
		}
		if panics {
			what = fmt.Sprintf("after %s with call %d (%s) panicking, mode %d", op.K, k, on, mode)
			err, pan = w.passed(what, err, pan)
		}
		if pan != nil {
			fail("%s: panic %v [%s]", what, pan.val, trimStack(pan.stack))
		}
		if reached && (err != nil || crashed) {
			if crashed {
				w.reopen()
			}
			if w.settle(op, t) != nil {
				st.Extra["took_place"]++
			} else {
				st.Extra["no_effect"]++
			}
			w.sound(what, pre)
			// the same again, through the same remark or a fetched one
			if !crashed && op.K != "story" && r.Intn(2) == 0 {
				out, err, pan, _ := w.disturbed(x, op, nil)
				if pan != nil || err != nil || isNil(out) {
					fail("%s: the same operation through the same remark does not succeed: %v %v", what, err, pan)
				}
				m := w.model(op, t)
				m.val, m.kept = out, true
				m.id = w.id(out)
			} else {
				o := op
				o.Via = 1
				w.again(what+" the same again", o)
			}
			follow(what, 1+r.Intn(4))
			w.sound(what+" and more operations", nil)
			st.eval(sig(c.Seed, op.K, op.T, op.O, op.P, k, mode), true)
		}
		for len(w.rems) > n {
			w.unmodel(w.rems[len(w.rems)-1])
		}
		w.mem.Rollback()
		w.reopen()
		return
	}
	enumerate := func(op Op, stride int) {
		for k := 1; ; k++ {
			if stride > 1 && k > 40 && r.Intn(stride) != 0 {
				// still find the end
				if k > 60000 {
					fail("%s does not end", op.K)
				}
				k += r.Intn(stride)
			}
			reached, on := one(op, k, store.FaultBefore)
			if !reached {
				return
			}
			if !crash {
				switch on {
				case "Create", "SetReference", "Connect", "Disconnect", "Delete":
					one(op, k, store.FaultAfter)
				}
			}
		}
	}
	if c.Kind == "empty" {
		op := c.Ops[0]
		op.K = "story"
		enumerate(op, 1)
		return
	}
	// the last step is the one to disturb
	x := c.Ops[len(c.Ops)-1]
	w.run(c.Ops[:len(c.Ops)-1])
	if len(w.rems) == 0 {
		x.K = "story"
		if x.O == "" {
			x.O = x.P
		}
	}
	st.state(w.mem.Digest())
	enumerate(x, 1)
}

// outages are histories in which the storage is out of order for a while, as a
// whole or in what it can do.
func outages(tier string, seed int64, salt string) (cs []Case) {
	for i, s := range seeds(seed, salt, pick(tier, 80, 1000)) {
		r := rand.New(rand.NewSource(s))
		cs = append(cs, Case{Kind: "outage", Seed: s, N: i, Cfg: store.Config{Order: i % 3, IDs: i % store.IDKinds, Lenient: i%2 == 0}, Ops: tinyOps(r, 3+r.Intn(12))})
	}
	return
}

// runOutage performs operations of all kinds while the storage is out of order
// and looks whether all is as if they had not been tried once it works again.
func runOutage(c Case, st *Stats, how string) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.run(c.Ops[:len(c.Ops)-2])
	if len(w.rems) == 0 {
		return
	}
	for round := 0; round < 3; round++ {
		if r.Intn(2) == 0 {
			w.reopen()
		}
		if r.Intn(3) == 0 {
			w.handles = append(w.handles, w.newGraph())
		}
		var xs []semnet.Remark
		for _, m := range w.rems {
			xs = append(xs, w.get(m, r.Intn(3), r.Intn(3)))
		}
		want := w.moment()
		// all calls, all that change something, those that read, or one
		const writing = 1<<1 | 1<<4 | 7<<6
		out := []uint{1<<9 - 1, writing, 1<<0 | 1<<2 | 1<<3 | 1<<5, 1 << r.Intn(7)}[(c.N+round)%4]
		n := []int{1, 3, 6, 12, 20, 40, 120, 300}[r.Intn(8)]
		if out&writing != writing {
			n = min(n, 20) // what was stored has to be found out each time
		}
		for i := 0; i < n; i++ {
			k := r.Intn(len(w.rems))
			setup := func(m *store.Mon) {
				m.Outage = out
				m.Panics, m.Exits = how == "panic", how == "panic" && c.N%2 == 0
			}
			if r.Intn(3) == 0 {
				name := readOps[r.Intn(len(readOps))]
				h := w.handle(r.Intn(3))
				var ans string
				err, pan, _ := w.call(name, func(m *store.Mon) {
					m.Allowed, m.IsOwn = w.rems[k].id, true
					setup(m)
				}, func() (err error) {
					ans, err = readOp(name, h, semnet.NewOutput(h), w.rems[k].id, xs[k])
					return
				})
				if w.mon.Injected == 0 && pan == nil {
					if err != nil {
						ans = ""
					}
					if ans != want[k][name] {
						fail("%s of remark #%d, which the outage of the storage (%b) does not concern, gave %s (%v), before %s", name, k, out, ans, err, want[k][name])
					}
				}
				outageJudge(w, how, name, err, pan)
				continue
			}
			op := tinyOps(r, 2)[1]
			op.T, op.H = k, r.Intn(3)
			made, err, pan, _ := w.disturbed(xs[k], op, setup)
			w.mon.Outage = 0
			outageJudge(w, how, op.K, err, pan)
			was := len(w.rems)
			if w.mon.Injected == 0 && err == nil && !isNil(made) { // not concerned
				m := w.model(op, w.rems[k])
				m.val, m.kept = made, true
				m.id = w.id(made)
			} else if err == nil && pan == nil {
				return // decided by C13
			} else if out&writing != writing {
				w.settle(op, w.rems[k])
			}
			if len(w.rems) > was {
				xs = append(xs, w.get(w.rems[was], r.Intn(3), r.Intn(3)))
				want = w.moment()
			}
			st.eval(sig(c.Seed, round, i, op.K, out), true)
		}
		st.Extra["longest_outage"] = max(st.Extra["longest_outage"], n)
		what := fmt.Sprintf("after an outage of %d operations (%b)", n, out)
		op := tinyOps(r, 2)[1]
		op.T, op.H, op.Via = r.Intn(len(w.rems)), r.Intn(3), r.Intn(3)
		if r.Intn(2) == 0 {
			w.sound(what, nil)
		}
		w.again(what, op)
		w.sound(what+" and an operation", nil)
		for i := 0; i < 3; i++ {
			op := tinyOps(r, 2)[1]
			op.T, op.H = r.Intn(len(w.rems)), r.Intn(3)
			w.again(what, op)
		}
	}
	w.sound("at the end", nil)
	w.checkAll(FModel)
	st.state(w.mem.Digest())
}

func outageJudge(w *World, how, what string, err error, pan *opPanic) {
	if how == "panic" {
		err, pan = w.passed(what, err, pan)
	}
	if pan != nil {
		fail("%s, with the storage out of order, panicked: %v [%s]", what, pan.val, trimStack(pan.stack))
	}
	if how == "hidden" && w.mon.Injected > 0 && err == nil {
		fail("%s reported success although call %d (%s) failed", what, w.mon.Calls, w.mon.FaultOn)
	}
	if how == "own" && err != nil && len(w.mon.Errs) > 0 {
		for _, e := range w.mon.Errs {
			if errors.Is(err, e) {
				return
			}
		}
		fail("%s failed as %s did, but with an error of its own: %v", what, w.mon.FaultOn, err)
	}
}

func runC30(c Case, st *Stats) {
	if c.Kind == "outage" {
		runOutage(c, st, "panic")
		return
	}
	if c.Kind != "reads" {
		runDisturbed(c, st, "panic")
		return
	}
	runReads(c, st, true)
}

// runReads fails each call of each reading operation and asks again then.
func runReads(c Case, st *Stats, panics bool) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.mon.MaxCalls = 3_000_000
	w.run(c.Ops)
	w.linkSome(c.Seed)
	if len(w.rems) == 0 {
		return
	}
	want := w.moment()
	for _, fresh := range []bool{true, false} {
		m := w.rems[r.Intn(len(w.rems))]
		for _, name := range readOps {
			g := w.g()
			o := w.output(g)
			points(func(setup func(*store.Mon)) (int, string) {
				if fresh {
					g = w.newGraph()
					o = semnet.NewOutput(g)
				}
				var x semnet.Remark
				w.must("GetRemark", func() error {
					w.mon.Allowed, w.mon.IsOwn = m.id, true
					var err error
					x, err = w.g().GetRemark(m.id)
					return err
				})
				if fresh && name != "GetRemark" {
					x = semnet.Remark{}
					w.must("GetRemark", func() error {
						w.mon.Allowed, w.mon.IsOwn = m.id, true
						var err error
						x, err = g.GetRemark(m.id)
						return err
					})
				}
				ask2 := func(name string, setup func(*store.Mon)) (ans string, err error, pan *opPanic) {
					err, pan, _ = w.call(name, func(mon *store.Mon) {
						mon.Allowed, mon.IsOwn = m.id, true
						if setup != nil {
							setup(mon)
							mon.Panics, mon.Exits = panics, panics && c.N%2 == 0
						}
					}, func() error {
						var err error
						ans, err = readOp(name, g, o, m.id, x)
						return err
					})
					return
				}
				ask := func(setup func(*store.Mon)) (string, error, *opPanic) { return ask2(name, setup) }
				_, err, pan := ask(setup)
				i, on := w.mon.Injected, w.mon.FaultOn
				if i == 0 {
					return i, on
				}
				how := "a failing"
				if panics {
					how = "a panicking"
					w.passed(name, err, pan)
				}
				if r.Intn(3) == 0 { // something else before
					other := readOps[r.Intn(len(readOps))]
					a, err, pan := ask2(other, nil)
					if err != nil {
						a = ""
					}
					if pan != nil || a != want[m.idx][other] {
						fail("%s of remark #%d, asked after %s %s within %s, gave %s (%v %v), before %s", other, m.idx, how, on, name, a, err, pan, want[m.idx][other])
					}
				}
				ans, err, pan := ask(nil)
				if pan != nil {
					fail("%s, asked again after %s %s, panicked: %v", name, how, on, pan.val)
				}
				if err != nil {
					ans = ""
				}
				if ans != want[m.idx][name] {
					fail("%s of remark #%d, asked again after %s %s, gave %s (%v), before %s", name, m.idx, how, on, ans, err, want[m.idx][name])
				}
				st.eval(sig(c.Seed, m.idx, name, fresh, w.mon.Calls, i, on), true)
				return i, on
			})
		}
	}
	w.checkAll(FModel)
	st.state(w.mem.Digest())
}

func runC16(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	var old *store.Mem
	judge := func(what string) {
		if len(w.mon.Removed) > 0 {
			fail("%s: %s", what, w.mon.Removed[0])
		}
		if len(w.mon.Changed) > 0 {
			fail("%s: %s", what, w.mon.Changed[0])
		}
	}
	// poke fetches what disturbed operations may have left incomplete, and
	// reads it as far as it goes
	poke := func(what string) {
		if w.mem == nil {
			return
		}
		l, all := w.members(classRemark), w.mem.AllIDs()
		l = append([]uint{}, l[max(0, len(l)-3):]...)
		for i := 0; i < 2 && len(all) > 0; i++ {
			l = append(l, all[len(all)-1-r.Intn(min(len(all), 40))])
		}
		g := w.g()
		o := w.output(g)
		for _, id := range l {
			w.call("GetRemark", nil, func() error {
				x, err := g.GetRemark(id)
				if err != nil || isNil(x) {
					return err
				}
				for _, k := range r.Perm(len(readOps))[:4] {
					readOp(readOps[k], g, o, id, x)
				}
				return nil
			})
			judge(fmt.Sprintf("reading %d %s", id, what))
			st.Extra["nodes_asked_for_that_may_be_incomplete"]++
		}
	}
	if c.Kind == "points" {
		w.run(c.Ops)
		judge("the history")
		w.mon.MaxCalls = 3_000_000
		for _, k := range []string{"story", "fact", "remark", "child"} {
			op := tinyOps(r, 1)[0]
			op.K, op.T = k, r.Intn(len(w.rems))
			one := func(what string, setup func(*store.Mon)) (bool, string) {
				n := len(w.rems)
				w.mem.Mark()
				w.reopen()
				t := w.target(op.T)
				x := w.get(t, 1, 0)
				_, _, _, crashed := w.disturbed(x, op, setup)
				reached, on := crashed || w.mon.Injected > 0, w.mon.FaultOn
				if reached {
					judge(what + " " + op.K)
					if crashed {
						w.reopen()
					}
					before := w.mem.Clone()
					if r.Intn(3) == 0 {
						poke("after " + what + " " + op.K)
					}
					for i := 0; i < 1+r.Intn(4); i++ {
						o := op
						if i > 0 {
							o = tinyOps(r, 1)[0]
							o.K, o.T = []string{"story", "fact", "remark", "child"}[r.Intn(4)], op.T
						}
						w.call("GetRemark", nil, func() error {
							var err error
							x, err = w.g().GetRemark(t.id)
							return err
						})
						if isNil(x) {
							break
						}
						w.disturbed(x, o, nil) // whether it succeeds is decided by C14 and C15
						judge(fmt.Sprintf("%s after %s %s", o.K, what, op.K))
					}
					if d := w.mem.Contains(before); d != "" {
						fail("after %s %s and more: content stored earlier is gone: %s", what, op.K, d)
					}
					st.eval(sig(c.Seed, op.K, w.mon.Total), true)
				}
				w.rems = w.rems[:n]
				w.mem.Rollback()
				w.reopen()
				return reached, on
			}
			points(func(setup func(*store.Mon)) (int, string) {
				reached, on := one("failed", setup)
				if reached {
					return 1, on
				}
				return 0, on
			})
			for k := 1; ; k++ {
				k := k
				if reached, _ := one("crashed", func(m *store.Mon) { m.CrashAt = k }); !reached {
					break
				}
			}
		}
		st.state(w.mem.Digest())
		return
	}
	for i, op := range c.Ops {
		t := w.target(op.T)
		if c.Kind == "plain" || !creating(op.K) || (t == nil && op.K != "story") {
			w.apply(op)
		} else {
			for try := 0; try < 3; try++ {
				var x semnet.Remark
				if op.K != "story" {
					x = w.get(t, op.Via, op.H)
				}
				_, err, pan, crashed := w.disturbed(x, op, func(m *store.Mon) {
					if c.Kind == "crashes" {
						m.CrashAt = 1 + r.Intn(1+r.Intn(80))
						if i == 0 {
							m.CrashAt = 1 + r.Intn(900)
						}
					} else {
						m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(400))
					}
				})
				if crashed {
					w.reopen()
				}
				judge(fmt.Sprintf("disturbed %s", op.K))
				if r.Intn(3) == 0 {
					poke("after a disturbed " + op.K)
				}
				if pan != nil || err == nil && !crashed {
					break // decided by other properties
				}
				st.eval(sig(c.Seed, i, try, "disturbed"), true)
			}
			// what the disturbed operations left is not in the model, so only
			// independent stories are grown from here on
			w.apply(Op{K: "story", O: op.P, P: op.P})
		}
		judge(op.K)
		st.eval(sig(c.Seed, i, op.K), true)
		if i%16 == 0 {
			if old != nil {
				if d := w.mem.Contains(old); d != "" {
					fail("content stored earlier is gone: %s", d)
				}
			}
			old = w.mem.Clone()
			st.state(w.mem.Digest())
		}
	}
	if old != nil {
		if d := w.mem.Contains(old); d != "" {
			fail("content stored earlier is gone: %s", d)
		}
	}
}
