//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	"verifharness/store"
)

func init() {
	register(&Check{
		ID: "C32", Level: "exploration",
		Rule:   "one generated history is performed on a storage of its own and on one where, between any two storage calls, others create nodes, connect them, refer with them and take that back; every call given a node of others is a violation, their nodes have to hold what they put there, all remarks are compared with the model, nodes of others fetched as remarks have to be refused, and the nodes made by the history have to hold, named by their place among them, what they hold on the storage of its own; kind \"faults\": the same with failing storage calls, where only the use of nodes of others is decided; an evaluation is one step; distinct by history, step and storage",
		Assume: []string{"the nodes of the eight classes are there before others use the storage, as their identifiers are fixed", "others connect their nodes among themselves only"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C32", pick(tier, 120, 800)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Bad, p.Open, p.Reopen, p.Read = 2, 1, 1, 3
				if i%3 == 1 {
					p.SmallPool = 4
				}
				kind := "beside"
				n := pick(tier, 16, 32)
				if i%4 == 3 {
					kind, n = "faults", n/2
				}
				cs = append(cs, Case{Kind: kind, Seed: s, M: []int{1, 5, 20, 50, 90}[r.Intn(5)], Ops: genOps(r, n, p)})
			}
			for i, s := range seeds(seed, "C32e", pick(tier, 16, 64)) {
				cs = append(cs, Case{Kind: "every", Seed: s, N: i % 4, M: []int{5, 20, 50, 70}[i/4%4]})
			}
			return
		},
		Run: runC32,
	})
}

// besideOthers is a world whose storage others use too.
func besideOthers(cfg store.Config, st *Stats, seed int64, per int) (*World, *store.Neighbours) {
	w := newWorld(cfg, st, seed)
	n := store.NewNeighbours(w.mem, seed, per)
	w.mon.B = n
	w.mon.Known = map[uint]bool{}
	return w, n
}

func runC32(c Case, st *Stats) {
	c.Cfg.Backend = ""
	r := rand.New(rand.NewSource(c.Seed))
	w, n := besideOthers(c.Cfg, st, c.Seed, c.M)
	w.mon.KeepLists = true
	defer func() { st.Extra["steps_of_others"] += n.Steps; st.Extra["nodes_of_others"] += len(n.Foreign) }()
	look := func(what string) {
		if len(w.mon.Unknown) > 0 {
			fail("%s, with others on the same storage: %s (theirs: %d nodes)", what, w.mon.Unknown[0], len(n.Foreign))
		}
		if len(w.mon.Removed) > 0 {
			fail("%s, with others on the same storage: %s", what, w.mon.Removed[0])
		}
	}
	if c.Kind == "every" {
		// one operation again and again, each time with the next call failing
		w.apply(Op{K: "story", O: "a", P: "b"})
		kind := []string{"story", "fact", "remark", "child"}[c.N]
		made := 0
		for mode := store.FaultBefore; mode <= store.FaultAfter; mode++ {
			for at, over := 1, 0; ; at++ {
				op := Op{K: kind, O: "a", P: "b"}
				if at%2 == 0 { // a text never stored before
					made++
					op.P = string(rune(0x4e00+made)) + " " + string(rune(0x3b1+made%24))
				}
				if r.Intn(4) == 0 {
					w.reopen()
				}
				x := w.get(w.rems[r.Intn(len(w.rems))], 1, 0)
				_, _, _, crashed := w.disturbed(x, op, func(m *store.Mon) {
					if r.Intn(3) == 0 {
						m.CrashAt = 1 + at/2
					} else {
						m.FaultAt, m.FaultMode = at, mode
					}
				})
				if crashed {
					w.reopen()
				}
				if over++; crashed || w.mon.Injected > 0 {
					over = 0
				}
				done := over == 8
				if r.Intn(8) == 0 {
					w.apply(Op{K: "story", O: "a", P: op.P})
				}
				look(op.String())
				if at%64 == 0 || done {
					if d := n.Differs(); d != "" {
						fail("%s changed a node of others: %s", op, d)
					}
				}
				st.eval(sig(c.Seed, mode, at), len(n.Foreign) > 0)
				if done {
					break
				}
			}
		}
		return
	}
	if c.Kind == "faults" {
		for i, op := range c.Ops {
			if t := w.target(op.T); t != nil && creating(op.K) {
				x := w.get(t, op.Via, op.H)
				w.answer(readOps[r.Intn(len(readOps))], op.H, t.id, x, func(m *store.Mon) { m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(60)) })
				_, _, _, _ = w.disturbed(x, op, func(m *store.Mon) { m.FaultRng, m.FaultProb = r, 1/float64(1+r.Intn(600)) })
			}
			o, p := op.O, op.P
			if creating(op.K) {
				if o == "" {
					o = p
				}
				w.apply(Op{K: "story", O: o, P: p})
			}
			look(op.String())
			st.eval(sig(c.Seed, i), len(n.Foreign) > 0)
		}
		return
	}
	alone := newWorld(c.Cfg, st, c.Seed)
	for i, op := range c.Ops {
		alone.apply(op)
		w.apply(op)
		look(op.String())
		if d := n.Differs(); d != "" {
			fail("%s changed a node of others: %s", op, d)
		}
		if m := w.target(r.Intn(1 + len(w.rems))); m != nil {
			w.checkRem(m, r.Intn(5), op.H, FModel)
		}
		if len(n.Foreign) > 0 {
			id := n.Foreign[r.Intn(len(n.Foreign))]
			w.mon.Unknown = nil
			err, pan, _ := w.call("GetRemark", nil, func() error { _, err := w.handle(op.H).GetRemark(id); return err })
			if pan != nil {
				fail("GetRemark of %d, a node of others, panicked: %v [%s]", id, pan.val, trimStack(pan.stack))
			}
			if err == nil {
				fail("GetRemark of %d, a node of others, gave a remark", id)
			}
			w.mon.Unknown = nil
		}
		st.eval(sig(c.Seed, i), len(n.Foreign) > 0)
	}
	place := map[uint]int{}
	for i, id := range n.Own {
		place[id] = i + 1
	}
	was := map[uint]int{}
	for i, id := range alone.mem.AllIDs() {
		was[id] = i + 1
	}
	for i, m := range w.rems {
		w.checkRem(m, r.Intn(5), r.Intn(6), FModel)
		a := alone.observe(alone.get(alone.rems[i], 1, 0), FAll, 0)
		b := w.observe(w.get(m, 1, 0), FAll, 0)
		a.ID, a.First, a.NextF, a.NextS, a.NextR = 0, 0, 0, 0, uint(was[a.NextR])
		b.ID, b.First, b.NextF, b.NextS, b.NextR = 0, 0, 0, 0, uint(place[b.NextR])
		if d := diffObs(b, a); d != "" {
			fail("remark #%d on a storage others use too: %s", i, d)
		}
	}
	look("reading")
	if d := n.Differs(); d != "" {
		fail("a node of others was changed: %s", d)
	}
	w.mon.LookAtLists()
	if len(w.mon.Written) > 0 {
		fail("%s", w.mon.Written[0])
	}
	// The order of lists decides the order in which things are read, and what
	// is unordered by the contract may depend on it.
	if c.Cfg.Order <= 1 && c.Cfg.IDs != 4 {
		a, b := store.Content(alone.mem, alone.mem.AllIDs()), store.Content(n.Mem, n.Own)
		if len(a) != len(b) {
			fail("%d nodes were made alone and %d beside others", len(a), len(b))
		}
		for i := range a {
			if a[i] != b[i] {
				fail("node %d of those made holds %s alone and %s beside others", i+1, a[i], b[i])
			}
		}
		st.Extra["contents_compared"]++
	}
	st.state(sig(fmt.Sprint(store.Content(n.Mem, n.Own))))
}
