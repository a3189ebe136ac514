//go:build !semnetinternal && go1.22

package main

import (
	"fmt"
	"math/rand"
)

// What can be decided of the inner layers without reaching them, for a tree
// where they have other constructors or methods than the monitors know.

func init() {
	const fallback = "the inner layers could not be reached, so this is decided by the public operations and the stored graph only"
	register(&Check{ID: "C22", Level: "exploration",
		Rule:   "generated histories; every remark is reached in every way (kept, fetched, walked to over facts and siblings), and what it shows is compared with the model: each step looks an entity up by one of its nodes; an evaluation is one remark observed; distinct by history and remark",
		Assume: []string{fallback},
		Cases: func(tier string, seed int64) []Case {
			return genHistories(tier, seed, "C22", 800, 6000, 5, 30, Profile{Story: 3, Fact: 5, Remark: 4, Child: 5, Reopen: 1, Open: 1})
		},
		Run: func(c Case, st *Stats) {
			w := newWorld(c.Cfg, st, c.Seed)
			w.run(c.Ops)
			for via := 0; via < 5; via++ {
				for _, m := range w.rems {
					w.checkRem(m, via, via, FModel)
					st.eval(sig(c.Seed, m.idx, via), len(w.rems) > 1)
				}
			}
		}})
	register(&Check{ID: "C23", Level: "exploration",
		Rule:   "generated forests several levels deep with texts stored before; the nodes made with a child story have to be connected with one made with its parent, and with none made with a story that is neither its parent nor its sibling; an evaluation is one child story; distinct by history and story",
		Assume: []string{fallback},
		Cases: func(tier string, seed int64) []Case {
			return genHistories(tier, seed, "C23", 800, 6000, 5, 45, Profile{Story: 2, Fact: 5, Remark: 3, Child: 10, Reopen: 1, Open: 1})
		},
		Run: runTies})
	register(&Check{ID: "C24", Level: "exploration",
		Rule:   "generated histories; every node of the storage is fetched as a remark, which asks for its class; an evaluation is one node; distinct by kind of node, storage and size class",
		Assume: []string{fallback},
		Cases: func(tier string, seed int64) []Case {
			return genHistories(tier, seed, "C24", 300, 3000, 5, 25, mixed)
		},
		Run: runC03})
	register(&Check{ID: "C25", Level: "exploration",
		Rule:   "generated histories; the texts of every remark are compared with those stored, through every way to it; an evaluation is one remark read; distinct by texts",
		Assume: []string{fallback},
		Cases: func(tier string, seed int64) []Case {
			return genHistories(tier, seed, "C25", 250, 2500, 5, 40, Profile{Story: 5, Fact: 4, Remark: 4, Child: 2, Reopen: 1, Open: 1, Long: true})
		},
		Run: func(c Case, st *Stats) {
			w := newWorld(c.Cfg, st, c.Seed)
			w.run(c.Ops)
			for via := 0; via < 5; via++ {
				for _, m := range w.rems {
					w.checkRem(m, via, via, FText)
					st.eval(sig(m.o, m.p), true)
				}
			}
		}})
}

func runTies(c Case, st *Stats) {
	c.Cfg.Backend = ""
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.apply(Op{K: "story", O: "a", P: "b"})
	w.apply(Op{K: "story", O: "b", P: "a"})
	w.apply(Op{K: "story", O: "b", P: "b"})
	base := len(w.rems)
	owner := map[uint]*MStory{}
	made := 0
	for _, op := range c.Ops {
		op.O, op.P = []string{"a", "b"}[r.Intn(2)], "b"
		if made == 0 && creating(op.K) {
			op.K = "story"
		} else if made > 0 {
			op.T = base + op.T%made
		} else {
			continue
		}
		from := w.mem.Len()
		m := w.apply(op)
		if m == nil {
			continue
		}
		made++
		if op.K != "story" && op.K != "child" {
			continue
		}
		s := m.fact.story
		ties := map[*MStory]bool{}
		for i := from + 1; i <= w.mem.Len(); i++ {
			id := w.mem.ExtID(i)
			owner[id] = s
			for _, x := range append(w.mem.RawTargets(id), w.mem.RawSources(id)...) {
				if o := owner[x]; o != nil && o != s {
					ties[o] = true
				}
			}
		}
		who := fmt.Sprintf("the story of remark #%d", m.idx)
		for o := range ties {
			if o != s.parent && (s.parent == nil || o.parent != s.parent) {
				fail("%s is connected with the story of remark #%d, which is neither its parent nor its sibling", who, o.head().idx)
			}
		}
		if s.parent != nil && !ties[s.parent] {
			fail("%s is not connected with its parent story, that of remark #%d", who, s.parent.head().idx)
		}
		st.eval(sig(c.Seed, m.idx), s.parent != nil)
	}
	st.state(w.mem.Digest())
}
