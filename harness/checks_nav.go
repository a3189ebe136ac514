//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func ids(rs []*MRem) (out []uint) {
	for _, r := range rs {
		out = append(out, r.id)
	}
	return
}

func (s *MStory) heads() (out []*MRem) {
	for _, f := range s.facts {
		out = append(out, f.rems[0])
	}
	return
}

func (s *MStory) all() (out []*MRem) {
	for _, f := range s.facts {
		out = append(out, f.rems...)
	}
	return
}

func (s *MStory) childHeads() (out []*MRem) {
	for _, c := range s.children {
		out = append(out, c.head())
	}
	return
}

func sameIDs(got []uint, want []*MRem) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i].id {
			return false
		}
	}
	return true
}

func clipIDs(x []uint) string {
	if len(x) > 20 {
		return fmt.Sprintf("%v… (%d)", x[:20], len(x))
	}
	return fmt.Sprint(x)
}

// walkFacts follows next-fact from x and compares what it meets, the texts
// included, with the expected remarks.
func (w *World) walkFacts(x semnet.Remark, want []*MRem, what string, withTexts bool) {
	var got []uint
	for {
		got = append(got, w.id(x))
		if withTexts && len(got) <= len(want) {
			o, p := w.texts(x)
			if m := want[len(got)-1]; got[len(got)-1] == m.id && (o != m.o || p != m.p) {
				fail("%s: fact %d shows %s %s instead of %s %s", what, len(got)-1, short(o), short(p), short(m.o), short(m.p))
			}
		}
		if !w.has("HasNextFact", x.HasNextFact) {
			break
		}
		if len(got) > len(want) {
			break
		}
		x = w.nextFact(x)
	}
	if !sameIDs(got, want) {
		fail("%s: the facts met are %s instead of %s", what, clipIDs(got), clipIDs(ids(want)))
	}
	err, pan, _ := w.call("GetNextFact", nil, func() error {
		a, err := x.GetNextFact()
		if err == nil && a == nil {
			return fmt.Errorf("nothing")
		}
		return err
	})
	if pan != nil {
		fail("%s: GetNextFact on the last fact panicked: %v", what, pan.val)
	}
	if err == nil {
		fail("%s: GetNextFact on the last fact gave a remark", what)
	}
}

func (w *World) walkStories(x semnet.Remark, want []*MRem, what string, withTexts bool) {
	var got []uint
	for {
		got = append(got, w.id(x))
		if withTexts && len(got) <= len(want) {
			o, p := w.texts(x)
			if m := want[len(got)-1]; got[len(got)-1] == m.id && (o != m.o || p != m.p) {
				fail("%s: story %d shows %s %s instead of %s %s", what, len(got)-1, short(o), short(p), short(m.o), short(m.p))
			}
		}
		if !w.has("HasNextStory", x.HasNextStory) {
			break
		}
		if len(got) > len(want) {
			break
		}
		x = w.nextStory(x)
	}
	if !sameIDs(got, want) {
		fail("%s: the stories met are %s instead of %s", what, clipIDs(got), clipIDs(ids(want)))
	}
	err, pan, _ := w.call("GetNextStory", nil, func() error {
		a, err := x.GetNextStory()
		if err == nil && a == nil {
			return fmt.Errorf("nothing")
		}
		return err
	})
	if pan != nil {
		fail("%s: GetNextStory on the last story panicked: %v", what, pan.val)
	}
	if err == nil {
		fail("%s: GetNextStory on the last story gave a remark", what)
	}
}

func genHistories(tier string, seed int64, salt string, quick, thorough int, minN, varN int, p Profile) (cs []Case) {
	for i, s := range seeds(seed, salt, pick(tier, quick, thorough)) {
		r := rand.New(rand.NewSource(s))
		q := p
		if i%3 == 0 && q.SmallPool == 0 {
			q.SmallPool = 1 + r.Intn(4)
		}
		q.Recent = r.Intn(100)
		cs = append(cs, Case{Kind: "history", Seed: s, Cfg: cfgFor(i), Ops: genOps(r, minN+r.Intn(varN), q)})
	}
	return
}

// grown makes a long history of one kind of step.
func grown(r *rand.Rand, n int, kind string, others int) (ops []Op) {
	ops = append(ops, Op{K: "story", O: "root", P: "of all"}, Op{K: "story", O: "root", P: "of all"})
	texts := []string{"a", "b", "a b", "c", "it", "was", "so", "it was"}
	how := r.Intn(4)
	made := 2
	for i := 0; i < n; i++ {
		op := Op{K: kind, O: texts[r.Intn(len(texts))], P: texts[r.Intn(len(texts))], Via: r.Intn(5)}
		switch how {
		case 0: // always through the first remark
			op.T = 0
		case 1: // always through the latest
			op.T = made - 1
			if kind == "child" {
				op.T = 0
				if i > 0 && r.Intn(8) == 0 {
					op.T = made - 1
				}
			}
		case 2:
			op.T = r.Intn(2)
		case 3:
			op.T = r.Intn(made)
			if kind == "child" {
				op.T = r.Intn(min(made, 6))
			}
		}
		ops = append(ops, op)
		made++
		if others > 0 && r.Intn(others) == 0 {
			ops = append(ops, Op{K: []string{"fact", "remark", "child"}[r.Intn(3)], T: r.Intn(made), O: "x", P: "y", Via: 1})
			made++
		}
	}
	return
}

// askedCases are short histories in which remarks are asked very often what
// then changes.
func askedCases(tier string, seed int64, salt string, p Profile) (cs []Case) {
	p.Open, p.Reopen, p.Recent = 2, 0, 60
	for i, s := range seeds(seed, salt, pick(tier, 8, 40)) {
		r := rand.New(rand.NewSource(s))
		cs = append(cs, Case{Kind: "asked", Seed: s, N: pick(tier, 1200, 20000), M: i % 2, Cfg: cfgFor(i), Ops: genOps(r, pick(tier, 10, 16), p)})
	}
	return
}

func runAsked(c Case, st *Stats, facets int, quiet bool) {
	w := newWorld(c.Cfg, st, c.Seed)
	w.readsQuiet = quiet
	r := rand.New(rand.NewSource(c.Seed))
	ask := func(m *MRem, when string, times int) {
		h := r.Intn(4)
		x := w.get(m, r.Intn(5), h)
		want := m.expect(facets & FModel)
		rendered := ""
		if facets&FRender != 0 {
			g := w.newGraph()
			w.must("GetStory", func() error {
				y, e := g.GetRemark(m.id)
				if e == nil {
					rendered, e = semnet.NewOutput(g).GetStory(y)
				}
				return e
			})
		}
		for n := 0; n < times; n++ {
			if c.M == 1 { // or fetched for each question
				x = w.get(m, 1, h)
			}
			got := w.observe(x, facets, h)
			if d := diffObs(got, Obs{want.ID, want.O, want.P, want.First, want.HasNF, want.NextF, want.HasNS, want.NextS, false, 0, rendered}); d != "" {
				fail("%s, asked for the time %d, remark #%d shows %s", when, n, m.idx, d)
			}
		}
		st.eval(sig(c.Seed, when, m.idx, h), true)
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("before step %d %s", i, op.K)
		if t := w.target(op.T); t != nil && creating(op.K) {
			ask(t, when, c.N)
			s := t.fact.story
			if last := s.facts[len(s.facts)-1].rems[0]; last != t {
				ask(last, when, c.N)
			}
			if n := len(s.children); n > 0 {
				ask(s.children[n-1].head(), when, c.N)
			}
		}
		w.apply(op)
		w.checkAll(facets)
		if facets&FRender != 0 {
			for _, m := range w.rems {
				ask(m, fmt.Sprintf("after step %d %s", i, op.K), 2)
			}
		}
	}
}

// long makes a story of many facts or children, one added through the first
// remark every so many, the others through the latest.
func long(kind string, n, every int) []Op {
	ops := []Op{{K: "story", O: "root", P: "of all"}, {K: "story", O: "root", P: "of all"}}
	for i := 0; i < n; i++ {
		op := Op{K: kind, O: "a", P: "b", T: i + 1}
		if i == 0 || i%every == every-1 {
			op.T = 0
		}
		ops = append(ops, op)
	}
	return ops
}

func init() {
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule:   "generated histories over many stories, facts added through every kind of remark (first or later fact, first or later remark, kept, fetched or reached by navigation), and long stories; after every addition of a fact and at the end the stories are walked from their remarks and compared with the model; in short histories remarks are asked a thousand times before what they are asked changes; an evaluation is one walk; distinct by starting remark's place, length and shape of the history, trivial if the story has one fact",
		Assume: []string{"operations are done one after another"},
		Cases: func(tier string, seed int64) []Case {
			cs := genHistories(tier, seed, "C04", 1500, 10000, 5, 45, Profile{Story: 2, Fact: 10, Remark: 4, Child: 2, Reopen: 1, Open: 1})
			for _, s := range seeds(seed, "C04l", pick(tier, 10, 40)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "large", Seed: s, Ops: grown(r, pick(tier, 350, 1300), "fact", 6)})
			}
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("fact", pick(tier, 1300, 4500), 1)})
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("fact", pick(tier, 21000, 70000), pick(tier, 4000, 8000))})
			return append(cs, askedCases(tier, seed, "C04a", Profile{Story: 1, Fact: 8, Remark: 2, Child: 1})...)
		},
		Run: func(c Case, st *Stats) {
			if c.Kind == "asked" {
				runAsked(c, st, FID|FFirst|FNextFact, false)
				return
			}
			w := newWorld(c.Cfg, st, c.Seed)
			r := rand.New(rand.NewSource(c.Seed))
			walk := func(s *MStory, from *MRem, via int) {
				what := fmt.Sprintf("from remark #%d", from.idx)
				x := w.get(from, via, r.Intn(6))
				f := w.firstFact(x)
				w.walkFacts(f, s.heads(), what, true)
				st.eval(sig(from.fact.pos, from.first(), len(s.facts), c.Seed), len(s.facts) > 1)
				// and from where it is
				if rest := s.heads()[from.fact.pos:]; from.first() {
					w.walkFacts(x, rest, what+" on", false)
				} else {
					has := w.has("HasNextFact", x.HasNextFact)
					if has != (len(rest) > 1) {
						fail("%s: HasNextFact is %v", what, has)
					}
					if has {
						w.walkFacts(w.nextFact(x), rest[1:], what+" on", false)
					}
				}
			}
			for i, op := range c.Ops {
				m := w.apply(op)
				if m == nil {
					continue
				}
				s := m.fact.story
				if c.Kind == "history" || i%max(100, len(c.Ops)/6) == 0 || i > len(c.Ops)-3 {
					all := s.all()
					walk(s, all[r.Intn(len(all))], r.Intn(5))
					walk(s, m, 0)
				}
			}
			for _, s := range w.stories {
				all := s.all()
				for _, i := range r.Perm(len(all)) {
					walk(s, all[i], r.Intn(5))
					if len(s.facts) > 50 && r.Intn(len(all)) > 12 {
						break
					}
				}
			}
			if w.mem != nil {
				st.state(w.mem.Digest())
			}
		},
	})

	register(&Check{
		ID: "C05", Level: "exploration",
		Rule:   "generated histories in which remarks are added through first and later remarks of first and later facts of root and child stories; after every step the new remark and at the end all remarks are compared with their fact's (object, first fact, next fact, next story), and next-remark is followed from every remark; an evaluation is one added remark compared; distinct by place, texts and history",
		Assume: []string{"known finding: a remark added to a fact is not met when following next-remark (see known_findings.jsonl)"},
		Cases: func(tier string, seed int64) []Case {
			cs := genHistories(tier, seed, "C05", 1500, 10000, 5, 45, Profile{Story: 2, Fact: 4, Remark: 10, Child: 3, Reopen: 1, Open: 1})
			for _, s := range seeds(seed, "C05l", pick(tier, 8, 40)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "large", Seed: s, Ops: grown(r, pick(tier, 500, 3000), "remark", 9)})
			}
			cs = append(cs, askedCases(tier, seed, "C05a", Profile{Story: 1, Fact: 2, Remark: 8, Child: 1})...)
			return append(cs, linkedCases(tier, seed, "C05i")...)
		},
		Run: runC05,
	})

	register(&Check{
		ID: "C06", Level: "exploration",
		Rule:   "generated histories; every story is rendered from its remarks, obtained in every way, in random order and repeatedly through several handles, and compared with the string made of the model's texts of the remarks met by next-remark from its first remark; besides, Output is given chains of remarks of every length made by the harness; an evaluation is one rendering; distinct by story, starting place and texts",
		Assume: []string{"chains of several remarks come from remarks implemented by the harness, and in the internal check from linked entities, as the public operations make none (known finding of C05)"},
		Cases: func(tier string, seed int64) []Case {
			cs := genHistories(tier, seed, "C06", 800, 8000, 5, 35, Profile{Story: 4, Fact: 5, Remark: 5, Child: 3, Reopen: 1, Open: 1, Long: true})
			for i, s := range seeds(seed, "C06c", pick(tier, 60, 500)) {
				r := rand.New(rand.NewSource(s))
				n := r.Intn(12)
				if i%4 == 3 {
					n = r.Intn(400)
				}
				if i%20 == 7 {
					n = 1000 + r.Intn(pick(tier, 1500, 20000))
				}
				cs = append(cs, Case{Kind: "chain", Seed: s, N: n + 1})
			}
			cs = append(cs, askedCases(tier, seed, "C06a", Profile{Story: 2, Fact: 3, Remark: 4, Child: 3})...)
			return append(cs, linkedCases(tier, seed, "C06i")...)
		},
		Run: runC06,
	})

	register(&Check{
		ID: "C07", Level: "exploration",
		Rule:   "generated forests of stories, children created through every kind of remark of the parent at several depths, and parents with very many children and deep nesting; after every creation of a child and at the end the siblings are walked from remarks of the children, and all stories are checked for facts of their own; an evaluation is one walk over siblings; distinct by starting place, number of siblings, depth and history, trivial with one child",
		Assume: []string{"operations are done one after another"},
		Cases: func(tier string, seed int64) []Case {
			cs := genHistories(tier, seed, "C07", 2000, 12000, 5, 45, Profile{Story: 2, Fact: 3, Remark: 3, Child: 10, Reopen: 1, Open: 1})
			for _, s := range seeds(seed, "C07l", pick(tier, 10, 40)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "large", Seed: s, Ops: grown(r, pick(tier, 300, 1300), "child", 6)})
			}
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("child", pick(tier, 1300, 4500), 1)})
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("child", pick(tier, 1300, 4500), 200)})
			for _, s := range seeds(seed, "C07d", pick(tier, 3, 12)) {
				r := rand.New(rand.NewSource(s))
				ops := []Op{{K: "story", O: "a", P: "b"}}
				for i := 0; i < pick(tier, 300, 2000); i++ { // a child of the last, at times a second one
					ops = append(ops, Op{K: "child", T: len(ops) - 1, O: "a", P: "b", Via: r.Intn(2)})
					if r.Intn(3) == 0 {
						ops = append(ops, Op{K: "child", T: len(ops) - 2, O: "c", P: "b", Via: 1})
					}
				}
				cs = append(cs, Case{Kind: "deep", Seed: s, Ops: ops})
			}
			return append(cs, askedCases(tier, seed, "C07a", Profile{Story: 1, Fact: 1, Remark: 1, Child: 8})...)
		},
		Run: runC07,
	})

	register(&Check{
		ID: "C08", Level: "exploration",
		Rule:   "generated interleavings of operations on several stories, half of them with very few different texts; before and after each operation everything observable from every remark of every other story is recorded (texts, first fact, next fact, next story, next remark, rendering) and compared; an evaluation is one operation; distinct by operation, place and history, trivial with one story",
		Assume: []string{"only the previous youngest sibling's next story may change, when a child is created"},
		Cases: func(tier string, seed int64) []Case {
			cs := genHistories(tier, seed, "C08", 1200, 10000, 4, 26, Profile{Story: 4, Fact: 4, Remark: 4, Child: 4, Read: 4, Open: 1})
			for _, s := range seeds(seed, "C08e", pick(tier, 60, 600)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "equal", Seed: s, Ops: genOps(r, 10+r.Intn(20), Profile{Story: 4, Fact: 4, Remark: 4, Child: 4, Read: 3, SmallPool: 1})})
			}
			for i, s := range seeds(seed, "C08l", pick(tier, 3, 16)) {
				r := rand.New(rand.NewSource(s))
				if i%2 == 0 {
					cs = append(cs, Case{Kind: "large", Seed: s, Cfg: cfgFor(i), Ops: genOps(r, pick(tier, 160, 500), Profile{Story: 4, Fact: 4, Remark: 4, Child: 4, Read: 2, SmallPool: 9, Recent: 50})})
					continue
				}
				cs = append(cs, Case{Kind: "large", Seed: s, Cfg: cfgFor(i), Ops: grown(r, pick(tier, 160, 500), []string{"child", "fact"}[i/2%2], 3)})
			}
			return cs
		},
		Run: runC08,
	})
}

func runC05(c Case, st *Stats) {
	if c.Kind == "asked" {
		runAsked(c, st, FID|FText|FFirst, false)
		return
	}
	if c.Kind == "linked" {
		runLinked(c, st, false)
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	const facets = FText | FFirst | FNextFact | FNextStory
	check := func(m *MRem, via int) {
		x := w.get(m, via, r.Intn(6))
		got := w.observe(x, facets, 0)
		if d := diffObs(got, m.expect(facets)); d != "" {
			fail("remark #%d added to the fact of remark #%d shows %s", m.idx, m.fact.rems[0].idx, d)
		}
		if via != 0 || r.Intn(4) == 0 { // the same as the remark that the fact started with
			g2 := w.observe(w.get(m.fact.rems[0], r.Intn(5), 0), facets&^FText, 0)
			got.O, got.P = "", ""
			if d := diffObs(got, g2); d != "" {
				fail("remark #%d and the first remark of its fact #%d differ: %s", m.idx, m.fact.rems[0].idx, d)
			}
		}
		if w.has("HasNextRemark", x.HasNextRemark) {
			n := w.id(w.nextRemark(x))
			ok := false
			for i, y := range m.fact.rems {
				if y == m && i+1 < len(m.fact.rems) && m.fact.rems[i+1].id == n {
					ok = true
				}
			}
			if !ok {
				fail("the next remark of #%d (%d) is %d, which is not the next remark of its fact %s", m.idx, m.id, n, clipIDs(ids(m.fact.rems)))
			}
		}
		st.eval(sig(c.Seed, m.idx, len(w.rems)), !m.first())
	}
	walk := func(f *MFact) {
		x := w.get(f.rems[0], r.Intn(5), 0)
		var got []uint
		for {
			got = append(got, w.id(x))
			if len(got) > len(f.rems) || !w.has("HasNextRemark", x.HasNextRemark) {
				break
			}
			x = w.nextRemark(x)
		}
		if sameIDs(got, f.rems) {
			st.Extra["complete_remark_walks"]++
			return
		}
		if what := "next-remark from the first remark of a fact meets none of the remarks added with AddRemarkToFact"; len(got) == 1 && got[0] == f.rems[0].id && listed("C05", what) {
			st.Known[what] = "pinned by TestNewGraph"
			st.Extra["facts_with_known_finding"]++
			return
		}
		fail("following next-remark from #%d meets %s, the remarks of the fact are %s", f.rems[0].idx, clipIDs(got), clipIDs(ids(f.rems)))
	}
	for i, op := range c.Ops {
		m := w.apply(op)
		if m == nil {
			continue
		}
		if c.Kind == "history" || i%40 == 0 {
			if op.K == "remark" {
				check(m, 0)
				check(m, 1)
			}
			check(w.rems[r.Intn(len(w.rems))], r.Intn(5))
			walk(m.fact)
		}
	}
	n := 0
	for _, i := range r.Perm(len(w.rems)) {
		check(w.rems[i], r.Intn(5))
		if n++; n > 300 {
			break
		}
	}
	for _, s := range w.stories {
		for _, f := range s.facts {
			walk(f)
		}
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

// fake is a remark whose chain of remarks the harness decides on. T is the
// aggregate type of the code under test, which cannot be named here.
type fake[T any] struct {
	semnet.Remark
	o, p string
	next []T // none or one
	head []T
	bad  *int // 1 to 3: the method that fails, once
}

func (f fake[T]) fails(k int) error {
	if f.bad != nil && *f.bad == k {
		*f.bad = 0
		return fmt.Errorf("cannot be read")
	}
	return nil
}

func (f fake[T]) GetObjectAndProperty() (string, string, error) {
	if err := f.fails(1); err != nil {
		return "", "", err
	}
	return f.o, f.p, nil
}

func (f fake[T]) HasNextRemark() (bool, error) { return len(f.next) > 0, f.fails(2) }
func (f fake[T]) GetNextRemark() (T, error) {
	if err := f.fails(3); err != nil {
		var none T
		return none, err
	}
	if len(f.next) == 0 {
		var none T
		return none, fmt.Errorf("no next remark")
	}
	return f.next[0], nil
}
func (f fake[T]) GetFirstFact() (T, error) { return f.head[0], nil }

func mkFake[T any](like T, base semnet.Remark, o, p string, next []T, head []T) fake[T] {
	return fake[T]{Remark: base, o: o, p: p, next: next, head: head, bad: new(int)}
}

func sliceOf[T any](like T) []T { return nil }

// failedRender renders some story while calls of the storage fail, now and then.
func (w *World) failedRender(r *rand.Rand) {
	if r.Intn(4) != 0 {
		return
	}
	m := w.rems[r.Intn(len(w.rems))]
	_, err := w.answer("GetStory", r.Intn(6), m.id, w.get(m, 1, 0), func(mon *store.Mon) {
		if r.Intn(2) == 0 {
			mon.FaultAt, mon.FaultMode = 1+r.Intn(60), store.FaultBefore
		} else {
			mon.FaultRng, mon.FaultProb = r, 1/float64(1+r.Intn(80))
		}
	})
	if err != nil {
		w.st.Extra["renderings_that_failed_in_between"]++
	}
}

func runC06(c Case, st *Stats) {
	if c.Kind == "asked" {
		runAsked(c, st, FRender, false)
		return
	}
	if c.Kind == "linked" {
		runLinked(c, st, true)
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	if c.Kind == "chain" {
		base := w.story("base", "text").val
		g := newTextGen(r)
		none := sliceOf(base.Aggregate)
		next := none
		var parts []string
		var bad []*int
		for i := 0; i < c.N; i++ {
			o, p := g.pair()
			parts = append(parts, o+" "+p+" ")
			f := mkFake(base.Aggregate, base, o, p, next, none)
			bad = append(bad, f.bad)
			next = append(none[:0:0], base.Aggregate)
			next[0] = f
		}
		var want strings.Builder
		for i := len(parts) - 1; i >= 0; i-- {
			want.WriteString(parts[i])
		}
		start := semnet.Remark{Aggregate: mkFake(base.Aggregate, base, "no", "no", none, next)}
		out := w.output(w.g())
		for k := 0; k < 4; k++ {
			got := ""
			w.must("GetStory", func() error {
				var err error
				got, err = out.GetStory(start)
				return err
			})
			if got != want.String() {
				fail("a chain of %d remarks renders %s instead of %s", c.N, short(got), short(want.String()))
			}
			if at := w.render(base, 0); at != "base text " {
				fail("a story of one remark renders %s after a chain of %d remarks", short(at), c.N)
			}
			// a rendering that fails on the way
			*bad[r.Intn(len(bad))] = 1 + r.Intn(3)
			w.call("GetStory", nil, func() error {
				_, err := out.GetStory(start)
				return err
			})
			for _, b := range bad {
				*b = 0
			}
		}
		st.eval(sig("chain", c.Seed), c.N > 1)
		st.Extra["longest_chain_rendered"] = max(st.Extra["longest_chain_rendered"], c.N)
		return
	}
	byID := map[uint]*MRem{}
	want := func(s *MStory) string {
		x := w.get(s.head(), r.Intn(5), 0)
		var b strings.Builder
		for n := 0; ; n++ {
			m := byID[w.id(x)]
			if m == nil || n > len(w.rems) {
				fail("following next-remark from #%d leads to %d, which is no remark of the graph, or does not end", s.head().idx, w.id(x))
			}
			b.WriteString(m.o + " " + m.p + " ")
			if !w.has("HasNextRemark", x.HasNextRemark) {
				return b.String()
			}
			x = w.nextRemark(x)
		}
	}
	renderAll := func(s *MStory) {
		exp := want(s)
		for _, m := range s.all() {
			w.failedRender(r)
			got := w.render(w.get(m, r.Intn(5), r.Intn(6)), r.Intn(6))
			if got != exp {
				fail("story rendered from remark #%d (fact %d) gives %s instead of %s", m.idx, m.fact.pos, short(got), short(exp))
			}
			st.eval(sig(c.Seed, m.idx, len(w.rems)), len(w.rems) > 1)
		}
	}
	for i, op := range c.Ops {
		m := w.apply(op)
		if m == nil {
			continue
		}
		byID[m.id] = m
		if i%4 == 0 {
			renderAll(m.fact.story)
		}
	}
	if len(w.stories) == 0 {
		return
	}
	for k := 0; k < 2; k++ {
		for _, i := range r.Perm(len(w.stories)) {
			renderAll(w.stories[i])
		}
	}
	a, b := w.stories[0], w.stories[r.Intn(len(w.stories))]
	x := w.render(w.get(a.head(), 1, 0), 0)
	w.render(w.get(b.head(), 1, 0), 0)
	if y := w.render(w.get(a.head(), 1, 0), 0); x != y {
		fail("rendering another story changed %s into %s", short(x), short(y))
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

func (s *MStory) depth() int {
	d := 0
	for ; s.parent != nil; s = s.parent {
		d++
	}
	return d
}

func runC07(c Case, st *Stats) {
	if c.Kind == "asked" {
		runAsked(c, st, FID|FNextStory, false)
		return
	}
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	siblings := func(s *MStory, from *MRem, via int, texts bool) {
		x := w.get(from, via, r.Intn(6))
		what := fmt.Sprintf("from remark #%d of child %d at depth %d", from.idx, s.pos, s.depth())
		want := s.parent.childHeads()[s.pos:]
		st.eval(sig(c.Seed, from.fact.pos, from.first(), s.pos, len(s.parent.children), s.depth()), len(s.parent.children) > 1)
		if from == s.head() {
			w.walkStories(x, want, what, texts)
			return
		}
		has := w.has("HasNextStory", x.HasNextStory)
		if has != (len(want) > 1) {
			fail("%s: HasNextStory is %v with %d younger siblings", what, has, len(want)-1)
		}
		if has {
			w.walkStories(w.nextStory(x), want[1:], what, texts)
		}
	}
	alone := func(m *MRem, via int) {
		x := w.get(m, via, r.Intn(6))
		if w.has("HasNextStory", x.HasNextStory) {
			fail("remark #%d of a story created on its own has a next story", m.idx)
		}
	}
	own := func(s *MStory) { // the facts of the story are its own
		all := s.all()
		m := all[r.Intn(len(all))]
		w.walkFacts(w.firstFact(w.get(m, r.Intn(5), 0)), s.heads(), fmt.Sprintf("facts of the story of remark #%d", m.idx), false)
	}
	for i, op := range c.Ops {
		m := w.apply(op)
		if m == nil {
			continue
		}
		if op.K == "child" && m.fact.story.parent != nil && (c.Kind != "large" || i%50 == 0 || i > len(c.Ops)-4) {
			s := m.fact.story
			siblings(s, m, 0, true)
			f := s.parent.children[0]
			siblings(f, f.head(), r.Intn(5), true)
			own(s)
			own(s.parent)
			if p := s.parent; p.parent != nil {
				siblings(p, p.head(), r.Intn(5), false)
			} else {
				alone(p.head(), r.Intn(5))
			}
		}
	}
	for _, s := range w.stories {
		all := s.all()
		for _, i := range r.Perm(len(all)) {
			m := all[i]
			if s.parent == nil {
				alone(m, r.Intn(5))
			} else if len(s.parent.children) < 60 || r.Intn(len(s.parent.children)) < 20 {
				siblings(s, m, r.Intn(5), false)
			}
		}
		if len(s.facts) < 60 {
			own(s)
		}
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

func runC08(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	see := func(m *MRem) Obs { return w.observe(w.get(m, 1, r.Intn(6)), FAll, 0) }
	var seen []Obs
	for _, op := range c.Ops {
		t := w.target(op.T)
		m := w.apply(op)
		var touched *MStory
		if m != nil {
			touched = m.fact.story
			if op.K == "story" {
				touched = nil
			}
			if op.K == "child" {
				touched = t.fact.story
			}
		}
		for i, old := range seen {
			x := w.rems[i]
			s := x.fact.story
			now := see(x)
			if op.K == "child" && m.fact.story.parent != nil && s == prevSibling(m.fact.story) {
				// its next story has appeared, nothing else
				old.HasNS, old.NextS = true, m.id
			} else if s == touched && op.K != "read" && m != nil {
				seen[i] = now
				continue
			}
			if d := diffObs(now, old); d != "" {
				fail("after %s on the story of remark #%d remark #%d of another story shows %s", op.K, idxOf(t), x.idx, d)
			}
			seen[i] = now
		}
		if m != nil {
			seen = append(seen, see(m))
			if d := diffObs(seen[len(seen)-1], see(m)); d != "" {
				fail("remark #%d observed twice: %s", m.idx, d)
			}
		}
		st.eval(sig(c.Seed, len(seen), op.K, op.T), len(w.stories) > 1)
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

func idxOf(m *MRem) int {
	if m == nil {
		return -1
	}
	return m.idx
}

func prevSibling(s *MStory) *MStory {
	if s.parent == nil || s.pos == 0 {
		return nil
	}
	return s.parent.children[s.pos-1]
}

// linkRemarks links the remarks of a fact, if the internal layers could be
// compiled in.
var linkRemarks func(w *World, f *MFact)

// linkSome links the remarks of some facts, the same for the same seed, so that
// there are next remarks at all. The order of remarks is what observations
// compared with the model leave out.
func (w *World) linkSome(seed int64) {
	if linkRemarks == nil || seed%3 == 0 {
		return
	}
	r := rand.New(rand.NewSource(seed))
	for _, s := range w.stories {
		for _, f := range s.facts {
			if len(f.rems) > 1 && r.Intn(4) != 0 {
				linkRemarks(w, f)
				if w.st != nil {
					w.st.Extra["facts_with_linked_remarks"]++
				}
			}
		}
	}
}

// linkedCases are histories whose facts' remarks are linked afterwards.
func linkedCases(tier string, seed int64, salt string) (cs []Case) {
	if linkRemarks == nil {
		return nil
	}
	cs = genHistories(tier, seed, salt, 300, 3000, 6, 35, Profile{Story: 2, Fact: 4, Remark: 12, Child: 3})
	for i := range cs {
		cs[i].Kind = "linked"
	}
	for i, s := range seeds(seed, salt+"l", pick(tier, 3, 12)) {
		cs = append(cs, Case{Kind: "linked", Seed: s, Cfg: cfgFor(i), Ops: grown(rand.New(rand.NewSource(s)), pick(tier, 1200, 4000), "remark", 0)})
	}
	return
}

// runLinked links the remarks of some facts, and compares the walks and the
// renderings of all stories with the model.
func runLinked(c Case, st *Stats, render bool) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.run(c.Ops)
	linked := map[*MFact]bool{}
	check := func() {
		if r.Intn(3) == 0 {
			w.reopen()
		}
		for _, m := range w.rems {
			if len(w.rems) > 200 && m.idx > 2 && r.Intn(len(w.rems)) > 30 {
				continue
			}
			via := r.Intn(5)
			x := w.get(m, via, r.Intn(4))
			if render {
				h := m.fact.story.facts[0]
				want := h.rems[0].o + " " + h.rems[0].p + " "
				if linked[h] {
					want = ""
					for _, y := range h.rems {
						want += y.o + " " + y.p + " "
					}
				}
				w.failedRender(r)
				if got := w.render(x, r.Intn(4)); got != want {
					fail("story with linked remarks rendered from remark #%d gives %s instead of %s", m.idx, short(got), short(want))
				}
				st.eval(sig(c.Seed, m.idx, len(linked)), linked[h])
				continue
			}
			at := 0
			for m.fact.rems[at] != m {
				at++
			}
			want := m.fact.rems[at : at+1]
			if linked[m.fact] {
				want = m.fact.rems[at:]
			}
			var got []uint
			for {
				got = append(got, w.id(x))
				if k := len(got) - 1; k < len(want) {
					if d := diffObs(w.observe(x, FModel, 0), want[k].expect(FModel)); d != "" {
						fail("linked remark #%d met from #%d shows %s", want[k].idx, m.idx, d)
					}
				}
				if len(got) > len(want) || !w.has("HasNextRemark", x.HasNextRemark) {
					break
				}
				x = w.nextRemark(x)
			}
			if !sameIDs(got, want) {
				fail("following next-remark from #%d meets %s instead of %s", m.idx, clipIDs(got), clipIDs(ids(want)))
			}
			st.eval(sig(c.Seed, m.idx, len(linked)), linked[m.fact])
		}
	}
	for _, i := range r.Perm(len(w.stories)) {
		for _, f := range w.stories[i].facts {
			if len(f.rems) > 1 && r.Intn(4) != 0 {
				linkRemarks(w, f)
				linked[f] = true
			}
		}
		if r.Intn(3) == 0 {
			check()
		}
	}
	st.Extra["facts_with_linked_remarks"] += len(linked)
	check()
}

var _ = store.Config{}
