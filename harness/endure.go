//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

// Long lives: one handle is used for thousands of operations with very few
// different texts. What a check looks at then is given by its aspects.
const (
	inText   = 1 << iota // every remark gives its texts back
	inID                 // every remark has an identifier of its own
	inFact               // remarks belong to the fact they were added to
	inChain              // facts and children follow each other
	inOthers             // other stories stay as they are
	inNodes              // the same operation adds the same nodes
	inClass              // each entity is registered once
)

const lives = 6

var lookedAt = map[string]int{"C01": inText, "C03": inID, "C04": inChain, "C05": inFact, "C08": inOthers, "C10": inNodes, "C11": inClass}

// The checks are registered by files that come before.
func init() {
	for id, aspects := range lookedAt {
		id, aspects, c := id, aspects, checks[id]
		cases, run := c.Cases, c.Run
		c.Cases = func(tier string, seed int64) []Case {
			return append(cases(tier, seed), lifeCases(tier, seed, id, 4000)...)
		}
		c.Run = func(c Case, st *Stats) {
			if c.Kind == "life" {
				runLife(c, st, aspects)
				return
			}
			run(c, st)
		}
		c.Rule += "; and, besides, thousands of operations with three different texts through one handle (lives), with this property looked at"
	}
}

func lifeCases(tier string, seed int64, name string, n int) (cs []Case) {
	for i, s := range seeds(seed, name+"life", pick(tier, lives, 4*lives)) {
		cs = append(cs, Case{Kind: "life", Seed: s, N: n * pick(tier, 1, 3), M: i % lives, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds, Lenient: i%2 == 1}})
	}
	return
}

func runLife(c Case, st *Stats, aspects int) {
	r := rand.New(rand.NewSource(c.Seed))
	mem := store.NewMem(c.Cfg)
	g := semnet.NewGraph(mem)
	type rem struct {
		x                semnet.Remark
		id               uint
		object, property string
		kind             string
		story            int
	}
	var rems []rem
	chains := map[int][]uint{}   // the first remarks of the facts of a story
	families := map[int][]uint{} // the first remarks of its children
	seen := map[uint]bool{}
	added := map[string]int{}
	var counts [9]int
	stories := 0
	do := func(what string, f func() error) {
		st.begin(what)
		err := f()
		atomic.StoreInt32(&st.inOp, 0)
		if err != nil {
			fail("%s number %d of a long life: %v", what, len(rems), err)
		}
	}
	perform := func(kind string, at int, object, property string) int {
		before := mem.Len()
		n := rem{kind: kind, object: object, property: property}
		switch kind {
		case "story":
			do(kind, func() (err error) { n.x, err = g.CreateStory(object, property); return })
		default:
			t := rems[at]
			do(kind, func() error {
				var err error
				switch kind {
				case "fact":
					a, e := t.x.AddFactToStory(object, property)
					n.x, err = semnet.Remark{Aggregate: a}, e
				case "remark":
					n.object = t.object
					a, e := t.x.AddRemarkToFact(property)
					n.x, err = semnet.Remark{Aggregate: a}, e
				case "child":
					a, e := t.x.CreateChildStory(object, property)
					n.x, err = semnet.Remark{Aggregate: a}, e
				}
				return err
			})
			n.story = t.story
		}
		n.id = n.x.GetIdentifier()
		counts[classRemark]++
		switch kind {
		case "story", "child":
			if kind == "child" {
				families[n.story] = append(families[n.story], n.id)
			}
			n.story = stories
			stories++
			chains[n.story] = []uint{n.id}
			counts[classFact]++
			counts[classStory]++
		case "fact":
			chains[n.story] = append(chains[n.story], n.id)
			counts[classFact]++
		}
		if aspects&inID != 0 && seen[n.id] {
			fail("%s number %d of a long life has identifier %d, like another remark", kind, len(rems), n.id)
		}
		seen[n.id] = true
		if aspects&inNodes != 0 {
			how := fmt.Sprint(kind, "|", n.object, "|", property)
			grew := mem.Len() - before
			if k, ok := added[how]; ok && k != grew && k >= 0 {
				fail("%s %q %q, number %d of a long life, adds %d nodes, the same before %d", kind, n.object, property, len(rems), grew, k)
			} else if ok {
				added[how] = grew
			} else {
				added[how] = -1 // the first use of the texts
			}
		}
		if aspects&inText != 0 && len(rems)%7 == 0 {
			do("GetObjectAndProperty", func() error {
				o, p, err := n.x.GetObjectAndProperty()
				if err == nil && (o != n.object || p != property) {
					fail("%s number %d of a long life reads %q %q instead of %q %q", kind, len(rems), o, p, n.object, property)
				}
				return err
			})
		}
		rems = append(rems, n)
		st.eval(sig(c.Seed, len(rems), kind), true)
		return len(rems) - 1
	}
	type seenOf struct{ answers []string }
	look := func(h *semnet.Graph, k int) (s seenOf) {
		o := semnet.NewOutput(h)
		for _, name := range readOps {
			ans, err := readOp(name, h, o, rems[k].id, rems[k].x)
			s.answers = append(s.answers, fmt.Sprint(name, ans, err))
		}
		return
	}
	// the witnesses: a story with two facts and two children
	perform("story", 0, "a", "b")
	perform("fact", 0, "a", "b")
	perform("child", 0, "a", "b")
	perform("child", 0, "b", "a")
	perform("remark", 0, "a", "b")
	witnesses := len(rems)
	var was []seenOf
	for k := 0; k < witnesses; k++ {
		was = append(was, look(g, k))
	}
	texts := []string{"a", "b", "a b"}
	last := 0
	if c.M > 1 {
		last = perform("story", 0, "a", "b")
	}
	root := last
	for i := 0; i < c.N; i++ {
		switch c.M {
		case 0:
			perform("story", 0, "a", "b")
		case 1:
			perform("story", 0, texts[i%3], texts[r.Intn(3)])
		case 2:
			perform("remark", root, "", "b")
		case 3:
			last = perform("remark", last, "", texts[i%3])
		case 4:
			switch {
			case i%40 == 0:
				last = perform("story", 0, "a", texts[i%3])
			default:
				last = perform([]string{"fact", "child", "remark"}[r.Intn(3)], last, texts[i%3], "b")
			}
		case 5: // reading and refusals much more than writing
			k := r.Intn(len(rems))
			for n := 0; n < 4; n++ {
				name := readOps[(i+n)%len(readOps)]
				st.begin(name)
				readOp(name, g, semnet.NewOutput(g), rems[k].id, rems[k].x)
				atomic.StoreInt32(&st.inOp, 0)
			}
			if _, err := g.GetRemark(1); err == nil && aspects&inID != 0 {
				fail("fetching the node of a class succeeds")
			}
			if i%10 == 0 {
				last = perform("story", 0, "a", texts[i%3])
			}
		}
		if aspects&inClass != 0 && (i%97 == 0 || i == c.N-1) {
			for _, class := range []uint{classRemark, classFact, classStory} {
				if n := len(mem.RawSources(class)); n != counts[class] {
					fail("after %d operations of a long life class %d has %d members instead of %d", i, class, n, counts[class])
				}
			}
		}
	}
	other := semnet.NewGraph(mem)
	for _, h := range []*semnet.Graph{g, other} {
		if aspects&inOthers != 0 {
			for k, w := range was {
				if now := look(h, k); fmt.Sprint(now) != fmt.Sprint(w) {
					fail("after %d operations on other stories remark %d answers %q instead of %q", c.N, rems[k].id, now, w)
				}
			}
		}
		for _, k := range r.Perm(len(rems))[:min(len(rems), 300)] {
			n := rems[k]
			var x semnet.Remark
			do("GetRemark", func() (err error) { x, err = h.GetRemark(n.id); return })
			if aspects&inID != 0 && x.GetIdentifier() != n.id {
				fail("remark %d of a long life is fetched as %d", n.id, x.GetIdentifier())
			}
			if aspects&(inText|inID) != 0 {
				do("GetObjectAndProperty", func() error {
					o, p, err := x.GetObjectAndProperty()
					if err == nil && (o != n.object || p != n.property) {
						fail("remark %d of a long life (%s) reads %q %q instead of %q %q", n.id, n.kind, o, p, n.object, n.property)
					}
					return err
				})
			}
			if aspects&(inFact|inChain) != 0 {
				var f semnet.Remark
				do("GetFirstFact", func() error {
					a, err := x.GetFirstFact()
					if err == nil {
						f = semnet.Remark{Aggregate: a}
					}
					return err
				})
				if f.GetIdentifier() != chains[n.story][0] {
					fail("remark %d of a long life (%s) has first fact %d instead of %d", n.id, n.kind, f.GetIdentifier(), chains[n.story][0])
				}
			}
			if aspects&inChain != 0 {
				follow(n.id, x, chains[n.story], st)
			}
		}
	}
	st.Extra["longest_life"] = max(st.Extra["longest_life"], len(rems))
	st.state(mem.Digest())
}

// follow goes through the facts of a story.
func follow(id uint, x semnet.Remark, chain []uint, st *Stats) {
	st.begin("following facts")
	defer atomic.StoreInt32(&st.inOp, 0)
	a, err := x.GetFirstFact()
	for k := 0; ; k++ {
		if err != nil {
			fail("following the facts from remark %d of a long life fails at %d: %v", id, k, err)
		}
		if k >= len(chain) || a.GetIdentifier() != chain[k] {
			fail("fact %d from remark %d of a long life is %d, of %v", k, id, a.GetIdentifier(), chain)
		}
		f := semnet.Remark{Aggregate: a}
		more, err2 := f.HasNextFact()
		if err2 != nil {
			fail("HasNextFact of remark %d: %v", f.GetIdentifier(), err2)
		}
		if more != (k+1 < len(chain)) {
			fail("fact %d from remark %d of a long life, of %d, has a next one: %v", k, id, len(chain), more)
		}
		if !more {
			return
		}
		a, err = f.GetNextFact()
	}
}
