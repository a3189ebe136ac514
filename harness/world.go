//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet"

	"verifharness/store"
)

// Viol is a violation seen by an oracle; it ends the case.
type Viol struct {
	Msg string
	Log []string
}

func fail(format string, a ...interface{}) {
	panic(&Viol{Msg: fmt.Sprintf(format, a...)})
}

// The model: what the graph has to show.

type MStory struct {
	parent   *MStory
	pos      int // among the children of parent
	facts    []*MFact
	children []*MStory
}

type MFact struct {
	story *MStory
	pos   int
	rems  []*MRem
}

type MRem struct {
	idx  int
	id   uint
	o, p string
	fact *MFact
	val  semnet.Remark // as returned by the operation that created it
	kept bool
}

func (r *MRem) first() bool { return r.fact.rems[0] == r }

func (s *MStory) head() *MRem { return s.facts[0].rems[0] }

// World is one storage, the handles open on it and the model of its content.
type World struct {
	dress      int // the type the storage has, see newGraph
	cfg        store.Config
	mem        *store.Mem
	mon        *store.Mon
	back       store.Backend
	handles    []*semnet.Graph
	rems       []*MRem
	stories    []*MStory
	st         *Stats
	rng        *rand.Rand
	outs       map[*semnet.Graph]*semnet.Output // one kept for each handle
	readsQuiet bool                             // a reading operation that changes the storage is a violation
}

// output is a new Output of a handle, or more often the one kept for it.
func (w *World) output(g *semnet.Graph) *semnet.Output {
	if w.rng.Intn(4) == 0 {
		return semnet.NewOutput(g)
	}
	if w.outs == nil || len(w.outs) > 16 {
		w.outs = map[*semnet.Graph]*semnet.Output{}
	}
	if w.outs[g] == nil {
		w.outs[g] = semnet.NewOutput(g)
	}
	return w.outs[g]
}

func newBackend(cfg store.Config) store.Backend {
	if cfg.Backend == "clew" {
		return clew.NewGraph(clew.NewSliceStorage())
	}
	return store.NewMem(cfg)
}

func newWorld(cfg store.Config, st *Stats, seed int64) *World {
	return openWorld(newBackend(cfg), cfg, st, seed)
}

func openWorld(b store.Backend, cfg store.Config, st *Stats, seed int64) *World {
	w := &World{cfg: cfg, back: b, st: st, rng: rand.New(rand.NewSource(seed ^ 0x5eed))}
	w.mon = store.NewMon(b)
	w.mem = w.mon.Mem
	if st != nil {
		w.mon.Progress = &st.progress
	}
	w.handles = []*semnet.Graph{w.newGraph()}
	return w
}

func (w *World) g() *semnet.Graph { return w.handles[0] }

func (w *World) handle(i int) *semnet.Graph {
	if i < 0 {
		i = -i
	}
	return w.handles[i%len(w.handles)]
}

// reopen forgets all handles and opens the graph again.
func (w *World) reopen() {
	w.handles = []*semnet.Graph{w.newGraph()}
	for _, r := range w.rems {
		r.kept = false
		r.val = semnet.Remark{}
	}
}

type opPanic struct {
	val   interface{}
	stack string
}

// call runs one operation under the monitor. A crash planned by the monitor
// is reported as crashed.
func (w *World) call(name string, setup func(m *store.Mon), f func() error) (err error, pan *opPanic, crashed bool) {
	w.mon.Begin(name)
	if setup != nil {
		setup(w.mon)
	}
	if w.st != nil {
		w.st.begin(name)
	}
	defer func() {
		if w.st != nil {
			w.st.end(w.mon)
		}
		if x := recover(); x != nil {
			switch v := x.(type) {
			case store.Crash:
				crashed = true
			case store.Budget:
				pan = &opPanic{val: fmt.Sprintf("%s did not end within %d storage calls", v.Op, w.mon.MaxCalls)}
			case *Viol:
				panic(x)
			default:
				pan = &opPanic{val: x, stack: string(debug.Stack())}
			}
		}
	}()
	if w.mon.Exits {
		f = inGoroutine(f)
	}
	err = f()
	if w.readsQuiet && w.mon.Writes != 0 && isRead[name] && len(w.rems) > 0 {
		fail("%s changed the storage: %v", name, w.mon.Mutations)
	}
	return
}

// inGoroutine runs an operation whose goroutine may be ended by the storage. It
// panics with store.Exit if it was.
func inGoroutine(f func() error) func() error {
	return func() (err error) {
		done := make(chan struct{})
		var thrown interface{}
		over := false
		go func() {
			defer close(done)
			defer func() {
				if !over {
					if thrown = recover(); thrown == nil {
						thrown = store.Exit{}
					}
				}
			}()
			err = f()
			over = true
		}()
		<-done
		if !over {
			panic(thrown)
		}
		return err
	}
}

// isRead holds the operations that only read.
var isRead = map[string]bool{}

func init() {
	for _, name := range readOps {
		isRead[name] = true
	}
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "mem-memov/semnet") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " | ")
}

// must runs an operation that has to succeed.
func (w *World) must(name string, f func() error) {
	err, pan, _ := w.call(name, nil, f)
	if pan != nil {
		fail("%s panicked: %v [%s]", name, pan.val, trimStack(pan.stack))
	}
	if err != nil {
		fail("%s failed: %v", name, err)
	}
}

func isNil(r semnet.Remark) bool { return r.Aggregate == nil }

// get obtains remark r in one of several ways.
//
//	0 the value returned when it was created  1 by its identifier
//	2 by walking from the first fact          3 by walking over siblings
//	4 by its identifier through a handle just opened
func (w *World) get(r *MRem, via int, h int) semnet.Remark {
	via %= 5
	if via < 0 {
		via = -via
	}
	if via == 0 && r.kept {
		return r.val
	}
	if via == 3 && r.first() && r.fact.pos == 0 && r.fact.story.parent != nil && r.fact.story.pos <= 40 {
		s := r.fact.story
		from := s.parent.children[0].head()
		x := w.fetch(from, h)
		for i := 0; i < s.pos; i++ {
			x = w.nextStory(x)
		}
		return x
	}
	if (via == 2 || via == 3) && r.first() && r.fact.pos <= 40 {
		s := r.fact.story
		var all []*MRem
		for _, f := range s.facts {
			all = append(all, f.rems...)
		}
		x := w.fetch(all[w.rng.Intn(len(all))], h)
		x = w.firstFact(x)
		for i := 0; i < r.fact.pos; i++ {
			x = w.nextFact(x)
		}
		return x
	}
	if via == 4 {
		g := w.newGraph()
		var out semnet.Remark
		w.must("GetRemark", func() error {
			w.mon.Allowed, w.mon.IsOwn = r.id, true
			var err error
			out, err = g.GetRemark(r.id)
			return err
		})
		w.notNil("GetRemark", out)
		return out
	}
	return w.fetch(r, h)
}

func (w *World) notNil(name string, r semnet.Remark) {
	if isNil(r) {
		fail("%s returned no remark and no error", name)
	}
}

func (w *World) fetch(r *MRem, h int) semnet.Remark {
	var out semnet.Remark
	w.must("GetRemark", func() error {
		w.mon.Allowed, w.mon.IsOwn = r.id, true
		var err error
		out, err = w.handle(h).GetRemark(r.id)
		return err
	})
	w.notNil("GetRemark", out)
	return out
}

func (w *World) firstFact(x semnet.Remark) (out semnet.Remark) {
	w.must("GetFirstFact", func() error {
		a, err := x.GetFirstFact()
		out = semnet.Remark{Aggregate: a}
		return err
	})
	w.notNil("GetFirstFact", out)
	return
}

func (w *World) nextFact(x semnet.Remark) (out semnet.Remark) {
	w.must("GetNextFact", func() error {
		a, err := x.GetNextFact()
		out = semnet.Remark{Aggregate: a}
		return err
	})
	w.notNil("GetNextFact", out)
	return
}

func (w *World) nextStory(x semnet.Remark) (out semnet.Remark) {
	w.must("GetNextStory", func() error {
		a, err := x.GetNextStory()
		out = semnet.Remark{Aggregate: a}
		return err
	})
	w.notNil("GetNextStory", out)
	return
}

func (w *World) nextRemark(x semnet.Remark) (out semnet.Remark) {
	w.must("GetNextRemark", func() error {
		a, err := x.GetNextRemark()
		out = semnet.Remark{Aggregate: a}
		return err
	})
	w.notNil("GetNextRemark", out)
	return
}

func (w *World) has(name string, f func() (bool, error)) (b bool) {
	w.must(name, func() error {
		var err error
		b, err = f()
		return err
	})
	return
}

func (w *World) texts(x semnet.Remark) (o, p string) {
	w.must("GetObjectAndProperty", func() error {
		var err error
		o, p, err = x.GetObjectAndProperty()
		return err
	})
	return
}

func (w *World) id(x semnet.Remark) (id uint) {
	w.must("GetIdentifier", func() error {
		id = x.GetIdentifier()
		return nil
	})
	return
}

func (w *World) render(x semnet.Remark, h int) (s string) {
	out := w.output(w.handle(h))
	w.must("GetStory", func() error {
		var err error
		s, err = out.GetStory(x)
		return err
	})
	return
}

// Obs is everything that can be observed from a remark.
type Obs struct {
	ID     uint
	O, P   string
	First  uint
	HasNF  bool
	NextF  uint
	HasNS  bool
	NextS  uint
	HasNR  bool
	NextR  uint
	Render string
}

const (
	FID = 1 << iota
	FText
	FFirst
	FNextFact
	FNextStory
	FNextRemark
	FRender
	FAll   = 1<<iota - 1
	FModel = FID | FText | FFirst | FNextFact | FNextStory // what the model predicts
)

func (w *World) observe(x semnet.Remark, facets int, h int) (o Obs) {
	if w.st != nil {
		w.st.Observations++
	}
	if facets&FID != 0 {
		o.ID = w.id(x)
	}
	if facets&FText != 0 {
		o.O, o.P = w.texts(x)
	}
	if facets&FFirst != 0 {
		o.First = w.id(w.firstFact(x))
	}
	if facets&FNextFact != 0 {
		o.HasNF = w.has("HasNextFact", x.HasNextFact)
		if o.HasNF {
			o.NextF = w.id(w.nextFact(x))
		}
	}
	if facets&FNextStory != 0 {
		o.HasNS = w.has("HasNextStory", x.HasNextStory)
		if o.HasNS {
			o.NextS = w.id(w.nextStory(x))
		}
	}
	if facets&FNextRemark != 0 {
		o.HasNR = w.has("HasNextRemark", x.HasNextRemark)
		if o.HasNR {
			o.NextR = w.id(w.nextRemark(x))
		}
	}
	if facets&FRender != 0 {
		o.Render = w.render(x, h)
	}
	return
}

// expect is what the model says about a remark (facets of FModel).
func (r *MRem) expect(facets int) (o Obs) {
	s := r.fact.story
	if facets&FID != 0 {
		o.ID = r.id
	}
	if facets&FText != 0 {
		o.O, o.P = r.o, r.p
	}
	if facets&FFirst != 0 {
		o.First = s.head().id
	}
	if facets&FNextFact != 0 && r.fact.pos+1 < len(s.facts) {
		o.HasNF = true
		o.NextF = s.facts[r.fact.pos+1].rems[0].id
	}
	if facets&FNextStory != 0 && s.parent != nil && s.pos+1 < len(s.parent.children) {
		o.HasNS = true
		o.NextS = s.parent.children[s.pos+1].head().id
	}
	return
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q…(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diffObs(got, want Obs) string {
	switch {
	case got.ID != want.ID:
		return fmt.Sprintf("identifier %d instead of %d", got.ID, want.ID)
	case got.O != want.O:
		return fmt.Sprintf("object %s instead of %s", short(got.O), short(want.O))
	case got.P != want.P:
		return fmt.Sprintf("property %s instead of %s", short(got.P), short(want.P))
	case got.First != want.First:
		return fmt.Sprintf("first fact %d instead of %d", got.First, want.First)
	case got.HasNF != want.HasNF || got.NextF != want.NextF:
		return fmt.Sprintf("next fact %v %d instead of %v %d", got.HasNF, got.NextF, want.HasNF, want.NextF)
	case got.HasNS != want.HasNS || got.NextS != want.NextS:
		return fmt.Sprintf("next story %v %d instead of %v %d", got.HasNS, got.NextS, want.HasNS, want.NextS)
	case got.HasNR != want.HasNR || got.NextR != want.NextR:
		return fmt.Sprintf("next remark %v %d instead of %v %d", got.HasNR, got.NextR, want.HasNR, want.NextR)
	case got.Render != want.Render:
		return fmt.Sprintf("rendering %s instead of %s", short(got.Render), short(want.Render))
	}
	return ""
}

// checkRem compares one remark with the model.
func (w *World) checkRem(r *MRem, via, h int, facets int) {
	facets &= FModel
	got := w.observe(w.get(r, via, h), facets, h)
	if d := diffObs(got, r.expect(facets)); d != "" {
		fail("remark #%d (id %d, %s %s): %s", r.idx, r.id, short(r.o), short(r.p), d)
	}
}

// checkAll compares every remark with the model.
func (w *World) checkAll(facets int) {
	for _, r := range w.rems {
		w.checkRem(r, w.rng.Intn(5), w.rng.Intn(8), facets)
	}
}

// Op is one step of a history.
type Op struct {
	K   string // story fact remark child | badstory badfact badremark badchild | open | reopen | read
	T   int    `json:"t,omitempty"` // index of the remark it is done through
	Via int    `json:"via,omitempty"`
	H   int    `json:"h,omitempty"` // handle
	O   string `json:"o,omitempty"`
	P   string `json:"p,omitempty"`
}

// Texts that are no UTF-8 do not survive JSON as strings.
type opJSON struct {
	K   string `json:"k"`
	T   int    `json:"t,omitempty"`
	Via int    `json:"via,omitempty"`
	H   int    `json:"h,omitempty"`
	O   string `json:"o,omitempty"`
	P   string `json:"p,omitempty"`
	OB  []byte `json:"ob,omitempty"`
	PB  []byte `json:"pb,omitempty"`
}

func (o Op) MarshalJSON() ([]byte, error) {
	j := opJSON{K: o.K, T: o.T, Via: o.Via, H: o.H, O: o.O, P: o.P}
	if !utf8.ValidString(o.O) {
		j.O, j.OB = "", []byte(o.O)
	}
	if !utf8.ValidString(o.P) {
		j.P, j.PB = "", []byte(o.P)
	}
	return json.Marshal(j)
}

func (o *Op) UnmarshalJSON(b []byte) error {
	var j opJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*o = Op{K: j.K, T: j.T, Via: j.Via, H: j.H, O: j.O, P: j.P}
	if j.OB != nil {
		o.O = string(j.OB)
	}
	if j.PB != nil {
		o.P = string(j.PB)
	}
	return nil
}

func (o Op) String() string {
	return fmt.Sprintf("%s t=%d via=%d h=%d %s %s", o.K, o.T, o.Via, o.H, short(o.O), short(o.P))
}

func (w *World) target(t int) *MRem {
	if len(w.rems) == 0 {
		return nil
	}
	if t < 0 {
		t = -t
	}
	return w.rems[t%len(w.rems)]
}

// perform runs a creating operation on the graph only.
func (w *World) perform(op Op, setup func(*store.Mon)) (out semnet.Remark, err error, pan *opPanic, crashed bool) {
	switch op.K {
	case "story", "badstory":
		err, pan, crashed = w.call("CreateStory", setup, func() error {
			var err error
			out, err = w.handle(op.H).CreateStory(op.O, op.P)
			return err
		})
		return
	}
	t := w.get(w.target(op.T), op.Via, op.H)
	return w.performOn(t, op, setup)
}

func (w *World) performOn(t semnet.Remark, op Op, setup func(*store.Mon)) (out semnet.Remark, err error, pan *opPanic, crashed bool) {
	switch op.K {
	case "fact", "badfact":
		err, pan, crashed = w.call("AddFactToStory", setup, func() error {
			a, err := t.AddFactToStory(op.O, op.P)
			out = semnet.Remark{Aggregate: a}
			return err
		})
	case "remark", "badremark":
		err, pan, crashed = w.call("AddRemarkToFact", setup, func() error {
			a, err := t.AddRemarkToFact(op.P)
			out = semnet.Remark{Aggregate: a}
			return err
		})
	case "child", "badchild":
		err, pan, crashed = w.call("CreateChildStory", setup, func() error {
			a, err := t.CreateChildStory(op.O, op.P)
			out = semnet.Remark{Aggregate: a}
			return err
		})
	default:
		panic("unknown operation " + op.K)
	}
	return
}

// model applies a creating operation to the model.
func (w *World) model(op Op, t *MRem) *MRem {
	r := &MRem{idx: len(w.rems), o: op.O, p: op.P}
	switch op.K {
	case "story":
		s := &MStory{}
		f := &MFact{story: s}
		s.facts = []*MFact{f}
		r.fact = f
		w.stories = append(w.stories, s)
	case "fact":
		s := t.fact.story
		f := &MFact{story: s, pos: len(s.facts)}
		s.facts = append(s.facts, f)
		r.fact = f
	case "remark":
		r.o = t.o
		r.fact = t.fact
	case "child":
		p := t.fact.story
		s := &MStory{parent: p, pos: len(p.children)}
		p.children = append(p.children, s)
		f := &MFact{story: s}
		s.facts = []*MFact{f}
		r.fact = f
		w.stories = append(w.stories, s)
	}
	r.fact.rems = append(r.fact.rems, r)
	w.rems = append(w.rems, r)
	return r
}

// unmodel takes the last creating operation back from the model.
func (w *World) unmodel(r *MRem) {
	w.rems = w.rems[:len(w.rems)-1]
	f := r.fact
	f.rems = f.rems[:len(f.rems)-1]
	if len(f.rems) > 0 {
		return
	}
	s := f.story
	s.facts = s.facts[:len(s.facts)-1]
	if len(s.facts) > 0 {
		return
	}
	w.stories = w.stories[:len(w.stories)-1]
	if s.parent != nil {
		s.parent.children = s.parent.children[:len(s.parent.children)-1]
	}
}

func creating(k string) bool {
	return k == "story" || k == "fact" || k == "remark" || k == "child"
}

// apply runs one step of a history, which has to succeed; it returns the new
// remark if there is one.
func (w *World) apply(op Op) *MRem {
	switch {
	case op.K == "open":
		if len(w.handles) < 6 {
			w.handles = append(w.handles, w.newGraph())
		}
		return nil
	case op.K == "reopen":
		w.reopen()
		return nil
	case op.K == "read":
		if t := w.target(op.T); t != nil {
			w.observe(w.get(t, op.Via, op.H), FAll, op.H)
		}
		return nil
	case strings.HasPrefix(op.K, "bad"):
		if op.K != "badstory" && len(w.rems) == 0 {
			return nil
		}
		_, err, pan, _ := w.perform(op, nil)
		if pan != nil {
			fail("%s with text %s %s panicked: %v [%s]", op.K, short(op.O), short(op.P), pan.val, trimStack(pan.stack))
		}
		if err == nil {
			fail("%s accepted text %s %s", op.K, short(op.O), short(op.P))
		}
		return nil
	}
	if op.K != "story" && len(w.rems) == 0 {
		op.K = "story"
		if op.O == "" {
			op.O = op.P
		}
	}
	t := w.target(op.T)
	out, err, pan, _ := w.perform(op, nil)
	if pan != nil {
		fail("%s %s %s panicked: %v [%s]", op.K, short(op.O), short(op.P), pan.val, trimStack(pan.stack))
	}
	if err != nil {
		fail("%s %s %s failed: %v", op.K, short(op.O), short(op.P), err)
	}
	if isNil(out) {
		fail("%s returned no remark and no error", op.K)
	}
	r := w.model(op, t)
	r.val, r.kept = out, true
	r.id = w.id(out)
	return r
}

func (w *World) run(ops []Op) {
	for _, op := range ops {
		w.apply(op)
	}
}

// Profile weighs the kinds of steps of a generated history.
type Profile struct {
	Story, Fact, Remark, Child, Bad, Open, Reopen, Read int
	Recent                                              int // per cent of steps done through one of the last remarks
	SmallPool                                           int // number of different texts, 0 = no limit
	Long                                                bool
}

var mixed = Profile{Story: 3, Fact: 5, Remark: 4, Child: 4, Recent: 30}

func genOps(r *rand.Rand, n int, p Profile) []Op {
	g := newTextGen(r)
	g.long = p.Long
	var pool []string
	for i := 0; i < p.SmallPool; i++ {
		pool = append(pool, g.text())
	}
	kinds := []string{"story", "fact", "remark", "child", "bad", "open", "reopen", "read"}
	weights := []int{p.Story, p.Fact, p.Remark, p.Child, p.Bad, p.Open, p.Reopen, p.Read}
	total := 0
	for _, x := range weights {
		total += x
	}
	made := 0
	var ops []Op
	for len(ops) < n {
		k := r.Intn(total)
		i := 0
		for k >= weights[i] {
			k -= weights[i]
			i++
		}
		op := Op{K: kinds[i], Via: r.Intn(5), H: r.Intn(6)}
		if made == 0 && op.K != "bad" && op.K != "open" && op.K != "reopen" {
			op.K = "story"
		}
		if made > 0 {
			if r.Intn(100) < p.Recent {
				op.T = made - 1 - r.Intn(min(made, 3))
			} else {
				op.T = r.Intn(made)
			}
		}
		if len(pool) > 0 {
			op.O, op.P = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		} else {
			op.O, op.P = g.pair()
		}
		switch op.K {
		case "bad":
			op.K = []string{"badstory", "badfact", "badremark", "badchild"}[r.Intn(4)]
			if op.K == "badremark" {
				op.P = g.badText()
			} else {
				switch r.Intn(4) {
				case 0:
					op.O, op.P = g.badText(), g.badText()
				case 1, 2:
					op.O = g.badText()
				default:
					op.P = g.badText()
				}
			}
		case "open", "reopen", "read":
			op.O, op.P = "", ""
		case "remark":
			op.O = ""
		}
		if creating(op.K) {
			made++
		}
		ops = append(ops, op)
	}
	return ops
}

func hashOps(ops []Op) uint64 {
	h := fnv.New64a()
	for _, o := range ops {
		fmt.Fprintf(h, "%s|%d|%d|%d|%s|%s;", o.K, o.T, o.Via, o.H, o.O, o.P)
	}
	return h.Sum64()
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
