//go:build semnetinternal && go1.22

// The checks that reach the layers below the public operations. They are
// compiled as a package inside the module under test, through an overlay.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"

	"verifharness/store"
)

func init() {
	linkRemarks = linkByEntities
	layerFaults = faultLayers
	probeLayers = reachable
	register(&Check{
		ID: "C22", Level: "exploration",
		Rule:   "after generated histories, on several kinds of storages, every member of every class is looked up by each of its nodes in its layer; the nodes, the answers to all questions without arguments, and the changes made by all operations with one node as argument are compared with those of the entity looked up by its class; every node is entered into a map of owners, a second owner is a violation; an evaluation is one lookup; distinct by layer, node kind and entity",
		Assume: []string{"the lookups are the methods ReadEntityBy... of the layers' storages and FetchBy... of the story repository, found by reflection", "no failed operations in the history (these may leave incomplete entities)"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C22", pick(tier, 1200, 10000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open = 1, 1
				if i%3 == 0 {
					p.SmallPool = 2 + r.Intn(5)
				}
				cs = append(cs, Case{Kind: "lookups", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 1+r.Intn(30), p)})
			}
			for i, s := range seeds(seed, "C22l", pick(tier, 5, 30)) {
				r := rand.New(rand.NewSource(s))
				c := Case{Kind: "lookups", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}}
				if n := pick(tier, 150, 500); i%2 == 0 {
					c.Ops = genOps(r, n, mixed)
				} else {
					c.Ops = grown(r, n, []string{"fact", "child", "remark"}[i/2%3], 4)
				}
				cs = append(cs, c)
			}
			return
		},
		Run: runC22,
	})
	register(&Check{
		ID: "C23", Level: "exploration",
		Rule:   "generated forests several levels deep; every fact of every story is looked up by the node its remarks point to, asked for its parent story, and the first remark reached from there compared with the first remark of the parent in the model; an evaluation is one fact asked; distinct by place in the forest and history, trivial for stories without parent",
		Assume: []string{"asked at the fact repository, as the public operations do not lead to the parent"},
		Cases: func(tier string, seed int64) (cs []Case) {
			cs = genHistories(tier, seed, "C23", 2500, 16000, 5, 45, Profile{Story: 2, Fact: 5, Remark: 3, Child: 10, Reopen: 1, Open: 1})
			for _, s := range seeds(seed, "C23l", pick(tier, 6, 40)) {
				r := rand.New(rand.NewSource(s))
				cs = append(cs, Case{Kind: "large", Seed: s, Ops: grown(r, pick(tier, 150, 800), "child", 5)})
			}
			for _, s := range seeds(seed, "C23d", pick(tier, 3, 20)) {
				r := rand.New(rand.NewSource(s))
				ops := []Op{{K: "story", O: "a", P: "b"}}
				for i := 0; i < pick(tier, 150, 800); i++ {
					ops = append(ops, Op{K: "child", T: len(ops) - 1, O: "a", P: "b", Via: r.Intn(2)})
					if r.Intn(3) == 0 {
						ops = append(ops, Op{K: "fact", T: len(ops) - 1, O: "c", P: "b", Via: 1})
					}
				}
				cs = append(cs, Case{Kind: "deep", Seed: s, Ops: ops})
			}
			for i, s := range seeds(seed, "C23w", pick(tier, 2, 8)) { // wide families, not of a root only
				r := rand.New(rand.NewSource(s))
				ops := []Op{{K: "story", O: "a", P: "b"}, {K: "child", T: 0, O: "a", P: "b"}, {K: "child", T: 0, O: "a", P: "b"}, {K: "child", T: 1, O: "a", P: "b"}, {K: "fact", T: 3, O: "a", P: "b"}}
				for n := pick(tier, 700, 2500); len(ops) < n; {
					op := Op{K: "child", T: 1, O: "a", P: "b", Via: r.Intn(2)}
					if i%2 == 1 && r.Intn(4) == 0 {
						op.T = []int{0, 3, 4}[r.Intn(3)]
					}
					ops = append(ops, op)
				}
				cs = append(cs, Case{Kind: "wide", Seed: s, Ops: ops})
			}
			return
		},
		Run: runC23,
	})
}

func init() {
	register(&Check{
		ID: "C24", Level: "exploration",
		Rule:   "after and between the operations of generated histories on all kinds of storages, members of every class are created at the layer of classes too, through an entity in use and one just provided; the monitor keeps which node was created as what, asks all eight membership questions about every node of the storage, the class nodes and the nodes of entities included, and compares the list of bits; an evaluation is one node asked about by all classes; distinct by node and history",
		Assume: []string{"asked at the class repository; nodes that public operations registered are recognised by their connection into the first eight nodes"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C24", pick(tier, 1500, 12000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open = 1, 1
				if i%3 == 0 {
					p.SmallPool = 2 + r.Intn(5)
				}
				cs = append(cs, Case{Kind: "members", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 1+r.Intn(25), p)})
			}
			return
		},
		Run: runC24,
	})
}

func init() {
	register(&Check{
		ID: "C25", Level: "exploration",
		Rule:   "histories of public operations interleaved with values provided at the layers of characters, words, phrases and details themselves, through repositories in use and new ones, on all kinds of storages; each value provided is extracted, provided again (no node may be added), and fetched by its node; at intervals every member of every class is extracted, and the values compared one to one with the beginnings of all that was stored; an evaluation is one value extracted; distinct by layer, value and history",
		Assume: []string{"asked at the layers' repositories", "no failed or refused operations in the history (these may leave incomplete entities)"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C25", pick(tier, 250, 4000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open = 1, 1
				if i%3 == 0 {
					p.SmallPool = 2 + r.Intn(5)
				}
				p.Long = i%5 == 0
				cs = append(cs, Case{Kind: "values", Seed: s, N: i, Cfg: store.Config{Order: i % 4, IDs: i / 4 % store.IDKinds, Lenient: i%2 == 0}, Ops: genOps(r, 1+r.Intn(25), p)})
			}
			for i, s := range seeds(seed, "C25w", pick(tier, 12, 60)) {
				cs = append(cs, Case{Kind: "wide", Seed: s, N: pick(tier, 330, 1300), M: i % 6, Cfg: store.Config{Order: i % 4, IDs: i % store.IDKinds}})
			}
			return
		},
		Run: runC25,
	})
}

// wire calls a constructor with the parts it asks for, in its order.
func wire[T any](constructor any, parts ...any) T {
	f := reflect.ValueOf(constructor)
	var in []reflect.Value
	for i := 0; i < f.Type().NumIn(); i++ {
		for _, p := range parts {
			if v := reflect.ValueOf(p); v.Type().AssignableTo(f.Type().In(i)) {
				in = append(in, v)
				break
			}
		}
	}
	if len(in) < f.Type().NumIn() {
		panic(noParts(fmt.Sprintf("no parts for %v", f.Type())))
	}
	return f.Call(in)[0].Interface().(T)
}

// noParts is a part a constructor asks for and the monitors do not have.
type noParts string

// reachable tells whether the constructors ask for parts that are known.
func reachable() bool {
	ok := true
	for _, id := range []string{"C22", "C23", "C24", "C25"} {
		func() {
			defer func() {
				if _, bad := recover().(noParts); bad {
					ok = false
				}
			}()
			checks[id].Run(Case{Ops: []Op{{K: "story", O: "a", P: "b"}}}, newStats())
		}()
	}
	return ok
}

// tower is the layers of texts, each with a repository.
type tower struct {
	characters *character.Repository
	words      *word.Repository
	phrases    *phrase.Repository
	details    *detail.Repository
}

func newTower(m *store.Mon) *tower {
	classes := wire[*class.Repository](class.NewRepository, m)
	t := &tower{}
	t.characters = wire[*character.Repository](character.NewRepository, m, classes, wire[*bit.Repository](bit.NewRepository, m, classes))
	t.words = wire[*word.Repository](word.NewRepository, m, classes, t.characters)
	t.phrases = wire[*phrase.Repository](phrase.NewRepository, m, classes, t.words)
	t.details = wire[*detail.Repository](detail.NewRepository, m, classes, t.phrases)
	return t
}

func runC25(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	g := newTextGen(r)
	v := newVocab()
	kept := newTower(w.mon)
	names := []string{"character", "word", "phrase", "detail"}
	// provide stores a value at its layer and tells what is extracted
	provide := func(t *tower, layer int, o, p string) (got string, node uint) {
		w.must("Provide at layer "+names[layer], func() error {
			switch layer {
			case 0:
				a, err := t.characters.Provide([]rune(o)[0])
				if err != nil {
					return err
				}
				x, err := a.Extract()
				got, node = string(x), a.GetWord()
				return err
			case 1:
				a, err := t.words.Provide(o)
				if err != nil {
					return err
				}
				got, err = a.Extract()
				node = a.GetPhrase()
				return err
			case 2:
				a, err := t.phrases.Provide(o)
				if err != nil {
					return err
				}
				got, err = a.Extract()
				return err
			}
			a, err := t.details.Provide(o, p)
			if err != nil {
				return err
			}
			x, y, err := a.GetObjectAndProperty()
			got = fmt.Sprintf("%q %q", x, y)
			return err
		})
		return
	}
	nodes := map[string]uint{}
	tops := func() *tower {
		if r.Intn(3) == 0 {
			return newTower(w.mon)
		}
		return kept
	}
	values := func(layer int, o, p string) {
		want := o
		switch layer {
		case 0:
			v.addCharacter([]rune(o)[0])
		case 1:
			v.addWord(o)
		case 2:
			v.addPhrase(o)
		default:
			want = fmt.Sprintf("%q %q", o, p)
			v.add(o, p)
		}
		for i := 0; i < 2; i++ {
			n := w.mem.Len()
			got, node := provide(tops(), layer, o, p)
			if got != want {
				fail("%s %s provided at its layer is extracted as %s", names[layer], short(want), short(got))
			}
			k := fmt.Sprint(layer, want)
			if old, ok := nodes[k]; ok && old != node {
				fail("%s %s is provided as node %d, before it was %d", names[layer], short(want), node, old)
			}
			nodes[k] = node
			if i > 0 && w.mem.Len() != n {
				fail("%s %s, provided again, added %d nodes", names[layer], short(want), w.mem.Len()-n)
			}
			st.eval(sig(c.Seed, k, i), true)
		}
	}
	value := func() {
		layer := r.Intn(4)
		o, p := g.pair()
		if len(w.rems) > 0 && r.Intn(3) == 0 {
			m := w.rems[r.Intn(len(w.rems))]
			o, p = m.p, m.o
		}
		switch layer {
		case 0:
			rs := []rune(o)
			o = string(rs[r.Intn(len(rs))])
			if r.Intn(2) == 0 {
				o = string(randRune(r))
			}
		case 1:
			ws := strings.Split(o, " ")
			o = ws[r.Intn(len(ws))]
		}
		values(layer, o, p)
	}
	readers := []reflect.Value{
		reflect.ValueOf(wire[*character.Storage](character.NewStorage, w.mon)), reflect.ValueOf(wire[*word.Storage](word.NewStorage, w.mon)),
		reflect.ValueOf(wire[*phrase.Storage](phrase.NewStorage, w.mon)), reflect.ValueOf(wire[*detail.Storage](detail.NewStorage, w.mon)),
	}
	by := []string{"GetWord", "GetPhrase", "GetDetail", "GetRemark"}
	wants := []map[string]bool{v.bits, v.words, v.phrases, v.pairs}
	check := func() {
		for layer, want := range wants {
			t := tops()
			seen := map[string]uint{}
			for _, id := range w.members(uint(classCharacter + layer)) {
				res, err := w.reflected("ReadEntityByClass", lookups(readers[layer], "ReadEntityBy")["Class"], id)
				if err != nil {
					fail("%s %d: lookup by its class node failed: %v", names[layer], id, err)
				}
				n := uint(concrete(res[0]).MethodByName(by[layer]).Call(nil)[0].Uint())
				var got string
				w.must("Fetch at layer "+names[layer], func() error {
					switch layer {
					case 0:
						a, err := t.characters.Fetch(n)
						if err != nil {
							return err
						}
						x, err := a.Extract()
						got = fmt.Sprintf("%b", x)
						return err
					case 1:
						a, err := t.words.Fetch(n)
						if err != nil {
							return err
						}
						got, err = a.Extract()
						return err
					case 2:
						a, err := t.phrases.Fetch(n)
						if err != nil {
							return err
						}
						got, err = a.Extract()
						return err
					}
					a, err := t.details.Fetch(n)
					if err != nil {
						return err
					}
					x, y, err := a.GetObjectAndProperty()
					got = fmt.Sprintf("%q %q", x, y)
					return err
				})
				if !want[got] {
					fail("%s %d is extracted as %s, which nobody stored", names[layer], id, short(got))
				}
				if o, ok := seen[got]; ok {
					fail("%s %d is extracted as %s, as is %d", names[layer], id, short(got), o)
				}
				seen[got] = id
				st.eval(sig(c.Seed, layer, got), true)
			}
			if len(seen) != len(want) {
				for k := range want {
					if _, ok := seen[k]; !ok {
						fail("no %s is extracted as %s, which was stored", names[layer], short(k))
					}
				}
			}
		}
		st.state(w.mem.Digest())
	}
	if c.Kind == "wide" {
		// many values that continue the same one, and a long one
		n := c.N
		if c.M == 2 { // continuations of a phrase are compared by their texts
			n /= 2
		}
		for i := 0; i < n; i++ {
			k := rune(0x100 + i)
			if r.Intn(4) == 0 {
				k = rune(0x100 + r.Intn(i+1))
			}
			switch c.M {
			case 0:
				values(0, string(k*37), "")
			case 1:
				values(1, "ab"+string(k), "")
			case 2:
				values(2, "a b "+string(k), "")
			case 3:
				values(3, "a b", string(k))
			case 4:
				values(3, string(k), "a b")
			case 5:
				if i%40 == 0 {
					values(1+i/40%2, strings.Repeat("a", 1+r.Intn(n)), "")
					values(2, strings.Repeat("a b ", 1+r.Intn(n/8))+"c", "")
					values(3, strings.Repeat("b a ", 1+r.Intn(n/8))+"c", strings.Repeat("x", r.Intn(n)+1))
				}
			}
		}
	}
	for i, op := range c.Ops {
		if i%2 == 1 || r.Intn(3) == 0 {
			value()
		}
		if m := w.apply(op); m != nil {
			v.add(m.o, m.p)
		}
		if r.Intn(12) == 0 && len(w.members(classWord)) < 300 {
			check()
		}
	}
	if w.mem.Len() > 8 {
		check()
	}
	for _, m := range w.rems {
		w.textOf(m, 1, 0)
	}
}

var classNames = []string{"", "Bit", "Character", "Word", "Phrase", "Detail", "Remark", "Fact", "Story"}

func runC24(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	kept := wire[*class.Repository](class.NewRepository, w.mon)
	made := map[uint]int{}
	var newest uint
	entity := func() (v reflect.Value) {
		repo := kept
		if r.Intn(3) == 0 {
			repo = wire[*class.Repository](class.NewRepository, w.mon)
		}
		w.must("ProvideEntity", func() error {
			e, err := repo.ProvideEntity()
			v = concrete(reflect.ValueOf(e))
			return err
		})
		return
	}
	create := func(k int) {
		res, err := w.reflected("Create"+classNames[k], entity().MethodByName("Create"+classNames[k]))
		if err != nil {
			fail("Create%s failed: %v", classNames[k], err)
		}
		id := uint(res[0].Uint())
		if !w.mem.Known(id) {
			fail("Create%s gave %d, which the storage never handed out", classNames[k], id)
		}
		if o, ok := made[id]; ok {
			fail("Create%s gave %d, which is a %s", classNames[k], id, classNames[o])
		}
		made[id], newest = k, id
		if _, ref := w.mem.RawReference(id); ref != 0 {
			fail("the new %s %d refers to %d", classNames[k], id, ref)
		}
	}
	check := func(all bool) {
		for k := 1; k <= 8; k++ {
			for _, id := range w.members(uint(k)) {
				if o, ok := made[id]; ok && o != k {
					fail("node %d, created as a %s, is registered as a %s", id, classNames[o], classNames[k])
				}
				made[id] = k
			}
		}
		e := entity()
		for _, id := range w.mem.AllIDs() {
			if !all && r.Intn(5) != 0 {
				continue
			}
			for k := 1; k <= 8; k++ {
				res, err := w.reflected("Is"+classNames[k], e.MethodByName("Is"+classNames[k]), id)
				is := err == nil && res[0].Bool()
				if is != (made[id] == k) {
					fail("Is%s(%d) is %v (error %v) for a node registered as %q", classNames[k], id, is, err, classNames[made[id]])
				}
				if made[id] != 0 && err != nil {
					fail("Is%s(%d) fails for a %s: %v", classNames[k], id, classNames[made[id]], err)
				}
			}
			st.eval(sig(c.Seed, id, len(made)), made[id] != 0)
		}
		res, err := w.reflected("GetAllBits", e.MethodByName("GetAllBits"))
		if err != nil {
			fail("GetAllBits failed: %v", err)
		}
		seen := map[uint]bool{}
		for _, id := range res[0].Interface().([]uint) {
			if seen[id] || made[id] != 1 {
				fail("GetAllBits gives %d, which is a %q, or gives it twice", id, classNames[made[id]])
			}
			seen[id] = true
		}
		n := 0
		for _, k := range made {
			if k == 1 {
				n++
			}
		}
		if len(seen) != n {
			fail("GetAllBits gives %d of %d bits", len(seen), n)
		}
	}
	if r.Intn(4) == 0 {
		entity() // before there is anything else
	}
	for _, op := range c.Ops {
		w.apply(op)
		for r.Intn(3) == 0 {
			// a third bit is refused by the layer of bits; incomplete members
			// of the other classes are nothing the operations meet
			create(2 + r.Intn(7))
			for last := newest; r.Intn(3) > 0; {
				// other nodes of it, as a failed operation leaves them
				var next uint
				w.must("Create", func() (err error) { next, err = w.mon.Create(); return })
				w.must("SetReference", func() error { return w.mon.SetReference(last, next) })
				last = next
				st.Extra["nodes_of_incomplete_entities"]++
			}
		}
		if r.Intn(6) == 0 {
			check(false)
		}
	}
	check(true)
	for i := 0; i < 6; i++ {
		create(1 + r.Intn(8))
	}
	check(true)
	st.state(w.mem.Digest())
}

// layerOf is a layer's storage with the class its entities are members of.
type layerOf struct {
	name    string
	class   uint
	storage reflect.Value
	fetch   reflect.Value // a repository with FetchBy... giving entities
}

func layers(m *store.Mon) []layerOf {
	classes := wire[*class.Repository](class.NewRepository, m)
	return []layerOf{
		{"character", classCharacter, reflect.ValueOf(wire[*character.Storage](character.NewStorage, m)), reflect.Value{}},
		{"word", classWord, reflect.ValueOf(wire[*word.Storage](word.NewStorage, m)), reflect.Value{}},
		{"phrase", classPhrase, reflect.ValueOf(wire[*phrase.Storage](phrase.NewStorage, m)), reflect.Value{}},
		{"detail", classDetail, reflect.ValueOf(wire[*detail.Storage](detail.NewStorage, m)), reflect.Value{}},
		{"remark", classRemark, reflect.ValueOf(wire[*remark.Storage](remark.NewStorage, m)), reflect.Value{}},
		{"fact", classFact, reflect.ValueOf(wire[*fact.Storage](fact.NewStorage, m)), reflect.Value{}},
		{"story", classStory, reflect.ValueOf(wire[*story.Storage](story.NewStorage, m)), reflect.ValueOf(wire[*story.Repository](story.NewRepository, m, classes))},
	}
}

var (
	uintType  = reflect.TypeOf(uint(0))
	errorType = reflect.TypeOf((*error)(nil)).Elem()
)

// lookups finds the methods that take one identifier and give an entity.
func lookups(v reflect.Value, prefix string) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	if !v.IsValid() {
		return out
	}
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		mt := v.Method(i).Type()
		if strings.HasPrefix(t.Method(i).Name, prefix) && mt.NumIn() == 1 && mt.In(0) == uintType && mt.NumOut() == 2 && mt.Out(1) == errorType {
			out[strings.TrimPrefix(t.Method(i).Name, prefix)] = v.Method(i)
		}
	}
	return out
}

func (w *World) reflected(name string, f reflect.Value, args ...uint) (out []reflect.Value, err error) {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	counted := strings.Map(func(c rune) rune { // without the identifiers
		if c >= '0' && c <= '9' {
			return -1
		}
		return c
	}, name)
	_, pan, _ := w.call(strings.Join(strings.Fields(counted), " "), nil, func() error {
		out = f.Call(in)
		return nil
	})
	if pan != nil {
		fail("%s%v panicked: %v [%s]", name, args, pan.val, trimStack(pan.stack))
	}
	if n := len(out); n > 0 && out[n-1].Type().Implements(errorType) && !out[n-1].IsNil() {
		err = out[n-1].Interface().(error)
	}
	return
}

func concrete(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	return v
}

// simple tells whether all results can be compared by their printed form.
func simple(mt reflect.Type) bool {
	for i := 0; i < mt.NumOut(); i++ {
		switch o := mt.Out(i); {
		case o == errorType, o.Kind() == reflect.Uint, o.Kind() == reflect.Bool, o.Kind() == reflect.String, o.Kind() == reflect.Int32:
		case o.Kind() == reflect.Slice && o.Elem() == uintType:
		default:
			return false
		}
	}
	return mt.NumOut() > 0
}

// answers asks an entity all questions without arguments.
func (w *World) answers(what string, e reflect.Value) map[string]string {
	out := map[string]string{}
	t := e.Type()
	for i := 0; i < t.NumMethod(); i++ {
		mt := e.Method(i).Type()
		if mt.NumIn() != 0 || !simple(mt) {
			continue
		}
		res, err := w.reflected(what+" "+t.Method(i).Name, e.Method(i))
		s := ""
		if err != nil {
			s = "an error"
		} else {
			for _, v := range res {
				if v.Type() == errorType {
					continue
				}
				if l, ok := v.Interface().([]uint); ok { // the order is the storage's
					l = append([]uint{}, l...)
					sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
					v = reflect.ValueOf(l)
				}
				s += fmt.Sprint(v.Interface(), " ")
			}
		}
		out[t.Method(i).Name] = s
	}
	return out
}

// changes lets an entity perform all operations that take one node, and tells
// what they changed.
func (w *World) changes(what string, e reflect.Value) map[string]string {
	out := map[string]string{}
	t := e.Type()
	for i := 0; i < t.NumMethod(); i++ {
		mt := e.Method(i).Type()
		if mt.NumIn() != 1 || mt.In(0) != uintType || mt.NumOut() != 1 || mt.Out(0) != errorType {
			continue
		}
		w.mem.Mark()
		w.mon.Begin("Create")
		n, _ := w.mon.Create()
		_, err := w.reflected(what+" "+t.Method(i).Name, e.Method(i), n)
		s := fmt.Sprint(w.mon.Mutations)
		if err != nil {
			s += " an error"
		}
		w.mem.Rollback()
		out[t.Method(i).Name] = s
	}
	return out
}

func differ(a, b map[string]string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if v, ok := b[k]; ok && v != a[k] {
			return fmt.Sprintf("%s gives %s instead of %s", k, v, a[k])
		}
	}
	return ""
}

func runC22(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	w.run(c.Ops)
	if len(w.rems) == 0 {
		return
	}
	owner := map[uint]string{}
	own := func(id uint, who string) {
		if !w.mem.Known(id) {
			fail("%s has node %d, which the storage never handed out", who, id)
		}
		if o, ok := owner[id]; ok {
			fail("node %d belongs to %s and to %s", id, o, who)
		}
		owner[id] = who
	}
	for i := 1; i <= 8; i++ {
		own(w.mem.ExtID(i), fmt.Sprint("class node ", i))
	}
	for _, id := range w.members(classBit) {
		own(id, fmt.Sprint("bit ", id))
		if _, x := w.mem.RawReference(id); x != 0 {
			own(x, fmt.Sprint("bit ", id))
		}
	}
	for _, l := range layers(w.mon) {
		reads := lookups(l.storage, "ReadEntityBy")
		byClass, ok := reads["Class"]
		if !ok {
			panic("no lookup by class in layer " + l.name)
		}
		fetches := lookups(l.fetch, "FetchBy")
		for _, id := range w.members(l.class) {
			who := fmt.Sprint(l.name, " ", id)
			res, err := w.reflected("ReadEntityByClass", byClass, id)
			if err != nil {
				fail("%s: lookup by its class node failed: %v", who, err)
			}
			e := concrete(res[0])
			asked := w.answers(who, e)
			var changed map[string]string
			deep := r.Intn(4) == 0
			if deep {
				changed = w.changes(who, e)
			}
			nodes := map[string]uint{}
			t := e.Type()
			for i := 0; i < t.NumMethod(); i++ {
				mt := e.Method(i).Type()
				if n := t.Method(i).Name; strings.HasPrefix(n, "Get") && mt.NumIn() == 0 && mt.NumOut() == 1 && mt.Out(0) == uintType {
					nodes[strings.TrimPrefix(n, "Get")] = uint(e.Method(i).Call(nil)[0].Uint())
				}
			}
			if nodes["Class"] != id {
				fail("%s looked up by its class node has class node %d", who, nodes["Class"])
			}
			for _, n := range nodes {
				own(n, who)
			}
			st.Extra["nodes_owned"] += len(nodes)
			for _, by := range []map[string]reflect.Value{reads, fetches} {
				for name, f := range by {
					n, ok := nodes[name]
					if !ok {
						continue
					}
					res, err := w.reflected("lookup by "+name, f, n)
					if err != nil {
						fail("%s: lookup by its %s node %d failed: %v", who, strings.ToLower(name), n, err)
					}
					o := concrete(res[0])
					if o.Kind() == reflect.Interface {
						fail("%s: lookup by its %s node %d gave nothing", who, strings.ToLower(name), n)
					}
					if d := differ(asked, w.answers(who, o)); d != "" {
						fail("%s looked up by its %s node %d: %s", who, strings.ToLower(name), n, d)
					}
					if deep {
						if d := differ(changed, w.changes(who, o)); d != "" {
							fail("%s looked up by its %s node %d: %s", who, strings.ToLower(name), n, d)
						}
						st.Extra["lookups_with_changes_compared"]++
					}
					st.eval(sig(c.Seed, who, name), true)
					st.Extra["lookups_"+l.name]++
				}
			}
		}
	}
	st.state(w.mem.Digest())
}

func runC23(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	classes := wire[*class.Repository](class.NewRepository, w.mon)
	stories := wire[*story.Repository](story.NewRepository, w.mon, classes)
	facts := wire[*fact.Repository](fact.NewRepository, w.mon, classes, stories)
	remarks := wire[*remark.Storage](remark.NewStorage, w.mon)
	ask := func(m *MRem) {
		who := fmt.Sprintf("fact %d of remark #%d (story with parent: %v, depth %d)", m.fact.pos, m.idx, m.fact.story.parent != nil, m.fact.story.depth())
		var has bool
		var got uint
		err, pan, _ := w.call("HasParentStory", nil, func() error {
			e, err := remarks.ReadEntityByClass(m.id)
			if err != nil {
				return err
			}
			f, err := e.GetTargetFact()
			if err != nil {
				return err
			}
			a, err := facts.FetchByRemark(f)
			if err != nil {
				return err
			}
			has, err = a.HasParentStory()
			if err != nil {
				return err
			}
			if !has {
				p, err := a.ToParentStory()
				if err == nil {
					return fmt.Errorf("ToParentStory of a story without parent gives %v", p)
				}
				return nil
			}
			p, err := a.ToParentStory()
			if err != nil {
				return err
			}
			x, err := p.GetFirstRemark()
			if err != nil {
				return err
			}
			y, err := remarks.ReadEntityByFact(x)
			if err != nil {
				return err
			}
			got = y.GetClass()
			return nil
		})
		if pan != nil {
			fail("%s: panic %v [%s]", who, pan.val, trimStack(pan.stack))
		}
		if err != nil {
			fail("%s: %v", who, err)
		}
		p := m.fact.story.parent
		if has != (p != nil) {
			fail("%s: HasParentStory is %v", who, has)
		}
		if has && got != p.head().id {
			fail("%s: the parent story starts with remark %d instead of #%d (%d)", who, got, p.head().idx, p.head().id)
		}
		st.eval(sig(c.Seed, m.idx, len(w.rems)), p != nil)
	}
	for i, op := range c.Ops {
		m := w.apply(op)
		if m == nil {
			continue
		}
		ask(m)
		if i%3 == 0 {
			ask(w.rems[r.Intn(len(w.rems))])
		}
	}
	for _, m := range w.rems {
		ask(m)
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

// linkByEntities makes the remarks of a fact follow each other, in order, with
// the operation of the layer of remarks that the public operations do not use.
func linkByEntities(w *World, f *MFact) {
	s := wire[*remark.Storage](remark.NewStorage, w.mon)
	w.must("PointToPosition", func() error {
		for i := 0; i+1 < len(f.rems); i++ {
			a, err := s.ReadEntityByClass(f.rems[i].id)
			if err != nil {
				return err
			}
			b, err := s.ReadEntityByClass(f.rems[i+1].id)
			if err != nil {
				return err
			}
			if err = a.PointToPosition(b.GetPosition()); err != nil {
				return err
			}
		}
		return nil
	})
}

// faultLayers repeats every operation of the inner layers once for each of its
// storage calls with that call failing.
func faultLayers(w *World, r *rand.Rand, judge func(string, error, *opPanic, *store.Mon)) {
	fails := func(name string, f reflect.Value, args ...uint) {
		t := f.Type()
		if t.NumOut() == 0 || t.Out(t.NumOut()-1) != errorType || t.NumIn() != len(args) {
			return
		}
		var in []reflect.Value
		for _, a := range args {
			in = append(in, reflect.ValueOf(a))
		}
		points(func(setup func(*store.Mon)) (int, string) {
			w.mem.Mark()
			err, pan, _ := w.call(name, setup2(setup), func() error {
				out := f.Call(in)
				err, _ := out[len(out)-1].Interface().(error)
				return err
			})
			judge(name, err, pan, w.mon)
			inj, on := w.mon.Injected, w.mon.FaultOn
			w.mon.FaultAt = 0
			w.mem.Rollback()
			w.st.eval(sig(name, args, w.mon.Calls, w.mon.FaultMode, w.mem.Digest()), inj > 0)
			return inj, on
		})
	}
	// all methods without argument, or with one node as argument
	all := func(name string, v reflect.Value, node func() uint) {
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			f := v.Method(i)
			switch n := name + " " + t.Method(i).Name; {
			case f.Type().NumIn() == 0:
				fails(n, f)
			case f.Type().NumIn() == 1 && f.Type().In(0) == uintType && node != nil:
				fails(n, f, node())
			}
		}
	}
	ids := w.mem.AllIDs()
	any := func() uint { return ids[r.Intn(len(ids))] }
	for _, l := range layers(w.mon) {
		members := w.members(l.class)
		for k := 0; k < 3; k++ {
			id := members[r.Intn(len(members))]
			reads := lookups(l.storage, "ReadEntityBy")
			res, err := w.reflected("ReadEntityByClass", reads["Class"], id)
			if err != nil {
				fail("%s %d: lookup by its class node failed: %v", l.name, id, err)
			}
			e := concrete(res[0])
			all(l.name, e, any)
			t := e.Type()
			for _, by := range []map[string]reflect.Value{reads, lookups(l.fetch, "FetchBy")} {
				for name, f := range by {
					if m, ok := t.MethodByName("Get" + name); ok && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == uintType {
						fails(l.name+" lookup by "+name, f, uint(e.MethodByName("Get" + name).Call(nil)[0].Uint()))
					}
				}
			}
		}
	}
	classes := wire[*class.Repository](class.NewRepository, w.mon)
	fails("ProvideEntity", reflect.ValueOf(classes).MethodByName("ProvideEntity"))
	ce, err := classes.ProvideEntity()
	if err != nil {
		fail("the class nodes cannot be read: %v", err)
	}
	all("class", reflect.ValueOf(ce), any)
	facts := wire[*fact.Repository](fact.NewRepository, w.mon, classes, wire[*story.Repository](story.NewRepository, w.mon, classes))
	remarks := wire[*remark.Storage](remark.NewStorage, w.mon)
	for k := 0; k < 3; k++ {
		m := w.rems[r.Intn(len(w.rems))]
		e, err := remarks.ReadEntityByClass(m.id)
		if err != nil {
			fail("remark #%d cannot be read: %v", m.idx, err)
		}
		f, err := e.GetTargetFact()
		if err != nil {
			fail("remark #%d has no fact: %v", m.idx, err)
		}
		fails("fact FetchByRemark", reflect.ValueOf(facts).MethodByName("FetchByRemark"), f)
		a, err := facts.FetchByRemark(f)
		if err != nil {
			fail("the fact of remark #%d cannot be read: %v", m.idx, err)
		}
		all("fact", concrete(reflect.ValueOf(a)), nil)
	}
}
