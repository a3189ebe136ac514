//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

func pick(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// cfgFor gives mostly the plain reference storage, sometimes the one of the
// project's own tests.
func cfgFor(i int) store.Config {
	if i%7 == 6 {
		return store.Config{Backend: "clew"}
	}
	return store.Config{}
}

func (w *World) textOf(r *MRem, via, h int) {
	o, p := w.texts(w.get(r, via, h))
	w.st.Observations++
	if o != r.o || p != r.p {
		fail("remark #%d stored with %s %s reads %s %s", r.idx, short(r.o), short(r.p), short(o), short(p))
	}
}

func (w *World) story(o, p string) *MRem { return w.apply(Op{K: "story", O: o, P: p}) }

func sig(parts ...interface{}) uint64 { return hashStr(fmt.Sprint(parts...)) }

var smallAlphabets = []string{"ab", "0`", "1b", "aAb", "0`\u0060\u00c0", "\x01\x02\x03", "é\u0301e", "日本"}

func allWords(alpha []rune, maxLen int) []string {
	var out []string
	level := []string{""}
	for l := 0; l < maxLen; l++ {
		var nextLevel []string
		for _, w := range level {
			for _, c := range alpha {
				nextLevel = append(nextLevel, w+string(c))
			}
		}
		out = append(out, nextLevel...)
		level = nextLevel
	}
	return out
}

func dedupe(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func isScalar(c rune) bool {
	return c >= 0 && c <= utf8.MaxRune && !(c >= 0xd800 && c <= 0xdfff) && c != ' '
}

func init() {
	register(&Check{
		ID: "C01", Level: "exploration",
		Rule:   "histories of generated texts (related words: beginnings, continuations, anagrams, moved borders; bit-prefix alphabets; exhaustive small alphabets; sweeps over code points; characters beside their other forms; pairs that are equal when joined by some sign; long words and phrases; many words on one beginning); an evaluation is one remark whose texts were read back and compared; distinct by the texts and by the size class of the graph they were read from, trivial if the graph holds only that remark",
		Assume: []string{"texts are valid UTF-8 with non-empty words separated by single spaces", "the storage keeps what it is given (reference storage and clew)"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C01", pick(tier, 700, 8000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Long = true
				p.Reopen = 1
				cs = append(cs, Case{Kind: "mixed", Seed: s, Cfg: cfgFor(i), Ops: genOps(r, 10+r.Intn(60), p)})
			}
			for i := range smallAlphabets {
				for _, s := range seeds(seed, "C01w", pick(tier, 3, 12)) {
					cs = append(cs, Case{Kind: "words", Seed: s, N: i, M: pick(tier, 200, 700)}, Case{Kind: "phrases", Seed: s, N: i, M: pick(tier, 200, 900)})
				}
			}
			for _, s := range seeds(seed, "C01p", pick(tier, 8, 60)) {
				cs = append(cs, Case{Kind: "pairs", Seed: s, N: pick(tier, 22, 40)})
			}
			if tier == "thorough" {
				for lo := 0; lo < 0x110000; lo += 0x4000 {
					cs = append(cs, Case{Kind: "runes", Seed: seed, N: lo, M: lo + 0x4000})
				}
			} else {
				for lo := 0; lo < 0x3000; lo += 0x400 {
					cs = append(cs, Case{Kind: "runes", Seed: seed, N: lo, M: lo + 0x400})
				}
				cs = append(cs, Case{Kind: "runesample", Seed: seed, N: 6000})
				for _, x := range [][2]int{{0x3000, 0x3400}, {0xa000, 0xac00}, {0xd700, 0xe100}, {0xf900, 0x12000}, {0x1d000, 0x1e000}, {0x1f000, 0x1fc00}, {0xe0000, 0xe0200}, {0x10fc00, 0x110000}} {
					for lo := x[0]; lo < x[1]; lo += 0x400 {
						cs = append(cs, Case{Kind: "runes", Seed: seed, N: lo, M: lo + 0x400})
					}
				}
			}
			for lo := 0; lo < len(forms()); lo += 500 {
				for m := 0; m < pick(tier, 2, 4); m++ {
					cs = append(cs, Case{Kind: "forms", Seed: seed + int64(lo), N: lo, M: m})
				}
			}
			for i, s := range seeds(seed, "C01f", pick(tier, 10, 40)) {
				n := pick(tier, 300, 1500)
				if i < 5 {
					n = pick(tier, 1100, 2200)
				}
				cs = append(cs, Case{Kind: "fan", Seed: s, N: n, M: i % 5})
			}
			for m := 0; m < 6; m++ {
				cs = append(cs, Case{Kind: "joined", Seed: seed, N: 6, M: m})
			}
			top := pick(tier, 4096, 65536)
			for n := 16; n <= top; n *= 2 {
				for d := -1; d <= 1; d++ {
					cs = append(cs, Case{Kind: "long", Seed: seed + int64(n+d), N: n + d, M: 0})
					if n <= top/4 {
						cs = append(cs, Case{Kind: "long", Seed: seed + int64(n+d), N: n + d, M: 1})
					}
				}
			}
			for i := range colliding() {
				cs = append(cs, Case{Kind: "collide", Seed: seed + int64(i), N: i})
			}
			for i := 0; i < 5; i++ {
				cs = append(cs, Case{Kind: "special", Seed: seed + int64(i), M: i})
			}
			for i := 0; i < len(quotes); i += 3 {
				cs = append(cs, Case{Kind: "quoted", Seed: seed + int64(i), N: i, M: 3})
			}
			for _, n := range []int{10_001, 32_769, 65_537} {
				cs = append(cs, Case{Kind: "long", Seed: seed + int64(n), N: n})
			}
			for _, n := range []int{4097, 10_001} {
				cs = append(cs, Case{Kind: "long", Seed: seed + int64(n), N: n, M: 1})
			}
			for _, s := range seeds(seed, "C01m", pick(tier, 4, 12)) {
				cs = append(cs, Case{Kind: "many", Seed: s, N: pick(tier, 3000, 30000)})
			}
			return
		},
		Run: runC01,
	})
}

func runC01(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	w.mon.MaxCalls = 400_000_000
	r := rand.New(rand.NewSource(c.Seed))
	read := func(m *MRem) {
		w.textOf(m, r.Intn(5), r.Intn(6))
		st.eval(sig(m.o, "|", m.p, "|", log2(len(w.rems))), len(w.rems) > 1)
	}
	all := func() {
		for _, i := range r.Perm(len(w.rems)) {
			read(w.rems[i])
		}
	}
	switch c.Kind {
	case "mixed":
		for _, op := range c.Ops {
			m := w.apply(op)
			if m != nil {
				o, p := w.texts(m.val)
				if o != m.o || p != m.p {
					fail("remark #%d just created with %s %s reads %s %s", m.idx, short(m.o), short(m.p), short(o), short(p))
				}
			}
			if len(w.rems) > 0 {
				for i := 0; i < 3; i++ {
					read(w.rems[r.Intn(len(w.rems))])
				}
			}
		}
		all()
		w.reopen()
		all()
	case "words", "phrases":
		alpha := []rune(smallAlphabets[c.N])
		var texts []string
		if c.Kind == "words" {
			for l := 1; l < 12; l++ {
				t := allWords(alpha, l)
				if len(t) > c.M && l > 2 {
					break
				}
				texts = t
			}
		} else {
			ws := dedupe(allWords(alpha, 2))
			texts = append(texts, ws...)
			for _, a := range ws {
				for _, b := range ws {
					texts = append(texts, a+" "+b, a+" "+b+" "+a, b+" "+b+" "+a)
				}
			}
		}
		texts = dedupe(texts)
		r.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
		if len(texts) > c.M {
			texts = texts[:c.M]
		}
		for i, t := range texts {
			read(w.story(t, texts[(i*7+3)%len(texts)]))
		}
		all()
		for _, t := range texts { // everything is known now
			read(w.story(t, t))
		}
		all()
	case "pairs":
		g := newTextGen(r)
		var texts []string
		for len(texts) < c.N {
			texts = dedupe(append(texts, g.text()))
			if len(g.past) > 290 {
				g = newTextGen(r)
			}
		}
		type pr struct{ o, p string }
		var ps []pr
		for _, o := range texts {
			for _, p := range texts {
				ps = append(ps, pr{o, p})
			}
		}
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for _, x := range ps {
			read(w.story(x.o, x.p))
		}
		all()
	case "quoted":
		for i := c.N; i < c.N+c.M && i < len(quotes); i++ {
			for _, x := range special {
				read(w.story(quotes[i][0]+x+quotes[i][1], quotes[i][0]+x))
			}
		}
		all()
	case "special":
		last := special[len(special)-1]
		for _, x := range special {
			switch c.M {
			case 0: // alone, beside each other
				read(w.story(x, last))
			case 1: // continuing one phrase, and a fact each
				w.story("q "+x, x+" q")
			case 2: // in words
				w.story("q"+x, x+"q")
			case 3: // twice
				w.story(x+" "+x, x+x)
			case 4: // between, next to the one before
				w.story("q "+x+" q", last+" "+x)
			}
			last = x
		}
		all()
	case "collide":
		for _, x := range collidingTexts(c.N) {
			read(w.story(x[0], x[1]))
		}
		all()
	case "forms":
		for _, x := range formPairs(c) {
			w.story(x[0], x[1])
		}
		all()
	case "joined":
		for i, x := range joints() {
			if i%c.N == c.M {
				for _, p := range joined(x) {
					read(w.story(p[0], p[1]))
				}
			}
		}
		all()
	case "source":
		sourceConstants()
		for i, x := range source.words {
			for _, y := range []string{x, strings.ToUpper(x), strings.ToLower(x), x + "x", "x" + x, x + x, x + "Xy-Ä.1", "Xy-Ä.1" + x} {
				if c.M == 0 {
					read(w.story(y, x))
				} else {
					w.story("x "+y, y+" "+source.words[(i+1)%len(source.words)])
				}
			}
		}
		for _, x := range source.runes {
			for d := rune(-2); d <= 2; d++ {
				if isScalar(x+d) && x+d != ' ' {
					w.story(string(x+d), "a"+string(x+d)+"b")
					w.story("0"+string(x+d)+"1"+string(x), "Ä"+string(x+d)+"."+string(x))
				}
			}
		}
		for i := 0; i < 300 && len(source.runes) > 0; i++ {
			w.story(string(sourceRune(r)), string(sourceRune(r))+string(sourceRune(r)))
		}
		all()
	case "runes":
		for x := rune(c.N); x < rune(c.M); x++ {
			if isScalar(x) {
				w.story(string(x), string(x))
			}
		}
		all()
	case "runesample":
		seen := map[rune]bool{}
		for len(seen) < c.N {
			x := randRune(r)
			if seen[x] || !isScalar(x) {
				seen[x] = true
				continue
			}
			seen[x] = true
			w.story(string(x), string(x)+string(randRune(r)))
		}
		all()
	case "fan":
		base := newTextGen(r).fresh(2)
		for i := 0; i < c.N; i++ {
			x := rune(0x4e00 + i)
			if i%2 == 1 {
				x = rune(0x100 + i)
			}
			switch c.M {
			case 0: // characters after one beginning of a word
				w.story(base+string(x), base)
			case 1: // words after one beginning of a phrase
				w.story(base+" "+string(x), string(x)+" "+base)
			case 2: // properties of one object
				w.story(base, string(x))
			case 3: // objects of one property
				w.story(string(x), base)
			case 4: // one pair
				if i%3 == 0 || len(w.rems) == 0 {
					w.story(base, base+" "+base)
				} else {
					w.apply(Op{K: "remark", T: r.Intn(len(w.rems)), P: base + " " + base})
				}
			}
			if i%50 == 0 {
				for k := 0; k < 10; k++ {
					read(w.rems[r.Intn(len(w.rems))])
				}
			}
		}
		all()
	case "long":
		g := newTextGen(r)
		if g.alpha == nil {
			g.alpha = alphabets[3]
		}
		t := []rune(g.fresh(c.N))
		if c.M == 1 {
			ws := make([]string, c.N)
			for i := range ws {
				ws[i] = g.fresh(1 + r.Intn(2))
			}
			t = []rune(strings.Join(ws, " "))
		}
		cut := len(t) - 1
		for cut > 0 && t[cut] == ' ' || cut > 0 && t[cut-1] == ' ' {
			cut--
		}
		read(w.story(string(t), "x"))
		if cut > 0 {
			read(w.story(string(t[:cut]), string(t)))
			read(w.story(string(t[:cut])+"y", "x"))
		}
		read(w.story("x", string(t)+"z"))
		all()
	case "many":
		p := mixed
		p.Story = 10
		for len(w.rems) < c.N {
			ops := genOps(r, 200, p)
			for _, op := range ops {
				op.T += r.Intn(len(w.rems) + 1)
				w.apply(op)
				if len(w.rems)%64 == 0 && len(w.rems) > 0 {
					for k := 0; k < 8; k++ {
						read(w.rems[r.Intn(len(w.rems))])
					}
				}
			}
		}
		all()
	}
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

func log2(n int) int {
	k := 0
	for n > 1 {
		n >>= 1
		k++
	}
	return k
}

// badTexts are texts with an empty word.
var badTexts = []string{"", " ", "  ", "   ", " a", "a ", "  a", "a  ", "a  b", "a b ", " a b", "a b  c", "a  b c", "new ", " new", "n  m", "a   b", "\u00a0 ", " \t", "ab  ", "日本 ", " 😀"}

// longBad makes a long text with one bad place.
func longBad(r *rand.Rand, i int) string {
	n := []int{40, 100, 300, 700, 1100, 2100, 4200, 5500}[r.Intn(8)]
	var t []byte
	for len(t) < n {
		t = append(t, "abc"[r.Intn(3)])
		switch i % 3 { // one word, many short words, longer words
		case 1:
			if len(t)%(2+r.Intn(3)) == 1 && t[len(t)-1] != ' ' {
				t = append(t, ' ')
			}
		case 2:
			if r.Intn(20) == 0 {
				t = append(t, ' ')
			}
		}
	}
	t = bytes.TrimSpace(t)
	k := []int{0, 1, len(t) / 2, len(t) - 1, len(t), r.Intn(len(t)), r.Intn(len(t))}[r.Intn(7)]
	x := invalid[r.Intn(len(invalid))]
	if i%2 == 0 {
		x = "  "
	}
	b := string(t[:k]) + x + string(t[k:])
	if validText(b) {
		return b + " "
	}
	return b
}

func init() {
	register(&Check{
		ID: "C02", Level: "exploration",
		Rule:   "every creating operation with every form of a text with an empty word or with bytes that are no UTF-8, in object and property, interleaved at random points of generated histories (also as the very first operation; also long ones, of up to 5500 bytes, with one bad place anywhere in them), next to a twin history without them; an evaluation is one refused operation with all earlier remarks observed before and after; distinct by operation and texts",
		Assume: []string{"a failing storage is the subject of C13 and C14"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C02", pick(tier, 500, 6000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Bad = 10
				p.Reopen = 1
				ops := genOps(r, 6+r.Intn(26), p)
				// what was refused comes back in a valid form
				var out []Op
				for _, o := range ops {
					out = append(out, o)
					if strings.HasPrefix(o.K, "bad") && r.Intn(2) == 0 {
						o.K = o.K[3:]
						o.O, o.P = valid(o.O), valid(o.P)
						out = append(out, o)
					}
				}
				cs = append(cs, Case{Kind: "twin", Seed: s, Cfg: cfgFor(i), Ops: out})
			}
			for i, s := range seeds(seed, "C02l", pick(tier, 64, 480)) {
				// long texts, with one bad place anywhere in them
				r := rand.New(rand.NewSource(s))
				g := &textGen{r: r}
				ops := []Op{{K: "story", O: "a b", P: "c"}, {K: "fact", O: "a", P: "new"}, {K: "child", T: 1, O: "n m", P: "a"}}
				for j := 0; j < 2; j++ {
					k := []string{"badstory", "badfact", "badremark", "badchild"}[r.Intn(4)]
					op := Op{K: k, T: r.Intn(3), O: g.text(), P: g.text()}
					b := longBad(r, i+5*j)
					if k == "badremark" || r.Intn(2) == 0 {
						op.P = b
					} else {
						op.O = b
					}
					ops = append(ops, op)
					if r.Intn(2) == 0 {
						op.K, op.O, op.P = k[3:], valid(op.O), valid(op.P)
						ops = append(ops, op)
					}
				}
				ops = append(ops, Op{K: "story", O: "a", P: "b"}, Op{K: "fact", T: 1, O: "n", P: "m"})
				cs = append(cs, Case{Kind: "twin", Seed: s, Cfg: cfgFor(i), Ops: ops})
			}
			for _, k := range []string{"badstory", "badfact", "badremark", "badchild"} {
				for _, b := range append(append(badTexts, invalid...), "a\xff", "\xffa", "a b\xff", "a \xff b", "new\xc3 a", "n\x80m", "\ufffd\xff", "a \xe6\x97") {
					for pos := 0; pos < 3; pos++ {
						op := Op{K: k, O: "a", P: "b"}
						if pos != 1 {
							op.O = b
						}
						if pos != 0 {
							op.P = b
						}
						if k == "badremark" && pos == 0 {
							continue
						}
						pre := []Op{{K: "story", O: "a b", P: "c"}, {K: "fact", O: "a", P: "new"}, {K: "child", T: 1, O: "n m", P: "a"}, {K: "remark", T: 1, P: "b c"}}
						post := []Op{{K: "story", O: "a", P: "b"}, {K: "fact", T: 1, O: "n", P: "m"}, {K: "remark", T: 0, P: "new x"}, {K: "child", T: 0, O: "new a", P: "a b c"}}
						op.T = 2
						cs = append(cs, Case{Kind: "twin", Seed: seed, Ops: append(append(append([]Op{}, pre...), op, op), post...)})
						if k == "badstory" {
							cs = append(cs, Case{Kind: "twin", Seed: seed, Ops: append([]Op{op, {K: "reopen"}, op}, pre...)})
						}
					}
				}
			}
			for _, s := range seeds(seed, "C02l", pick(tier, 20, 100)) { // the empty word far behind
				r := rand.New(rand.NewSource(s))
				n := 5 + r.Intn(pick(tier, 120, 500))
				g := newTextGen(r)
				ws := make([]string, n)
				for i := range ws {
					ws[i] = g.word()
				}
				good := strings.Join(ws, " ")
				ws[1+r.Intn(n-1)] = ""
				if r.Intn(2) == 0 {
					ws[n-1] += invalid[r.Intn(len(invalid))]
				}
				bad := strings.Join(ws, " ")
				cs = append(cs, Case{Kind: "twin", Seed: s, Ops: []Op{{K: "story", O: "a", P: "b"}, {K: "badstory", O: bad, P: "x"}, {K: "badremark", P: bad}, {K: "badfact", O: "q", P: bad}, {K: "fact", O: good, P: good}, {K: "badchild", T: 1, O: bad, P: bad}, {K: "child", T: 1, O: good, P: "x"}}})
			}
			return
		},
		Run: func(c Case, st *Stats) {
			a := newWorld(c.Cfg, st, c.Seed)
			b := newWorld(c.Cfg, st, c.Seed)
			snapshot := func() (out []Obs) {
				for _, m := range a.rems {
					out = append(out, a.observe(a.get(m, 1, 0), FAll, 0))
				}
				return
			}
			var before []Obs
			for _, op := range c.Ops {
				if strings.HasPrefix(op.K, "bad") {
					if before == nil {
						before = snapshot()
					}
					a.apply(op)
					after := snapshot()
					for i := range before {
						if d := diffObs(after[i], before[i]); d != "" {
							fail("after refused %s %s %s remark #%d shows %s", op.K, short(op.O), short(op.P), i, d)
						}
					}
					st.eval(sig(op.K, op.O, "|", op.P, len(a.rems) > 0), true)
					continue
				}
				a.apply(op)
				b.apply(op)
				before = nil
			}
			if len(a.rems) != len(b.rems) {
				fail("the histories with and without refused operations differ: %d and %d remarks", len(a.rems), len(b.rems))
			}
			a.checkAll(FModel)
			b.checkAll(FModel)
			for i := range a.rems {
				x, y := a.render(a.get(a.rems[i], i, 0), 0), b.render(b.get(b.rems[i], i, 0), 0)
				if x != y {
					fail("remark #%d renders %s after refused operations and %s without", i, short(x), short(y))
				}
			}
			if a.mem != nil {
				st.state(a.mem.Digest())
			}
		},
	})

	register(&Check{
		ID: "C03", Level: "exploration",
		Rule:   "generated histories; after every few steps every node of the storage and numbers outside it are fetched: identifiers of remarks have to give that remark (same answers as the value kept since creation), all others an error; an evaluation is one identifier fetched; distinct by kind of node, storage and size class",
		Assume: []string{"identifiers of nodes left behind by failed or refused operations are not asked for"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C03", pick(tier, 900, 8000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open = 1, 1
				cfg := store.Config{Lenient: i%3 == 1, IDs: []int{0, 0, 1, 2, 3, 4, 5, 6}[i%8]}
				if i%11 == 10 {
					cfg = store.Config{Backend: "clew"}
				}
				cs = append(cs, Case{Kind: "history", Seed: s, Cfg: cfg, Ops: genOps(r, 5+r.Intn(30), p)})
			}
			for _, s := range seeds(seed, "C03n", pick(tier, 3, 10)) {
				cs = append(cs, Case{Kind: "many", Seed: s, N: pick(tier, 2500, 12000)})
			}
			return
		},
		Run: runC03,
	})
}

func runC03(c Case, st *Stats) {
	w := newWorld(c.Cfg, st, c.Seed)
	r := rand.New(rand.NewSource(c.Seed))
	ids := map[uint]*MRem{}
	classOf := func(id uint) string {
		if w.mem == nil {
			return "?"
		}
		return fmt.Sprint(len(w.mem.RawTargets(id)), len(w.mem.RawSources(id)) > 0, w.mem.Known(id))
	}
	refuse := func(id uint) {
		var out semnet.Remark
		err, pan, _ := w.call("GetRemark", func(m *store.Mon) { m.Allowed, m.IsOwn = id, true }, func() error {
			var err error
			out, err = w.handle(r.Intn(6)).GetRemark(id)
			return err
		})
		if pan != nil {
			fail("fetching %d, which is no remark, panicked: %v [%s]", id, pan.val, trimStack(pan.stack))
		}
		if err == nil {
			_ = out
			fail("fetching %d, which is no remark, succeeded", id)
		}
		st.eval(sig("no", classOf(id), c.Cfg, log2(len(w.rems))), len(w.rems) > 0)
	}
	sweep := func() {
		for _, m := range w.rems {
			x := w.observe(w.get(m, 1, r.Intn(6)), FAll, 0)
			if x.ID != m.id {
				fail("fetching %d gives a remark with identifier %d", m.id, x.ID)
			}
			if d := diffObs(x, w.observe(w.get(m, 0, 0), FAll, 0)); d != "" {
				fail("remark #%d fetched by %d shows %s", m.idx, m.id, d)
			}
			if d := diffObs(w.observe(w.get(m, 4, 0), FModel, 0), m.expect(FModel)); d != "" {
				fail("remark #%d fetched by %d through a new handle shows %s", m.idx, m.id, d)
			}
			st.eval(sig("yes", m.o, m.p, c.Cfg), len(w.rems) > 1)
		}
		if w.mem != nil {
			for _, id := range w.mem.AllIDs() {
				if ids[id] == nil {
					refuse(id)
				}
			}
			n := w.mem.Len()
			for _, id := range []uint{0, uint(n) + 1, w.mem.ExtID(n + 1), w.mem.ExtID(n + 100), ^uint(0), 1 << 63, 1 << 32} {
				if ids[id] == nil {
					refuse(id)
				}
			}
		} else {
			// the storage of the project's tests also uses numbers for
			// connections, so only its nodes are asked for
			for id := range w.mon.Known {
				if ids[id] == nil {
					refuse(id)
				}
			}
			refuse(0)
			refuse(1 << 40)
		}
	}
	add := func(op Op) {
		m := w.apply(op)
		if m == nil {
			return
		}
		if old := ids[m.id]; old != nil {
			fail("remarks #%d and #%d have the same identifier %d", old.idx, m.idx, m.id)
		}
		if m.id == 0 {
			fail("remark #%d has identifier 0", m.idx)
		}
		ids[m.id] = m
	}
	if c.Kind == "many" {
		p := mixed
		for len(w.rems) < c.N {
			for _, op := range genOps(r, 200, p) {
				op.T += r.Intn(len(w.rems) + 1)
				add(op)
			}
		}
		for _, m := range w.rems {
			if got := w.observe(w.get(m, 1, 0), FID|FText|FFirst, 0); diffObs(got, m.expect(FID|FText|FFirst)) != "" {
				fail("remark #%d: %s", m.idx, diffObs(got, m.expect(FID|FText|FFirst)))
			}
		}
		for _, i := range r.Perm(w.mem.Len())[:4000] {
			if id := w.mem.ExtID(i + 1); ids[id] == nil {
				refuse(id)
			}
		}
		return
	}
	for i, op := range c.Ops {
		add(op)
		if i < 3 || r.Intn(8) == 0 {
			sweep()
		}
	}
	sweep()
	w.reopen()
	sweep()
	if w.mem != nil {
		st.state(w.mem.Digest())
	}
}

// C10: what the tries have to contain, from the texts alone.
type vocab struct {
	bits, words, phrases, pairs map[string]bool
}

func newVocab() *vocab {
	return &vocab{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

func (v *vocab) addCharacter(c rune) {
	b := fmt.Sprintf("%b", c)
	for k := range b {
		v.bits[b[:k+1]] = true
	}
}

func (v *vocab) addWord(w string) {
	rs := []rune(w)
	for j, c := range rs {
		v.words[string(rs[:j+1])] = true
		v.addCharacter(c)
	}
}

func (v *vocab) addPhrase(t string) {
	ws := strings.Split(t, " ")
	for i, w := range ws {
		v.phrases[strings.Join(ws[:i+1], " ")] = true
		v.addWord(w)
	}
}

func (v *vocab) add(o, p string) {
	v.addPhrase(o)
	v.addPhrase(p)
	v.pairs[fmt.Sprintf("%q %q", o, p)] = true
}

const (
	classBit = 1 + iota
	classCharacter
	classWord
	classPhrase
	classDetail
	classRemark
	classFact
	classStory
)

func (w *World) members(class uint) []uint { return w.mem.RawSources(class) }

func init() {
	register(&Check{
		ID: "C10", Level: "exploration",
		Rule:   "multisets of related texts in several orders of arrival, pairs that are equal when joined by some sign; after every operation the members of the character, word, phrase and detail classes are counted and compared with the distinct bit, word and phrase beginnings and pairs of the texts used so far, growth by known pairs is compared with that of other known pairs, and all texts are read back; an evaluation is one operation with its counts; distinct by texts, trivial in an otherwise empty graph",
		Assume: []string{"class members are the connections into the first eight nodes in the order bit, character, word, phrase, detail, remark, fact, story, as stored graphs have them", "no failed or refused operations in the history (these may leave unused nodes)"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C10", pick(tier, 500, 6000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open = 1, 1
				p.Long = i%3 == 0
				if i%4 == 0 {
					p.SmallPool = 3 + r.Intn(6)
				}
				cs = append(cs, Case{Kind: "index", Seed: s, Ops: genOps(r, 10+r.Intn(60), p)})
			}
			for _, s := range seeds(seed, "C10o", pick(tier, 60, 600)) {
				cs = append(cs, Case{Kind: "order", Seed: s, N: 10 + int(s%30)})
			}
			for i, s := range seeds(seed, "C10f", pick(tier, 8, 24)) {
				n := pick(tier, 300, 1500)
				if i < 4 {
					n = pick(tier, 1100, 2200)
				}
				cs = append(cs, Case{Kind: "fan", Seed: s, N: n, M: i % 5})
			}
			for m := 0; m < 6; m++ {
				cs = append(cs, Case{Kind: "joined", Seed: seed, N: 6, M: m})
			}
			for i := range colliding() {
				cs = append(cs, Case{Kind: "collide", Seed: seed + int64(i), N: i})
			}
			for lo := 0; lo < len(forms()); lo += 500 {
				for m := 0; m < pick(tier, 1, 4); m++ {
					cs = append(cs, Case{Kind: "forms", Seed: seed + int64(lo), N: lo, M: (lo/500 + m) % 4})
				}
			}
			return
		},
		Run: runC10,
	})

	register(&Check{
		ID: "C11", Level: "exploration",
		Rule:   "generated histories with equal and different texts, several handles and reopening; after every operation the members of the remark, fact and story classes are compared with the model, and regularly every node is looked up in all classes; an evaluation is one operation with the classes compared; distinct by operation, texts and number of remarks",
		Assume: []string{"class members are the connections into the first eight nodes in the order bit, character, word, phrase, detail, remark, fact, story, as stored graphs have them", "no failed or refused operations in the history (these may leave unused nodes)"},
		Cases: func(tier string, seed int64) (cs []Case) {
			for i, s := range seeds(seed, "C11", pick(tier, 3000, 20000)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Open, p.Read = 1, 1, 4
				if i%3 == 0 {
					p.SmallPool = 1 + r.Intn(4)
				}
				cs = append(cs, Case{Kind: "history", Seed: s, Ops: genOps(r, 10+r.Intn(60), p)})
			}
			for _, s := range seeds(seed, "C11m", pick(tier, 6, 20)) {
				r := rand.New(rand.NewSource(s))
				p := mixed
				p.Reopen, p.Read = 1, 3
				p.SmallPool = 8
				cs = append(cs, Case{Kind: "large", Seed: s, Ops: genOps(r, pick(tier, 900, 4000), p)})
			}
			return
		},
		Run: func(c Case, st *Stats) {
			w := newWorld(c.Cfg, st, c.Seed)
			facts := 0
			for i, op := range c.Ops {
				m := w.apply(op)
				if m != nil && m.first() {
					facts++
				}
				if len(w.rems) == 0 {
					continue
				}
				got := [3]int{len(w.members(classRemark)), len(w.members(classFact)), len(w.members(classStory))}
				want := [3]int{len(w.rems), facts, len(w.stories)}
				if got != want {
					fail("after %s the remark, fact and story classes have %v members instead of %v", op, got, want)
				}
				if c.Kind == "history" || i%100 == 0 || i == len(c.Ops)-1 {
					ids := map[uint]bool{}
					for _, m := range w.rems {
						ids[m.id] = true
					}
					for _, id := range w.members(classRemark) {
						if !ids[id] {
							fail("after %s node %d is in the remark class but is no remark", op, id)
						}
						delete(ids, id)
					}
					if len(ids) != 0 {
						fail("after %s remarks %v are not in the remark class", op, ids)
					}
					in := map[uint]uint{}
					for k := uint(classBit); k <= classStory; k++ {
						for _, id := range w.members(k) {
							if in[id] != 0 {
								fail("after %s node %d is registered in classes %d and %d", op, id, in[id], k)
							}
							in[id] = k
						}
					}
					st.state(w.mem.Digest())
				}
				st.eval(sig(op.K, op.O, "|", op.P, len(w.rems)), len(w.rems) > 1)
			}
		},
	})
}

// formPairs are texts in which characters meet their other forms.
func formPairs(c Case) (ps [][2]string) {
	lines := forms()[c.N:]
	if len(lines) > 500 {
		lines = lines[:500]
	}
	for _, l := range lines {
		fs := strings.Split(l, " ")
		for i, f := range fs[1:] {
			switch c.M {
			case 0: // as words
				ps = append(ps, [2]string{fs[0], f})
			case 1: // in words
				ps = append(ps, [2]string{"q" + fs[0], "q" + f + "q"})
			case 2: // in phrases, the other form first
				ps = append(ps, [2]string{f + " q", "q " + fs[0]})
			case 3: // repeated
				ps = append(ps, [2]string{fs[0] + fs[0] + f, fs[i] + f + fs[0] + " " + f})
			}
		}
	}
	return
}

func runC10(c Case, st *Stats) {
	r := rand.New(rand.NewSource(c.Seed))
	count := func(w *World, v *vocab, op string) {
		got := [4]int{len(w.members(classCharacter)), len(w.members(classWord)), len(w.members(classPhrase)), len(w.members(classDetail))}
		want := [4]int{len(v.bits), len(v.words), len(v.phrases), len(v.pairs)}
		if got != want {
			fail("after %s there are %v characters, words, phrases and details instead of %v", op, got, want)
		}
	}
	known := map[string]int{} // growth by a known pair, by kind of operation
	grow := func(w *World, v *vocab, op Op) {
		before := w.mem.Len()
		t := w.target(op.T)
		if op.K == "remark" && t != nil {
			op.O = t.o
		}
		isKnown := v.pairs[fmt.Sprintf("%q %q", op.O, op.P)]
		m := w.apply(op)
		if m == nil {
			return
		}
		v.add(m.o, m.p)
		count(w, v, op.String())
		if isKnown {
			d := w.mem.Len() - before
			k := op.K
			if old, ok := known[k]; ok && old != d {
				fail("%s with a known pair added %d nodes, before it added %d", op, d, old)
			}
			known[k] = d
			if d > 40 {
				fail("%s with a known pair added %d nodes", op, d)
			}
		}
		st.eval(sig(op.K, m.o, "|", m.p, isKnown), len(w.rems) > 1)
	}
	readBack := func(w *World) {
		for _, m := range w.rems {
			w.textOf(m, 1, 0)
		}
		st.state(w.mem.Digest())
	}
	switch c.Kind {
	case "index":
		w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
		for _, op := range c.Ops {
			grow(w, v, op)
		}
		readBack(w)
		// everything again, through a new handle
		w.reopen()
		n := len(w.rems)
		for i := 0; i < n && i < 25; i++ {
			m := w.rems[r.Intn(n)]
			grow(w, v, Op{K: []string{"story", "fact", "child"}[r.Intn(3)], T: r.Intn(n), O: m.o, P: m.p})
		}
		readBack(w)
	case "order":
		g := newTextGen(r)
		var ps [][2]string
		for len(ps) < c.N {
			o, p := g.pair()
			ps = append(ps, [2]string{o, p})
		}
		size := -1
		for k := 0; k < 4; k++ {
			w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
			switch k {
			case 1:
				sort.Slice(ps, func(i, j int) bool { return fmt.Sprint(ps[i]) < fmt.Sprint(ps[j]) })
			case 2:
				sort.Slice(ps, func(i, j int) bool { return fmt.Sprint(ps[i]) > fmt.Sprint(ps[j]) })
			case 3:
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			}
			for _, x := range ps {
				grow(w, v, Op{K: "story", O: x[0], P: x[1]})
			}
			readBack(w)
			if size >= 0 && w.mem.Len() != size {
				fail("%d pairs make %d nodes in one order and %d in another", len(ps), size, w.mem.Len())
			}
			size = w.mem.Len()
		}
	case "collide":
		w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
		for round := 0; round < 2; round++ {
			for _, x := range collidingTexts(c.N) {
				grow(w, v, Op{K: "story", O: x[0], P: x[1]})
			}
		}
		readBack(w)
	case "forms":
		w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
		for _, x := range formPairs(c) {
			grow(w, v, Op{K: "story", O: x[0], P: x[1]})
		}
		readBack(w)
	case "joined":
		w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
		for i, x := range joints() {
			if i%c.N == c.M {
				for _, p := range joined(x) {
					grow(w, v, Op{K: "story", O: p[0], P: p[1]})
				}
			}
		}
		readBack(w)
	case "fan":
		w, v := newWorld(c.Cfg, st, c.Seed), newVocab()
		for round := 0; round < 2; round++ {
			for i := 0; i < c.N; i++ {
				x := string(rune(0x4e00 + i))
				switch c.M {
				case 0:
					grow(w, v, Op{K: "story", O: "ab" + x, P: "q"})
				case 1:
					grow(w, v, Op{K: "story", O: "ab " + x, P: x})
				case 2:
					grow(w, v, Op{K: "story", O: "ab", P: x})
				case 3:
					grow(w, v, Op{K: "story", O: x + " ab", P: "ab"})
				case 4: // many pairs on both sides
					for k, o := range []string{"ab", "ac", "ad"} { // the pair of both first, in between, and last
						if i == k*(c.N-1)/2 {
							grow(w, v, Op{K: "story", O: o, P: o})
						}
						grow(w, v, Op{K: "story", O: o, P: x})
						grow(w, v, Op{K: "story", O: x, P: o})
					}
				}
			}
		}
		readBack(w)
	}
}

// spread gives the cases that name no storage different ones: lists in other
// orders, other identifiers, and reading unknown nodes without an error.
func spread(id string, cs []Case) []Case {
	orders := 0
	switch id {
	case "C01", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C22", "C23", "C24", "C25", "C32":
		orders = 4
	case "C02", "C13", "C14", "C15", "C16", "C27":
		orders = 3 // runs are compared with each other
	default:
		return cs
	}
	for i := range cs {
		if cs[i].Cfg != (store.Config{}) {
			continue
		}
		x := uint32(i+1) * 2654435761
		n := orders
		switch cs[i].Kind {
		case "large", "long", "many", "fan", "deep", "plain", "chain", "joined", "runes", "runesample", "forms":
			n = 2 // anything else takes long with long lists
		}
		if x>>5%4 == 0 {
			continue
		}
		cs[i].Cfg = store.Config{Order: int(x >> 7 % uint32(n)), IDs: int(x >> 13 % store.IDKinds), Lenient: x>>19%2 == 1}
	}
	return cs
}
