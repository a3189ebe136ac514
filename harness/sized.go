//go:build go1.22

package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// The constants of the source tell where its behaviour may change: its numbers
// are tried as sizes and as characters, its strings as words. They only choose
// what is tried; what is right is decided as ever.
var source struct {
	once  sync.Once
	ints  []int
	words []string
	runes []rune
}

func sourceConstants() {
	source.once.Do(readSource)
}

func readSource() {
	root := os.Getenv("SEMNET")
	if root == "" {
		root = "/repo"
	}
	ints, words, runes := map[int]bool{}, map[string]bool{}, map[rune]bool{}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && path != root && (strings.HasPrefix(d.Name(), ".") || d.Name() == "mock" || d.Name() == "zzverif") {
			return fs.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := fold(e)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.String:
				for _, w := range strings.Fields(constant.StringVal(v)) {
					if utf8.ValidString(w) && len(w) < 100 {
						words[w] = true
						for _, x := range w {
							if x >= utf8.RuneSelf {
								runes[x] = true
							}
						}
					}
				}
			case constant.Int, constant.Float:
				if i, ok := constant.Int64Val(constant.ToInt(v)); ok && i > 2 {
					ints[int(i)] = true
					if i > 32 && i <= 0x10ffff && isScalar(rune(i)) {
						runes[rune(i)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for i := range ints {
		source.ints = append(source.ints, i)
	}
	for w := range words {
		source.words = append(source.words, w)
	}
	for x := range runes {
		source.runes = append(source.runes, x)
	}
	sort.Ints(source.ints)
	sort.Strings(source.words)
	sort.Slice(source.runes, func(i, j int) bool { return source.runes[i] < source.runes[j] })
	if len(source.words) > 300 {
		source.words = source.words[:300]
	}
	for len(source.runes) > 400 { // of a table every second one will do
		half := source.runes[:0]
		for i := 0; i < len(source.runes); i += 2 {
			half = append(half, source.runes[i])
		}
		source.runes = half
	}
}

// fold is the value of an expression of literals, nil if it is none.
func fold(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if v = constant.MakeFromLiteral(e.Value, e.Kind, 0); v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL:
			n, ok := constant.Uint64Val(y)
			if !ok || n > 63 {
				return nil
			}
			return constant.Shift(x, e.Op, uint(n))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// sizes are the numbers of the source in a range, the largest if they are many.
func sizes(lo, hi, most int) (out []int) {
	sourceConstants()
	for _, i := range source.ints {
		if i >= lo && i <= hi {
			out = append(out, i)
		}
	}
	if len(out) > most {
		out = out[len(out)-most:]
	}
	return
}

// variables are the environment variables the source may ask for, all set.
func variables() (out []string) {
	sourceConstants()
	for _, w := range source.words {
		if variable.MatchString(w) && !strings.HasPrefix(w, "GO") {
			out = append(out, w+"=1")
		}
	}
	return
}

var variable = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,}$`)

// sourceWord is a word of the source, or one with something around it.
func sourceWord(r *rand.Rand) string {
	w := source.words[r.Intn(len(source.words))]
	switch r.Intn(8) {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToLower(w)
	case 2:
		w += "x"
	case 3:
		w = "x" + w
	case 4:
		w += w
	}
	return w
}

// sourceRune is a character of the source, or one next to it.
func sourceRune(r *rand.Rand) rune {
	i := r.Intn(len(source.runes))
	x := source.runes[i]
	switch r.Intn(5) {
	case 0:
		x++
	case 1:
		x--
	case 2:
		x += rune(r.Intn(32))
	case 3:
		if i+1 < len(source.runes) {
			x += rune(r.Intn(int(source.runes[i+1] - x)))
		}
	}
	if !isScalar(x) || x == ' ' {
		return source.runes[i]
	}
	return x
}

// The checks are registered by files that come before.
func init() {
	add := func(id string, more func(tier string, seed int64, all []Case) []Case) {
		c := checks[id]
		if c == nil {
			return
		}
		cases := c.Cases
		c.Cases = func(tier string, seed int64) []Case {
			all := cases(tier, seed)
			return append(all, more(tier, seed, all)...)
		}
	}
	// the first case of a kind again, with other numbers
	like := func(all []Case, kind string, lo, hi, most int, change func(c *Case, n int)) (cs []Case) {
		for _, n := range sizes(lo, hi, most) {
			for _, c := range all {
				if c.Kind == kind {
					change(&c, n)
					cs = append(cs, c)
					break
				}
			}
		}
		return
	}
	for id := range lookedAt {
		add(id, func(tier string, seed int64, all []Case) []Case {
			return like(all, "life", 3900, 12000, 2, func(c *Case, n int) { c.N = n + 100 })
		})
	}
	for _, id := range []string{"C04", "C05", "C06", "C07", "C09"} {
		add(id, func(tier string, seed int64, all []Case) []Case {
			return like(all, "asked", 1000, 20000, 2, func(c *Case, n int) { c.N = n + 50 })
		})
	}
	add("C01", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(3, 70000, 6) {
			for d := -1; d <= 1; d++ {
				for _, m := range []int{n + d, 2*n + d} {
					if m < 100000 {
						cs = append(cs, Case{Kind: "long", Seed: seed + int64(m), N: m})
					}
					if m <= 12000 {
						cs = append(cs, Case{Kind: "long", Seed: seed + int64(m), N: m, M: 1})
					}
				}
			}
		}
		for m := 0; m < 5; m++ {
			for _, n := range sizes(1000, 4200, 2) {
				cs = append(cs, Case{Kind: "fan", Seed: seed + int64(n+m), N: n + 10, M: m})
			}
		}
		cs = append(cs, like(all, "many", 2900, 12000, 1, func(c *Case, n int) { c.N = n + 50 })...)
		return append(cs, Case{Kind: "source", Seed: seed}, Case{Kind: "source", Seed: seed, M: 1})
	})
	add("C02", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(3, 20000, 4) {
			for k := 0; k < 4; k++ {
				ws := strings.Split(strings.Repeat("a b c ", n/3+2)[:2*n+1], " ")
				good := strings.Join(ws, " ")
				at := 1 + rand.New(rand.NewSource(seed+int64(n+k))).Intn(len(ws)-1)
				if k%2 == 0 {
					at = len(ws) - 1 - k/2
				}
				ws[at] = ""
				bad := strings.Join(ws, " ")
				if k == 3 {
					good = strings.Repeat("ab", n/2+1)
					bad = good + "\xff"
				}
				cs = append(cs, Case{Kind: "twin", Seed: seed, Ops: []Op{{K: "story", O: "a", P: "b"}, {K: "badstory", O: bad, P: "x"}, {K: "badremark", P: bad}, {K: "badfact", O: "q", P: bad}, {K: "fact", O: good, P: "x"}, {K: "badchild", T: 1, O: bad, P: bad}, {K: "child", T: 1, O: good, P: "x"}}})
			}
		}
		return
	})
	add("C03", func(tier string, seed int64, all []Case) []Case {
		return like(all, "many", 2400, 12000, 2, func(c *Case, n int) { c.N = n + 50 })
	})
	add("C04", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(1000, 70000, 3) {
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("fact", n+5, max(1, n/5))})
		}
		for _, n := range sizes(1000, 4500, 2) {
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("fact", n+5, 1)})
		}
		return
	})
	add("C05", func(tier string, seed int64, all []Case) (cs []Case) {
		for i, n := range sizes(450, 5000, 3) {
			cs = append(cs, Case{Kind: "large", Seed: seed + int64(i), Ops: grown(rand.New(rand.NewSource(seed+int64(i))), n+50, "remark", 0)})
		}
		return
	})
	add("C06", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(3, 30000, 4) {
			cs = append(cs, Case{Kind: "chain", Seed: seed, N: n + 3})
		}
		for _, n := range sizes(200, 70000, 3) {
			cs = append(cs, Case{Kind: "history", Seed: seed, Ops: []Op{{K: "story", O: strings.Repeat("ab", n/2+3), P: "c"}, {K: "fact", O: "d", P: strings.TrimSpace(strings.Repeat("de ", min(n/3+3, 8000)))}, {K: "story", O: "d", P: strings.Repeat("c", n)}}})
		}
		return
	})
	add("C07", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(280, 3000, 3) {
			cs = append(cs, Case{Kind: "large", Seed: seed, Ops: long("child", n+5, 200)}, Case{Kind: "deep", Seed: seed, Ops: nested(n + 5)})
		}
		return
	})
	add("C23", func(tier string, seed int64, all []Case) (cs []Case) {
		for _, n := range sizes(140, 2500, 3) {
			ops := []Op{{K: "story", O: "a", P: "b"}, {K: "child", T: 0, O: "a", P: "b"}}
			for len(ops) < n+10 {
				ops = append(ops, Op{K: "child", T: 1, O: "a", P: "b"})
			}
			cs = append(cs, Case{Kind: "wide", Seed: seed, Ops: ops}, Case{Kind: "deep", Seed: seed, Ops: nested(n + 5)})
		}
		return
	})
	add("C10", func(tier string, seed int64, all []Case) (cs []Case) {
		for m := 0; m < 5; m++ {
			for _, n := range sizes(280, 4200, 2) {
				cs = append(cs, Case{Kind: "fan", Seed: seed, N: n + 10, M: m})
			}
		}
		return
	})
	add("C21", func(tier string, seed int64, all []Case) (cs []Case) {
		cs = like(all, "steady", 2000, 12000, 2, func(c *Case, n int) { c.N = n + 200 })
		cs = append(cs, like(all, "elsewhere", 3500, 20000, 2, func(c *Case, n int) { c.N = n + 500 })...)
		return append(cs, like(all, "growth", 400, 4000, 2, func(c *Case, n int) { c.N = n * 5 / 4 })...)
	})
	add("C25", func(tier string, seed int64, all []Case) (cs []Case) {
		for m := 0; m < 6; m++ {
			cs = append(cs, like(all, "wide", 300, 1500, 2, func(c *Case, n int) { c.N, c.M = n+20, m })...)
		}
		return
	})
	add("C31", func(tier string, seed int64, all []Case) []Case {
		return like(all, "outside", 2500, 20000, 2, func(c *Case, n int) { c.N = n/150 + 2 })
	})
}

// nested are children of children.
func nested(n int) (ops []Op) {
	ops = []Op{{K: "story", O: "a", P: "b"}}
	for i := 0; i < n; i++ {
		ops = append(ops, Op{K: "child", T: i, O: "a", P: "b"})
	}
	return
}
