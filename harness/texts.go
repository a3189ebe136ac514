//go:build go1.22

package main

import (
	"math/rand"
	"strings"
)

// Alphabets whose members are prefixes of each other in binary ('0' is a
// beginning of '`', '1' of 'b'), differ in length of their binary form, or
// are what text processing likes to change.
var alphabets = [][]rune{
	[]rune("0`"),
	[]rune("1b"),
	[]rune("a\x30\x18\x0c\x06\x03\x01"), // every one a beginning of the one before, up to 0x60/0x61
	[]rune("ab"),
	[]rune("abc"),
	[]rune("abcdefghijklmnopqrstuvwxyz"),
	[]rune("ABCabc"),
	[]rune("0123456789"),
	[]rune("\t\n\v\f\r\u0085\u00a0\u2003\u3000\u200b\ufeff"),
	[]rune("éèêe\u0301\u0300n\u0303ñÅ\u212b"),
	[]rune("жизньеЁё"),
	[]rune("日本語漢字かな"),
	[]rune("😀😁🏳️‍🌈👩‍👩‍👧"),
	[]rune("\x00\x01\x02\x03\x04\x05\x06\x07\x08\x7f"),
	[]rune("\u007f\u0080\u07ff\u0800\ud7ff\ue000\ufffd\ufffe\uffff\U00010000\U0010ffff"),
	[]rune(".,;:!?'\"()[]{}<>/\\|-_=+*&^%$#@~"),
	[]rune("ａＡßſKıİiI"),
	[]rune("ابتثم\u200f"),
}

func randRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(6) {
		case 0:
			c = rune(r.Intn(0x80))
		case 1:
			c = rune(r.Intn(0x800))
		case 2:
			c = rune(r.Intn(0x10000))
		case 3:
			c = rune(0x10000 + r.Intn(0x100000))
		case 4: // around a power of two
			c = rune(1)<<uint(r.Intn(21)) + rune(r.Intn(3)) - 1
		case 5:
			c = 'a' + rune(r.Intn(26))
		}
		if c == ' ' || c < 0 || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff) {
			continue
		}
		return c
	}
}

type textGen struct {
	r     *rand.Rand
	alpha []rune
	past  []string // texts made before
	words []string
	long  bool
	only  bool // no characters but those of alpha
}

func newTextGen(r *rand.Rand) *textGen {
	g := &textGen{r: r}
	if sourceConstants(); len(source.runes) > 0 && r.Intn(8) == 0 {
		for i := 0; i < 6; i++ {
			g.alpha = append(g.alpha, sourceRune(r), 'a'+rune(i))
		}
	} else if r.Intn(4) != 0 {
		g.alpha = alphabets[r.Intn(len(alphabets))]
		if r.Intn(3) == 0 {
			g.alpha = append(append([]rune{}, g.alpha...), alphabets[r.Intn(len(alphabets))]...)
		}
	}
	return g
}

func (g *textGen) rune() rune {
	if g.alpha == nil {
		return randRune(g.r)
	}
	return g.alpha[g.r.Intn(len(g.alpha))]
}

func (g *textGen) fresh(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(g.rune())
	}
	return b.String()
}

func (g *textGen) word() string {
	r := g.r
	var w string
	if len(g.words) > 0 && r.Intn(3) != 0 {
		base := []rune(g.words[r.Intn(len(g.words))])
		switch r.Intn(9) {
		case 0: // the same
			w = string(base)
		case 1: // a beginning
			w = string(base[:1+r.Intn(len(base))])
		case 2: // a continuation
			w = string(base) + g.fresh(1+r.Intn(3))
		case 3: // an end
			w = string(base[r.Intn(len(base)):])
		case 4: // the last character replaced
			base[len(base)-1] = g.rune()
			w = string(base)
		case 5: // reversed
			for i, j := 0, len(base)-1; i < j; i, j = i+1, j-1 {
				base[i], base[j] = base[j], base[i]
			}
			w = string(base)
		case 6: // shuffled: same characters, other order
			r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
			w = string(base)
		case 7: // doubled
			w = string(base) + string(base)
		case 8: // one character replaced anywhere
			base[r.Intn(len(base))] = g.rune()
			w = string(base)
		}
	} else if !g.only && r.Intn(12) == 0 {
		w = special[r.Intn(len(special))]
		switch r.Intn(4) {
		case 0:
			q := quotes[r.Intn(len(quotes))]
			w = q[0] + w + q[1]
		case 1:
			w += special[r.Intn(len(special))]
		}
		if sourceConstants(); len(source.words) > 0 && r.Intn(3) == 0 {
			w = sourceWord(r)
		}
	} else {
		n := 1 + r.Intn(4)
		switch r.Intn(20) {
		case 0:
			n = 8 + r.Intn(30)
		case 1:
			if g.long {
				n = 60 + r.Intn(300)
			}
		}
		w = g.fresh(n)
	}
	if len([]rune(w)) > 700 {
		w = string([]rune(w)[:700])
	}
	if len(g.words) < 200 {
		g.words = append(g.words, w)
	}
	return w
}

func (g *textGen) freshText() string {
	n := 1
	switch g.r.Intn(8) {
	case 0, 1:
		n = 2
	case 2:
		n = 3
	case 3:
		n = 2 + g.r.Intn(6)
	case 4:
		if g.long && g.r.Intn(4) == 0 {
			n = 60 + g.r.Intn(260)
		}
	}
	ws := make([]string, n)
	for i := range ws {
		ws[i] = g.word()
	}
	return strings.Join(ws, " ")
}

func (g *textGen) text() string {
	r := g.r
	var t string
	if len(g.past) > 0 && r.Intn(2) == 0 {
		base := strings.Split(g.past[r.Intn(len(g.past))], " ")
		switch r.Intn(8) {
		case 0: // the same
		case 1: // fewer words
			base = base[:1+r.Intn(len(base))]
		case 2: // more words
			base = append(base, g.word())
		case 3: // other order
			r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
		case 4: // words run together
			base = []string{strings.Join(base, "")}
		case 5: // one word replaced
			base[r.Intn(len(base))] = g.word()
		case 6: // a word split
			i := r.Intn(len(base))
			w := []rune(base[i])
			if len(w) > 1 {
				k := 1 + r.Intn(len(w)-1)
				base[i] = string(w[:k]) + " " + string(w[k:])
			}
		case 7: // a word repeated
			base = append(base, base[len(base)-1])
		}
		t = strings.Join(base, " ")
		if len(t) > 6000 {
			t = g.freshText()
		}
	} else {
		t = g.freshText()
	}
	if len(g.past) < 300 {
		g.past = append(g.past, t)
	}
	return t
}

// pair makes an object and a property, often ones that are easily confused
// with a pair made before.
func (g *textGen) pair() (string, string) {
	r := g.r
	o, p := g.text(), g.text()
	if len(g.past) >= 2 && r.Intn(3) == 0 {
		a, b := g.past[r.Intn(len(g.past))], g.past[r.Intn(len(g.past))]
		switch r.Intn(5) {
		case 0:
			return a, a
		case 1:
			return a, b
		case 2:
			return b, a
		case 3: // the border moved: (a b, c) and (a, b c)
			ws := append(strings.Split(a, " "), strings.Split(b, " ")...)
			k := 1 + r.Intn(len(ws)-1)
			return strings.Join(ws[:k], " "), strings.Join(ws[k:], " ")
		case 4: // the border moved without a space: (ab, c) and (a, bc)
			rs := []rune(strings.ReplaceAll(a+b, " ", ""))
			if len(rs) >= 2 {
				k := 1 + r.Intn(len(rs)-1)
				return string(rs[:k]), string(rs[k:])
			}
		}
	}
	return o, p
}

// invalid are byte sequences that are no UTF-8: bytes that cannot occur, parts
// of a character, surrogates, longer forms than needed, and numbers too large.
var invalid = []string{"\xff", "\xfe", "\x80", "\xbf\xbf", "\xc3", "\xe6\x97", "\xf0\x9f\x98", "\xed\xa0\x80", "\xed\xbf\xbf", "\xc0\x80", "\xc1\xa1", "\xe0\x80\xaf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3(", "\xff\xfd"}

// valid makes a text of one that is none.
func valid(t string) string {
	t = strings.Join(strings.Fields(strings.ToValidUTF8(t, "\ufffd")), " ")
	if t == "" {
		t = "v"
	}
	return t
}

// badText makes a text with an empty word or bytes that are no UTF-8.
func (g *textGen) badText() string {
	t := g.text()
	ws := strings.Split(t, " ")
	if g.r.Intn(3) == 0 {
		x := invalid[g.r.Intn(len(invalid))]
		if g.r.Intn(4) == 0 {
			return x
		}
		b := []byte(t)
		k := g.r.Intn(len(b) + 1)
		t = t[:k] + x + t[k:]
		if !validText(t) {
			return t
		}
		return x + t
	}
	switch g.r.Intn(7) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return " " + t
	case 3:
		return t + " "
	case 4:
		return strings.Repeat(" ", 1+g.r.Intn(4))
	case 5:
		i := g.r.Intn(len(ws) + 1)
		ws = append(ws[:i:i], append([]string{""}, ws[i:]...)...)
		return strings.Join(ws, " ")
	}
	return t + "  " + g.text()
}

func validText(t string) bool {
	for _, w := range strings.Split(t, " ") {
		if w == "" {
			return false
		}
	}
	return strings.ToValidUTF8(t, "") == t
}

// special are words that something else might take for more than characters.
var special = []string{
	"%20", "%s", "%d", "%v", "%!", "%%", "%c3%a9", "+", "a+b", "\\n", "\\t", "\\u0041", "\\x41", "\\", "\\\\", "\\\"", "&amp;", "&", "&lt;", "<", "&#65;", "&#x41;", "&nbsp;",
	"<b>", "</b>", "<b>a</b>", "<!--", "-->", "<br/>", "${x}", "$HOME", "$1", "$(x)", "`x`", "{{x}}", "{0}", "{}", "#{x}", "=1+1", "@x", "null", "nil", "NULL", "<nil>", "true", "false", "NaN", "Inf", "-Inf", "undefined",
	"0", "00", "007", "7", "-0", "-1", "+1", "1.0", "1.00", "1", "1e3", "1E3", "1000", "0x10", "0b11", "0o7", "1_000", "1,000", "1.000,00", "12:00", "2020-01-01", "18446744073709551616",
	"\"\"", "''", "\"a\"", "'a'", "“a”", "«a»", "a-b", "ab", "a\u00adb", "a\u200bb", "a\u200db", "a\u200cb", "\ufeffa", "a\ufeff", "\ufeff", "\u202ea", "\u200ea", "a\x00", "a\x00b", "\x00", "a\r\n", "\r\na", "a\r\nb", "a\nb", "a\n", "\na", "a\tb", "\ta", "a\t", "a\r", "\r", "\n", "\n\n", "\t", "\v", "\f", "\x1b[31m", "\x1f", "\x7f", "\u0085", "\u0085a", "\u2028", "\u2029", "\u00a0", "\u00a0a", "a\u00a0", "a\u00a0b", "\u2007", "\u202f", "\u3000", "\u1680", "\u180e", "\u2060",
	"ﬁ", "fi", "ß", "ẞ", "SS", "ss", "İ", "i̇", "I", "ı", "i", "Σ", "σ", "ς", "\u00c5", "A\u030a", "\u212b", "\u00e9", "e\u0301", "한", "\u1112\u1161\u11ab", "①", "²", "2", "ａ", "½", "1/2", "1⁄2", "…", "...", "–", "-", "—", "--", "’", "'", "´", "µ", "μ", "K", "\u212a", "Ω", "Ω", "٣", "3", "३", "ﷺ",
	"A", "a", "AA", "aa", "Aa", "aA", "aaa", "a.", "a,", "a;", "a:", "a!", "a?", "(a)", "[a]", "{a}", "http://a/b?c=d&e=f#g", "a@b.c", "../..", "/", "//", "a/b", "a\\b", ".", "..", "~", "*", "?", "[a-z]", "^a$", "a|b", "|", "--a", "-a", ";", "';--", "a=b", "#", "//x", "/*x*/", "<?xml", "]]>", "_", "__", "_a_", "*a*", ",", "a,b", "\"a,b\"", ":", "a:b",
	"🇩🇪", "🇩", "👨‍👩‍👧", "👨", "👍🏽", "👍", "❤️", "❤", "e\u0301\u0302", "e\u0302\u0301", "\u0301", "\u200d", "\u034f", "\U000e0041", "\U0010fffe", "\U0010ffff", "\ufffe", "\uffff", "\ufffd", "\ufffda", "\ue000", "\ud7ff", "\U00010000", "𝐚", "𠀀",
	"the", "The", "THE", "an", "of", "and", "not", "is", "und", "der", "running", "run", "runs", "cats", "cat", "children", "child",
}

// quotes are what words may be put in.
var quotes = [][2]string{
	{"\"", "\""}, {"'", "'"}, {"`", "`"}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"<", ">"}, {"<a>", "</a>"}, {"“", "”"}, {"„", "“"}, {"«", "»"}, {"*", "*"}, {"**", "**"}, {"_", "_"}, {"%", "%"}, {"$", "$"}, {"/", "/"}, {"\\", "\\"}, {"{{", "}}"}, {"${", "}"}, {"&", ";"}, {"\"\\", "\""}, {"=?utf-8?q?", "?="}, {"<![CDATA[", "]]>"}, {"b64:", "=="}, {"\x1b[1m", "\x1b[0m"}, {"\u2068", "\u2069"}, {"xn--", ""}, {"", "%"}, {"#", ""}, {"\\", ""}, {"", "\\"}, {"-", "-"}, {".", "."}, {",", ","}, {"!", "!"}, {"0", "0"}, {"+", ""}, {"0x", ""}, {"1", "e1"}, {"", ".0"}, {"a", "\u0301"},
}

// joints are what texts may be joined with to be told apart: characters of one
// byte and others that are not expected in texts, signs of several characters,
// and what the source has.
func joints() (out []string) {
	for x := rune(0); x < 0x100; x++ {
		if x != ' ' {
			out = append(out, string(x))
		}
	}
	for _, x := range []rune{0x2028, 0x2029, 0x200b, 0x2060, 0x2192, 0xe000, 0xf8ff, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xf0000, 0x10ffff} {
		out = append(out, string(x))
	}
	out = append(out, "\x00\x00", "::", "||", "--", "->", "=>", "\r\n", "//", "%20", "%00", "&nbsp;", "\\ ", "\" \"", "' '", "<>", "><", "<sep>", "\\x00", "\\n", "$$", "##", "..", "1", "0")
	sourceConstants()
	for _, x := range source.runes {
		out = append(out, string(x))
	}
	return append(out, source.words...)
}

// joined are different pairs that are equal when joined that way.
func joined(x string) (out [][2]string) {
	if strings.HasPrefix(x, " ") || strings.HasSuffix(x, " ") {
		x = strings.TrimSpace(x)
	}
	for _, p := range [][2]string{
		{"a" + x + "b", "c"}, {"a", "b" + x + "c"},
		{"a" + x + "b c", "d"}, {"a b" + x + "c", "d"}, {"a b c", "d"}, {"a b", "c d"}, {"a", "b" + x + "c d"}, {"a" + x + "b" + x + "c", "d"},
		{x, "a"}, {"a", x}, {x + x, "a"}, {x, x + "a"}, {"a" + x, "a"}, {"a", x + "a"}, {"a" + x, x + "a"}, {"a" + x + x, "a"}, {"a", x + x + "a"},
		{"c d", "a" + x + "b"}, {"c d" + x + "a", "b"}, {"c", "d" + x + "a" + x + "b"},
	} {
		out = append(out, p)
	}
	return
}
