// C22 (converted regular expressions match like Go's), C23 (conversion is
// total).
package main

import (
	"errors"
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

type RxCase struct {
	Re    Bs   `json:"re"` // the bytes of the expression
	Flags int  `json:"flags"`
	In    []Bs `json:"in"`
}

// ---- model -------------------------------------------------------------------------

// rxModel matches a parsed expression by backtracking, leftmost-first. An
// iteration of a loop that consumes nothing ends the loop.
type rxModel struct {
	in    string
	steps int
	max   int
}

var errSteps = errors.New("steps")

func isWord(in string, i int) bool {
	if i < 0 || i >= len(in) {
		return false
	}
	c := in[i]
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
		if f == b {
			return true
		}
	}
	return false
}

// m matches e at i and continues with k; it returns the end of the match or -1.
func (m *rxModel) m(e *syntax.Regexp, i int, k func(int) int) int {
	if m.steps++; m.steps > m.max {
		panic(errSteps)
	}
	cond := func(b bool) int {
		if b {
			return k(i)
		}
		return -1
	}
	switch e.Op {
	case syntax.OpEmptyMatch:
		return k(i)
	case syntax.OpNoMatch:
		return -1
	case syntax.OpLiteral:
		for _, r := range e.Rune {
			if i >= len(m.in) {
				return -1
			}
			c, w := utf8.DecodeRuneInString(m.in[i:])
			if c != r && (e.Flags&syntax.FoldCase == 0 || !foldEq(r, c)) {
				return -1
			}
			i += w
		}
		return k(i)
	case syntax.OpCharClass:
		if i < len(m.in) {
			c, w := utf8.DecodeRuneInString(m.in[i:])
			for j := 0; j < len(e.Rune); j += 2 {
				if e.Rune[j] <= c && c <= e.Rune[j+1] {
					return k(i + w)
				}
			}
		}
		return -1
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		if i < len(m.in) && (e.Op == syntax.OpAnyChar || m.in[i] != '\n') {
			return k(i + 1)
		}
		return -1
	case syntax.OpBeginLine:
		return cond(i == 0 || m.in[i-1] == '\n')
	case syntax.OpEndLine:
		return cond(i == len(m.in) || m.in[i] == '\n')
	case syntax.OpBeginText:
		return cond(i == 0)
	case syntax.OpEndText:
		return cond(i == len(m.in))
	case syntax.OpWordBoundary:
		return cond(isWord(m.in, i-1) != isWord(m.in, i))
	case syntax.OpNoWordBoundary:
		return cond(isWord(m.in, i-1) == isWord(m.in, i))
	case syntax.OpCapture:
		return m.m(e.Sub[0], i, k)
	case syntax.OpConcat:
		return m.seq(e.Sub, i, k)
	case syntax.OpAlternate:
		for _, s := range e.Sub {
			if r := m.m(s, i, k); r >= 0 {
				return r
			}
		}
		return -1
	case syntax.OpQuest:
		take := func() int { return m.m(e.Sub[0], i, k) }
		skip := func() int { return k(i) }
		return greedy(e, take, skip)
	case syntax.OpStar, syntax.OpPlus:
		return m.loop(e, i, k, e.Op == syntax.OpPlus)
	case syntax.OpRepeat:
		return m.repeat(e, i, k, e.Min, e.Max)
	}
	panic(HarnessBug{"unknown operator " + e.Op.String()})
}

func (m *rxModel) seq(l []*syntax.Regexp, i int, k func(int) int) int {
	if len(l) == 0 {
		return k(i)
	}
	return m.m(l[0], i, func(j int) int { return m.seq(l[1:], j, k) })
}

func greedy(e *syntax.Regexp, take, skip func() int) int {
	if e.Flags&syntax.NonGreedy != 0 {
		take, skip = skip, take
	}
	if r := take(); r >= 0 {
		return r
	}
	return skip()
}

func (m *rxModel) loop(e *syntax.Regexp, i int, k func(int) int, must bool) int {
	take := func() int {
		return m.m(e.Sub[0], i, func(j int) int {
			if j == i {
				return k(j)
			}
			return m.loop(e, j, k, false)
		})
	}
	if must {
		return take()
	}
	return greedy(e, take, func() int { return k(i) })
}

func (m *rxModel) repeat(e *syntax.Regexp, i int, k func(int) int, lo, hi int) int {
	take := func() int {
		return m.m(e.Sub[0], i, func(j int) int {
			if j == i && lo <= 1 {
				return k(j)
			}
			return m.repeat(e, j, k, max(lo-1, 0), max(hi-1, -1))
		})
	}
	if hi == 0 {
		return k(i)
	}
	if lo > 0 {
		return take()
	}
	return greedy(e, take, func() int { return k(i) })
}

// find returns the leftmost match, or -1, -1.
func (m *rxModel) find(e *syntax.Regexp) (lo, hi int, ok bool) {
	defer func() {
		if r := recover(); r == errSteps {
			ok = false
		} else if r != nil {
			panic(r)
		}
	}()
	for lo = 0; lo <= len(m.in); lo++ {
		if lo < len(m.in) && !utf8.RuneStart(m.in[lo]) {
			continue
		}
		hi = m.m(e, lo, func(j int) int { return j })
		if hi >= 0 {
			return lo, hi, true
		}
	}
	return -1, -1, true
}

// ---- generator -----------------------------------------------------------------------

type rxGen struct {
	G
	alpha []rune
	wide  bool // neither . nor \B: the texts may be any valid UTF-8
	left  int
}

func newRx(g G, left int) *rxGen {
	r := &rxGen{G: g, left: left}
	if g.pct(35) {
		r.wide = true
		r.alpha = []rune(rxWide[g.u(0, len(rxWide)-1)])
		for k := g.n(0, 3); k > 0; k-- {
			r.alpha = append(r.alpha, g.rxRune())
		}
	} else {
		r.alpha = []rune(rxAlphas[g.n(0, len(rxAlphas)-1)])
	}
	return r
}

// Runes around the borders of the lengths of encodings, of their lead bytes and
// of their continuation bytes.
var rxBorders = []rune{0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x3ff, 0x400, 0x7ff, 0x800, 0xfff, 0x1000, 0x203f, 0x2040, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1003f, 0x10fff, 0x11000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}

func (g G) rxRune() rune {
	c := rxBorders[g.u(0, len(rxBorders)-1)]
	switch g.weighted(4, 1, 1, 1) {
	case 1:
		c += rune(g.u(0, 130)) - 65
	case 2:
		c ^= 1 << g.u(0, 20)
	case 3:
		c = rune(g.u(0x80, 0x10ffff))
	}
	if !utf8.ValidRune(c) {
		c = 0xfffd
	}
	return c
}

var rxWide = []string{"aé", "éèa", "αβγω", "aα", "kKs\u017f", "σςΣa", "ßẞs", "日本語", "a日", "😀😁a", "é日😀a", "\u07ff\u0800", "\uffff\U00010000a", "\x7f\u0080", "äÄaA", "a_é ", "é\nα", "ǅǆǄ"}

// runes draws a string.
func (g G) runes(alpha []rune, lo, hi int) string {
	var b strings.Builder
	for k := g.n(lo, hi); k > 0; k-- {
		b.WriteRune(alpha[g.n(0, len(alpha)-1)])
	}
	return b.String()
}

var rxAlphas = []string{"ab", "abc", "aAb", "ab\n", "a_ -", "kKsS", "a0 ", "ab.*", "^$a", "[]a-", "()|a", "a{}1", "aZz@[", "\x00\x7fa", "a\t\r\n ", "abcde"}

func (r *rxGen) ch() string {
	x := r.alpha[r.u(0, len(r.alpha)-1)]
	c := string(x)
	switch r.n(0, 12) {
	case 11:
		return rxHex(x)
	case 12:
		if x < 0x80 {
			return fmt.Sprintf("\\%03o", x)
		}
	}
	if c == "\n" && r.pct(50) {
		return "\\n"
	}
	return regexp.QuoteMeta(c)
}

func rxHex(c rune) string {
	if c < 0x80 {
		return fmt.Sprintf("\\x%02x", c)
	}
	return fmt.Sprintf("\\x{%x}", c)
}

func (r *rxGen) class() string {
	if r.pct(25) {
		return r.pick("\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "[[:alpha:]]", "[[:^space:]]", "[^\\w]", "[\\d_]", "[[:lower:]]", "[^\\S]", "[[:punct:]]", "[a-zA-Z]", "[^a]", "[^\\n]", "\\p{Greek}", "[^b-y]")
	}
	if r.u(0, 999) == 0 {
		return r.pick("\\pL", "\\PL", "\\P{Greek}") // slow to compile
	}
	s := "["
	if r.pct(35) {
		s += "^"
	}
	for k := r.n(1, 4); k > 0; k-- {
		one := func() rune {
			if r.wide && r.pct(25) {
				return r.rxRune()
			}
			return r.alpha[r.u(0, len(r.alpha)-1)]
		}
		esc := func(c rune) string {
			if c < ' ' || c > '~' && (c <= 0x80 || r.pct(50)) || strings.ContainsRune("\\]^-[", c) {
				return rxHex(c)
			}
			return string(c)
		}
		switch r.n(0, 4) {
		case 2:
			a, b := one(), one()
			if a > b {
				a, b = b, a
			}
			s += esc(a) + "-" + esc(b)
		case 3:
			if r.pct(50) {
				s += r.pick("\\d", "\\w", "\\s", "\\W", "[:upper:]", "[:digit:]", "é", "α-ω", "\\x{10FFFF}", "K", "ſ")
				break
			}
			fallthrough
		default:
			s += esc(one())
		}
	}
	return s + "]"
}

func (r *rxGen) expr(d int) string {
	if r.left--; d <= 0 || r.left < 0 {
		return r.atom(0)
	}
	switch r.weighted(1, 5, 3, 6, 1) {
	case 0:
		return r.atom(d)
	case 1: // concatenation
		s := ""
		for k := r.n(1, 4); k > 0; k-- {
			s += r.grouped(d-1, "|")
		}
		return s
	case 2:
		l := []string{}
		for k := r.n(2, 4); k > 0; k-- {
			if r.pct(10) {
				l = append(l, "")
			} else {
				l = append(l, r.expr(d-1))
			}
		}
		return strings.Join(l, "|")
	case 3:
		return r.quant(r.atomOf(d))
	}
	return r.pick("(?i)", "(?s)", "(?m)", "(?U)", "(?-i)", "(?-s)", "(?i-s)") + r.expr(d-1)
}

func (r *rxGen) grouped(d int, _ string) string {
	s := r.expr(d)
	if strings.Contains(s, "|") || r.pct(5) {
		return r.group(s)
	}
	return s
}

func (r *rxGen) group(s string) string {
	switch r.n(0, 9) {
	case 7:
		return "(?P<n" + fmt.Sprint(r.left+1000) + ">" + s + ")"
	case 8:
		return "(?i:" + s + ")"
	case 9:
		return r.pick("(?s:", "(?U:", "(?m:", "(?-i:", "(?im:") + s + ")"
	case 0, 1, 2, 3:
		return "(" + s + ")"
	}
	return "(?:" + s + ")"
}

func (r *rxGen) quant(s string) string {
	q := r.pick("*", "+", "?", "*", "+", "?", "*?", "+?", "??")
	return s + q
}

func (r *rxGen) atomOf(d int) string {
	if r.pct(60) {
		return r.group(r.expr(d - 1))
	}
	return r.atom(0)
}

func (r *rxGen) atom(d int) string {
	switch r.weighted(8, 3, 2, 2, 1) {
	case 0:
		return r.ch()
	case 1:
		return r.class()
	case 2:
		if r.wide {
			return r.class()
		}
		return "."
	case 3:
		if r.wide {
			return r.pick("^", "$", "\\A", "\\z", "\\b")
		}
		return r.pick("^", "$", "\\A", "\\z", "\\b", "\\B")
	}
	return r.pick("()", "(?:)", "é", "\\Qa.\\E", "\\x{3b1}", "ß")
}

var rxFlags = []int{int(syntax.Perl), int(syntax.Perl), int(syntax.Perl), 0, int(syntax.Perl | syntax.FoldCase), int(syntax.Perl | syntax.DotNL), int(syntax.Perl &^ syntax.OneLine), int(syntax.Perl | syntax.NonGreedy), int(syntax.POSIX), int(syntax.Literal), int(syntax.MatchNL | syntax.Perl), int(syntax.PerlX), int(syntax.Perl &^ syntax.ClassNL), int(syntax.ClassNL)}

// rxAscii reports that the text must be ASCII: . and \B are about bytes.
func rxAscii(e *syntax.Regexp) bool {
	switch e.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoWordBoundary:
		return true
	case syntax.OpLiteral:
		for _, r := range e.Rune {
			if !utf8.ValidRune(r) {
				return true
			}
		}
	}
	for _, s := range e.Sub {
		if rxAscii(s) {
			return true
		}
	}
	return false
}

// rxIn is the text that c's input stands for.
func rxIn(e *syntax.Regexp, in string) string {
	if rxAscii(e) {
		return asciiOnly(in)
	}
	return strings.ToValidUTF8(in, "")
}

// rxText draws a text, half of the time guided by the expression.
func rxText(g G, re *syntax.Regexp, alpha []rune) string {
	var b strings.Builder
	if re == nil || g.pct(35) {
		s := g.runes(append([]rune(" a"), alpha...), 0, 12)
		if re == nil {
			return asciiOnly(s)
		}
		return rxIn(re, s)
	}
	if g.pct(50) {
		b.WriteString(g.runes(alpha, 0, 4))
	}
	rxSample(g, re, &b, 4, alpha)
	if g.pct(50) {
		b.WriteString(g.runes(alpha, 0, 4))
	}
	s := []rune(rxIn(re, b.String()))
	limit := 24
	if re.Op == syntax.OpConcat && len(re.Sub) > 60 {
		limit = 2 * len(re.Sub)
	}
	if len(s) > limit {
		s = s[:limit]
	}
	if len(s) > 0 && g.pct(30) {
		i := g.u(0, len(s)-1)
		by := ""
		switch g.weighted(1, 1, 1, 1, 2) {
		case 1:
			by = string(alpha[g.u(0, len(alpha)-1)])
		case 2:
			by = strings.ToUpper(string(s[i]))
		case 3:
			by = "\n"
		case 4: // a neighbour
			by = string(s[i] + rune(g.u(0, 2)) - 1)
			if g.pct(40) {
				by = string(s[i] ^ 1<<g.u(0, 20))
			}
		}
		s = append(append(append([]rune{}, s[:i]...), []rune(by)...), s[i+1:]...)
	}
	return rxIn(re, string(s))
}

func asciiOnly(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= utf8.RuneSelf {
			return -1
		}
		return r
	}, s)
}

func rxSample(g G, e *syntax.Regexp, b *strings.Builder, d int, alpha []rune) {
	if d < 0 || b.Len() > 24 {
		return
	}
	switch e.Op {
	case syntax.OpLiteral:
		for _, r := range e.Rune {
			if e.Flags&syntax.FoldCase != 0 && g.pct(50) {
				r = unicode.SimpleFold(r)
			}
			b.WriteRune(r)
		}
	case syntax.OpCharClass:
		if len(e.Rune) > 0 {
			j := 2 * g.u(0, min(len(e.Rune)/2-1, 8))
			lo, hi := e.Rune[j], e.Rune[j+1]
			if lo < 0x80 && g.pct(50) {
				hi = min(hi, 127)
			}
			for _, r := range alpha {
				if r >= lo && r <= hi && g.pct(50) {
					b.WriteRune(r)
					return
				}
			}
			switch g.weighted(3, 1, 1, 2) {
			case 0:
				b.WriteRune(rune(g.u(int(lo), int(hi))))
			case 1:
				b.WriteRune(lo)
			case 2:
				b.WriteRune(hi)
			case 3:
				for k := 0; k < 4; k++ {
					if r := g.rxRune(); r >= lo && r <= hi {
						b.WriteRune(r)
						break
					}
				}
			}
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteString(g.runes(alpha, 1, 1))
	case syntax.OpCapture:
		rxSample(g, e.Sub[0], b, d, alpha)
	case syntax.OpConcat:
		for _, s := range e.Sub {
			rxSample(g, s, b, d, alpha)
		}
	case syntax.OpAlternate:
		rxSample(g, e.Sub[g.u(0, len(e.Sub)-1)], b, d, alpha)
	case syntax.OpQuest, syntax.OpStar, syntax.OpPlus, syntax.OpRepeat:
		hi := g.n(0, 3)
		if e.Op == syntax.OpQuest {
			hi = g.u(0, 1)
		}
		for ; hi > 0; hi-- {
			rxSample(g, e.Sub[0], b, d-1, alpha)
		}
	}
}

func genRxCase(t *rapid.T) *RxCase {
	g := G{t}
	r := newRx(g, g.n(4, 30))
	c := &RxCase{}
	c.Re = Bs(r.expr(g.u(1, 6)))
	c.Flags = rxFlags[g.n(0, len(rxFlags)-1)]
	re, _ := syntax.Parse(string(c.Re), syntax.Flags(c.Flags))
	for k := g.n(2, 5); k > 0; k-- {
		c.In = append(c.In, Bs(rxText(g, re, r.alpha)))
	}
	return c
}

// ---- checks --------------------------------------------------------------------------

type rxFeat struct {
	repeat, nomatch, other   bool
	nullLoop, lazy, fold     bool
	anchor, wide, alt, loops bool
	size, stars              int
}

func rxFeatures(e *syntax.Regexp, stars int, f *rxFeat) (null bool) {
	f.size += 1 + len(e.Rune)/2
	if f.stars < stars {
		f.stars = stars
	}
	switch e.Op {
	case syntax.OpNoMatch:
		f.nomatch = true
	case syntax.OpEmptyMatch:
		null = true
	case syntax.OpLiteral, syntax.OpCharClass:
		if e.Op == syntax.OpLiteral && e.Flags&syntax.FoldCase != 0 {
			f.fold = true
		}
		for _, r := range e.Rune {
			if r >= utf8.RuneSelf {
				f.wide = true
			}
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
	case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		f.anchor = true
		null = true
	case syntax.OpCapture:
		null = rxFeatures(e.Sub[0], stars, f)
	case syntax.OpConcat:
		null = true
		for _, s := range e.Sub {
			null = rxFeatures(s, stars, f) && null
		}
	case syntax.OpAlternate:
		f.alt = true
		for _, s := range e.Sub {
			null = rxFeatures(s, stars, f) || null
		}
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		if e.Op == syntax.OpRepeat {
			f.repeat = true
		}
		if e.Op != syntax.OpQuest {
			f.loops = true
			stars++
		}
		null = rxFeatures(e.Sub[0], stars, f)
		if null && e.Op != syntax.OpQuest {
			f.nullLoop = true
		}
		null = null || e.Op != syntax.OpPlus
		if e.Flags&syntax.NonGreedy != 0 {
			f.lazy = true
		}
	default:
		f.other = true
	}
	return null
}

// rxMeaning compares the converted pattern with Go's regexp.
func rxMeaning(c *RxCase, re *syntax.Regexp, pat pattern.Pattern, nullLoop bool, o *Obs) error {
	prog, err := pattern.Compile(pat)
	if err != nil {
		return fmt.Errorf("regexp %q (flags %d): the pattern does not compile: %v", string(c.Re), c.Flags, err)
	}
	code := vm.Encode(prog)
	gore, err := regexp.Compile(re.String())
	if err != nil {
		o.Class("no-go-regexp")
		gore = nil
	}
	for _, in := range c.In {
		s := rxIn(re, string(in))
		m := &rxModel{in: s, max: 20000}
		lo, hi, ok := m.find(re)
		alo, ahi := lo, hi
		if gore != nil {
			loc := gore.FindStringIndex(s)
			if loc == nil {
				loc = []int{-1, -1}
			}
			if ok && (lo != loc[0] || hi != loc[1]) {
				if !nullLoop || (lo < 0) != (loc[0] < 0) {
					panic(HarnessBug{fmt.Sprintf("regexp %q (%s, flags %d) on %q: the model finds %d,%d, Go finds %v", string(c.Re), re, c.Flags, s, lo, hi, loc)})
				}
				// Go's engines skip states they have visited, so which of
				// the iterations that consume nothing are tried is their own.
				o.Class("empty-iteration-ambiguity")
				alo, ahi = lo, hi
			} else {
				alo, ahi = loc[0], loc[1]
			}
			lo, hi = loc[0], loc[1]
		}
		if !ok {
			o.Class("backtracking-discarded")
			continue
		}
		o.Sub++
		limit := int64(400*m.steps + 20000 + 200*len(c.Re)*(len(s)+1))
		old := setMaxSteps(min(limit, vmSteps))
		r := execStr(&code, s, memo.NoneTable{})
		setMaxSteps(old)
		where := fmt.Sprintf("regexp %q (flags %d, %s) on %q", string(c.Re), c.Flags, re, s)
		if len(r.Errs) > 0 {
			return fmt.Errorf("%s: parse errors %v", where, r.Errs)
		}
		if lo < 0 {
			o.Class("no-match")
			if r.Match {
				return fmt.Errorf("%s: the pattern matches up to %d, Go finds no match", where, r.Pos)
			}
			continue
		}
		o.Class("match")
		if !r.Match {
			return fmt.Errorf("%s: the pattern does not match, Go finds %d,%d", where, lo, hi)
		}
		if len(r.Caps) != 1 || r.Caps[0].Id != 0 || len(r.Caps[0].Kids) != 0 {
			return fmt.Errorf("%s: captures %v, want one with id 0 over %d,%d", where, r.Caps, lo, hi)
		}
		cp := r.Caps[0]
		if cp.Start == alo && cp.Start+cp.Len == ahi && r.Pos == ahi {
			lo, hi = alo, ahi
		}
		if cp.Start != lo || cp.Start+cp.Len != hi || r.Pos != hi {
			return fmt.Errorf("%s: match %d,%d ending the parse at %d, Go finds %d,%d", where, cp.Start, cp.Start+cp.Len, r.Pos, lo, hi)
		}
		if asciiOnly(s) != s {
			o.Class("non-ascii-text-matched")
		}
		if lo > 0 {
			o.Class("match-after-start")
		}
		if hi == lo {
			o.Class("empty-match")
		}
	}
	return nil
}

func rxClasses(f *rxFeat, o *Obs) {
	for n, b := range map[string]bool{"nullable-loop": f.nullLoop, "lazy": f.lazy, "fold": f.fold, "anchor": f.anchor, "non-ascii": f.wide, "alternation": f.alt, "loop": f.loops} {
		if b {
			o.Class(n)
		}
	}
}

func checkRx(c *RxCase, o *Obs) error {
	re, err := syntax.Parse(string(c.Re), syntax.Flags(c.Flags))
	if err != nil {
		o.Discard("not an expression under its flags")
		return nil
	}
	f := &rxFeat{}
	rxFeatures(re, 0, f)
	if f.repeat || f.nomatch || f.other || f.stars > 6 {
		o.Discard("unsupported operator")
		return nil
	}
	rxClasses(f, o)
	pat, err := rxconv.FromRegexp(string(c.Re), syntax.Flags(c.Flags))
	if err != nil {
		return fmt.Errorf("regexp %q (flags %d) has supported operators only and is refused: %v", string(c.Re), c.Flags, err)
	}
	o2 := &Obs{}
	err = rxMeaning(c, re, pat, f.nullLoop, o2)
	o.Sub += o2.Sub
	for _, k := range o2.Classes {
		o.Class("%s", k)
		if k == "match" && (f.loops || f.alt || f.anchor) {
			o.Nontrivial = true
		}
	}
	return err
}

var rxTokens = []string{"a", "b", "(", ")", "(?:", "(?i)", "(?P<x>", "(?<y>", "[", "]", "[^", "-", "|", "*", "+", "?", "{2}", "{1,3}", "{0,}", "{", "}", "{,2}", "{0}", "{1}", "{1001}", ".", "^", "$", "\\", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\d", "\\W", "\\p{Greek}", "\\pN", "\\p{Foo}", "\\C", "\\Q", "\\E", "\\x41", "\\x{110000}", "\\1", "[[:alpha:]]", "[[:foo:]]", "é", "\xff", "[^\\x00-\\x{10FFFF}]", "(?=a)", "(?s)", "(?m)", "(?U)", "(?z)", "a**", "[a-\\d]", "[z-a]", "\n", "()", "(|a)*", "(a*)+", "\\8"}

func genRxText(t *rapid.T) *RxCase {
	g := G{t}
	r := newRx(g, g.n(4, 60))
	c := &RxCase{}
	var b []byte
	switch g.weighted(5, 4, 1, 1) {
	case 0:
		b = []byte(r.expr(g.u(1, 7)))
	case 1:
		for k := g.n(1, 12); k > 0; k-- {
			b = append(b, rxTokens[g.u(0, len(rxTokens)-1)]...)
		}
	case 2:
		for k := g.n(0, 12); k > 0; k-- {
			b = append(b, byte(g.u(0, 255)))
		}
	case 3:
		// deep or wide shapes
		in := r.atom(0)
		n := g.n(1, 60)
		if g.pct(5) {
			in = g.pick("a", "1", ".", "xy", "_")
			n = g.u(60, 600)
		}
		switch g.n(0, 5) {
		case 0:
			q := g.pick("*", "+", "?", "*?", "", "|b")
			b = []byte(strings.Repeat("(", n) + in + strings.Repeat(")"+q, n))
			if q == "|b" {
				b = []byte(strings.Repeat("(", n) + in + strings.Repeat(q+")", n))
			}
		case 1:
			b = []byte(strings.Repeat("("+in+")?", n))
		case 2:
			b = []byte(strings.Repeat("("+in+"|b)", n))
		case 3:
			b = []byte(strings.Repeat("("+in+"*)*", n))
		case 4:
			b = []byte(strings.Repeat("("+in+"|)", n) + strings.Repeat("x?", n))
		case 5:
			b = []byte(strings.Repeat(in+"|", n) + "(" + strings.Repeat("\\p{Nd}|", min(n, 2)) + "z)")
		}
	}
	for k := g.n(0, 3); k > 0; k-- {
		i := g.u(0, len(b))
		j := min(len(b), i+g.n(0, 3))
		switch g.n(0, 2) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			tok := rxTokens[g.u(0, len(rxTokens)-1)]
			b = append(b[:i:i], append([]byte(tok), b[i:]...)...)
		case 2:
			b = append(b[:j:j], b[i:]...)
		}
	}
	c.Re = Bs(b)
	if g.pct(60) {
		c.Flags = rxFlags[g.n(0, len(rxFlags)-1)]
	} else {
		c.Flags = g.u(0, 255)
	}
	re, _ := syntax.Parse(string(c.Re), syntax.Flags(c.Flags))
	for k := g.n(1, 3); k > 0; k-- {
		c.In = append(c.In, Bs(rxText(g, re, r.alpha)))
	}
	return c
}

const stdFlags = int(syntax.FoldCase | syntax.Literal | syntax.ClassNL | syntax.DotNL | syntax.OneLine | syntax.NonGreedy | syntax.PerlX | syntax.UnicodeGroups)

func checkRxText(c *RxCase, o *Obs) error {
	re, perr := syntax.Parse(string(c.Re), syntax.Flags(c.Flags))
	where := fmt.Sprintf("regexp %q (flags %d)", string(c.Re), c.Flags)
	pat, err := rxconv.FromRegexp(string(c.Re), syntax.Flags(c.Flags))
	if err != nil && (pat != nil || err.Error() == "") {
		return fmt.Errorf("%s: pattern or empty message returned with error %q", where, err)
	}
	if err == nil && pat == nil {
		return fmt.Errorf("%s: nil pattern without an error", where)
	}
	if len(c.Re) > 4 {
		o.Nontrivial = true
	}
	if perr != nil {
		o.Class("invalid")
		if err == nil {
			return fmt.Errorf("%s is invalid (%v) and yet converted", where, perr)
		}
		return nil
	}
	f := &rxFeat{}
	rxFeatures(re, 0, f)
	rxClasses(f, o)
	if f.other {
		panic(HarnessBug{"unknown operator in " + re.String()})
	}
	if f.repeat {
		o.Class("repeat")
	}
	if f.nomatch {
		o.Class("matches-nothing")
	}
	if err != nil {
		o.Class("refused")
		if !f.repeat && !f.nomatch && f.stars <= 6 && f.size < 4000 {
			return fmt.Errorf("%s has supported operators only and is refused: %v", where, err)
		}
		return nil
	}
	o.Class("converted")
	if c.Flags&^stdFlags != 0 {
		panic(HarnessBug{"odd flags"})
	}
	o2 := &Obs{}
	err = rxMeaning(c, re, pat, f.nullLoop, o2)
	o.Sub += o2.Sub
	return err
}

func init() {
	register(Prop{
		ID:       "C22",
		Rule:     "a text matches and the expression has a loop, an alternation or an anchor",
		Assume:   []string{"texts are ASCII, or valid UTF-8 if the expression has neither . nor \\B", "counted repetition and expressions that match nothing are unsupported", "at most 6 nested loops", "texts on which a backtracking matcher needs more than 20000 steps are skipped"},
		Quick:    130000,
		Thorough: 4000000,
	}, genRxCase, checkRx)
	register(Prop{
		ID:       "C23",
		Rule:     "expressions longer than four bytes",
		Assume:   []string{"a conversion may be refused as too complex from 7 nested loops or 4000 nodes on", "parses on which a backtracking matcher needs more than 20000 steps are skipped"},
		Quick:    300000,
		Thorough: 4000000,
	}, genRxText, checkRxText)
}
