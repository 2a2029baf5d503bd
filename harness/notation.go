// The PEG notation: an independent recursive-descent parser of the documented
// grammar (comment at the top of re/grammar.go) and a printer that writes a
// model pattern in one of its many spellings.
package main

import (
	"fmt"
	"strings"
)

type nres struct {
	p   *P
	end int
	ok  bool
}

type notation struct {
	s    string
	memo map[[2]int]nres
	dup  bool // a rule is defined twice
}

// parseNotation returns the pattern a text denotes, or ok = false if the
// grammar does not derive the text. Groups and braces are transparent.
func parseNotation(s string) (p *P, n *notation, ok bool) {
	n = &notation{s: s, memo: map[[2]int]nres{}}
	i := n.spacing(0)
	r := n.grammar(i)
	if !r.ok {
		r = n.expression(i)
	}
	if !r.ok || r.end != len(s) {
		return nil, n, false
	}
	return r.p, n, true
}

func (n *notation) lit(i int, l string) (int, bool) {
	if strings.HasPrefix(n.s[i:], l) {
		return i + len(l), true
	}
	return i, false
}

// tok is a literal followed by spacing.
func (n *notation) tok(i int, l string) (int, bool) {
	j, ok := n.lit(i, l)
	if !ok {
		return i, false
	}
	return n.spacing(j), true
}

func (n *notation) eol(i int) (int, bool) {
	for _, l := range []string{"\r\n", "\n", "\r"} {
		if j, ok := n.lit(i, l); ok {
			return j, true
		}
	}
	return i, false
}

func (n *notation) spacing(i int) int {
	for i < len(n.s) {
		if n.s[i] == ' ' || n.s[i] == '\t' {
			i++
			continue
		}
		if j, ok := n.eol(i); ok {
			i = j
			continue
		}
		if n.s[i] == '#' {
			j := strings.IndexAny(n.s[i:], "\r\n")
			if j < 0 {
				return i
			}
			i, _ = n.eol(i + j)
			continue
		}
		break
	}
	return i
}

func (n *notation) grammar(i int) nres {
	g := &P{K: "gram"}
	seen := map[string]int{}
	n.dup = false
	for {
		name, j, ok := n.identifier(i)
		if !ok {
			break
		}
		j, ok = n.tok(j, "<-")
		if !ok {
			break
		}
		e := n.expression(j)
		if !e.ok {
			break
		}
		i = e.end
		if k, ok := seen[name]; ok {
			n.dup = true
			g.Defs[k].P = e.p
			continue
		}
		seen[name] = len(g.Defs)
		g.Defs = append(g.Defs, Def{name, e.p})
	}
	if len(g.Defs) == 0 {
		return nres{}
	}
	g.S = Bs(g.Defs[0].Name)
	return nres{g, i, true}
}

func (n *notation) memoize(rule, i int, f func() nres) nres {
	k := [2]int{rule, i}
	if r, ok := n.memo[k]; ok {
		return r
	}
	r := f()
	n.memo[k] = r
	return r
}

func (n *notation) expression(i int) nres {
	return n.memoize(0, i, func() nres {
		p, i := n.sequence(i)
		a := &P{K: "alt", L: []*P{p}}
		for {
			j, ok := n.tok(i, "/")
			if !ok {
				break
			}
			p, i = n.sequence(j)
			a.L = append(a.L, p)
		}
		if len(a.L) == 1 {
			return nres{a.L[0], i, true}
		}
		return nres{a, i, true}
	})
}

func (n *notation) sequence(i int) (*P, int) {
	q := &P{K: "seq"}
	for {
		r := n.prefix(i)
		if !r.ok {
			break
		}
		q.L = append(q.L, r.p)
		i = r.end
	}
	switch len(q.L) {
	case 0:
		return &P{K: "empty"}, i
	case 1:
		return q.L[0], i
	}
	return q, i
}

func (n *notation) prefix(i int) nres {
	k := ""
	if j, ok := n.tok(i, "&"); ok {
		k, i = "and", j
	} else if j, ok := n.tok(i, "!"); ok {
		k, i = "not", j
	}
	r := n.suffix(i)
	if r.ok && k != "" {
		r.p = p1(k, r.p)
	}
	return r
}

func (n *notation) suffix(i int) nres {
	r := n.primary(i)
	if !r.ok {
		return r
	}
	for _, t := range []struct{ l, k string }{{"?", "opt"}, {"*", "star"}, {"+", "plus"}} {
		if j, ok := n.tok(r.end, t.l); ok {
			return nres{p1(t.k, r.p), j, true}
		}
	}
	return r
}

func (n *notation) primary(i int) nres {
	return n.memoize(1, i, func() nres {
		if name, j, ok := n.identifier(i); ok {
			if _, arrow := n.tok(j, "<-"); !arrow {
				return nres{pNT(name), j, true}
			}
		}
		for _, b := range []struct{ o, c, k string }{{"(", ")", ""}, {"{{", "}}", "memo"}, {"{", "}", ""}} {
			j, ok := n.tok(i, b.o)
			if !ok {
				continue
			}
			e := n.expression(j)
			if !e.ok {
				continue
			}
			if j, ok = n.tok(e.end, b.c); ok {
				if b.k == "memo" {
					return nres{pMemo(e.p, 0), j, true}
				}
				return nres{e.p, j, true}
			}
		}
		if r := n.literal(i); r.ok {
			return r
		}
		if r := n.class(i); r.ok {
			return r
		}
		if j, ok := n.tok(i, "."); ok {
			return nres{pAny(1), j, true}
		}
		return nres{}
	})
}

func isIdentStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func (n *notation) identifier(i int) (string, int, bool) {
	if i >= len(n.s) || !isIdentStart(n.s[i]) {
		return "", i, false
	}
	j := i + 1
	for j < len(n.s) && (isIdentStart(n.s[j]) || n.s[j] >= '0' && n.s[j] <= '9') {
		j++
	}
	return n.s[i:j], n.spacing(j), true
}

func (n *notation) literal(i int) nres {
	if i >= len(n.s) || n.s[i] != '\'' && n.s[i] != '"' {
		return nres{}
	}
	q := n.s[i]
	i++
	var b []byte
	for i < len(n.s) && n.s[i] != q {
		c, j, ok := n.char(i)
		if !ok {
			return nres{}
		}
		b = append(b, c)
		i = j
	}
	if i >= len(n.s) {
		return nres{}
	}
	return nres{pLit(string(b)), n.spacing(i + 1), true}
}

func (n *notation) class(i int) nres {
	if i >= len(n.s) || n.s[i] != '[' {
		return nres{}
	}
	i++
	neg := false
	if j, ok := n.tok(i, "^"); ok {
		neg, i = true, j
	}
	var set [256]bool
	for i < len(n.s) && n.s[i] != ']' {
		c, j, ok := n.char(i)
		if !ok {
			return nres{}
		}
		hi := c
		if k, ok := n.lit(j, "-"); ok {
			if c2, k2, ok := n.char(k); ok {
				hi, j = c2, k2
			}
		}
		for b := int(c); b <= int(hi); b++ {
			set[b] = true
		}
		i = j
	}
	if i >= len(n.s) {
		return nres{}
	}
	var b []byte
	for c := 0; c < 256; c++ {
		if set[c] != neg {
			b = append(b, byte(c))
		}
	}
	return nres{pSet(string(b)), n.spacing(i + 1), true}
}

func isOct(c byte) bool { return c >= '0' && c <= '7' }

func (n *notation) char(i int) (byte, int, bool) {
	if i >= len(n.s) {
		return 0, i, false
	}
	if n.s[i] != '\\' {
		return n.s[i], i + 1, true
	}
	r := n.s[i+1:]
	if len(r) == 0 {
		return 0, i, false
	}
	switch r[0] {
	case 'n':
		return '\n', i + 2, true
	case 'r':
		return '\r', i + 2, true
	case 't':
		return '\t', i + 2, true
	case '\'', '"', '[', ']', '\\', '-':
		return r[0], i + 2, true
	}
	if !isOct(r[0]) {
		return 0, i, false
	}
	if r[0] <= '2' && len(r) >= 3 && isOct(r[1]) && isOct(r[2]) {
		return (r[0]-'0')<<6 | (r[1]-'0')<<3 | (r[2] - '0'), i + 4, true
	}
	if len(r) >= 2 && isOct(r[1]) {
		return (r[0]-'0')<<3 | (r[1] - '0'), i + 3, true
	}
	return r[0] - '0', i + 2, true
}

// ---- printer -------------------------------------------------------------------

// speller prints a model pattern with random spelling choices.
type speller struct {
	G
	sb     strings.Builder
	plain  bool // no comments and odd spacing
	braces int  // nesting of open braces
	names  map[string]string
}

// sp writes optional spacing; must says that a separator is required.
func (w *speller) sp(must bool) {
	if w.plain {
		if must || w.pct(30) {
			w.sb.WriteByte(' ')
		}
		return
	}
	k := w.weighted(10, 10, 2, 1, 1, 1, 1)
	if k == 0 {
		if must {
			w.sb.WriteByte(' ')
		}
		return
	}
	w.sb.WriteString([]string{"", " ", "\n", "\t ", "\r\n", "\r", "  "}[k])
	if w.pct(6) {
		w.sb.WriteString("#" + w.pick("", " comment", "'", "<- \"x", "]", ")", "# #", "}} é\\") + w.pick("\n", "\r\n", "\r"))
		if w.pct(30) {
			w.sb.WriteString(w.pick(" ", "\n", "#\n"))
		}
	}
}

const (
	precAlt = iota
	precSeq
	precPrefix
	precSuffix
	precPrimary
)

func prec(p *P) int {
	switch p.K {
	case "alt":
		return precAlt
	case "seq", "empty":
		return precSeq
	case "rep", "any":
		if p.N == 1 && p.K == "any" {
			return precPrimary
		}
		return precSeq
	case "not", "and":
		return precPrefix
	case "star", "plus", "opt":
		return precSuffix
	}
	return precPrimary
}

func (w *speller) pat(p *P, min int) {
	if prec(p) < min || p.K != "gram" && w.pct(6) {
		o, c := "(", ")"
		if w.pct(8) && w.braces < 8 {
			o, c = "{", "}"
		}
		if o == "{" {
			w.braces++
			defer func() { w.braces-- }()
		}
		w.sb.WriteString(o)
		// "{" before "{" would read as a memo bracket
		w.sp(o == "{")
		w.pat(p, precAlt)
		w.sp(o == "{")
		w.sb.WriteString(c)
		w.sp(false)
		return
	}
	switch p.K {
	case "alt":
		for i, c := range p.L {
			if i > 0 {
				w.sb.WriteByte('/')
				w.sp(false)
			}
			// an alternation inside the last alternative needs no parentheses,
			// but keeping them is the general case
			if i == len(p.L)-1 && c.K == "alt" && w.pct(50) {
				w.pat(c, precAlt)
			} else {
				w.pat(c, precSeq)
			}
		}
	case "seq":
		if len(p.L) == 0 {
			w.empty()
		}
		for _, c := range p.L {
			if c.K == "seq" && len(c.L) > 0 && w.pct(50) {
				w.pat(c, precSeq)
			} else {
				w.pat(c, precPrefix)
			}
		}
	case "empty":
		w.empty()
	case "not":
		w.sb.WriteByte('!')
		w.sp(false)
		w.pat(p.L[0], precSuffix)
	case "and":
		w.sb.WriteByte('&')
		w.sp(false)
		w.pat(p.L[0], precSuffix)
	case "star", "plus", "opt":
		w.pat(p.L[0], precPrimary)
		w.sb.WriteString(map[string]string{"star": "*", "plus": "+", "opt": "?"}[p.K])
		w.sp(false)
	case "any":
		if p.N == 0 {
			w.empty()
		}
		for i := 0; i < p.N; i++ {
			w.sb.WriteByte('.')
			w.sp(false)
		}
	case "rep":
		if p.N <= 0 {
			w.empty()
		}
		for i := 0; i < p.N; i++ {
			w.pat(p.L[0], precPrefix)
		}
	case "nt":
		w.name(string(p.S))
		// an identifier must not run into the next one
		w.sp(true)
	case "lit":
		w.literal(string(p.S))
		w.sp(false)
	case "set":
		w.class(string(p.S))
		w.sp(false)
	case "memo":
		w.sb.WriteString("{{")
		w.sp(true)
		w.braces++
		w.pat(p.L[0], precAlt)
		w.braces--
		w.sp(true)
		w.sb.WriteString("}}")
		w.sp(false)
	case "gram":
		for _, d := range p.Defs {
			w.name(d.Name)
			w.sp(false)
			w.sb.WriteString("<-")
			w.sp(false)
			w.pat(d.P, precAlt)
			w.sp(true)
		}
	default:
		panic(HarnessBug{"notation printer: " + p.K})
	}
}

func (w *speller) empty() {
	w.sb.WriteString(w.pick("''", "\"\"", "()", "( )", "''"))
	w.sp(false)
}

func (w *speller) name(n string) {
	if m, ok := w.names[n]; ok {
		n = m
	}
	w.sb.WriteString(n)
}

// char writes one character of a literal or class; next is the following one
// (or -1), raw says whether it may stand for itself.
func (w *speller) char(c byte, raw bool) {
	esc := map[byte]string{'\n': "\\n", '\r': "\\r", '\t': "\\t", '\'': "\\'", '"': "\\\"", '[': "\\[", ']': "\\]", '\\': "\\\\", '-': "\\-"}
	e := esc[c]
	k := w.weighted(12, 4, 2)
	if k == 0 && !raw {
		k = 1
	}
	if k == 1 && e == "" {
		k = 2
	}
	if k == 2 && c >= 0300 {
		k = 0
	}
	if k == 2 && c < 0200 && raw && w.pct(50) {
		k = 0
	}
	switch k {
	case 0:
		w.sb.WriteByte(c)
	case 1:
		w.sb.WriteString(e)
	case 2:
		fmt.Fprintf(&w.sb, "\\%03o", c)
		if c < 0100 && w.pct(40) {
			// short forms: only safe if no octal digit follows, see spellChars
			s := w.sb.String()
			w.sb.Reset()
			w.sb.WriteString(s[:len(s)-3])
			if c < 010 && w.pct(50) {
				fmt.Fprintf(&w.sb, "%o", c)
			} else {
				fmt.Fprintf(&w.sb, "%02o", c)
			}
		}
	}
}

// chars writes a list of characters, redoing the spelling of a character
// whose escape would swallow the next one.
func (w *speller) chars(cs []byte, raw func(c byte) bool) {
	for i, c := range cs {
		start := w.sb.Len()
		w.char(c, raw(c))
		s := w.sb.String()[start:]
		if len(s) >= 2 && s[0] == '\\' && isOct(s[1]) && len(s) < 4 {
			next := byte(0)
			if i+1 < len(cs) {
				next = cs[i+1]
			}
			if isOct(next) {
				all := w.sb.String()[:start]
				w.sb.Reset()
				w.sb.WriteString(all)
				fmt.Fprintf(&w.sb, "\\%03o", c)
			}
		}
	}
}

func (w *speller) literal(s string) {
	q := byte('\'')
	if w.pct(40) {
		q = '"'
	}
	w.sb.WriteByte(q)
	w.chars([]byte(s), func(c byte) bool { return c != q && c != '\\' })
	w.sb.WriteByte(q)
}

func (w *speller) class(s string) {
	if len(s) == 1 && w.pct(20) {
		w.literal(s)
		return
	}
	var in [256]bool
	n := 0
	for i := 0; i < len(s); i++ {
		if !in[s[i]] {
			in[s[i]] = true
			n++
		}
	}
	if n == 256 && w.pct(40) {
		w.sb.WriteByte('.')
		return
	}
	neg := n > 128 || w.pct(15)
	w.sb.WriteByte('[')
	if neg {
		w.sb.WriteByte('^')
		if !w.plain && w.pct(10) {
			w.sb.WriteByte(' ') // CARAT <- '^' Spacing_
		}
		for i := range in {
			in[i] = !in[i]
		}
	}
	// items: maximal runs as ranges or single characters
	type item struct{ lo, hi int }
	var items []item
	for c := 0; c < 256; c++ {
		if !in[c] {
			continue
		}
		h := c
		for h+1 < 256 && in[h+1] {
			h++
		}
		switch {
		case h-c >= 20 || h > c && w.pct(50):
			items = append(items, item{c, h})
			c = h
		default:
			items = append(items, item{c, c})
		}
	}
	// random order, repeated items, and an empty (reversed) range
	for i := len(items) - 1; i > 0; i-- {
		j := w.u(0, i)
		items[i], items[j] = items[j], items[i]
	}
	if len(items) > 0 && w.pct(10) {
		items = append(items, items[w.u(0, len(items)-1)])
	}
	if w.pct(4) {
		items = append(items, item{'z', 'a'})
	}
	raw := func(c byte) bool {
		switch c {
		case ']', '\\', '-', '^', '[', ' ', '\t', '\n', '\r', '#':
			return false
		}
		return true
	}
	first := true
	full := func(c int) {
		if c >= 0300 || raw(byte(c)) && w.pct(60) {
			w.sb.WriteByte(byte(c))
			return
		}
		if c == '-' && w.pct(50) {
			w.sb.WriteString("\\-")
			return
		}
		if c == ']' && w.pct(50) {
			w.sb.WriteString("\\]")
			return
		}
		// characters that may stand raw except at the start of the class
		if (c == '[' || c == ' ' || c == '#' || c == '^' || c == '\t' || c == '\n') && !first && w.pct(40) {
			w.sb.WriteByte(byte(c))
			return
		}
		fmt.Fprintf(&w.sb, "\\%03o", c)
	}
	for i, it := range items {
		first = i == 0
		if it.lo == it.hi && it.lo < 0300 && raw(byte(it.lo)) {
			w.char(byte(it.lo), true)
			// keep short octal escapes apart from what follows
			if s := w.sb.String(); len(s) >= 3 && isOct(s[len(s)-1]) && it.lo < 0100 && !isOct(byte(it.lo)) {
				k := strings.LastIndexByte(s, '\\')
				if k >= 0 && len(s)-k < 4 {
					w.sb.Reset()
					w.sb.WriteString(s[:k])
					fmt.Fprintf(&w.sb, "\\%03o", it.lo)
				}
			}
			continue
		}
		full(it.lo)
		if it.hi != it.lo {
			w.sb.WriteByte('-')
			first = false
			full(it.hi)
		}
	}
	// a trailing "-" stands for itself only before the end of a class if the
	// grammar allows it; the notation does not, so it is never printed
	w.sb.WriteByte(']')
}

// spell prints p as notation text.
func spell(g G, p *P, plain bool, names map[string]string) string {
	w := &speller{G: g, plain: plain, names: names}
	w.sp(false)
	w.pat(p, precAlt)
	w.sp(false)
	return w.sb.String()
}
