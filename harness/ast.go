// Model patterns: a JSON-able PEG syntax tree, its translation to gpeg
// patterns, and a reference interpreter of PEG semantics.
package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/pattern"
)

// P is a model pattern.
//
//	lit(S) set(S) any(N) empty seq(L) alt(L) star plus opt not and(L[0])
//	cap(L[0],N) memo(L[0],N) check(L[0],N=kind,Id,Flag) search(L[0])
//	rep(L[0],N) nt(S) gram(S=start, Defs) err(S, L[0]?) eop(N)
type P struct {
	K    string `json:"k"`
	S    Bs     `json:"s,omitempty"`
	N    int    `json:"n,omitempty"`
	Id   int    `json:"id,omitempty"`
	Flag int    `json:"fl,omitempty"`
	W    []Bs   `json:"w,omitempty"`
	L    []*P   `json:"l,omitempty"`
	Defs []Def  `json:"defs,omitempty"`
}

type Def struct {
	Name string `json:"name"`
	P    *P     `json:"p"`
}

func pLit(s string) *P     { return &P{K: "lit", S: Bs(s)} }
func pSet(s string) *P     { return &P{K: "set", S: Bs(s)} }
func pAny(n int) *P        { return &P{K: "any", N: n} }
func pSeq(l ...*P) *P      { return &P{K: "seq", L: l} }
func pAlt(l ...*P) *P      { return &P{K: "alt", L: l} }
func p1(k string, p *P) *P { return &P{K: k, L: []*P{p}} }
func pCap(p *P, id int) *P { return &P{K: "cap", N: id, L: []*P{p}} }
func pNT(n string) *P      { return &P{K: "nt", S: Bs(n)} }
func pMemo(p *P, id int) *P {
	return &P{K: "memo", N: id, L: []*P{p}}
}

func (p *P) String() string {
	sub := func(i int) string { return p.L[i].String() }
	list := func(sep string) string {
		var s []string
		for i := range p.L {
			s = append(s, sub(i))
		}
		return "(" + strings.Join(s, sep) + ")"
	}
	switch p.K {
	case "lit":
		return fmt.Sprintf("%q", string(p.S))
	case "set":
		return fmt.Sprintf("[%q]", string(p.S))
	case "any":
		return fmt.Sprintf(".{%d}", p.N)
	case "empty":
		return "ε"
	case "seq":
		return list(" ")
	case "alt":
		return list(" / ")
	case "star":
		return sub(0) + "*"
	case "plus":
		return sub(0) + "+"
	case "opt":
		return sub(0) + "?"
	case "not":
		return "!" + sub(0)
	case "and":
		return "&" + sub(0)
	case "cap":
		return fmt.Sprintf("cap%d{%s}", p.N, sub(0))
	case "memo":
		return fmt.Sprintf("memo%d{%s}", p.N, sub(0))
	case "check":
		return fmt.Sprintf("check[%d,%d,%d,%q]{%s}", p.N, p.Id, p.Flag, p.W, sub(0))
	case "search":
		return "search{" + sub(0) + "}"
	case "rep":
		return fmt.Sprintf("%s{%d}", sub(0), p.N)
	case "nt":
		return string(p.S)
	case "gram":
		s := "gram " + string(p.S) + "{"
		for _, d := range p.Defs {
			s += d.Name + " <- " + d.P.String() + "; "
		}
		return s + "}"
	case "err":
		if len(p.L) == 0 {
			return fmt.Sprintf("err(%q)", string(p.S))
		}
		return fmt.Sprintf("err(%q,%s)", string(p.S), sub(0))
	case "eop":
		return fmt.Sprintf("eop(%d)", p.N)
	}
	return "?" + p.K
}

// walk visits every node.
func (p *P) walk(f func(*P)) {
	f(p)
	for _, c := range p.L {
		c.walk(f)
	}
	for _, d := range p.Defs {
		d.P.walk(f)
	}
}

func (p *P) has(kinds ...string) bool {
	found := false
	p.walk(func(q *P) {
		for _, k := range kinds {
			if q.K == k {
				found = true
			}
		}
	})
	return found
}

func (p *P) size() int {
	n := 0
	p.walk(func(*P) { n++ })
	return n
}

// ---- conversion to gpeg patterns ----------------------------------------

type Conv struct {
	// Checker returns the checker for a check node.
	Checker func(p *P) isa.Checker
	// MemoAPI uses pattern.Memo (process-global identifiers) instead of the
	// explicit identifier in the node.
	MemoAPI bool
	// NoMemo drops memoization points.
	NoMemo bool
	// MemoWrap, if set, builds the memoization points.
	MemoWrap func(p *P, body pattern.Pattern) pattern.Pattern
	// Variant selects equivalent spellings (0 = plain).
	Variant func(p *P) int
}

func bset(s Bs) charset.Set { return charset.New([]byte(s)) }

func (cv *Conv) conv(p *P) pattern.Pattern {
	v := 0
	if cv.Variant != nil {
		v = cv.Variant(p)
	}
	sub := func() pattern.Pattern { return cv.conv(p.L[0]) }
	switch p.K {
	case "lit":
		if v == 1 && len(p.S) > 1 {
			return pattern.Concat(pattern.Literal(string(p.S[:1])), pattern.Literal(string(p.S[1:])))
		}
		if v == 2 && len(p.S) >= 1 {
			var l []pattern.Pattern
			for i := 0; i < len(p.S); i++ {
				l = append(l, pattern.Set(charset.New([]byte{p.S[i]})))
			}
			return pattern.Concat(l...)
		}
		return pattern.Literal(string(p.S))
	case "set":
		if v == 1 && len(p.S) >= 1 {
			var l []pattern.Pattern
			for i := 0; i < len(p.S); i++ {
				l = append(l, pattern.Literal(string(p.S[i:i+1])))
			}
			return pattern.Or(l...)
		}
		if v == 2 {
			// !complement . == set
			return pattern.Concat(pattern.Not(pattern.Set(bset(p.S).Complement())), pattern.Any(1))
		}
		return pattern.Set(bset(p.S))
	case "any":
		if v == 1 {
			var l []pattern.Pattern
			for i := 0; i < p.N; i++ {
				l = append(l, pattern.Any(1))
			}
			return pattern.Concat(l...)
		}
		if v == 2 && p.N >= 1 {
			return pattern.Concat(pattern.Any(uint8(p.N-1)), pattern.Any(1))
		}
		return pattern.Any(uint8(p.N))
	case "empty":
		if v == 1 {
			return pattern.Literal("")
		}
		return &pattern.EmptyNode{}
	case "seq":
		var l []pattern.Pattern
		for _, c := range p.L {
			l = append(l, cv.conv(c))
		}
		if v == 1 && len(l) > 0 { // right-nested
			acc := l[len(l)-1]
			for i := len(l) - 2; i >= 0; i-- {
				acc = &pattern.SeqNode{Left: l[i], Right: acc}
			}
			return acc
		}
		if v == 2 && len(l) > 0 {
			return pattern.Concat(append([]pattern.Pattern{&pattern.EmptyNode{}}, l...)...)
		}
		return pattern.Concat(l...)
	case "alt":
		var l []pattern.Pattern
		for _, c := range p.L {
			l = append(l, cv.conv(c))
		}
		if v == 1 && len(l) > 0 { // left-nested
			acc := l[0]
			for _, c := range l[1:] {
				acc = &pattern.AltNode{Left: acc, Right: c}
			}
			return acc
		}
		return pattern.Or(l...)
	case "star":
		if v == 1 {
			return pattern.Optional(pattern.Star(sub()))
		}
		return pattern.Star(sub())
	case "plus":
		if v == 1 {
			return pattern.Concat(sub(), pattern.Star(sub()))
		}
		return pattern.Plus(sub())
	case "opt":
		if v == 1 {
			return pattern.Or(sub(), &pattern.EmptyNode{})
		}
		if v == 2 {
			return pattern.Or(sub(), pattern.Literal(""))
		}
		return pattern.Optional(sub())
	case "not":
		return pattern.Not(sub())
	case "and":
		if v == 1 && !p.L[0].has("cap", "nt", "gram") {
			return pattern.Not(pattern.Not(sub()))
		}
		return pattern.And(sub())
	case "cap":
		return pattern.Cap(sub(), p.N)
	case "memo":
		if cv.NoMemo {
			return sub()
		}
		if cv.MemoWrap != nil {
			return cv.MemoWrap(p, sub())
		}
		if cv.MemoAPI {
			s := sub()
			if p.N%3 == 1 {
				// an explicit identifier that is not in use
				free := pattern.Memo(s).(*pattern.MemoNode).Id + 1 + p.N%5
				return pattern.MemoId(s, free)
			}
			return pattern.Memo(s)
		}
		return &pattern.MemoNode{Patt: sub(), Id: p.N}
	case "check":
		if p.Id == 0 && p.Flag == 0 {
			return pattern.Check(sub(), cv.Checker(p))
		}
		return pattern.CheckFlags(sub(), cv.Checker(p), p.Id, p.Flag)
	case "search":
		return pattern.Search(sub())
	case "rep":
		if v == 1 && p.N > 0 {
			var l []pattern.Pattern
			for i := 0; i < p.N; i++ {
				l = append(l, sub())
			}
			return pattern.Concat(l...)
		}
		return pattern.Repeat(sub(), p.N)
	case "nt":
		return pattern.NonTerm(string(p.S))
	case "gram":
		m := map[string]pattern.Pattern{}
		for _, d := range p.Defs {
			m[d.Name] = cv.conv(d.P)
		}
		return pattern.Grammar(string(p.S), m)
	case "err":
		if len(p.L) == 0 {
			return pattern.Error(string(p.S), nil)
		}
		return pattern.Error(string(p.S), sub())
	case "eop":
		return pattern.EmptyOp(syntax.EmptyOp(p.N))
	}
	panic(HarnessBug{"conv: unknown kind " + p.K})
}

// ---- reference interpreter ----------------------------------------------

type CapT struct {
	Id    int     `json:"id"`
	Start int     `json:"s"`
	Len   int     `json:"n"`
	Kids  []*CapT `json:"k,omitempty"`
}

func (c *CapT) str(b *strings.Builder) {
	fmt.Fprintf(b, "%d@%d+%d", c.Id, c.Start, c.Len)
	if len(c.Kids) > 0 && b.Len() > 20000 {
		b.WriteString("[...]")
	} else if len(c.Kids) > 0 {
		b.WriteString("[")
		for i, k := range c.Kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.str(b)
		}
		b.WriteString("]")
	}
}

func capsStr(cs []*CapT) string {
	var b strings.Builder
	for i, c := range cs {
		if i > 500 {
			b.WriteString(" ...")
			break
		}
		if i > 0 {
			b.WriteString(" ")
		}
		c.str(&b)
	}
	return b.String()
}

func capsEq(a, b []*CapT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Id != b[i].Id || a[i].Start != b[i].Start || a[i].Len != b[i].Len || !capsEq(a[i].Kids, b[i].Kids) {
			return false
		}
	}
	return true
}

func capsCount(a []*CapT) int {
	n := 0
	for _, c := range a {
		n += 1 + capsCount(c.Kids)
	}
	return n
}

type ErrT struct {
	Msg string
	Pos int
}

type scope struct {
	defs   map[string]*P
	parent *scope
}

// Interp is the reference interpreter.
type Interp struct {
	in    string
	steps int
	limit int
	depth int
	errs  []ErrT
	// check implements checker semantics: returns the number of further bytes
	// or -1.
	check func(p *P, start, end int) int
	abort bool
	over  bool
	// maxDepth raises the recursion limit for scaled inputs
	maxDepth int
	// branch statistics for non-triviality
	backtracks int
	predicates int
	loops      int
	calls      int
	checks     int
	checkFails int
	checkMore  int
	scopes     map[*P]map[string]*P
}

type refResult struct {
	Over  bool
	Match bool
	Pos   int
	Caps  []*CapT
	Errs  []ErrT
	Abort bool
}

const refDepth = 2000

func (it *Interp) run(p *P) refResult {
	ok, pos, caps := it.m(p, 0, nil)
	if it.over {
		return refResult{Over: true}
	}
	if it.abort {
		return refResult{Match: false, Pos: pos, Errs: it.errs, Abort: true}
	}
	r := refResult{Match: ok, Pos: pos, Errs: it.errs}
	if ok {
		r.Caps = caps
	}
	return r
}

func (it *Interp) m(p *P, pos int, sc *scope) (bool, int, []*CapT) {
	it.steps++
	if it.steps > it.limit || it.depth > max(refDepth, it.maxDepth) {
		it.over = true
		return false, pos, nil
	}
	it.depth++
	defer func() { it.depth-- }()
	switch p.K {
	case "lit":
		if strings.HasPrefix(it.in[pos:], string(p.S)) {
			return true, pos + len(p.S), nil
		}
		return false, pos, nil
	case "set":
		if pos < len(it.in) && strings.IndexByte(string(p.S), it.in[pos]) >= 0 {
			return true, pos + 1, nil
		}
		return false, pos, nil
	case "any":
		if pos+p.N <= len(it.in) {
			return true, pos + p.N, nil
		}
		return false, pos, nil
	case "empty":
		return true, pos, nil
	case "seq":
		var caps []*CapT
		q := pos
		for _, c := range p.L {
			ok, r, cs := it.m(c, q, sc)
			if it.over || it.abort {
				return false, r, nil
			}
			if !ok {
				return false, pos, nil
			}
			q = r
			caps = append(caps, cs...)
		}
		return true, q, caps
	case "alt":
		if len(p.L) == 0 {
			return true, pos, nil
		}
		for i, c := range p.L {
			ok, r, cs := it.m(c, pos, sc)
			if it.over || it.abort {
				return false, r, nil
			}
			if ok {
				if i > 0 {
					it.backtracks++
				}
				return true, r, cs
			}
		}
		return false, pos, nil
	case "star", "plus":
		var caps []*CapT
		n := 0
		q := pos
		for {
			ok, r, cs := it.m(p.L[0], q, sc)
			if it.over || it.abort {
				return false, r, nil
			}
			if !ok {
				break
			}
			if r == q {
				// outside the domain: infinite loop
				it.over = true
				return false, pos, nil
			}
			n++
			q = r
			caps = append(caps, cs...)
		}
		if n > 0 {
			it.loops++
		}
		if p.K == "plus" && n == 0 {
			return false, pos, nil
		}
		return true, q, caps
	case "opt":
		ok, r, cs := it.m(p.L[0], pos, sc)
		if it.over || it.abort {
			return false, r, nil
		}
		if ok {
			return true, r, cs
		}
		return true, pos, nil
	case "not":
		ok, r, _ := it.m(p.L[0], pos, sc)
		if it.over || it.abort {
			return false, r, nil
		}
		it.predicates++
		return !ok, pos, nil
	case "and":
		ok, r, cs := it.m(p.L[0], pos, sc)
		if it.over || it.abort {
			return false, r, nil
		}
		it.predicates++
		if ok {
			return true, pos, cs
		}
		return false, pos, nil
	case "cap":
		ok, r, cs := it.m(p.L[0], pos, sc)
		if it.over || it.abort {
			return false, r, nil
		}
		if !ok {
			return false, pos, nil
		}
		return true, r, []*CapT{{Id: p.N, Start: pos, Len: r - pos, Kids: cs}}
	case "memo":
		return it.m(p.L[0], pos, sc)
	case "check":
		ok, r, cs := it.m(p.L[0], pos, sc)
		if it.over || it.abort {
			return false, r, nil
		}
		if !ok {
			return false, pos, nil
		}
		it.checks++
		n := it.check(p, pos, r)
		if n < 0 {
			it.checkFails++
			return false, pos, nil
		}
		if n > 0 {
			it.checkMore++
		}
		return true, r + n, cs
	case "search":
		for q := pos; q <= len(it.in); q++ {
			ok, r, cs := it.m(p.L[0], q, sc)
			if it.over || it.abort {
				return false, r, nil
			}
			if ok {
				return true, r, cs
			}
		}
		return false, pos, nil
	case "rep":
		var caps []*CapT
		q := pos
		for i := 0; i < p.N; i++ {
			ok, r, cs := it.m(p.L[0], q, sc)
			if it.over || it.abort {
				return false, r, nil
			}
			if !ok {
				return false, pos, nil
			}
			q = r
			caps = append(caps, cs...)
		}
		return true, q, caps
	case "nt":
		name := string(p.S)
		for s := sc; s != nil; s = s.parent {
			if d, ok := s.defs[name]; ok {
				it.calls++
				return it.m(d, pos, s)
			}
		}
		panic(HarnessBug{"reference: unresolved non-terminal " + name})
	case "gram":
		ns := &scope{parent: sc, defs: it.defsOf(p)}
		return it.m(pNT(string(p.S)), pos, ns)
	case "err":
		it.errs = append(it.errs, ErrT{string(p.S), pos})
		if len(p.L) == 0 {
			it.abort = true
			return false, pos, nil
		}
		return it.m(p.L[0], pos, sc)
	case "eop":
		r1, r2 := rune(-1), rune(-1)
		if pos > 0 {
			r1 = rune(it.in[pos-1])
		}
		if pos < len(it.in) {
			r2 = rune(it.in[pos])
		}
		it.predicates++
		return emptyOp(r1, r2)&p.N != 0, pos, nil
	}
	panic(HarnessBug{"reference: unknown kind " + p.K})
}

func (it *Interp) defsOf(p *P) map[string]*P {
	if it.scopes == nil {
		it.scopes = map[*P]map[string]*P{}
	}
	if m, ok := it.scopes[p]; ok {
		return m
	}
	m := map[string]*P{}
	for _, d := range p.Defs {
		m[d.Name] = d.P
	}
	it.scopes[p] = m
	return m
}

// emptyOp is an independent statement of the zero-width conditions between
// two bytes (-1: text boundary).
func emptyOp(r1, r2 rune) int {
	word := func(r rune) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_'
	}
	op := 0
	if r1 == -1 || r1 == '\n' {
		op |= 1 // begin line
	}
	if r2 == -1 || r2 == '\n' {
		op |= 2 // end line
	}
	if r1 == -1 {
		op |= 4
	}
	if r2 == -1 {
		op |= 8
	}
	if word(r1) != word(r2) {
		op |= 16
	} else {
		op |= 32
	}
	return op
}

// ---- free non-terminals ---------------------------------------------------

// unresolved returns the names used without a definition in scope (including
// undefined start symbols), sorted.
func unresolved(p *P) []string {
	out := map[string]bool{}
	var rec func(p *P, sc *scope)
	look := func(n string, sc *scope) bool {
		for s := sc; s != nil; s = s.parent {
			if _, ok := s.defs[n]; ok {
				return true
			}
		}
		return false
	}
	rec = func(p *P, sc *scope) {
		if p.K == "nt" && !look(string(p.S), sc) {
			out[string(p.S)] = true
		}
		if p.K == "gram" {
			m := map[string]*P{}
			for _, d := range p.Defs {
				m[d.Name] = d.P
			}
			if _, ok := m[string(p.S)]; !ok {
				out[string(p.S)] = true
			}
			sc = &scope{m, sc}
		}
		for _, c := range p.L {
			rec(c, sc)
		}
		for _, d := range p.Defs {
			rec(d.P, sc)
		}
	}
	rec(p, nil)
	var l []string
	for n := range out {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

var _ = input.NewInput
