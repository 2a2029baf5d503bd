// Generators for well-formed model patterns and for inputs derived from them.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

type G struct {
	t *rapid.T
}

func (g G) n(lo, hi int) int { // inclusive
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "n")
}

var die8 = rapid.IntRange(0, 7)

// roll64 draws from 0..63, much less biased towards 0 than IntRange(0, 63).
func (g G) roll64() int { return die8.Draw(g.t, "h")*8 + die8.Draw(g.t, "l") }

// u draws evenly from lo..hi (n favours small values).
func (g G) u(lo, hi int) int {
	if lo >= hi {
		return lo
	}
	n := hi - lo + 1
	if n <= 64 {
		return lo + g.roll64()*n/64
	}
	if n <= 4096 {
		return lo + (g.roll64()*64+g.roll64())*n/4096
	}
	return lo + ((g.roll64()*64+g.roll64())*64+g.roll64())*n/262144
}

func (g G) pct(p int) bool {
	if p <= 0 {
		return false
	}
	return g.roll64()*100 >= (100-p)*64
}

// permille is pct for small probabilities (pct has a resolution of 1/64).
func (g G) permille(p int) bool {
	return (g.roll64()*64+g.roll64())*1000 >= (1000-p)*4096
}

func (g G) pick(l ...string) string { return l[g.n(0, len(l)-1)] }

// weighted picks an index with the given weights.
func (g G) weighted(w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	var r int
	if tot <= 8 {
		r = g.n(0, tot-1)
	} else if tot > 40 {
		r = g.u(0, tot-1)
	} else {
		r = g.roll64() * tot / 64
	}
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return 0
}

func (g G) str(alpha string, lo, hi int) string {
	n := g.n(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[g.n(0, len(alpha)-1)]
	}
	return string(b)
}

// PG generates well-formed patterns.
type PG struct {
	G
	Alpha    string
	Caps     bool
	Memo     bool
	Errs     bool
	ErrNil   bool
	Checks   bool
	EOps     bool
	Search   bool
	Gram     bool
	NestGram bool
	MaxNodes int
	Long     bool // long literals, large repeat counts
	CapW     int  // weight of captures (default 6)
	NTW      int  // weight of non-terminals (default 8)
	ErrW     int  // weight of errors (default 2)
	CheckW   int  // weight of checks (default 5)
	Words    bool // word-list checkers carry their own words
	PureChk  bool // only checkers that depend on nothing but the matched text
	MemoW    int  // weight of memoization points (default 6)
	OptRich  bool // shapes that the optimiser rewrites

	nodes   int
	memoID  int
	rules   []*ruleInfo // visible rules, innermost scope last
	inCheck bool
	noErr   int
	noCheck int
	gramD   int
	names   int
	scopes  int
}

type ruleInfo struct {
	name  string
	nn    bool
	scope int
	idx   int
	// order of the rule for unguarded references: an unguarded reference is
	// allowed only if !active && not yet generated (higher index)
	open bool // may be referenced unguarded
}

func orDef(a, b int) int {
	if a > 0 {
		return a
	}
	return b
}

const memoBase = 30000

// capID draws a capture identifier, mostly a small one.
func (g *PG) capID() int {
	if g.pct(93) {
		return g.n(0, 4)
	}
	return []int{127, 128, 255, 256, 257, 511, 1000, 32767, -1, -2, -128, -129, -256, -32768}[g.u(0, 13)]
}

// newMemo draws an identifier for a memoization point; it is not one that the
// package hands out itself.
func (g *PG) newMemo() int {
	g.memoID++
	if g.pct(6) {
		return []int{-1, -302, -32003}[g.n(0, 2)] - g.memoID*3
	}
	return memoBase + g.memoID
}

func (g *PG) leafNN() *P {
	if g.Long && g.pct(5) {
		switch g.n(0, 4) {
		case 0:
			return pAny(g.n(60, 255))
		case 1:
			unit := g.str(g.Alpha, 1, 2)
			n := 0
			if g.pct(50) {
				n = g.n(250, 260)
			} else {
				n = g.n(20, 300)
			}
			return pLit(strings.Repeat(unit, n)[:n])
		case 2:
			return &P{K: "rep", N: g.n(100, 300), L: []*P{pSet(g.charset())}}
		case 3:
			e := pSet(g.charset())
			if g.pct(40) {
				e = pLit(g.str(g.Alpha, 1, 2))
			}
			return &P{K: "rep", N: g.u(126, 131) + 128*g.u(0, 2), L: []*P{e}}
		default:
			// a choice among, or a sequence of, many words
			p := &P{K: g.pick("alt", "seq")}
			n := g.u(60, 130) * g.u(1, 2)
			if p.K == "seq" {
				n = g.u(60, 130)
			}
			seed := g.u(0, 1<<20)
			for i := 0; i < n; i++ {
				seed = (seed*1103515245 + 12345) & (1<<31 - 1)
				w := make([]byte, 1+seed>>16%3+i%2*3)
				for j := range w {
					seed = (seed*1103515245 + 12345) & (1<<31 - 1)
					w[j] = g.Alpha[seed>>16%len(g.Alpha)]
				}
				if p.K == "seq" {
					w = w[:1]
				}
				p.L = append(p.L, pLit(string(w)))
			}
			return p
		}
	}
	switch g.weighted(4, 4, 1) {
	case 0:
		return pLit(g.str(g.Alpha, 1, 3))
	case 1:
		return pSet(g.charset())
	default:
		return pAny(g.n(1, 3))
	}
}

func (g *PG) charset() string {
	// a non-empty subset of the alphabet; sometimes nearly everything
	if g.pct(10) {
		ex := g.Alpha[g.n(0, len(g.Alpha)-1)]
		b := make([]byte, 0, 256)
		for i := 0; i < 256; i++ {
			if byte(i) != ex {
				b = append(b, byte(i))
			}
		}
		return string(b)
	}
	if g.pct(3) {
		return ""
	}
	mask := g.n(1, 1<<uint(len(g.Alpha))-1)
	var b []byte
	for i := 0; i < len(g.Alpha); i++ {
		if mask>>uint(i)&1 == 1 {
			b = append(b, g.Alpha[i])
		}
	}
	return string(b)
}

// refs lists the rules that may be referenced here.
func (g *PG) ref(nn, guarded bool) *P {
	var c []string
	for i, r := range g.rules {
		if nn && !r.nn {
			continue
		}
		if !guarded && !r.open {
			continue
		}
		// skip shadowed
		sh := false
		for _, q := range g.rules[i+1:] {
			if q.name == r.name {
				sh = true
			}
		}
		if !sh {
			c = append(c, r.name)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pNT(c[g.n(0, len(c)-1)])
}

// gen generates a pattern. nn: must not match the empty string. guarded: at
// least one byte has been consumed since the enclosing rule was entered.
func (g *PG) gen(depth int, nn, guarded bool) *P {
	g.nodes++
	if depth <= 0 || g.nodes > g.MaxNodes {
		if r := g.G.n(0, 3); r == 0 {
			if p := g.ref(nn, guarded); p != nil {
				return p
			}
		}
		if !nn && g.pct(10) {
			return &P{K: "empty"}
		}
		return g.leafNN()
	}
	type alt struct {
		w int
		f func() *P
	}
	d := depth - 1
	one := func(k string, nn bool) func() *P {
		return func() *P { return p1(k, g.gen(d, nn, guarded)) }
	}
	alts := []alt{
		{6, g.leafNN},
		{9, func() *P { return g.genSeq(d, nn, guarded) }},
		{9, func() *P {
			n := g.n(2, 3)
			if g.pct(3) {
				n = 1
			}
			p := &P{K: "alt"}
			for i := 0; i < n; i++ {
				p.L = append(p.L, g.gen(d, nn, guarded))
			}
			return p
		}},
		{4, func() *P { return p1("plus", g.gen(d, true, guarded)) }},
		{2, func() *P { return &P{K: "rep", N: g.n(1, 3), L: []*P{g.gen(d, nn, guarded)}} }},
	}
	if !nn {
		alts = append(alts,
			alt{5, func() *P { return p1("star", g.gen(d, true, guarded)) }},
			alt{3, one("opt", false)},
			alt{2, one("not", false)},
			alt{2, one("and", false)},
			alt{1, func() *P { return &P{K: "empty"} }},
		)
		if g.pct(20) {
			alts = append(alts, alt{1, func() *P { return pAny(0) }}, alt{1, func() *P { return pLit("") }},
				alt{1, func() *P { return &P{K: "rep", N: 0, L: []*P{g.leafNN()}} }})
		}
		if g.EOps {
			alts = append(alts, alt{2, func() *P { return &P{K: "eop", N: 1 << uint(g.n(0, 5))} }})
		}
	}
	if g.Caps {
		w := 6
		if g.CapW > 0 {
			w = g.CapW
		}
		alts = append(alts, alt{w, func() *P { return pCap(g.gen(d, nn, guarded), g.capID()) }})
	}
	if g.Memo {
		alts = append(alts, alt{orDef(g.MemoW, 6), func() *P {
			id := g.newMemo()
			g.noCheck++
			p := pMemo(g.gen(d, nn, guarded), id)
			g.noCheck--
			return p
		}}, alt{orDef(g.MemoW, 6) * 2 / 3, func() *P {
			// repetition of a memoized element: memo tree
			id := g.newMemo()
			g.noCheck++
			m := pMemo(g.gen(d, true, guarded), id)
			g.noCheck--
			if nn {
				return p1("plus", m)
			}
			return p1("star", m)
		}})
	}
	if g.Memo {
		// alternatives that start with the same memoized pattern
		alts = append(alts, alt{orDef(g.MemoW, 6) / 2, func() *P {
			id := g.newMemo()
			g.noCheck++
			defer func() { g.noCheck-- }()
			var x *P
			if g.Caps && g.pct(60) {
				x = p1(g.pick("plus", "plus", "opt"), pCap(g.gen(min(d, 1), true, guarded), g.capID()))
				if nn {
					x.K = "plus"
				}
			} else {
				x = g.gen(d, nn, guarded)
			}
			x = pMemo(x, id)
			p := &P{K: "alt"}
			for i := g.n(2, 3); i > 0; i-- {
				q := pSeq(x, g.gen(min(d, 2), false, guarded))
				if g.pct(60) {
					g.memoID++
					q = pMemo(q, memoBase+g.memoID)
				}
				if g.pct(40) {
					q = pSeq(q, g.gen(min(d, 1), true, true))
				}
				p.L = append(p.L, q)
			}
			return p
		}})
	}
	if g.Errs && g.noErr == 0 {
		alts = append(alts, alt{orDef(g.ErrW, 2), func() *P {
			if g.ErrNil && g.pct(15) {
				return &P{K: "err", S: g.errMsg()}
			}
			return &P{K: "err", S: g.errMsg(), L: []*P{g.gen(d, nn, guarded)}}
		}})
	}
	if g.Checks {
		alts = append(alts, alt{orDef(g.CheckW, 5), func() *P {
			sub := g.gen(d, nn, guarded)
			p := &P{K: "check", N: g.n(0, nCheckKinds-1), Id: g.n(0, 3), Flag: g.n(0, 2), L: []*P{sub}}
			if g.noCheck > 0 || g.PureChk {
				// no back-references (stateful) and no reading ahead
				p.N = []int{ckWords, ckEven}[g.n(0, 1)]
			}
			if p.N == ckRef {
				p.Flag = []int{0, 1, 1, 0, 2}[g.n(0, 4)]
				if g.pct(50) {
					p.Id = g.n(0, 1)
				}
				if p.Flag == 1 && !nn && g.pct(60) {
					p.L[0] = &P{K: "empty"}
				}
			} else if g.pct(20) {
				p.Id, p.Flag = g.n(-3, 300), g.n(-3, 300)
				if p.N == ckMore {
					p.Id = g.n(0, 3)
				}
			}
			if p.N == ckWords && g.Words {
				for k := g.n(0, 4); k > 0; k-- {
					p.W = append(p.W, Bs(g.str(g.Alpha, 0, 3)))
				}
				if p.W == nil {
					p.S = "none"
				}
			}
			return p
		}})
	}
	if g.OptRich {
		alts = append(alts, alt{4, func() *P {
			one := func() *P {
				if g.pct(50) {
					return pLit(g.str(g.Alpha, 1, 1))
				}
				return pSet(g.charset())
			}
			switch g.n(0, 3) {
			case 0: // !x y
				return pSeq(p1("not", one()), []*P{one(), pAny(1), pAny(g.n(1, 3))}[g.n(0, 2)])
			case 1: // choice between single bytes and something else
				return pAlt(pSeq(one(), g.gen(d, false, true)), pSeq(one(), g.gen(d, false, true)))
			case 2:
				return pAlt(one(), one(), one())
			default:
				return pCap(pSeq(one(), one(), g.gen(d, false, true)), g.capID())
			}
		}})
		if !nn {
			alts = append(alts, alt{3, func() *P {
				one := pSet(g.charset())
				if g.pct(50) {
					one = pLit(g.str(g.Alpha, 1, 1))
				}
				switch g.n(0, 3) {
				case 0:
					return p1("star", one)
				case 1:
					return p1("opt", one)
				case 2:
					return p1("opt", p1("star", one))
				default:
					return p1("star", pSeq(p1("not", one), pAny(1)))
				}
			}})
		}
	}
	if g.Search {
		alts = append(alts, alt{3, one("search", nn)})
	}
	if p := len(g.rules); p > 0 {
		alts = append(alts, alt{orDef(g.NTW, 8), func() *P {
			if r := g.ref(nn, guarded); r != nil {
				return r
			}
			return g.leafNN()
		}})
	}
	if g.NestGram && g.gramD < 3 {
		alts = append(alts, alt{2, func() *P { return g.grammar(d, nn, guarded) }})
	}
	w := make([]int, len(alts))
	for i := range alts {
		w[i] = alts[i].w
	}
	return alts[g.weighted(w...)].f()
}

func (g *PG) genSeq(d int, nn, guarded bool) *P {
	n := g.n(2, 4)
	p := &P{K: "seq"}
	which := -1
	if nn {
		which = g.n(0, n-1)
	}
	for i := 0; i < n; i++ {
		cnn := i == which || g.pct(40)
		p.L = append(p.L, g.gen(d, cnn, guarded))
		if cnn {
			guarded = true
		}
	}
	return p
}

var ruleNames = []string{"A", "B", "C", "D", "S", "S", "X"}

// grammar generates a grammar with recursive rules.
func (g *PG) grammar(depth int, nn, guarded bool) *P {
	g.gramD++
	g.scopes++
	sc := g.scopes
	n := g.n(1, 4)
	var infos []*ruleInfo
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := ruleNames[g.n(0, len(ruleNames)-1)]
		if used[name] {
			name = fmt.Sprintf("R%d", i)
		}
		used[name] = true
		ri := &ruleInfo{name: name, nn: g.pct(65), scope: sc, idx: i, open: true}
		infos = append(infos, ri)
	}
	if nn {
		infos[0].nn = true
	}
	// Unguarded references into outer rules that are open stay allowed only if
	// the grammar itself is used unguarded there; inside rule bodies entered
	// after consumption the same order still applies, so this is conservative.
	saved := g.rules
	outerOpen := make([]bool, len(saved))
	for i, r := range saved {
		outerOpen[i] = r.open
	}
	g.rules = append(append([]*ruleInfo{}, saved...), infos...)
	p := &P{K: "gram", S: Bs(infos[0].name)}
	for _, ri := range infos {
		ri.open = false // bodies generated in order: only later rules are open
		b := g.gen(depth, ri.nn, false)
		p.Defs = append(p.Defs, Def{ri.name, b})
	}
	g.rules = saved
	for i, r := range saved {
		r.open = outerOpen[i]
	}
	// definitions are unordered: shuffle by one swap so that the start rule is
	// not always first
	g.gramD--
	return p
}

// ---- inputs ---------------------------------------------------------------

type emitter struct {
	G
	alpha  string
	buf    []byte
	max    int
	budget int
	star   int // most iterations of a repetition
}

func (e *emitter) emit(p *P, sc *scope, depth int) {
	e.budget--
	if len(e.buf) >= e.max || depth <= 0 || e.budget <= 0 {
		return
	}
	switch p.K {
	case "lit":
		e.buf = append(e.buf, p.S...)
	case "set":
		if len(p.S) > 0 {
			// prefer members inside the alphabet
			if len(p.S) > 20 {
				c := e.alpha[e.n(0, len(e.alpha)-1)]
				e.buf = append(e.buf, c)
			} else {
				e.buf = append(e.buf, p.S[e.n(0, len(p.S)-1)])
			}
		}
	case "any":
		e.buf = append(e.buf, e.str(e.alpha, p.N, p.N)...)
	case "seq":
		for _, c := range p.L {
			e.emit(c, sc, depth-1)
			if len(p.L) > 50 && e.budget > 0 {
				e.budget++
			}
		}
	case "alt":
		if len(p.L) > 8 {
			e.emit(p.L[e.u(0, len(p.L)-1)], sc, depth-1)
		} else if len(p.L) > 0 {
			e.emit(p.L[e.n(0, len(p.L)-1)], sc, depth-1)
		}
	case "star":
		for i := e.n(0, orDef(e.star, 4)); i > 0; i-- {
			e.emit(p.L[0], sc, depth-1)
		}
	case "plus":
		for i := e.n(1, orDef(e.star, 4)); i > 0; i-- {
			e.emit(p.L[0], sc, depth-1)
		}
	case "opt":
		if e.pct(60) {
			e.emit(p.L[0], sc, depth-1)
		}
	case "and", "not":
		if e.pct(10) {
			e.emit(p.L[0], sc, depth-1)
		}
	case "cap", "memo", "check":
		e.emit(p.L[0], sc, depth-1)
		if p.K == "check" && p.N == ckRef && e.pct(50) {
			// repeat some earlier text for a back-reference
			if n := len(e.buf); n > 0 {
				k := e.n(1, min(n, 4))
				i := e.n(0, n-k)
				e.buf = append(e.buf, e.buf[i:i+k]...)
			}
		}
	case "search":
		e.buf = append(e.buf, e.str(e.alpha, 0, 4)...)
		e.emit(p.L[0], sc, depth-1)
	case "rep":
		for i := 0; i < p.N; i++ {
			e.emit(p.L[0], sc, depth-1)
			if p.N > 50 && e.budget > 0 { // long ones are of simple things
				e.budget++
			}
		}
	case "err":
		if len(p.L) > 0 {
			e.emit(p.L[0], sc, depth-1)
		}
	case "nt":
		for s := sc; s != nil; s = s.parent {
			if d, ok := s.defs[string(p.S)]; ok {
				e.emit(d, s, depth-1)
				return
			}
		}
	case "gram":
		m := map[string]*P{}
		for _, d := range p.Defs {
			m[d.Name] = d.P
		}
		e.emit(pNT(string(p.S)), &scope{m, sc}, depth-1)
	}
}

// inputFor draws an input for p: mostly mutated sentences of p.
func inputFor(g G, p *P, alpha string, max int) string {
	switch g.weighted(2, 5, 3) {
	case 0:
		return g.str(alpha, 0, min(max, 12))
	case 1:
		e := &emitter{G: g, alpha: alpha, max: max, budget: 120}
		e.emit(p, nil, 25)
		s := string(e.buf)
		if g.pct(30) {
			s += g.str(alpha, 0, 4)
		}
		return s
	default:
		e := &emitter{G: g, alpha: alpha, max: max, budget: 120}
		e.emit(p, nil, 25)
		b := e.buf
		for k := g.n(1, 3); k > 0; k-- {
			b = mutate(g, b, alpha)
		}
		return string(b)
	}
}

func mutate(g G, b []byte, alpha string) []byte {
	b = append([]byte{}, b...)
	c := alpha[g.n(0, len(alpha)-1)]
	if len(b) > 30 && g.pct(60) {
		// far from the beginning
		i := g.u(0, len(b)-1)
		if g.pct(30) {
			i = len(b) - 1 - g.n(0, 9)
		}
		switch g.n(0, 3) {
		case 0, 1:
			b[i] = c
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = b[:i]
		}
		return b
	}
	switch g.n(0, 3) {
	case 0:
		i := g.n(0, len(b))
		b = append(b[:i], append([]byte{c}, b[i:]...)...)
	case 1:
		if len(b) > 0 {
			i := g.n(0, len(b)-1)
			b = append(b[:i], b[i+1:]...)
		}
	case 2:
		if len(b) > 0 {
			b[g.n(0, len(b)-1)] = c
		}
	case 3:
		b = b[:g.n(0, len(b))]
	}
	return b
}

// errMsg returns one of few messages: some are equal up to case or spaces, or
// prefixes of each other.
func (g *G) errMsg() Bs {
	if g.pct(60) {
		return Bs(g.pick("e0", "e1", "e2", "e3"))
	}
	return Bs(g.pick("", "e", "e10", "E1", "e1 ", " e1", "1e", "e1\n", "expected %s", "\u00e9\u00ff", strings.Repeat("e1", 150)))
}
