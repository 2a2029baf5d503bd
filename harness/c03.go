// C03 (optimisation and spelling independence), C04 (non-terminal scoping),
// C11 (errors and recovery), C12 (checkers and back-references).
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// ---- C03 ---------------------------------------------------------------------

type OptCase struct {
	P   *P     `json:"p"`
	In  []Bs   `json:"in"`
	Pad int    `json:"pad,omitempty"`
	V   []int  `json:"v"`  // spelling variants, by node
	Th  int    `json:"th"` // inlining threshold
	Str string `json:"str,omitempty"`
}

// withThreshold runs f under an inlining threshold.
func withThreshold(n int, f func()) {
	old := pattern.InlineThreshold
	pattern.InlineThreshold = n
	defer func() { pattern.InlineThreshold = old }()
	f()
}

func genOptCase(t *rapid.T) *OptCase {
	g := G{t}
	alpha := genAlpha(g)
	eops := g.pct(15)
	if eops {
		alpha = alphaW
	}
	pg := &PG{G: g, Alpha: alpha, Caps: true, Errs: g.pct(30), EOps: eops, Checks: g.pct(15), Search: g.pct(40), Gram: true, NestGram: g.pct(20), MaxNodes: g.n(4, 40), OptRich: true}
	max := 40
	if g.pct(4) {
		pg.Long = true
		max = 900
	}
	c := &OptCase{P: genTop(pg, g.n(2, 6)), Pad: genPad(g)}
	for k := g.n(1, 4); k > 0; k-- {
		c.In = append(c.In, Bs(inputFor(g, c.P, alpha, max)))
	}
	for k := g.n(1, 12); k > 0; k-- {
		c.V = append(c.V, g.n(0, 2))
	}
	c.Th = []int{0, 1, 2, 3, 5, 8, 15, 30, 100, 1000}[g.n(0, 9)]
	c.Str = c.P.String()
	return c
}

func checkOpt(c *OptCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	type build struct {
		name string
		code *vm.Code
	}
	var bs []build
	conv := func(v bool) pattern.Pattern {
		cv := &Conv{Checker: checkerFactory(nil)}
		if v {
			idx := map[*P]int{}
			n := 0
			p.walk(func(q *P) {
				if _, ok := idx[q]; !ok {
					idx[q] = n
					n++
				}
			})
			cv.Variant = func(q *P) int { return c.V[idx[q]%len(c.V)] }
		}
		return cv.conv(p)
	}
	sizes := map[string]int{}
	add := func(name string, variant, opt bool, th int) error {
		var prog isa.Program
		var err error
		withThreshold(th, func() {
			pt := conv(variant)
			if opt {
				prog, err = pattern.Compile(pt)
			} else {
				prog, err = pt.Compile()
			}
		})
		if err != nil {
			return fmt.Errorf("%s: compilation of a complete pattern failed: %v", name, err)
		}
		sizes[name] = prog.Size()
		code := vm.Encode(prog)
		bs = append(bs, build{name, &code})
		return nil
	}
	for _, s := range []struct {
		name     string
		var_, op bool
		th       int
	}{
		{"optimised", false, true, 100},
		{"unoptimised", false, false, 100},
		{"threshold", false, true, c.Th},
		{"unoptimised+threshold", false, false, c.Th},
		{"respelled", true, true, 100},
		{"respelled+unoptimised+threshold", true, false, c.Th},
	} {
		if err := add(s.name, s.var_, s.op, s.th); err != nil {
			return err
		}
	}
	if sizes["optimised"] != sizes["unoptimised"] || sizes["optimised"] != sizes["threshold"] {
		o.Class("programs-differ-in-size")
	}
	any := false
	for _, s := range c.In {
		in := padIn(string(s), c.Pad)
		ref, it := reference(p, in, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		for _, b := range bs {
			r := execStr(b.code, in, memo.NoneTable{})
			if err := vsRef(r, ref, true, true); err != nil {
				return fmt.Errorf("%s program of %s on %q (pad %d): %v", b.name, c.P, string(s), c.Pad, err)
			}
			o.Sub++
		}
		if it.backtracks+it.loops+it.calls+it.predicates > 0 && (ref.Pos > c.Pad || !ref.Match && len(s) > 0) {
			o.Nontrivial = true
		}
		if ref.Match {
			o.Class("match")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

// ---- C04 ---------------------------------------------------------------------

type ScopeCase struct {
	P    *P     `json:"p"`
	Alt  *P     `json:"alt,omitempty"` // second grammar, shares Shared
	In   []Bs   `json:"in"`
	Th   int    `json:"th"`
	Perm bool   `json:"perm"` // compile the second grammar first
	Str  string `json:"str,omitempty"`
}

// mayNull conservatively says whether p can match the empty string.
func mayNull(p *P) bool {
	switch p.K {
	case "lit":
		return len(p.S) == 0
	case "set":
		return false
	case "any":
		return p.N == 0
	case "seq":
		for _, c := range p.L {
			if !mayNull(c) {
				return false
			}
		}
		return true
	case "alt":
		for _, c := range p.L {
			if mayNull(c) {
				return true
			}
		}
		return len(p.L) == 0
	case "plus", "cap", "memo", "search":
		return mayNull(p.L[0])
	case "rep":
		return p.N == 0 || mayNull(p.L[0])
	}
	return true
}

// reachableUnresolved lists the names whose missing definition cannot be
// missed: uses reached from the start symbols, outside alternatives that
// follow one which may match the empty string.
func reachableUnresolved(p *P) map[string]bool {
	out := map[string]bool{}
	type key struct {
		d *P
	}
	done := map[key]bool{}
	var rec func(p *P, sc *scope)
	rec = func(p *P, sc *scope) {
		switch p.K {
		case "nt":
			for s := sc; s != nil; s = s.parent {
				if d, ok := s.defs[string(p.S)]; ok {
					if !done[key{d}] {
						done[key{d}] = true
						rec(d, s)
					}
					return
				}
			}
			out[string(p.S)] = true
			return
		case "gram":
			m := map[string]*P{}
			for _, d := range p.Defs {
				m[d.Name] = d.P
			}
			rec(pNT(string(p.S)), &scope{m, sc})
			return
		case "alt":
			for _, c := range p.L {
				rec(c, sc)
				if mayNull(c) {
					return
				}
			}
			return
		case "rep":
			if p.N == 0 {
				return
			}
		}
		for _, c := range p.L {
			rec(c, sc)
		}
	}
	rec(p, nil)
	return out
}

// bulk makes a definition large without changing it.
func bulk(p *P, n int) *P {
	// seq of p and n copies of an always-true predicate
	l := []*P{p}
	for i := 0; i < n; i++ {
		l = append(l, p1("not", pLit("zz")))
	}
	return pSeq(l...)
}

func genScopeCase(t *rapid.T) *ScopeCase {
	g := G{t}
	alpha := alphaC
	mk := func() *P {
		pg := &PG{G: g, Alpha: alpha, Caps: g.pct(50), Search: g.pct(60), Gram: true, NestGram: g.pct(80), MaxNodes: g.n(6, 45), NTW: 14, Errs: g.pct(25), EOps: g.pct(15), Checks: g.pct(25)}
		return pg.grammar(g.n(1, 5), false, false)
	}
	c := &ScopeCase{P: mk(), Perm: g.pct(50)}
	var names []string
	c.P.walk(func(q *P) {
		for i := range q.Defs {
			names = append(names, q.Defs[i].Name)
			if g.pct(8) {
				q.Defs[i].P = bulk(q.Defs[i].P, g.n(10, 110))
			}
		}
	})
	if g.pct(40) && len(c.P.Defs) > 0 {
		// damage: rename a use, drop a definition, rename a start symbol
		switch g.n(0, 3) {
		case 0, 1:
			var uses []*P
			c.P.walk(func(q *P) {
				if q.K == "nt" {
					uses = append(uses, q)
				}
			})
			if len(uses) > 0 {
				uses[g.n(0, len(uses)-1)].S = Bs(g.pick("Q", "A", "S", "B", "C"))
			}
		case 2:
			var gr []*P
			c.P.walk(func(q *P) {
				if q.K == "gram" && len(q.Defs) > 0 {
					gr = append(gr, q)
				}
			})
			q := gr[g.n(0, len(gr)-1)]
			i := g.n(0, len(q.Defs)-1)
			q.Defs = append(append([]Def{}, q.Defs[:i]...), q.Defs[i+1:]...)
		case 3:
			var gr []*P
			c.P.walk(func(q *P) {
				if q.K == "gram" {
					gr = append(gr, q)
				}
			})
			gr[g.n(0, len(gr)-1)].S = "Q"
		}
	}
	if g.pct(10) {
		// uses outside any grammar
		c.P = pSeq(pLit("a"), pNT(g.pick("A", "S")))
		if g.pct(50) {
			c.P = p1(g.pick("star", "not", "search", "opt", "and"), c.P)
		}
	}
	if g.pct(50) && c.P.K == "gram" {
		// a second grammar that shares definitions of the first as the same
		// objects and redefines others
		a := &P{K: "gram", S: c.P.S}
		for i, d := range c.P.Defs {
			if i > 0 && g.pct(50) {
				pg := &PG{G: g, Alpha: alpha, MaxNodes: 5, Caps: true}
				d = Def{d.Name, pg.gen(2, true, true)}
			}
			a.Defs = append(a.Defs, d)
		}
		if g.pct(20) {
			a = &P{K: "gram", S: "Z", Defs: []Def{{"Z", a}, {"A", pLit("c")}}}
		}
		c.Alt = a
	}
	c.Th = []int{0, 2, 3, 5, 10, 100, 100, 100, 1000}[g.n(0, 8)]
	for k := g.n(1, 3); k > 0; k-- {
		c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 30)))
	}
	c.Str = c.P.String()
	return c
}

// memoConv converts every model node to one pattern object, so that model
// sharing becomes object sharing.
func (cv *Conv) shared(p *P, m map[*P]pattern.Pattern) pattern.Pattern {
	if q, ok := m[p]; ok {
		return q
	}
	var q pattern.Pattern
	if p.K == "gram" {
		d := map[string]pattern.Pattern{}
		for _, x := range p.Defs {
			d[x.Name] = cv.shared(x.P, m)
		}
		q = pattern.Grammar(string(p.S), d)
	} else {
		q = cv.conv(p)
	}
	m[p] = q
	return q
}

func checkScope(c *ScopeCase, o *Obs) error {
	objs := map[*P]pattern.Pattern{}
	cv := &Conv{Checker: plainCheckers()}
	type item struct {
		name string
		p    *P
	}
	seq := []item{{"first", c.P}, {"first again", c.P}}
	if c.Alt != nil {
		if c.Perm {
			seq = []item{{"second", c.Alt}, {"first", c.P}, {"second again", c.Alt}, {"first again", c.P}}
		} else {
			seq = []item{{"first", c.P}, {"second", c.Alt}, {"first again", c.P}}
		}
	}
	for _, it := range seq {
		pat := cv.shared(it.p, objs)
		all := unresolved(it.p)
		must := reachableUnresolved(it.p)
		var prog isa.Program
		var err error
		withThreshold(c.Th, func() { prog, err = pattern.Compile(pat) })
		if err != nil {
			o.Class("rejected")
			var nf *pattern.NotFoundError
			if !errors.As(err, &nf) {
				return fmt.Errorf("%s: compile error %v is not a NotFoundError", it.name, err)
			}
			if len(all) == 0 {
				return fmt.Errorf("%s: every use is defined in scope, but compilation says %v\n%s", it.name, err, it.p)
			}
			i := sort.SearchStrings(all, nf.Name)
			if i >= len(all) || all[i] != nf.Name {
				return fmt.Errorf("%s: error names %q, the missing ones are %v\n%s", it.name, nf.Name, all, it.p)
			}
			if !strings.Contains(nf.Error(), nf.Name) {
				return fmt.Errorf("error text %q does not name %q", nf.Error(), nf.Name)
			}
			if prog != nil {
				return fmt.Errorf("%s: a program was returned together with the error %v", it.name, err)
			}
			o.Nontrivial = true
			continue
		}
		if len(must) > 0 {
			return fmt.Errorf("%s: %v used but not defined, yet compilation succeeded\n%s", it.name, keysOf(must), it.p)
		}
		if len(all) > 0 {
			o.Class("unreachable-undefined")
			continue
		}
		if it.p.has("gram") {
			n := 0
			it.p.walk(func(q *P) {
				if q.K == "gram" {
					n++
				}
			})
			if n > 1 {
				o.Class("nested-scopes")
			}
		}
		code := vm.Encode(prog)
		for _, s := range c.In {
			ref, itp := reference(it.p, string(s), nil)
			if ref.Over {
				o.Class("ref-budget-exceeded")
				continue
			}
			r := execStr(&code, string(s), memo.NoneTable{})
			if err := vsRef(r, ref, true, true); err != nil {
				return fmt.Errorf("%s: pattern %s on %q: %v", it.name, it.p, string(s), err)
			}
			o.Sub++
			if itp.calls > 1 {
				o.Nontrivial = true
				o.Class("calls>1")
			}
			if it.name != "first" {
				o.Class("recompiled-or-shared")
			}
		}
	}
	return nil
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- C11 ---------------------------------------------------------------------

func genErrCase(t *rapid.T) *PatCase {
	g := G{t}
	alpha := genAlpha(g)
	pg := &PG{G: g, Alpha: alpha, Caps: true, Errs: true, ErrNil: g.pct(60), ErrW: 7, Search: g.pct(25), Gram: g.pct(60), NestGram: g.pct(15), MaxNodes: g.n(4, 40)}
	p := genTop(pg, g.n(2, 6))
	c := &PatCase{P: p, Pad: genPad(g)}
	c.In = Bs(inputFor(g, p, alpha, 40))
	for k := g.n(0, 3); k > 0; k-- {
		c.Alt = append(c.Alt, Bs(inputFor(g, p, alpha, 40)))
	}
	if g.permille(2) {
		c.scaled(pg)
	}
	c.Str = c.P.String()
	return c
}

func checkErr(c *PatCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
	if err != nil {
		return err
	}
	any := false
	for _, s := range c.inputs() {
		in := padIn(s, c.Pad)
		ref, _ := reference(p, in, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		m, n, ast, errs := code.Exec(strings.NewReader(in), memo.NoneTable{})
		r := toRes(m, n, ast, errs)
		if err := vsRef(r, ref, true, true); err != nil {
			return fmt.Errorf("pattern %s on %.300q (pad %d): %v", c.P, s, c.Pad, err)
		}
		for i, e := range errs {
			if want := fmt.Sprintf("%d: %s", ref.Errs[i].Pos, ref.Errs[i].Msg); e.Error() != want {
				return fmt.Errorf("error text %q, want %q", e.Error(), want)
			}
		}
		o.Sub++
		if len(ref.Errs) > 0 {
			o.Nontrivial = true
			o.Class("errors")
			if len(ref.Errs) > 1 {
				o.Class("errors>1")
			}
			if ref.Match {
				o.Class("recovered")
				if capsCount(ref.Caps) > 0 {
					o.Class("recovered-with-captures")
				}
			}
			if ref.Abort {
				o.Class("aborted")
			}
		} else {
			o.Class("no-error")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

// ---- C12 ---------------------------------------------------------------------

func genCheckCase(t *rapid.T) *PatCase {
	g := G{t}
	alpha := genAlpha(g)
	pg := &PG{G: g, Alpha: alpha, Caps: g.pct(50), Checks: true, CheckW: 12, Words: true, Search: g.pct(20), Gram: g.pct(50), NestGram: g.pct(10), Errs: g.pct(20), MaxNodes: g.n(4, 35)}
	p := genTop(pg, g.n(2, 6))
	c := &PatCase{P: p, Pad: genPad(g)}
	c.In = Bs(inputFor(g, p, alpha, 40))
	for k := g.n(0, 3); k > 0; k-- {
		c.Alt = append(c.Alt, Bs(inputFor(g, p, alpha, 40)))
	}
	if g.permille(2) {
		c.scaled(pg)
	}
	if g.pct(2) {
		c.longChecks(pg)
	}
	c.Str = fmt.Sprintf("%.2000s", c.P)
	return c
}

// longChecks replaces a case by one with checkers of long texts: a text, the
// same text again or almost, and then one out of a list of long words.
func (c *PatCase) longChecks(pg *PG) {
	g := pg.G
	long := func() string {
		n := []int{g.u(5, 70), g.u(60, 300), g.u(250, 1200), g.u(4000, 4200), g.u(4000, 9000)}[g.n(0, 4)]
		if g.permille(30) {
			n = g.u(65400, 66000)
		}
		s := g.str(pg.Alpha, 1, 9)
		b := []byte(strings.Repeat(s, n/len(s)+1)[:n])
		for k := g.n(0, 3); k > 0; k-- {
			b[g.u(0, n-1)] = g.str(pg.Alpha, 1, 1)[0]
		}
		return strings.ReplaceAll(string(b), "|", "a") + "a"
	}
	vary := func(s string) string {
		b := []byte(s)
		if len(b) == 0 {
			return "a"
		}
		switch g.n(0, 4) {
		case 2:
			b[len(b)-1] ^= 1
		case 3:
			b[g.u(0, len(b)-1)] ^= 1
		case 4:
			b = b[:g.u(0, len(b)-1)]
		}
		return string(b)
	}
	text := p1("plus", pSeq(p1("not", pLit("|")), pAny(1)))
	chk := func(n, id, flag int, q *P) *P { return &P{K: "check", N: n, Id: id, Flag: flag, L: []*P{q}} }
	w := long()
	words := chk(ckWords, 0, 0, text)
	words.W = []Bs{Bs(w)}
	for k := g.n(0, 3); k > 0; k-- {
		words.W = append(words.W, Bs(vary(w)))
	}
	seq := []*P{chk(ckRef, 1, 0, text), pLit("|")}
	for k := g.n(0, 2); k > 0; k-- {
		seq = append(seq, chk(ckRef, 2, 0, text), pLit("|"))
	}
	seq = append(seq, chk(ckRef, g.u(1, 2), 1, &P{K: "empty"}), pLit("|"), pCap(words, 1), chk(ckMore, g.pick2(1, 3000), 0, &P{K: "empty"}))
	c.P = pSeq(seq...)
	if g.pct(50) {
		// something is matched instead
		c.P = pAlt(c.P, p1("star", pAny(1)))
	}
	c.Alt, c.Big = nil, nil
	for k := 0; k < 3; k++ {
		t := long()
		l := []string{t}
		for i := 3; i < len(seq)-4; i += 2 {
			l = append(l, vary(t))
		}
		l = append(l, vary(l[g.u(0, len(l)-1)]), vary(w))
		s := strings.Join(l, "|")
		if k == 0 {
			c.In = Bs(s)
		} else {
			c.Alt = append(c.Alt, Bs(s))
		}
	}
}

func checkCheck(c *PatCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	any := false
	// one program for all inputs, without recording wrappers
	shared, err := compileP(p, &Conv{Checker: plainCheckers()})
	if err != nil {
		return err
	}
	for _, s := range c.inputs() {
		in := padIn(s, c.Pad)
		var want, got []Call
		ref, it := reference(p, in, &want)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		// a fresh program per input: wrapped back-references keep state
		code, err := compileP(p, &Conv{Checker: checkerFactory(&got)})
		if err != nil {
			return err
		}
		r := execStr(code, in, memo.NoneTable{})
		n := min(len(want), len(got))
		for i := 0; i < n; i++ {
			if want[i] != got[i] {
				return fmt.Errorf("pattern %s on %.300q: checker call %d is %+v, want %+v", c.P, s, i, got[i], want[i])
			}
		}
		if len(want) != len(got) {
			return fmt.Errorf("pattern %s on %.300q: %d checker calls, want %d", c.P, s, len(got), len(want))
		}
		if err := vsRef(r, ref, true, true); err != nil {
			return fmt.Errorf("pattern %s on %.300q (pad %d): %v", c.P, s, c.Pad, err)
		}
		if err := vsRef(execStr(shared, in, memo.NoneTable{}), ref, true, true); err != nil {
			return fmt.Errorf("pattern %s on %.300q (pad %d, plain checkers, program used before): %v", c.P, s, c.Pad, err)
		}
		o.Sub++
		if it.checks > 0 {
			o.Class("checker-called")
			if ref.Match {
				o.Class("checker-called-and-match")
			}
			if it.checkFails > 0 {
				o.Class("checker-rejected")
			}
			if it.checkMore > 0 {
				o.Class("checker-consumed")
			}
			if it.checkMore > 0 && len(s) > 250 {
				o.Class("long-checks")
			}
			o.Nontrivial = true
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C03",
		Rule:     "cases are (well-formed pattern with captures, recovering errors and checkers, 1-4 inputs, an inlining threshold, a choice of equivalent spellings per node); six programs (optimised/unoptimised x threshold x spelling) are run and compared with the reference interpreter; non-trivial: the reference parse backtracked, looped, called a rule or evaluated a predicate and consumed input or failed on non-empty input",
		Assume:   []string{"patterns are well-formed", "unoptimised programs are those of Pattern.Compile without the Optimize pass; inlining of shapes is varied through InlineThreshold"},
		Quick:    150000,
		Thorough: 2500000,
	}, genOptCase, checkOpt)
	register(Prop{
		ID:       "C04",
		Rule:     "cases are nested grammars with colliding rule names (possibly damaged: a use renamed, a definition dropped, a start symbol undefined), a second grammar sharing pattern objects, an inlining threshold and inputs; non-trivial: a use was rejected as undefined, or a parse made at least two rule calls",
		Assume:   []string{"undefined uses in rules that cannot be reached, or in alternatives after one that may match empty, may or may not be reported"},
		Quick:    200000,
		Thorough: 3000000,
	}, genScopeCase, checkScope)
	register(Prop{
		ID:       "C11",
		Rule:     "cases are (pattern with error nodes with and without recovery, inputs, optional offset to a buffer boundary); non-trivial: the reference parse reached an error node",
		Assume:   []string{"errors are reported in the order reached, also on alternatives abandoned later (as the implementation documents by its trace order)", "the end position of an unsuccessful parse is unspecified"},
		Quick:    250000,
		Thorough: 4000000,
	}, genErrCase, checkErr)
	register(Prop{
		ID:       "C12",
		Rule:     "cases are (pattern with word-list, back-reference, length-parity and consuming checkers, inputs); the recorded checker calls and the outcome are compared with the reference; non-trivial: at least one checker was called",
		Assume:   []string{"a back-reference with no prior definition refers to the empty text", "definitions made on alternatives abandoned later count as most recent", "consuming checkers only consume bytes that exist"},
		Quick:    200000,
		Thorough: 3000000,
	}, genCheckCase, checkCheck)
}
