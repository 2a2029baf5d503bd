package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
)

type PatCase struct {
	P   *P     `json:"p"`
	In  Bs     `json:"in"`
	Pad int    `json:"pad,omitempty"`
	Alt []Bs   `json:"alt,omitempty"` // further inputs
	Big *Scale `json:"big,omitempty"` // a long input
	Str string `json:"str,omitempty"` // readable form
}

const alphaC = "abc"
const alphaW = "ab \n1_" // for zero-width assertions

// alphabets: mostly three letters, sometimes bytes around the boundaries of
// the 64-bit words of a character set, non-ASCII and NUL.
func genAlpha(g G) string {
	if g.pct(75) {
		return alphaC
	}
	return g.pick("\x3f\x40\x7f\x80", "\x00\x01\xff", "\xbf\xc0\xff\x00", "aA1\xe9", "ab\n\r", "abcdefghijklmnop", "\xc3\xa9\xe2\x82\xac")
}

func genTop(pg *PG, depth int) *P {
	if pg.Gram && pg.pct(60) {
		return pg.grammar(depth, false, false)
	}
	return pg.gen(depth, false, false)
}

func (c *PatCase) inputs() []string {
	var l []string
	for _, s := range append([]Bs{c.In}, c.Alt...) {
		l = append(l, string(s))
	}
	if c.Big != nil {
		l = append(l, c.Big.text())
	}
	return l
}

// scaled replaces a case by one with a long input.
func (c *PatCase) scaled(pg *PG) *PatCase {
	pg.nodes = 0
	pg.MaxNodes = min(pg.MaxNodes, 12)
	c.P, c.Big = genScale(pg, 80000)
	c.Pad = 0
	c.In, c.Alt = Bs(inputFor(pg.G, c.P, pg.Alpha, 40)), nil
	return c
}

func genPatCase(t *rapid.T, caps bool) *PatCase {
	g := G{t}
	alpha := genAlpha(g)
	eops := g.pct(25)
	if eops {
		alpha = alphaW
	}
	pg := &PG{G: g, Alpha: alpha, Caps: caps, EOps: eops, Search: g.pct(40), Gram: true, NestGram: g.pct(25), MaxNodes: g.n(4, 45), CapW: 14}
	max := 40
	if g.pct(6) {
		pg.Long = true
		max = 900
	}
	depth := g.n(1, 6)
	if g.pct(50) {
		depth = g.n(3, 6)
	}
	p := genTop(pg, depth)
	c := &PatCase{P: p, Pad: genPad(g)}
	c.In = Bs(inputFor(g, p, alpha, max))
	for k := g.n(0, 3); k > 0; k-- {
		c.Alt = append(c.Alt, Bs(inputFor(g, p, alpha, max)))
	}
	if g.permille(2) {
		c.scaled(pg)
	}
	c.Str = c.P.String()
	return c
}

func checkPat(c *PatCase, o *Obs, caps bool) error {
	p := padP(c.P, c.Pad)
	code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
	if err != nil {
		return err
	}
	any := false
	for i, s := range c.inputs() {
		in := padIn(s, c.Pad)
		ref, it := reference(p, in, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		o.Sub++
		r := execStr(code, in, memo.NoneTable{})
		if err := vsRef(r, ref, caps, false); err != nil {
			return fmt.Errorf("pattern %s on input #%d %.300q (pad %d): %v", c.P, i, s, c.Pad, err)
		}
		if ref.Match != r.HasAST {
			return fmt.Errorf("pattern %s on %.300q: tree returned = %v for match = %v", c.P, s, r.HasAST, ref.Match)
		}
		if caps && r.Match {
			if r.Root.Start() != 0 || r.Root.Len() != ref.Pos || !r.Root.Dummy() {
				return fmt.Errorf("pattern %s on %.300q: root covers [%d,%d), parse ended at %d", c.P, s, r.Root.Start(), r.Root.End(), ref.Pos)
			}
		}
		if ref.Match {
			o.Class("match")
			if ref.Pos > c.Pad+1000 {
				o.Class("match-of-a-long-text")
			}
			if ref.Pos > c.Pad {
				o.Class("match-consuming")
			}
		} else {
			o.Class("no-match")
		}
		inter := it.backtracks > 0 || it.loops > 0 || it.calls > 0 || it.predicates > 0
		if it.backtracks > 0 {
			o.Class("backtracked")
		}
		if it.calls > 1 {
			o.Class("calls")
		}
		if caps {
			n := capsCount(ref.Caps)
			if n > 0 {
				o.Class("captures")
			}
			if n >= 3 {
				o.Class("captures>=3")
			}
			if n > 0 && inter {
				o.Nontrivial = true
			}
		} else if inter && (ref.Pos > c.Pad || !ref.Match && len(s) > 0) {
			o.Nontrivial = true
		}
		if c.Pad > 0 {
			o.Class("padded-to-buffer-boundary")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	kinds := map[string]bool{}
	c.P.walk(func(q *P) { kinds[q.K] = true })
	for k := range kinds {
		o.Class("has-" + k)
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C01",
		Rule:     "cases are (well-formed random pattern, 1-4 inputs derived from it by random sentences and mutations, optional offset placing the match at a 4096-byte buffer boundary); non-trivial: for some input the reference match backtracked, looped, called a rule or evaluated a predicate, and consumed input or failed on non-empty input",
		Assume:   []string{"patterns are well-formed: no left recursion, no repetition of a nullable pattern", "the reference interpreter in /verif/harness/ast.go states PEG semantics correctly"},
		Quick:    450000,
		Thorough: 3000000,
	}, func(t *rapid.T) *PatCase { return genPatCase(t, false) },
		func(c *PatCase, o *Obs) error { return checkPat(c, o, false) })
	register(Prop{
		ID:       "C02",
		Rule:     "as C01 with captures anywhere in the pattern; non-trivial: the successful parse made at least one capture and backtracked, looped, called a rule or evaluated a predicate",
		Assume:   []string{"patterns are well-formed", "captures inside a positive predicate are kept (as in LPeg), inside a negative one dropped"},
		Quick:    450000,
		Thorough: 3000000,
	}, func(t *rapid.T) *PatCase { return genPatCase(t, true) },
		func(c *PatCase, o *Obs) error { return checkPat(c, o, true) })
}
