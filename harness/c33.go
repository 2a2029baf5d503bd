package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// C33: memoization avoids work. Every memoized pattern is instrumented with
// checkers that always accept and count, per position, how often the pattern
// is asked for, how often its body is parsed and how its body ends.

type OnceCase struct {
	P       *P       `json:"p"`
	In      Bs       `json:"in"`
	Packrat bool     `json:"packrat,omitempty"` // every rule is memoized
	Tree    bool     `json:"tree,omitempty"`    // repetitions of memoized patterns stay repetitions
	Ops     []EditOp `json:"ops,omitempty"`
	Str     string   `json:"str,omitempty"`
}

type onceKey struct{ id, pos int }

type onceCnt struct {
	asked, begun, ended, nonempty int
}

type onceLog struct {
	m     map[onceKey]*onceCnt
	total int
}

func (l *onceLog) at(id, pos int) *onceCnt {
	k := onceKey{id, pos}
	c := l.m[k]
	if c == nil {
		c = &onceCnt{}
		l.m[k] = c
	}
	return c
}

// onceProbe counts; the begin and end probes of one evaluation are paired with
// a span check around the body, which is called when the body has matched.
type onceProbe struct {
	log  *onceLog
	id   int
	kind byte
}

func (p *onceProbe) Check(b []byte, src *input.Input, id, flag int) int {
	pos := src.Pos() - len(b)
	c := p.log.at(p.id, pos)
	switch p.kind {
	case 'a':
		c.asked++
	case 'b':
		c.begun++
		p.log.total++
		if p.log.total > onceLimit {
			panic(onceRunaway{})
		}
	case 'e':
		c.ended++
		if len(b) > 0 {
			c.nonempty++
		}
	}
	return 0
}

const onceLimit = 100000

type onceRunaway struct{}

func onceConv(log *onceLog, tree bool) *Conv {
	return &Conv{
		Checker: checkerFactory(nil),
		MemoWrap: func(p *P, body pattern.Pattern) pattern.Pattern {
			probe := func(kind byte) isa.Checker { return &onceProbe{log, p.N, kind} }
			m := &pattern.MemoNode{
				Patt: pattern.Concat(pattern.Check(&pattern.EmptyNode{}, probe('b')), pattern.Check(body, probe('e'))),
				Id:   p.N,
			}
			if tree {
				return m
			}
			return pattern.Concat(pattern.Check(&pattern.EmptyNode{}, probe('a')), m)
		},
	}
}

// onceTable records what the parser stores, and which entries every later edit
// has left alone.
type onceTable struct {
	memo.Table
	kept map[onceKey]int // high end of the examined text
}

func (t *onceTable) Put(id, start, length, examined, count int, c []*memo.Capture) {
	t.Table.Put(id, start, length, examined, count, c)
	if length != 0 {
		t.kept[onceKey{id, start}] = start + max(examined, length)
	}
}

func (t *onceTable) ApplyEdit(e memo.Edit) {
	t.Table.ApplyEdit(e)
	lo, hi := e.Start, e.End
	if lo == hi {
		hi++
	}
	amt := e.Len - (e.End - e.Start)
	next := map[onceKey]int{}
	for k, high := range t.kept {
		if k.pos <= hi && high >= lo {
			continue
		}
		if k.pos > hi {
			k.pos += amt
			high += amt
		}
		next[k] = high
	}
	t.kept = next
}

// genPackrat draws a grammar of memoized rules whose alternatives share
// prefixes, so that without memoization the rules are parsed again and again.
func genPackrat(g G) *P {
	n := g.n(1, 4)
	name := func(i int) string { return fmt.Sprintf("R%d", i) }
	gr := &P{K: "gram", S: Bs(name(0))}
	ops := "abcd"
	for i := 0; i <= n; i++ {
		var alts []*P
		if i < n {
			next := func() *P {
				x := pNT(name(i + 1))
				if g.pct(15) {
					x = pCap(x, g.n(1, 4))
				}
				return x
			}
			for k := g.n(1, 3); k > 0; k-- {
				s := pSeq(next(), pSet(g.str(ops, 1, 2)), pNT(name(g.u(0, n))))
				if g.pct(30) {
					s = pSeq(p1(g.pick("and", "not"), pSeq(next(), pLit(g.str(ops, 1, 1)))), s)
				}
				alts = append(alts, s)
			}
			alts = append(alts, next())
		} else {
			for k := g.n(1, 2); k > 0; k-- {
				cl := pLit(g.pick(")", "]", "}"))
				alts = append(alts, pSeq(pLit("("), pNT(name(g.u(0, n))), cl))
			}
			alts = append(alts, pSet("xy"))
			if g.pct(30) {
				alts = append(alts, pAlt(pSeq(pLit("x"), p1("opt", pLit("x"))), p1("plus", pSet("yz"))))
			}
		}
		b := pAlt(alts...)
		if g.pct(20) {
			b = pCap(b, g.n(5, 9))
		}
		gr.Defs = append(gr.Defs, Def{Name: name(i), P: pMemo(b, memoBase+1+i)})
	}
	return gr
}

func genOnce(t *rapid.T) *OnceCase {
	g := G{t}
	c := &OnceCase{}
	alpha := alphaC
	if g.pct(55) {
		c.P, c.Packrat = genPackrat(g), true
		alpha = "xyabc()]}"
		if g.pct(60) {
			// nested brackets
			var b strings.Builder
			d := g.u(1, 25)
			if g.pct(10) {
				d = g.u(25, 200)
			}
			b.WriteString(strings.Repeat("(", d))
			b.WriteString(g.pick("x", "y", "xbx", "yay"))
			for i := 0; i < d; i++ {
				b.WriteString(g.pick(")", ")", ")", ")", "]", "}", "ax)"))
			}
			c.In = Bs(b.String())
		} else {
			c.In = Bs(docFor(g, c.P, alpha, 120))
		}
	} else {
		if g.pct(15) {
			alpha = alphaW
		}
		c.P = genMemoPat(g, alpha, false, false)
		c.Tree = g.pct(50)
		c.In = Bs(docFor(g, c.P, alpha, 90))
	}
	n := len(c.In)
	for k := g.n(0, 4); k > 0; k-- {
		e := genEdit(g, c.P, alpha, n, 0)
		c.Ops = append(c.Ops, e)
		n = max(0, n-e.D) + len(e.T)
	}
	c.Str = c.P.String()
	return c
}

func checkOnce(c *OnceCase, o *Obs) (err error) {
	log := &onceLog{}
	prog, err := pattern.Compile(onceConv(log, c.Tree).conv(c.P))
	if err != nil {
		return fmt.Errorf("compilation of a complete pattern failed: %v", err)
	}
	sites := 1
	for _, in := range prog {
		switch in.(type) {
		case isa.MemoTreeOpen:
			sites++
		}
	}
	code := vm.Encode(prog)
	tb := &onceTable{Table: memo.NewTreeTable(0), kept: map[onceKey]int{}}
	text := string(c.In)
	what := ""
	over := false
	packrat := c.Packrat
	parse := func(step int, fresh bool) (err error) {
		kept := tb.kept
		before := make(map[onceKey]bool, len(kept))
		for k := range kept {
			before[k] = true
		}
		log.m, log.total = map[onceKey]*onceCnt{}, 0
		defer func() {
			if r := recover(); r != nil {
				if s, _ := r.(string); strings.Contains(s, "instruction limit") && !packrat {
					over = true
					return
				}
				if _, ok := r.(onceRunaway); !ok {
					if !panicInGpeg() {
						panic(r)
					}
					err = fmt.Errorf("panic in gpeg: %v", r)
					return
				}
				if !packrat {
					over = true
					return
				}
				err = fmt.Errorf("pattern %s on %q: memoized patterns were parsed more than %d times in one parse", c.P, text, onceLimit)
			}
		}()
		code.Exec(strings.NewReader(text), tb)
		o.Sub++
		saved := false
		for k, n := range log.m {
			// a match of the empty text is not worth storing
			empty := n.ended > n.nonempty
			if c.Tree {
				// Copies of a repetition have tables of their own, and the
				// failure that ends a repetition is not stored.
				if n.nonempty > sites {
					return fmt.Errorf("pattern %s on %q%s: memoized pattern %d was parsed successfully %d times at position %d (with %d copies)", c.P, text, what, k.id, n.nonempty, k.pos, sites)
				}
				if !fresh && n.nonempty > 0 {
					return fmt.Errorf("pattern %s on %q, second parse with the table: memoized pattern %d was parsed again at position %d", c.P, text, k.id, k.pos)
				}
				if n.nonempty > 0 && !fresh {
					saved = true
				}
				continue
			}
			if n.asked > n.begun {
				saved = true
			}
			if empty {
				continue
			}
			if n.begun > 1 {
				return fmt.Errorf("pattern %s on %q%s: memoized pattern %d was asked for %d times at position %d and parsed %d times", c.P, text, what, k.id, n.asked, k.pos, n.begun)
			}
			if n.begun > 0 && !fresh {
				return fmt.Errorf("pattern %s on %q, second parse with the table: memoized pattern %d was parsed again at position %d", c.P, text, k.id, k.pos)
			}
			if n.begun > 0 && before[k] {
				return fmt.Errorf("pattern %s on %q%s: memoized pattern %d was parsed at position %d although its earlier result is not touched by the edits", c.P, text, what, k.id, k.pos)
			}
			if n.asked > 0 && before[k] && step >= 0 {
				o.Class("kept-result-used-after-edit")
			}
		}
		if saved || (c.Tree && len(kept) > 2) {
			o.Nontrivial = true
			o.Class("work-saved")
		}
		return nil
	}
	if err := parse(-1, true); err != nil {
		return err
	}
	if over {
		o.Discard("too many steps in parts that are not memoized")
		return nil
	}
	if err := parse(-1, false); err != nil {
		return err
	}
	if c.Tree {
		o.Class("repetitions")
	} else {
		o.Class("plain")
	}
	if packrat {
		o.Class("packrat-grammar")
	}
	if len(text) > 50 {
		o.Class("long")
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		var e memo.Edit
		text, e = op.apply(text)
		tb.ApplyEdit(e)
		what = fmt.Sprintf(" after %d edits", i+1)
		if op.P || i == len(c.Ops)-1 {
			if err := parse(i, true); err != nil || over {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C33",
		Rule:     "a memoized pattern is asked for more than once at one position, or an unchanged text is parsed again with the table",
		Assume:   []string{"threshold 0", "matches of the empty text, results with errors and the failure that ends a repetition are not stored"},
		Quick:    100000,
		Thorough: 1500000,
		Batch:    4000,
	}, genOnce, checkOnce)
}
