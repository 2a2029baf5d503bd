// C05 (memoization is transparent), C06 (incremental reparse), C07 (range
// restricted parses).
package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// memoStats wraps a table and counts what the parser does with it.
type memoStats struct {
	memo.Table
	gets, hits, failHits, puts, failPuts, treePuts int
}

func (m *memoStats) Get(id, pos int) (*memo.Entry, bool) {
	m.gets++
	e, ok := m.Table.Get(id, pos)
	if ok {
		m.hits++
		if e.Length() < 0 {
			m.failHits++
		}
	}
	return e, ok
}

func (m *memoStats) Put(id, start, length, examined, count int, c []*memo.Capture) {
	m.puts++
	if length < 0 {
		m.failPuts++
	}
	if count > 1 {
		m.treePuts++
	}
	m.Table.Put(id, start, length, examined, count, c)
}

var thresholds = []int{0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 7, 10, 30, 1024}

type MemoCase struct {
	P   *P     `json:"p"`
	In  []Bs   `json:"in"`
	Th  []int  `json:"th"`
	API bool   `json:"api,omitempty"`
	Pad int    `json:"pad,omitempty"`
	Str string `json:"str,omitempty"`
}

// genMemoPat draws a pattern with memoization points.
func genMemoPat(g G, alpha string, errs, checks bool) *P {
	pg := &PG{G: g, Alpha: alpha, Caps: true, CapW: 9, Memo: true, MemoW: 9, Errs: errs, ErrNil: errs && g.pct(20),
		Checks: checks, PureChk: true, Search: g.pct(30), Gram: g.pct(60), NestGram: g.pct(10), EOps: alpha == alphaW, MaxNodes: g.n(5, 40)}
	switch g.weighted(3, 7) {
	case 0:
		return genTop(pg, g.n(2, 6))
	default:
		// a document: repetition of memoized elements, possibly nested
		elem := pg.gen(g.n(1, 4), true, false)
		if g.pct(12) {
			// a failure remembered behind something that can be edited
			lead := p1(g.pick("star", "plus"), pSet(alpha[:1+g.n(0, 1)]))
			m := pg.gen(g.n(0, 2), true, false)
			if g.pct(60) {
				m = pLit(g.str(alpha, 2, 5))
			}
			pg.memoID++
			m = pMemo(m, memoBase+pg.memoID)
			elem = pAlt(pSeq(lead, m), pSeq(lead, pg.gen(g.n(0, 1), g.pct(50), false)), pAny(1))
		}
		if g.pct(65) {
			// fall back to something that always matches, so that a damaged
			// element does not end the document
			var fb *P
			switch g.n(0, 2) {
			case 0:
				fb = pSet(alpha)
			case 1:
				fb = pAny(1)
			default:
				fb = p1("plus", pSet(alpha[:1+len(alpha)/2]))
			}
			if g.pct(60) {
				fb = pCap(fb, 9)
			}
			if g.pct(20) {
				pg.memoID++
				fb = pMemo(fb, memoBase+pg.memoID)
			}
			elem = pAlt(elem, fb)
		}
		if g.pct(60) {
			elem = pCap(elem, g.n(5, 7))
		}
		pg.memoID++
		elem = pMemo(elem, memoBase+pg.memoID)
		if g.pct(25) {
			sep := pLit(g.str(alpha, 1, 1))
			elem = pSeq(elem, sep)
			if g.pct(50) {
				pg.memoID++
				elem = pMemo(elem, memoBase+pg.memoID)
			}
		}
		doc := p1(g.pick("star", "star", "plus"), elem)
		if g.pct(30) {
			doc = pCap(doc, 8)
		}
		if g.pct(20) {
			pg.memoID++
			doc = pMemo(doc, memoBase+pg.memoID)
		}
		switch g.n(0, 4) {
		case 0:
			doc = pSeq(doc, p1("not", pAny(1)))
		case 1:
			doc = pSeq(pg.gen(2, false, false), doc, pg.gen(2, false, false))
		case 2:
			doc = pAlt(pSeq(doc, pg.gen(2, true, false)), doc)
		}
		return doc
	}
}

// docFor draws a text for a document-like pattern, up to max bytes: mostly
// long sentences of the pattern, sometimes damaged.
func docFor(g G, p *P, alpha string, max int) string {
	if g.pct(25) {
		return inputFor(g, p, alpha, max)
	}
	e := &emitter{G: g, alpha: alpha, max: g.u(4, max), budget: 300, star: g.u(2, 20)}
	for k := g.n(1, 2); k > 0; k-- {
		e.emit(p, nil, 25)
	}
	b := e.buf
	if g.pct(30) {
		b = mutate(g, b, alpha)
	}
	if len(b) > max {
		b = b[:max]
	}
	return string(b)
}

func memoScale(g G, alpha string) *PG {
	return &PG{G: g, Alpha: alpha, Caps: true, CapW: 9, Memo: true, MemoW: 5, EOps: alpha == alphaW, Search: g.pct(20), MaxNodes: 10}
}

func genMemoCase(t *rapid.T) *MemoCase {
	g := G{t}
	alpha := alphaC
	if g.pct(15) {
		alpha = alphaW
	}
	c := &MemoCase{P: genMemoPat(g, alpha, g.pct(25), g.pct(20)), API: g.pct(25), Pad: genPad(g)}
	for k := g.n(1, 3); k > 0; k-- {
		c.In = append(c.In, Bs(docFor(g, c.P, alpha, 80)))
	}
	if g.permille(3) {
		var s *Scale
		c.P, s = genScale(memoScale(g, alpha), 20000)
		c.In, c.Pad = []Bs{Bs(s.text())}, 0
	}
	for k := g.n(1, 3); k > 0; k-- {
		c.Th = append(c.Th, thresholds[g.n(0, len(thresholds)-1)])
	}
	c.Str = c.P.String()
	return c
}

func checkMemo(c *MemoCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	code, err := compileP(p, &Conv{Checker: checkerFactory(nil), MemoAPI: c.API})
	if err != nil {
		return err
	}
	plain, err := compileP(p, &Conv{Checker: checkerFactory(nil), NoMemo: true})
	if err != nil {
		return err
	}
	any := false
	for _, s := range c.In {
		in := padIn(string(s), c.Pad)
		ref, _ := reference(p, in, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		if err := vsRef(execStr(plain, in, memo.NoneTable{}), ref, true, true); err != nil {
			return fmt.Errorf("pattern %s without memoization on %q (pad %d): %v", c.P, string(s), c.Pad, err)
		}
		if err := vsRef(execStr(code, in, memo.NoneTable{}), ref, true, true); err != nil {
			return fmt.Errorf("pattern %s with an empty table type on %q (pad %d): %v", c.P, string(s), c.Pad, err)
		}
		for _, th := range c.Th {
			st := &memoStats{Table: memo.NewTreeTable(th)}
			var prev Res
			for round := 0; round < 3; round++ {
				h0 := st.hits
				r := execStr(code, in, st)
				if err := vsRef(r, ref, true, true); err != nil {
					return fmt.Errorf("pattern %s on %q (pad %d), threshold %d, parse %d with one table: %v", c.P, string(s), c.Pad, th, round+1, err)
				}
				if round > 0 && prev.Root != nil {
					// the tree returned earlier is unchanged
					if again := capKids(prev.Root); !capsEq(again, prev.Caps) {
						return fmt.Errorf("pattern %s on %q, threshold %d: parse %d changed the tree returned by an earlier parse: {%s} became {%s}", c.P, string(s), th, round+1, capsStr(prev.Caps), capsStr(again))
					}
				}
				prev = r
				o.Sub++
				if st.hits > h0 {
					o.Class("hit-in-round-%d", round+1)
					if round == 0 || th == 0 {
						o.Nontrivial = true
					}
				}
			}
			if st.failHits > 0 {
				o.Class("failure-hit")
			}
			if st.treePuts > 0 {
				o.Class("tree-merge")
			}
			if len(ref.Errs) > 0 {
				o.Class("with-errors")
			}
			if st.hits > 0 && capsCount(ref.Caps) > 0 {
				o.Class("hit-and-captures")
			}
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

// ---- C06 ---------------------------------------------------------------------

type EditOp struct {
	S int  `json:"s"` // start, modulo the current length + 1
	D int  `json:"d"` // bytes deleted (clipped)
	T Bs   `json:"t"` // inserted text
	P bool `json:"p"` // parse after this edit
	// a range-restricted parse (C07)
	Lo int `json:"lo,omitempty"`
	Hi int `json:"hi,omitempty"`
}

type EditCase struct {
	P   *P       `json:"p"`
	In  Bs       `json:"in"`
	Th  int      `json:"th"`
	Pad int      `json:"pad,omitempty"`
	Ops []EditOp `json:"ops"`
	Lo  int      `json:"lo,omitempty"`
	Hi  int      `json:"hi,omitempty"`
	Str string   `json:"str,omitempty"`
}

func (e *EditOp) apply(text string) (string, memo.Edit) {
	s := e.S % (len(text) + 1)
	d := min(e.D, len(text)-s)
	return text[:s] + string(e.T) + text[s+d:], memo.Edit{Start: s, End: s + d, Len: len(e.T)}
}

func genEdit(g G, p *P, alpha string, n int, pad int) EditOp {
	e := EditOp{P: g.pct(60)}
	switch g.u(0, 7) {
	case 0:
		e.S = pad
	case 1:
		e.S = pad + n
	case 2:
		e.S = pad + g.u(max(0, n-3), n)
	default:
		e.S = pad + g.u(0, n)
	}
	if e.S > pad && g.pct(5) {
		e.S = g.n(0, pad)
	}
	switch g.weighted(10, 0, 7, 6, 3) {
	case 0:
		e.T = Bs(g.str(alpha, 1, 3))
	case 2:
		e.D = g.n(1, 4)
	case 3:
		e.D = g.n(1, 4)
		e.T = Bs(g.str(alpha, 0, 4))
	case 4:
		switch g.n(0, 2) {
		case 0:
			e.D = g.n(1, max(n, 1))
		case 1:
			e.T = Bs(inputFor(g, p, alpha, 20))
		case 2:
			e.D = g.n(0, max(n, 1))
			e.T = Bs(inputFor(g, p, alpha, 20))
		}
	}
	return e
}

// editLog keeps the text while edits are drawn, to undo some of them.
type editLog struct {
	text string
	done []struct {
		s        int
		del, ins string
	}
}

func (l *editLog) add(e *EditOp) {
	text, m := e.apply(l.text)
	l.done = append(l.done, struct {
		s        int
		del, ins string
	}{m.Start, l.text[m.Start:m.End], string(e.T)})
	l.text = text
}

// undo draws an edit that takes an earlier one back.
func (l *editLog) undo(g G) (EditOp, bool) {
	if len(l.done) == 0 {
		return EditOp{}, false
	}
	i := len(l.done) - 1 - g.n(0, len(l.done)-1)
	r := l.done[i]
	s := r.s
	for _, q := range l.done[i+1:] {
		switch {
		case q.s+len(q.del) <= s:
			s += len(q.ins) - len(q.del)
		case q.s >= s+len(r.ins):
		default:
			return EditOp{}, false
		}
	}
	return EditOp{S: s, D: len(r.ins), T: Bs(r.del), P: g.pct(60)}, r.del != "" || r.ins != ""
}

func genEditCase(t *rapid.T, ranges bool) *EditCase {
	g := G{t}
	alpha := alphaC
	if g.pct(20) {
		alpha = alphaW
	}
	c := &EditCase{P: genMemoPat(g, alpha, g.pct(15), g.pct(15)), Th: thresholds[g.n(0, len(thresholds)-1)]}
	if g.pct(15) {
		c.Pad = genPad(g)
	}
	c.In = Bs(docFor(g, c.P, alpha, 90))
	if g.permille(3) {
		var s *Scale
		c.P, s = genScale(memoScale(g, alpha), 8000)
		c.In, c.Pad = Bs(s.text()), 0
	}
	n := len(c.In)
	rng := func() (int, int) {
		lo := g.u(0, n+2)
		if g.pct(15) {
			lo = 0
		}
		hi := lo + g.u(0, 6)
		switch g.n(0, 5) {
		case 0:
			hi = lo + g.n(0, n+3)
		case 1:
			hi = n + 5
		case 2:
			hi = lo
		}
		return lo, hi
	}
	if ranges {
		c.Lo, c.Hi = rng()
	}
	k := g.n(1, 8)
	if g.permille(4) && n < 300 {
		k = g.u(30, 150) // a long history
	}
	log := &editLog{text: padIn(string(c.In), c.Pad)}
	for ; k > 0; k-- {
		e := genEdit(g, c.P, alpha, n, c.Pad)
		if g.pct(25) {
			if u, ok := log.undo(g); ok {
				e = u
			}
		}
		if ranges {
			e.Lo, e.Hi = rng()
			if g.pct(40) { // another range, no edit
				e.D, e.T, e.P = 0, "", true
			}
		}
		c.Ops = append(c.Ops, e)
		log.add(&e)
		n = max(0, n-e.D) + len(e.T)
	}
	c.Str = c.P.String()
	return c
}

func checkEdit(c *EditCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
	if err != nil {
		return err
	}
	text := padIn(string(c.In), c.Pad)
	st := &memoStats{Table: memo.NewTreeTable(c.Th)}
	parse := func(step int) (bool, error) {
		ref, _ := reference(p, text, nil)
		if ref.Over {
			return false, nil
		}
		h0 := st.hits
		r := execStr(code, text, st)
		if err := vsRef(r, ref, true, true); err != nil {
			return true, fmt.Errorf("pattern %s, threshold %d: after edit %d the text is %q: reparse: %v", c.P, c.Th, step, text[min(c.Pad, len(text)):], err)
		}
		if r.Match && (r.Root.Start() != 0 || r.Root.Len() != ref.Pos) {
			return true, fmt.Errorf("pattern %s: root covers [%d,%d), parse ended at %d", c.P, r.Root.Start(), r.Root.End(), ref.Pos)
		}
		o.Sub++
		if step >= 0 {
			if st.hits > h0 {
				o.Class("reparse-with-hits")
				if capsCount(ref.Caps) > 0 {
					o.Nontrivial = true
					o.Class("reparse-with-hits-and-captures")
				}
			} else {
				o.Class("reparse-without-hits")
			}
		}
		return true, nil
	}
	if ok, err := parse(-1); err != nil || !ok {
		if !ok {
			o.Discard("reference budget exceeded on the initial text")
		}
		return err
	}
	for i := range c.Ops {
		var e memo.Edit
		text, e = c.Ops[i].apply(text)
		st.ApplyEdit(e)
		o.Class("edit")
		if c.Ops[i].P || i == len(c.Ops)-1 {
			ok, err := parse(i)
			if err != nil {
				return err
			}
			if !ok {
				o.Class("ref-budget-exceeded")
			}
		}
	}
	if st.treePuts > 0 {
		o.Class("tree-merge")
	}
	if st.failHits > 0 {
		o.Class("failure-hit")
	}
	return nil
}

// ---- C07 ---------------------------------------------------------------------

// filterCaps keeps the captures that overlap [lo,hi) and whose ancestors do.
func filterCaps(cs []*CapT, lo, hi int) []*CapT {
	var out []*CapT
	for _, c := range cs {
		if lo < c.Start+c.Len && hi > c.Start {
			out = append(out, &CapT{c.Id, c.Start, c.Len, filterCaps(c.Kids, lo, hi)})
		}
	}
	return out
}

func checkRange(c *EditCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
	if err != nil {
		return err
	}
	text := padIn(string(c.In), c.Pad)
	st := &memoStats{Table: memo.NewTreeTable(c.Th)}
	parse := func(step, lo, hi int) error {
		lo, hi = lo+c.Pad, hi+c.Pad
		ref, _ := reference(p, text, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			return nil
		}
		all := capsCount(ref.Caps)
		ref.Caps = filterCaps(ref.Caps, lo, hi)
		for _, tb := range []struct {
			name string
			t    memo.Table
		}{{"no table", memo.NoneTable{}}, {"table", st}} {
			h0 := st.hits
			m, n, ast, errs := code.ExecInterval(stringsReader(text), tb.t, &vm.Interval{Low: lo, High: hi})
			r := toRes(m, n, ast, errs)
			if err := vsRef(r, ref, true, true); err != nil {
				return fmt.Errorf("pattern %s, threshold %d, %s, step %d, text %q, range [%d,%d) (pad %d): %v", c.P, c.Th, tb.name, step, text[min(c.Pad, len(text)):], lo, hi, c.Pad, err)
			}
			if r.HasAST {
				// the root holds what was captured, and nothing outside the
				// range and the text
				from, to := min(lo, 0), max(hi, len(text))
				lo, hi := r.Root.Start(), r.Root.Start()+r.Root.Len()
				if lo < from || hi > to {
					return fmt.Errorf("pattern %s, threshold %d, %s, step %d, text %q (pad %d): the root covers [%d,%d), want within [%d,%d)", c.P, c.Th, tb.name, step, text[min(c.Pad, len(text)):], c.Pad, lo, hi, from, to)
				}
				for _, k := range r.Caps {
					if k.Start < lo || k.Start+k.Len > hi {
						return fmt.Errorf("pattern %s, threshold %d, %s, step %d, text %q, range [%d,%d) (pad %d): the root covers [%d,%d) but has the capture %s", c.P, c.Th, tb.name, step, text[min(c.Pad, len(text)):], lo, hi, c.Pad, lo, hi, capsStr([]*CapT{k}))
					}
				}
			}
			o.Sub++
			if tb.t == memo.Table(st) && st.hits > h0 {
				o.Class("parse-with-hits")
			}
		}
		k := capsCount(ref.Caps)
		if k > 0 && k < all {
			o.Class("proper-subset-of-captures")
			o.Nontrivial = true
		} else if all > 0 && k == 0 {
			o.Class("no-capture-in-range")
		}
		return nil
	}
	if err := parse(-1, c.Lo, c.Hi); err != nil {
		return err
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.D > 0 || len(op.T) > 0 {
			var e memo.Edit
			text, e = op.apply(text)
			st.ApplyEdit(e)
			o.Class("edit")
		}
		if op.P || i == len(c.Ops)-1 {
			if err := parse(i, op.Lo, op.Hi); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C05",
		Rule:     "cases are (pattern with memoization points anywhere or a repetition of memoized elements, with captures, errors and pure checkers; inputs; table thresholds); each input is parsed three times with one tree table and with no table and compared with the reference; non-trivial: a parse with a table had a memo hit",
		Assume:   []string{"distinct memoized patterns carry distinct identifiers", "memoized patterns are functions of the text: no back-reference state inside them"},
		Quick:    120000,
		Thorough: 2000000,
		Batch:    4000,
	}, genMemoCase, checkMemo)
	register(Prop{
		ID:       "C06",
		Rule:     "cases are (memoized pattern, initial text, threshold, 1-8 edits with reparses between them); every reparse is compared with the reference on the current text; non-trivial: a reparse after an edit had memo hits and captures",
		Assume:   []string{"distinct memoized patterns carry distinct identifiers", "checkers inside memoized patterns depend only on the matched text"},
		Quick:    120000,
		Thorough: 2000000,
		Batch:    4000,
	}, func(t *rapid.T) *EditCase { return genEditCase(t, false) }, checkEdit)
	register(Prop{
		ID:       "C07",
		Rule:     "as C06 with a byte range for every parse; the captures are compared with the reference captures filtered by overlap; non-trivial: the range selected some but not all captures",
		Assume:   []string{"a table used for range-restricted parses is used for nothing else", "a capture overlaps [lo,hi) when lo < end and hi > start"},
		Quick:    120000,
		Thorough: 2000000,
		Batch:    4000,
	}, func(t *rapid.T) *EditCase { return genEditCase(t, true) }, checkRange)
}
