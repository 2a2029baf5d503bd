// C36: the readable form of a pattern denotes the pattern. The printed text is
// read back with a parser of its own and both are run by the reference
// interpreter.
package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/pattern"
)

type prettyReader struct {
	s    string
	msgs []string // longest first
}

func (r *prettyReader) eat(t string) bool {
	if strings.HasPrefix(r.s, t) {
		r.s = r.s[len(t):]
		return true
	}
	return false
}

func (r *prettyReader) need(t string) error {
	if !r.eat(t) {
		return fmt.Errorf("no %q at %.40q", t, r.s)
	}
	return nil
}

func (r *prettyReader) term(depth int) (*P, error) {
	if depth > 3000 {
		return nil, fmt.Errorf("nested too deeply")
	}
	for op, k := range map[string]string{"!": "not", "&": "and"} {
		if r.eat(op) {
			p, err := r.term(depth + 1)
			if err != nil {
				return nil, err
			}
			return p1(k, p), nil
		}
	}
	p, err := r.primary(depth)
	if err != nil {
		return nil, err
	}
	for {
		switch {
		case r.eat("*"):
			p = p1("star", p)
		case r.eat("+"):
			p = p1("plus", p)
		case r.eat("?"):
			p = p1("opt", p)
		default:
			return p, nil
		}
	}
}

// bracketed reads a term up to a closing text.
func (r *prettyReader) bracketed(k, end string, depth int) (*P, error) {
	p, err := r.term(depth + 1)
	if err != nil {
		return nil, err
	}
	return p1(k, p), r.need(end)
}

func (r *prettyReader) primary(depth int) (*P, error) {
	switch {
	case strings.HasPrefix(r.s, `"`):
		q, err := strconv.QuotedPrefix(r.s)
		if err != nil {
			return nil, fmt.Errorf("bad literal at %.40q", r.s)
		}
		r.s = r.s[len(q):]
		v, err := strconv.Unquote(q)
		if err != nil {
			return nil, fmt.Errorf("bad literal %.40q", q)
		}
		return pLit(v), nil
	case r.eat("["):
		set, tail, err := asmSet(r.s)
		if err != nil {
			return nil, err
		}
		r.s = tail
		var b []byte
		for i := range set {
			if set[i] {
				b = append(b, byte(i))
			}
		}
		return pSet(string(b)), r.need("]")
	case r.eat("."):
		return pAny(1), nil
	case r.eat("("):
		p, err := r.term(depth + 1)
		if err != nil {
			return nil, err
		}
		l, sep := []*P{p}, ""
		for !r.eat(")") {
			switch {
			case r.eat(" / "):
				if sep == " " {
					return nil, fmt.Errorf("choice inside a sequence without brackets at %.40q", r.s)
				}
				sep = " / "
			case r.eat(" "):
				if sep == " / " {
					return nil, fmt.Errorf("sequence inside a choice without brackets at %.40q", r.s)
				}
				sep = " "
			default:
				return nil, fmt.Errorf("no %q at %.40q", ")", r.s)
			}
			if p, err = r.term(depth + 1); err != nil {
				return nil, err
			}
			l = append(l, p)
		}
		if len(l) == 1 {
			return l[0], nil
		}
		if sep == " / " {
			return pAlt(l...), nil
		}
		return pSeq(l...), nil
	case r.eat("{{ "):
		return r.bracketed("memo", " }}", depth)
	case r.eat("{ "):
		return r.bracketed("cap", " }", depth)
	case r.eat("search("):
		return r.bracketed("search", ")", depth)
	case r.eat("err("):
		for _, m := range r.msgs {
			if r.eat(m + ", ") {
				p, err := r.bracketed("err", ")", depth)
				if err != nil {
					return nil, err
				}
				p.S = Bs(m)
				return p, nil
			}
		}
		return nil, fmt.Errorf("unknown message at %.40q", r.s)
	case r.eat("empty("):
		i := 0
		for i < len(r.s) && r.s[i] >= '0' && r.s[i] <= '9' {
			i++
		}
		n, err := strconv.Atoi(r.s[:i])
		if err != nil {
			return nil, fmt.Errorf("bad assertion at %.40q", r.s)
		}
		r.s = r.s[i:]
		return &P{K: "eop", N: n}, r.need(")")
	}
	i := 0
	for i < len(r.s) && (r.s[i] == '_' || r.s[i] >= '0' && r.s[i] <= '9' || r.s[i]|32 >= 'a' && r.s[i]|32 <= 'z') {
		i++
	}
	if i == 0 {
		return nil, fmt.Errorf("no term at %.40q", r.s)
	}
	n := r.s[:i]
	r.s = r.s[i:]
	return pNT(n), nil
}

// readPretty reads the readable form of a pattern. A grammar is its start rule
// and then one rule per line.
func readPretty(text string, msgs []string, gram bool) (*P, error) {
	if !gram {
		r := &prettyReader{text, msgs}
		p, err := r.term(0)
		if err == nil && r.s != "" {
			err = fmt.Errorf("trailing %.40q", r.s)
		}
		return p, err
	}
	lines := strings.Split(text, "\n")
	if len(lines) < 2 || lines[len(lines)-1] != "" {
		return nil, fmt.Errorf("not a list of rules")
	}
	g := &P{K: "gram", S: Bs(lines[0])}
	for _, l := range lines[1 : len(lines)-1] {
		i := strings.Index(l, " <- ")
		if i < 0 {
			return nil, fmt.Errorf("no rule in %.60q", l)
		}
		p, err := readPretty(l[i+4:], msgs, false)
		if err != nil {
			return nil, fmt.Errorf("rule %s: %v", l[:i], err)
		}
		for _, d := range g.Defs {
			if d.Name == l[:i] {
				return nil, fmt.Errorf("rule %s is listed twice", l[:i])
			}
		}
		g.Defs = append(g.Defs, Def{l[:i], p})
	}
	return g, nil
}

func noIDs(l []*CapT) []*CapT {
	var r []*CapT
	for _, c := range l {
		r = append(r, &CapT{0, c.Start, c.Len, noIDs(c.Kids)})
	}
	return r
}

func genPretty(t *rapid.T) *OptCase {
	g := G{t}
	alpha := genAlpha(g)
	if g.pct(30) {
		// characters that mean something in the printed form
		alpha = g.pick("a\"\\", "\"'`", "()/ ", "{}[]", ".*+?!&", "<-\n\t", "\\x0n")
	}
	eops := g.pct(20)
	if eops {
		alpha = alphaW
	}
	pg := &PG{G: g, Alpha: alpha, Caps: true, Memo: g.pct(40), Errs: g.pct(30), EOps: eops, Search: g.pct(40), Gram: true, MaxNodes: g.n(4, 40), OptRich: g.pct(50)}
	c := &OptCase{P: genTop(pg, g.n(2, 6))}
	// messages that cannot be confused with what follows them
	n := 0
	c.P.walk(func(q *P) {
		if q.K == "err" {
			q.S = Bs(fmt.Sprintf("m%d;", n%9))
			n++
		}
	})
	for k := g.n(1, 4); k > 0; k-- {
		c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 40)))
	}
	for k := g.n(1, 12); k > 0; k-- {
		c.V = append(c.V, g.n(0, 2))
	}
	c.Th = []int{0, 1, 2, 5, 15, 100, 1000}[g.n(0, 6)]
	c.Str = c.P.String()
	return c
}

func checkPretty(c *OptCase, o *Obs) error {
	grams, messages := 0, map[string]bool{}
	c.P.walk(func(q *P) {
		if q.K == "gram" {
			grams++
		}
		if q.K == "err" {
			messages[string(q.S)] = true
		}
	})
	if grams > 1 || grams == 1 && c.P.K != "gram" {
		o.Discard("grammar inside a pattern")
		return nil
	}
	var msgs []string
	for m := range messages {
		msgs = append(msgs, m)
	}
	sort.Slice(msgs, func(i, j int) bool {
		return len(msgs[i]) > len(msgs[j]) || len(msgs[i]) == len(msgs[j]) && msgs[i] < msgs[j]
	})
	any := false
	for _, variant := range []bool{false, true} {
		cv := &Conv{Checker: checkerFactory(nil)}
		if variant {
			idx := map[*P]int{}
			n := 0
			c.P.walk(func(q *P) {
				if _, ok := idx[q]; !ok {
					idx[q] = n
					n++
				}
			})
			cv.Variant = func(q *P) int { return c.V[idx[q]%len(c.V)] }
		}
		var text string
		withThreshold(c.Th, func() { text = pattern.Prettify(cv.conv(c.P)) })
		p, err := readPretty(text, msgs, grams == 1)
		if err != nil {
			return fmt.Errorf("the readable form of %s cannot be read: %v\n%.1500s", c.P, err, text)
		}
		if l := unresolved(p); len(l) > 0 && len(unresolved(c.P)) == 0 {
			return fmt.Errorf("the readable form of %s uses rules %v that it does not list\n%.1500s", c.P, l, text)
		}
		for i, in := range c.In {
			want, it := reference(c.P, string(in), nil)
			got, _ := reference(p, string(in), nil)
			if want.Over || got.Over {
				o.Class("ref-budget-exceeded")
				continue
			}
			any = true
			o.Sub++
			switch {
			case want.Match != got.Match || want.Match && want.Pos != got.Pos || want.Abort != got.Abort:
				err = fmt.Errorf("match=%v end=%d, the printed pattern match=%v end=%d", want.Match, want.Pos, got.Match, got.Pos)
			case !capsEq(noIDs(want.Caps), noIDs(got.Caps)):
				err = fmt.Errorf("captures %s, the printed pattern %s (identifiers are not printed)", capsStr(want.Caps), capsStr(got.Caps))
			case fmt.Sprint(want.Errs) != fmt.Sprint(got.Errs):
				err = fmt.Errorf("errors %v, the printed pattern %v", want.Errs, got.Errs)
			}
			if err != nil {
				return fmt.Errorf("pattern %s on input #%d %.300q: %v; printed as\n%.1500s", c.P, i, in, err, text)
			}
			if want.Match {
				o.Class("match")
			} else {
				o.Class("no-match")
			}
			if want.Match && want.Pos > 0 && (it.backtracks > 0 || it.loops > 0 || it.calls > 0 || it.predicates > 0) {
				o.Nontrivial = true
			}
		}
		if strings.Contains(text, " <- ") && p.size() > c.P.size() {
			o.Class("inlined")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	c.P.walk(func(q *P) { o.Class("has-" + q.K) })
	return nil
}

func init() {
	register[OptCase](Prop{
		ID:       "C36",
		Rule:     "cases are random patterns or grammars with 1-4 inputs, printed in two spellings under a random inlining threshold; the printed text is read back and both are run by the reference interpreter; non-trivial: on an input the pattern consumed text and backtracked, looped, called or looked ahead",
		Assume:   []string{"patterns without checkers, errors without recovery and grammars inside a pattern; error messages without a comma; capture and memo identifiers are not printed"},
		Quick:    150000,
		Thorough: 2000000,
		Batch:    300,
	}, genPretty, checkPretty)
}
