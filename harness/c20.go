// C20 (PEG notation means what it says), C21 (any text is compiled or
// rejected cleanly).
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

var _ = errors.Is

type ReCase struct {
	Text Bs   `json:"text"`
	P    *P   `json:"p,omitempty"` // what the text was printed from
	In   []Bs `json:"in"`
}

var reNames = []string{"A", "B", "Ab", "A1", "_x", "a_b", "S", "rule", "x9", "Spacing_", "A_", "Ident", "_", "aA", "n", "AA"}

// notationPG draws a pattern expressible in the notation.
func notationPG(g G, alpha string, memos bool) *P {
	pg := &PG{G: g, Alpha: alpha, Gram: true, Memo: memos, MaxNodes: g.n(3, 40), NTW: 10}
	if memos {
		pg.MemoW = 2
	}
	if g.pct(3) {
		pg.Long = true
	}
	return genTop(pg, g.n(1, 6))
}

func reAlpha(g G) string {
	return g.pick("abc", "abc", "ab'", "ab\"", "a\\n", "[]^", "-a]", "\n\r\t", " #a", "\x00\x07\x08", "01\x01", "\x7f\x80\xbf", "\xbf\xc0\xff", "{}<", "\xc3\xa9z", "a.*", "/()", "07\x3f", "\x1f\x20!", "^ a", "# \n")
}

// renameRules copies p with its rules renamed (sub-patterns may be shared, so
// p itself is left alone).
func renameRules(p *P, names map[string]string) *P {
	q := *p
	if m, ok := names[string(q.S)]; ok && (q.K == "nt" || q.K == "gram") {
		q.S = Bs(m)
	}
	q.L, q.Defs = nil, nil
	for _, s := range p.L {
		q.L = append(q.L, renameRules(s, names))
	}
	for _, d := range p.Defs {
		if m, ok := names[d.Name]; ok {
			d.Name = m
		}
		q.Defs = append(q.Defs, Def{d.Name, renameRules(d.P, names)})
	}
	return &q
}

func genReCase(t *rapid.T) *ReCase {
	g := G{t}
	alpha := reAlpha(g)
	c := &ReCase{}
	p := notationPG(g, alpha, g.pct(15))
	if !p.has("gram") && p.has("nt") {
		panic(HarnessBug{"free non-terminal"})
	}
	names := map[string]string{}
	if p.K == "gram" && g.pct(70) {
		used := map[string]bool{}
		for _, d := range p.Defs {
			n := reNames[g.u(0, len(reNames)-1)]
			for used[n] {
				n += g.pick("_", "0", "a")
			}
			used[n] = true
			names[d.Name] = n
		}
	}
	big := g.permille(10)
	if big {
		p = bigNotation(g)
		names, alpha = nil, "k0123456789;ab"
	} else if g.pct(3) {
		// names with a long common beginning
		pre := g.str("ab_", g.pick2(20, 250), 300)
		for _, d := range p.Defs {
			names[d.Name] = pre + d.Name
		}
	}
	p = renameRules(p, names)
	c.Text = Bs(spell(g, p, g.pct(30), nil))
	c.P = p
	for k := g.n(1, 4); k > 0; k-- {
		if big {
			e := &emitter{G: g, alpha: alpha, max: 4000, budget: 900}
			e.emit(p, nil, 900)
			b := e.buf
			for k := g.n(0, 2); k > 0; k-- {
				b = mutate(g, b, alpha)
			}
			c.In = append(c.In, Bs(b))
			continue
		}
		c.In = append(c.In, Bs(inputFor(g, p, alpha, 30)))
	}
	return c
}

// bigNotation draws patterns with many parts.
func bigNotation(g G) *P {
	n := []int{g.u(20, 70), g.u(60, 150), g.u(120, 300), g.u(250, 400)}[g.n(0, 3)]
	key := func(i int) *P { return pLit(fmt.Sprintf("k%d;", i)) }
	some := func() *P { return key(g.u(0, n-1)) }
	switch g.n(0, 4) {
	case 0:
		// many rules, each used in one way
		top := &P{K: "alt"}
		gr := &P{K: "gram", S: "S", Defs: []Def{{"S", p1("plus", top)}}}
		for i := 0; i < n; i++ {
			gr.Defs = append(gr.Defs, Def{fmt.Sprintf("R%d", i), key(i)})
			top.L = append(top.L, pNT(fmt.Sprintf("R%d", i)))
		}
		return gr
	case 1:
		// a chain of rules
		gr := &P{K: "gram", S: "R0"}
		for i := 0; i < n; i++ {
			q := pAlt(pSeq(pLit("a"), pNT(fmt.Sprintf("R%d", i+1))), some())
			gr.Defs = append(gr.Defs, Def{fmt.Sprintf("R%d", i), q})
		}
		gr.Defs = append(gr.Defs, Def{fmt.Sprintf("R%d", n), key(n)})
		return gr
	case 2:
		// many alternatives or items
		q := &P{K: g.pick("alt", "seq")}
		for i := 0; i < n; i++ {
			q.L = append(q.L, key(i))
		}
		return p1("plus", q)
	case 3:
		// a long literal
		s := g.str("ab", 1, 7)
		s = strings.Repeat(s, n)
		return pSeq(pLit(s+g.str("ab", 0, 3)), p1("star", pSet("k;")))
	}
	// a class that lists many bytes
	var b []byte
	for k := n; k > 0; k-- {
		b = append(b, byte(g.u(1, 255)))
	}
	return p1("plus", pSet(string(b)))
}

// capRules wraps the definitions of the outermost grammar in captures.
func capRules(p *P, ids map[string]int) *P {
	if p.K != "gram" {
		return p
	}
	q := &P{K: "gram", S: p.S}
	for _, d := range p.Defs {
		q.Defs = append(q.Defs, Def{d.Name, pCap(d.P, ids[d.Name])})
	}
	return q
}

func ruleList(p *P) []string {
	var l []string
	if p.K == "gram" {
		for _, d := range p.Defs {
			l = append(l, d.Name)
		}
	}
	sort.Strings(l)
	return l
}

// meaning checks that the compiled text behaves like the model on the inputs,
// without and with captures.
func meaning(text string, p *P, ins []Bs, o *Obs) error {
	for _, caps := range []bool{false, true} {
		model := p
		var pat pattern.Pattern
		var err error
		ids := map[string]int{}
		if caps {
			pat, err = re.CompileCap(text, ids)
		} else {
			pat, err = re.Compile(text)
		}
		if err != nil {
			return fmt.Errorf("text %q (caps=%v) is refused: %v", text, caps, err)
		}
		if caps {
			want := ruleList(p)
			var got []string
			seen := map[int]string{}
			for n, id := range ids {
				got = append(got, n)
				if other, ok := seen[id]; ok {
					return fmt.Errorf("text %q: rules %s and %s share the capture identifier %d", text, n, other, id)
				}
				seen[id] = n
			}
			sort.Strings(got)
			if strings.Join(got, ",") != strings.Join(want, ",") {
				return fmt.Errorf("text %q: identifiers are given to the rules %v, want %v", text, got, want)
			}
			model = capRules(p, ids)
		}
		prog, err := pattern.Compile(pat)
		if err != nil {
			return fmt.Errorf("text %q (caps=%v): the pattern does not compile: %v", text, caps, err)
		}
		code := vm.Encode(prog)
		for _, in := range ins {
			ref, it := reference(model, string(in), nil)
			if ref.Over {
				o.Class("ref-budget-exceeded")
				continue
			}
			o.Sub++
			tbls := []memo.Table{memo.NoneTable{}}
			if p.has("memo") {
				tbls = append(tbls, memo.NewTreeTable(0))
			}
			for i, tbl := range tbls {
				r := execStr(&code, string(in), tbl)
				if err := vsRef(r, ref, true, true); err != nil {
					return fmt.Errorf("text %q means %s; on %q (caps=%v, table %d): %v", text, model, string(in), caps, i, err)
				}
			}
			if ref.Match {
				o.Class("match")
			} else {
				o.Class("no-match")
			}
			if it.backtracks > 0 || it.loops > 0 || it.calls > 0 || it.predicates > 0 {
				o.Nontrivial = true
			}
		}
	}
	return nil
}

func textClasses(s string, p *P, o *Obs) {
	if strings.Contains(s, "#") {
		o.Class("hash")
	}
	if strings.Contains(s, "\\") {
		o.Class("escape")
	}
	if strings.Contains(s, "[^") {
		o.Class("complement-class")
	}
	if strings.Contains(s, "{") {
		o.Class("brace")
	}
	if len(s) > 1000 {
		o.Class("long-text")
	}
	if p != nil && p.K == "gram" {
		o.Class("grammar")
	} else if p != nil {
		o.Class("expression")
	}
}

func checkRe(c *ReCase, o *Obs) error {
	text := string(c.Text)
	p, _, ok := parseNotation(text)
	if !ok {
		panic(HarnessBug{fmt.Sprintf("printed text %q is not derivable", text)})
	}
	// the printer and the parser of the harness must agree
	for _, in := range c.In {
		a, _ := reference(c.P, string(in), nil)
		b, _ := reference(p, string(in), nil)
		if !a.Over && !b.Over && (a.Match != b.Match || a.Pos != b.Pos && a.Match) {
			panic(HarnessBug{fmt.Sprintf("text %q printed from %s parses as %s", text, c.P, p)})
		}
	}
	textClasses(text, p, o)
	return meaning(text, p, c.In, o)
}

// ---- C21 -------------------------------------------------------------------------

type TextCase struct {
	Text Bs   `json:"text"`
	In   []Bs `json:"in"`
}

var reTokens = []string{"<-", "/", "(", ")", "{", "}", "{{", "}}", "[", "]", "[^", "'", "\"", "\\", ".", "*", "+", "?", "&", "!", "#", "\n", " ", "-", "^", "A", "B", "a", "0", "'a'", "\"b\"", "[a-c]", "[]", "[^]", "''", "\\n", "\\-", "\\7", "\\277", "\\377", "\\8", "A <- ", "B <- 'b' ", "()", "[a-]", "[-a]", "[\\]]", "# c\n", "\r\n", "\t", "é", "\x00", "[c-a]", "\\x"}

func genTextCase(t *rapid.T) *TextCase {
	g := G{t}
	c := &TextCase{}
	var b []byte
	alpha := reAlpha(g)
	switch g.weighted(6, 3, 1, 2) {
	case 0, 3:
		p := notationPG(g, alpha, g.pct(15))
		b = []byte(spell(g, p, g.pct(40), nil))
	case 1:
		braces := 0
		for k := g.n(0, 14); k > 0; k-- {
			tok := reTokens[g.u(0, len(reTokens)-1)]
			if strings.Contains(tok, "{") {
				if braces++; braces > 6 {
					continue
				}
			}
			b = append(b, tok...)
			if g.pct(20) {
				b = append(b, ' ')
			}
		}
	case 2:
		for k := g.n(0, 12); k > 0; k-- {
			b = append(b, byte(g.u(0, 255)))
		}
	}
	for k := g.n(0, 4); k > 0; k-- {
		i := g.u(0, len(b))
		j := min(len(b), i+g.n(0, 3))
		switch g.n(0, 4) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1, 2:
			tok := reTokens[g.u(0, len(reTokens)-1)]
			b = append(b[:i:i], append([]byte(tok), b[i:]...)...)
		case 3:
			if len(b) > 0 {
				// repeat a piece
				x := append([]byte(nil), b[i:j]...)
				b = append(b[:i:i], append(x, b[i:]...)...)
			}
		case 4:
			b = b[:i]
		}
	}
	c.Text = Bs(b)
	for k := g.n(1, 3); k > 0; k-- {
		c.In = append(c.In, Bs(g.str(alpha+"ab", 0, 6)))
	}
	return c
}

// freeNames lists the non-terminals of a notation pattern that its grammar
// does not define.
func freeNames(p *P) map[string]bool {
	def := map[string]bool{}
	for _, d := range p.Defs {
		def[d.Name] = true
	}
	free := map[string]bool{}
	p.walk(func(q *P) {
		if q.K == "nt" && !def[string(q.S)] {
			free[string(q.S)] = true
		}
	})
	return free
}

func checkText(c *TextCase, o *Obs) error {
	text := string(c.Text)
	if strings.Count(text, "{") > 16 {
		o.Discard("many braces (the notation grammar needs exponential time)")
		return nil
	}
	p, n, ok := parseNotation(text)
	ids := map[string]int{}
	pat, err := re.Compile(text)
	patc, errc := re.CompileCap(text, ids)
	if (err == nil) != ok || (errc == nil) != ok {
		return fmt.Errorf("text %q: the notation grammar derives it = %v, Compile says %v, CompileCap says %v", text, ok, err, errc)
	}
	if err != nil && (pat != nil || err.Error() == "") || errc != nil && (patc != nil || errc.Error() == "") {
		return fmt.Errorf("text %q: pattern or empty message returned with error %q, %q", text, err, errc)
	}
	textClasses(text, p, o)
	if !ok {
		o.Class("refused")
		// near misses are what matters: a text from which some prefix is valid
		for i := len(text) - 1; i > 0 && i > len(text)-4; i-- {
			if _, _, pre := parseNotation(text[:i]); pre {
				o.Class("refused-near-miss")
				o.Nontrivial = true
				break
			}
		}
		if len(text) > 8 {
			o.Nontrivial = true
		}
		return nil
	}
	o.Class("accepted")
	if pat == nil || patc == nil {
		return fmt.Errorf("text %q: nil pattern without an error", text)
	}
	free := freeNames(p)
	for i, q := range []pattern.Pattern{pat, patc} {
		prog, err := pattern.Compile(q)
		if err != nil {
			if len(free) == 0 {
				return fmt.Errorf("text %q defines every non-terminal, but its pattern (caps=%v) does not compile: %v", text, i == 1, err)
			}
			named := false
			for f := range free {
				named = named || strings.Contains(err.Error(), f)
			}
			if !named {
				return fmt.Errorf("text %q: error %q names none of the undefined non-terminals %v", text, err, free)
			}
			o.Class("undefined-non-terminal")
			continue
		}
		vm.Encode(prog)
	}
	if len(p.Defs) > 1 || p.size() > 3 {
		o.Nontrivial = true
	}
	if len(free) > 0 {
		return nil
	}
	if n.dup {
		o.Class("rule-defined-twice")
		return nil
	}
	o2 := &Obs{}
	err = meaning(text, p, c.In, o2)
	o.Sub += o2.Sub
	return err
}

func init() {
	register(Prop{
		ID:       "C20",
		Rule:     "on some input the reference run of the denoted pattern backtracks, loops, calls a rule or evaluates a predicate",
		Assume:   []string{"rules are defined once", "no left recursion, no repetition of something that can match the empty string", "braces { } group: the notation grammar derives them and prescribes no capture identifier", "the notation grammar is the one documented at the top of re/grammar.go (so spacing after ^ is skipped)"},
		Quick:    350000,
		Thorough: 3000000,
		Batch:    8000,
	}, genReCase, checkRe)
	register(Prop{
		ID:       "C21",
		Rule:     "accepted texts with several rules or more than three nodes; refused texts longer than 8 bytes or of which all but the last bytes are derivable",
		Assume:   []string{"at most 16 opening braces (nested braces need exponential time in the notation grammar itself)"},
		Quick:    500000,
		Thorough: 4000000,
		Batch:    8000,
	}, genTextCase, checkText)
}
