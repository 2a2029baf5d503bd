// C10 (reparse work).
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/bits"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// WorkEdit places an edit at a fraction of the document (in 1/1000).
type WorkEdit struct {
	At int `json:"at"`
	D  int `json:"d,omitempty"`
	T  Bs  `json:"t,omitempty"`
	// Skip: no parse after this edit
	Skip bool `json:"skip,omitempty"`
}

// WorkCase is a document of N elements of one of several shapes, parsed with
// a table, and then edited.
type WorkCase struct {
	Shape int  `json:"shape"`
	N     int  `json:"n"`
	Words []Bs `json:"words"` // element bodies, cycled
	Cap   bool `json:"cap,omitempty"`
	Outer bool `json:"outer,omitempty"` // the whole document is memoized too
	Plus  bool `json:"plus,omitempty"`
	Th    int  `json:"th,omitempty"`
	// the list of edits is applied Rounds times
	Rounds int `json:"rounds,omitempty"`
	// additional parses of the unchanged document
	Again int        `json:"again,omitempty"`
	Ops   []WorkEdit `json:"ops"`
}

const nShapes = 5

// elements: the text of one element with the given body, and the pattern.
func workElem(shape int, body string) string {
	switch shape {
	case 0:
		return body + ";"
	case 1:
		return body + " "
	case 2:
		return "(" + body + ")"
	case 3:
		return "{" + body + ";" + body + ";}"
	}
	return body + "\n"
}

func workPattern(c *WorkCase) pattern.Pattern {
	low := pattern.Plus(pattern.Set(charset.Range('a', 'z')))
	var elem pattern.Pattern
	var other pattern.Pattern // what keeps a damaged document going
	switch c.Shape {
	case 0:
		elem = pattern.Concat(low, pattern.Literal(";"))
		other = pattern.Any(1)
	case 1:
		elem = pattern.Or(low, pattern.Plus(pattern.Literal(" ")))
		other = pattern.Any(1)
	case 2:
		elem = pattern.NonTerm("E")
		other = pattern.Any(1)
	case 3:
		stmt := pattern.Memo(pattern.Concat(low, pattern.Literal(";")))
		elem = pattern.Concat(pattern.Literal("{"), pattern.Star(stmt), pattern.Literal("}"))
		other = pattern.Any(1)
	case 4:
		// lines, whatever they hold
		elem = pattern.Concat(pattern.Star(pattern.Set(charset.New([]byte{'\n'}).Complement())), pattern.Literal("\n"))
		other = pattern.Plus(pattern.Any(1))
	}
	if c.Cap {
		elem = pattern.Cap(elem, 1)
	}
	item := pattern.Memo(pattern.Or(elem, other))
	var doc pattern.Pattern
	if c.Plus {
		doc = pattern.Plus(item)
	} else {
		doc = pattern.Star(item)
	}
	if c.Outer {
		doc = pattern.Memo(doc)
	}
	if c.Shape == 2 {
		in := pattern.Star(pattern.Memo(pattern.Or(low, pattern.NonTerm("E"))))
		return pattern.Grammar("D", map[string]pattern.Pattern{
			"D": doc,
			"E": pattern.Concat(pattern.Literal("("), in, pattern.Literal(")")),
		})
	}
	return doc
}

func genWorkCase(t *rapid.T) *WorkCase {
	g := G{t}
	c := &WorkCase{Shape: g.u(0, nShapes-1), Cap: g.pct(60), Outer: g.pct(20), Plus: g.pct(20)}
	mode := g.weighted(5, 3, 1, 2)
	switch mode {
	case 0: // documents of growing size
		k := g.u(6, 13)
		if g.pct(10) {
			k = g.u(13, 15)
		}
		c.N = g.u(1<<k, 2<<k)
		c.Again = g.n(0, 2)
	case 1: // many rounds on a small document
		c.N = g.u(1, 40)
		c.Rounds = g.u(10, 40)
		c.Again = g.n(0, 60)
	case 2: // large elements
		c.N = g.u(500, 3000)
	case 3: // many edits on a large document
		c.N = g.u(1000, 5000)
		c.Rounds = g.u(2, 6)
	}
	for i := g.n(1, 4); i > 0; i-- {
		w := g.str("abc", 1, 8)
		if mode == 2 {
			for len(w) < 300 {
				w += w
			}
		}
		c.Words = append(c.Words, Bs(w))
	}
	if g.pct(25) {
		c.Th = g.n(0, 60)
	}
	for i := g.u(1, 12); i > 0; i-- {
		e := WorkEdit{At: g.u(0, 1000)}
		switch g.n(0, 3) {
		case 0:
			e.T = Bs(g.str("abc", 1, 4))
		case 1:
			e.D = g.n(1, 5)
		case 2:
			e.D = g.n(0, 6)
			if c.Shape == 2 {
				e.T = Bs(g.pick("(a)", "()", "((b)c)", "a(bc)", ""))
			} else {
				e.T = Bs(g.str("abc;(){} \n", 0, 6))
			}
		case 3:
			e.T = Bs(workElem(c.Shape, g.str("abc", 1, 5)))
		}
		e.Skip = g.pct(25)
		c.Ops = append(c.Ops, e)
	}
	return c
}

// countReader counts the reads of a text.
type countReader struct {
	r     io.ReaderAt
	reads int
}

func (c *countReader) ReadAt(b []byte, off int64) (int, error) {
	c.reads++
	return c.r.ReadAt(b, off)
}

func checkWork(c *WorkCase, o *Obs) error {
	if len(c.Words) == 0 || c.N <= 0 {
		o.Discard("empty document")
		return nil
	}
	var text []byte
	big := 0 // the largest element, which an edit may break into single bytes
	for _, w := range c.Words {
		big = max(big, len(workElem(c.Shape, string(w))))
	}
	for i := 0; i < c.N; i++ {
		text = append(text, workElem(c.Shape, string(c.Words[i%len(c.Words)]))...)
	}
	prog, err := pattern.Compile(workPattern(c))
	if err != nil {
		return err
	}
	code := vm.Encode(prog)
	st := &memoStats{Table: memo.NewTreeTable(c.Th)}
	type work struct{ steps, reads, gets, hits, puts int }
	parse := func() (Res, work) {
		w := work{totalSteps(), 0, st.gets, st.hits, st.puts}
		cr := &countReader{r: bytes.NewReader(text)}
		m, pos, ast, errs := code.Exec(cr, st)
		r := Res{Match: m, Pos: pos, Root: ast}
		_ = errs
		return r, work{totalSteps() - w.steps, cr.reads, st.gets - w.gets, st.hits - w.hits, st.puts - w.puts}
	}
	check := func(step int, r Res) error {
		if !r.Match && (!c.Plus || len(text) > 0) {
			return fmt.Errorf("step %d: the document does not match", step)
		}
		if r.Match && r.Pos != len(text) {
			return fmt.Errorf("step %d: the parse ended at %d of %d", step, r.Pos, len(text))
		}
		return nil
	}
	// What a parse may cost: a constant, the depth of the merge tree, the
	// unmemoized results below the threshold and the elements that an edit
	// changed; per edit since the last parse.
	lim := func(edits, changed int) (steps, reads int) {
		lg := bits.Len(uint(len(text)))
		k := max(edits, 1) * (1 + nesting(text)/2)
		steps = k*(500+40*lg+100*c.Th+40*big) + 100*changed
		if edits == 0 { // only unmemoized results
			steps = 100 + 20*lg + 100*c.Th
		}
		return steps, k*(20+5*lg) + steps/4096
	}
	within := func(step, edits, changed int, w, full work) error {
		if c.Rounds >= 10 {
			return nil // a small document: only the size of the table counts
		}
		steps, reads := lim(edits, changed)
		if w.steps > steps {
			return fmt.Errorf("shape %d, step %d: reparsing %d bytes after %d edits of %d bytes took %d instructions (limit %d; the first parse took %d)", c.Shape, step, len(text), edits, changed, w.steps, steps, full.steps)
		}
		if w.reads > reads {
			return fmt.Errorf("shape %d, step %d: reparsing %d bytes after %d edits of %d bytes read %d blocks (limit %d; the first parse read %d)", c.Shape, step, len(text), edits, changed, w.reads, reads, full.reads)
		}
		if edits > 0 && full.steps > 4*steps {
			o.Class("limit-below-quarter-of-full-parse")
			o.Nontrivial = true
		}
		if full.reads > 2*reads {
			o.Class("read-limit-below-half-of-full-parse")
		}
		return nil
	}
	size := func(step int) error {
		if n := st.Size(); n > 10*len(text)+100 {
			return fmt.Errorf("shape %d, step %d: the table holds %d entries for a document of %d bytes", c.Shape, step, n, len(text))
		}
		return nil
	}
	r, full := parse()
	if err := check(-1, r); err != nil {
		return err
	}
	if err := size(-1); err != nil {
		return err
	}
	for k := 0; k <= c.Again; k++ {
		r, w := parse()
		if err := check(-1, r); err != nil {
			return err
		}
		if err := within(-1, 0, 0, w, full); err != nil {
			return err
		}
		if workDebug {
			fmt.Printf("WORK n=%d len=%d lg=%d th=%d shape=%d full=%+v again=%+v\n", c.N, len(text), bits.Len(uint(len(text))), c.Th, c.Shape, full, w)
		}
	}
	if err := size(-1); err != nil {
		return err
	}
	pending, changed := 0, 0
	for i := 0; i < len(c.Ops)*max(c.Rounds, 1); i++ {
		e := c.Ops[i%len(c.Ops)]
		at := e.At * len(text) / 1000
		d := min(e.D, len(text)-at)
		if c.Shape == 2 && bytes.ContainsAny(text[at:at+d], "()") {
			// an unbalanced text would make the rest of the document depend
			// on the edit
			d = 0
		}
		text = append(append(append([]byte{}, text[:at]...), e.T...), text[at+d:]...)
		st.ApplyEdit(memo.Edit{Start: at, End: at + d, Len: len(e.T)})
		pending++
		changed += d + len(e.T)
		if e.Skip && i%len(c.Ops) != len(c.Ops)-1 {
			continue
		}
		r, w := parse()
		if err := check(i, r); err != nil {
			return err
		}
		if workDebug {
			fmt.Printf("   EDIT %d at %d -%d +%q: %+v size %d\n", i, at, d, e.T, w, st.Size())
		}
		if err := within(i, pending, changed, w, full); err != nil {
			return err
		}
		if err := size(i); err != nil {
			return err
		}
		if pending > 1 {
			o.Class("several-edits-before-reparse")
		}
		pending, changed = 0, 0
		o.Sub++
	}
	if c.Rounds > 1 {
		o.Class("many-rounds")
		o.Nontrivial = true
	}
	return nil
}

// nesting is the deepest nesting of parentheses.
func nesting(text []byte) int {
	d, deepest := 0, 0
	for _, b := range text {
		switch b {
		case '(':
			d++
			deepest = max(deepest, d)
		case ')':
			d--
		}
	}
	return deepest
}

var workDebug = false

func init() {
	register(Prop{
		ID:       "C10",
		Rule:     "cases are documents of 1 to 65000 memoized elements of one of five shapes (flat, separated, nested, element with memoized parts, lines), a table threshold and edit/reparse rounds; the instructions executed and the blocks read by each reparse are bounded by a constant plus a multiple of log2(size), independent of the number of elements; the number of table entries is bounded by the document size over all rounds; non-trivial: the bound was below a quarter of the full parse, or at least two rounds of edits ran",
		Assume:   []string{"results that examine fewer bytes than the table's threshold are parsed again", "edits that leave a nested element unclosed are excluded: the rest of the document then depends on them", "instructions are counted in the VM loop under the verif build tag"},
		Quick:    2500,
		CPU:      10, // the slowest cases take half a second
		Thorough: 60000,
	}, genWorkCase, checkWork)
}
