// C24 (character sets), C27 (syntax-tree navigation and positions), C28
// (decomposition of edits).
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/bench"
	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// ---- C24 -----------------------------------------------------------------------

// SetExp is an expression over sets: new, range, add, sub, comp.
type SetExp struct {
	K    string    `json:"k"`
	S    Bs        `json:"s,omitempty"`
	Lo   int       `json:"lo,omitempty"`
	Hi   int       `json:"hi,omitempty"`
	L    []*SetExp `json:"l,omitempty"`
	Show string    `json:"show,omitempty"`
}

type SetCase struct {
	A *SetExp `json:"a"`
	B *SetExp `json:"b"`
}

type byteSet [256]bool

func (e *SetExp) String() string {
	var l []string
	for _, s := range e.L {
		l = append(l, s.String())
	}
	switch e.K {
	case "new":
		return fmt.Sprintf("New(%q)", string(e.S))
	case "range":
		return fmt.Sprintf("Range(%d,%d)", e.Lo, e.Hi)
	}
	return e.K + "(" + strings.Join(l, ", ") + ")"
}

var edgeBytes = []int{0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255}

func genByte(g G) int {
	if g.pct(50) {
		return edgeBytes[g.u(0, len(edgeBytes)-1)]
	}
	return g.u(0, 255)
}

func genSet(g G, d int) *SetExp {
	if d <= 0 || g.pct(25) {
		if g.pct(50) {
			lo, hi := genByte(g), genByte(g)
			if lo > hi && g.pct(80) {
				lo, hi = hi, lo
			}
			return &SetExp{K: "range", Lo: lo, Hi: hi}
		}
		e := &SetExp{K: "new"}
		var b []byte
		for k := g.n(0, 12); k > 0; k-- {
			b = append(b, byte(genByte(g)))
		}
		e.S = Bs(b)
		return e
	}
	switch g.n(0, 2) {
	case 0:
		return &SetExp{K: "add", L: []*SetExp{genSet(g, d-1), genSet(g, d-1)}}
	case 1:
		return &SetExp{K: "sub", L: []*SetExp{genSet(g, d-1), genSet(g, d-1)}}
	}
	return &SetExp{K: "comp", L: []*SetExp{genSet(g, d-1)}}
}

// rewrite draws an expression with the same value.
func rewriteSet(g G, e *SetExp, d int) *SetExp {
	if d <= 0 {
		return e
	}
	comp := func(x *SetExp) *SetExp { return &SetExp{K: "comp", L: []*SetExp{x}} }
	r := func(i int) *SetExp { return rewriteSet(g, e.L[i], d-1) }
	switch e.K {
	case "add":
		switch g.n(0, 2) {
		case 0:
			return &SetExp{K: "add", L: []*SetExp{r(1), r(0)}}
		case 1:
			return comp(&SetExp{K: "sub", L: []*SetExp{comp(r(0)), r(1)}})
		}
		return &SetExp{K: "add", L: []*SetExp{r(0), &SetExp{K: "sub", L: []*SetExp{r(1), r(0)}}}}
	case "sub":
		if g.pct(50) {
			return comp(&SetExp{K: "add", L: []*SetExp{comp(r(0)), r(1)}})
		}
		return &SetExp{K: "sub", L: []*SetExp{r(0), r(1)}}
	case "comp":
		return &SetExp{K: "sub", L: []*SetExp{{K: "range", Lo: 0, Hi: 255}, r(0)}}
	case "range":
		if e.Lo < e.Hi {
			m := g.u(e.Lo, e.Hi-1)
			return &SetExp{K: "add", L: []*SetExp{{K: "range", Lo: e.Lo, Hi: m}, {K: "range", Lo: m + 1, Hi: e.Hi}}}
		}
	case "new":
		b := []byte(e.S)
		for i := len(b) - 1; i > 0; i-- {
			j := g.u(0, i)
			b[i], b[j] = b[j], b[i]
		}
		if len(b) > 0 {
			b = append(b, b[0])
		}
		return &SetExp{K: "new", S: Bs(b)}
	}
	return comp(comp(e))
}

func genSetCase(t *rapid.T) *SetCase {
	g := G{t}
	c := &SetCase{A: genSet(g, g.n(0, 5))}
	if g.pct(50) {
		c.B = rewriteSet(g, c.A, 3)
	} else {
		c.B = genSet(g, g.n(0, 4))
	}
	return c
}

func (e *SetExp) eval() (charset.Set, byteSet, error) {
	var m byteSet
	var s charset.Set
	switch e.K {
	case "new":
		in := []byte(e.S)
		s = charset.New(in)
		if string(in) != string(e.S) {
			return s, m, fmt.Errorf("New changed its argument")
		}
		for _, c := range []byte(e.S) {
			m[c] = true
		}
	case "range":
		s = charset.Range(byte(e.Lo), byte(e.Hi))
		for c := e.Lo; c <= e.Hi; c++ {
			m[c] = true
		}
	default:
		var l []charset.Set
		var ml []byteSet
		for _, x := range e.L {
			s1, m1, err := x.eval()
			if err != nil {
				return s, m, err
			}
			l, ml = append(l, s1), append(ml, m1)
		}
		switch e.K {
		case "add":
			s = l[0].Add(l[1])
			for i := range m {
				m[i] = ml[0][i] || ml[1][i]
			}
		case "sub":
			s = l[0].Sub(l[1])
			for i := range m {
				m[i] = ml[0][i] && !ml[1][i]
			}
		case "comp":
			s = l[0].Complement()
			for i := range m {
				m[i] = !ml[0][i]
			}
		}
		for i := range l {
			if err := sameSet(e.L[i], l[i], ml[i]); err != nil {
				return s, m, fmt.Errorf("after %s: operand: %v", e.K, err)
			}
		}
	}
	return s, m, sameSet(e, s, m)
}

func sameSet(e *SetExp, s charset.Set, m byteSet) error {
	n, small := 0, 0
	var runs []string
	for i := 0; i < 256; i++ {
		if s.Has(byte(i)) != m[i] {
			return fmt.Errorf("%s: Has(%d) = %v, want %v", e, i, s.Has(byte(i)), m[i])
		}
		if !m[i] {
			continue
		}
		n++
		if i < 128 {
			small++
		}
		if i > 0 && m[i-1] {
			continue
		}
		j := i
		for j < 255 && m[j+1] {
			j++
		}
		if i == j {
			runs = append(runs, strconv.QuoteRuneToASCII(rune(i)))
		} else {
			runs = append(runs, strconv.QuoteRuneToASCII(rune(i))+".."+strconv.QuoteRuneToASCII(rune(j)))
		}
	}
	if s.Size() != n {
		return fmt.Errorf("%s: Size() = %d, has %d members", e, s.Size(), n)
	}
	if s.IsSmall() != (n == small) {
		return fmt.Errorf("%s: IsSmall() = %v, %d of %d members are below 128", e, s.IsSmall(), small, n)
	}
	sm := s.SmallSet()
	for i := 0; i < 128; i++ {
		if sm.Has(byte(i)) != m[i] {
			return fmt.Errorf("%s: the small set has %d = %v, want %v", e, i, sm.Has(byte(i)), m[i])
		}
	}
	if sm.Size() != small {
		return fmt.Errorf("%s: Size() of the small set = %d, has %d members", e, sm.Size(), small)
	}
	if want := "{" + strings.Join(runs, ",") + "}"; s.String() != want {
		return fmt.Errorf("%s: String() = %s, want %s", e, s.String(), want)
	}
	return nil
}

var setBytes = func() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}()

func checkSet(c *SetCase, o *Obs) error {
	a, ma, err := c.A.eval()
	if err != nil {
		return err
	}
	b, mb, err := c.B.eval()
	if err != nil {
		return err
	}
	if (a == b) != (ma == mb) {
		return fmt.Errorf("%s == %s is %v, but their members are equal: %v", c.A, c.B, a == b, ma == mb)
	}
	if ma == mb {
		o.Class("equal")
	} else {
		o.Class("different")
	}
	if a.IsSmall() {
		o.Class("small")
	} else {
		o.Class("large")
	}
	if n := a.Size(); n > 0 && n < 256 && len(c.A.L) > 0 {
		o.Nontrivial = true
	}
	// the set decides what a pattern matches, alone and repeated
	prog, err := pattern.Compile(pattern.Search(pattern.Cap(pattern.Plus(pattern.Set(a)), 1)))
	if err != nil {
		return fmt.Errorf("%s: does not compile: %v", c.A, err)
	}
	code := vm.Encode(prog)
	lo := 0
	for lo < 256 && !ma[lo] {
		lo++
	}
	hi := lo
	for hi < 256 && ma[hi] {
		hi++
	}
	r := execStr(&code, setBytes, memo.NoneTable{})
	if r.Match != (lo < 256) || r.Match && (len(r.Caps) != 1 || r.Caps[0].Start != lo || r.Caps[0].Len != hi-lo) {
		return fmt.Errorf("%s: searching all bytes for it gives %s, want %d..%d", c.A, r, lo, hi)
	}
	return nil
}

// ---- C27 -----------------------------------------------------------------------

type Tree struct {
	Id    int     `json:"id"`
	Dummy bool    `json:"dummy,omitempty"`
	Start int     `json:"start"`
	Len   int     `json:"len"`
	Kids  []*Tree `json:"kids,omitempty"`
	Run   int     `json:"run,omitempty"` // that many children of length 1
}

type NavCase struct {
	T    *Tree    `json:"t,omitempty"` // a tree built by hand
	P    *P       `json:"p,omitempty"`
	In   Bs       `json:"in,omitempty"`
	Th   int      `json:"th,omitempty"`
	Ops  []EditOp `json:"ops,omitempty"`
	Str  string   `json:"str,omitempty"`
	Idx  []int    `json:"idx,omitempty"`
	Full bool     `json:"full,omitempty"`
}

func genTree(g G, d, lo, hi int, left *int) *Tree {
	*left--
	t := &Tree{Id: g.n(0, 4), Start: lo, Len: hi - lo}
	if d <= 0 {
		return t
	}
	p := lo
	for k := g.n(0, 4); k > 0 && *left > 0; k-- {
		a := g.u(p, hi)
		b := g.u(a, hi)
		ch := genTree(g, d-1, a, b, left)
		ch.Dummy = g.pct(45)
		t.Kids = append(t.Kids, ch)
		p = b
	}
	return t
}

// genWide draws a node with about n children below some levels of grouping.
func genWide(g G, n int) *Tree {
	root := &Tree{Id: 1, Len: n}
	if g.pct(30) {
		root.Run = n
		return root
	}
	at := 0
	for k := g.n(0, 4); k >= 0; k-- {
		m := g.u(0, n-at)
		if k == 0 {
			m = n - at
		}
		x := &Tree{Start: at, Len: m, Run: m, Dummy: g.pct(80)}
		for d := g.n(0, 3); d > 0; d-- {
			x = &Tree{Dummy: true, Start: at, Len: m, Kids: []*Tree{x}}
		}
		root.Kids = append(root.Kids, x)
		at += m
	}
	return root
}

func genNavCase(t *rapid.T) *NavCase {
	g := G{t}
	c := &NavCase{}
	for k := g.n(1, 5); k > 0; k-- {
		c.Idx = append(c.Idx, g.n(-1, 12))
	}
	if g.pct(30) {
		left := 30
		c.T = genTree(g, g.n(1, 6), 0, g.u(0, 60), &left)
		if g.permille(15) {
			// many children, spread over grouping nodes
			n := []int{300, 600, 1100, 70000}[g.weighted(40, 30, 25, 5)]
			c.T = genWide(g, n+g.u(-50, 50))
		}
		for k := g.n(0, 5); k > 0; k-- {
			c.Ops = append(c.Ops, EditOp{S: g.u(0, 200), D: g.n(0, 6), T: Bs(g.str("ab", 0, 6))})
		}
		return c
	}
	alpha := alphaC
	c.P = genMemoPat(g, alpha, false, false)
	c.In = Bs(docFor(g, c.P, alpha, 120))
	if g.permille(10) {
		c.In = Bs(docFor(g, c.P, alpha, 1500))
	}
	c.Th = thresholds[g.n(0, 8)]
	n := len(c.In)
	for k := g.n(0, 6); k > 0; k-- {
		e := genEdit(g, c.P, alpha, n, 0)
		c.Ops = append(c.Ops, e)
		n = max(0, n-e.D) + len(e.T)
	}
	c.Str = c.P.String()
	return c
}

func (t *Tree) build() *memo.Capture {
	var ks []*memo.Capture
	for _, k := range t.Kids {
		ks = append(ks, k.build())
	}
	for i := 0; i < t.Run; i++ {
		ks = append(ks, memo.NewCaptureNode(i, t.Start+i, 1, nil))
	}
	if t.Dummy {
		return memo.NewCaptureDummy(t.Start, t.Len, ks)
	}
	return memo.NewCaptureNode(t.Id, t.Start, t.Len, ks)
}

func (t *Tree) flat() []*CapT {
	var out []*CapT
	for _, k := range t.Kids {
		if k.Dummy {
			out = append(out, k.flat()...)
		} else {
			out = append(out, &CapT{k.Id, k.Start, k.Len, k.flat()})
		}
	}
	for i := 0; i < t.Run; i++ {
		out = append(out, &CapT{i, t.Start + i, 1, nil})
	}
	return out
}

// navigate checks that the ways of walking a tree agree.
// inside is false for patterns that capture in lookaheads.
func navigate(n *memo.Capture, idx []int, inside bool, o *Obs) error {
	var kids []*memo.Capture
	it := n.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		kids = append(kids, ch)
		if len(kids) > 1_000_000 {
			return fmt.Errorf("ChildIterator does not end")
		}
	}
	for i := 0; i < 3; i++ {
		if it() != nil {
			return fmt.Errorf("an iterator returns a child after its end")
		}
	}
	if n.NumChildren() != len(kids) {
		return fmt.Errorf("node %d [%d,%d): iteration gives %d children, NumChildren() = %d", n.Id(), n.Start(), n.End(), len(kids), n.NumChildren())
	}
	for i, ch := range kids {
		if len(kids) > 2000 && i > 3 && i < len(kids)-3 && i%9973 > 0 {
			continue
		}
		if n.Child(i) != ch {
			return fmt.Errorf("node %d [%d,%d): Child(%d) is not child %d of the iteration", n.Id(), n.Start(), n.End(), i, i)
		}
	}
	for _, i := range idx {
		if i >= 0 {
			i += len(kids)
		}
		if n.Child(i) != nil {
			return fmt.Errorf("Child(%d) of %d children is not nil", i, len(kids))
		}
	}
	// two iterators do not disturb each other
	if len(kids) > 1 {
		a, b := n.ChildIterator(0), n.ChildIterator(0)
		a()
		if b() != kids[0] || a() != kids[1] || b() != kids[1] {
			return fmt.Errorf("two iterators over one node disturb each other")
		}
	}
	if n.End() != n.Start()+n.Len() {
		return fmt.Errorf("node %d: End() = %d, Start()+Len() = %d", n.Id(), n.End(), n.Start()+n.Len())
	}
	at := n.Start()
	for i, ch := range kids {
		if ch.Dummy() {
			return fmt.Errorf("node %d [%d,%d): child %d is a grouping node", n.Id(), n.Start(), n.End(), i)
		}
		if inside && (ch.Start() < at || ch.End() > n.End()) || ch.Len() < 0 {
			return fmt.Errorf("node %d [%d,%d): child %d covers [%d,%d), after its left neighbour's end %d", n.Id(), n.Start(), n.End(), i, ch.Start(), ch.End(), at)
		}
		at = ch.End()
		if err := navigate(ch, idx, inside, o); err != nil {
			return err
		}
	}
	if len(kids) > 256 {
		o.Class("more-than-256-children")
	}
	if len(kids) > 65536 {
		o.Class("more-than-65536-children")
	}
	if len(kids) > 1 {
		o.Class("node-with-several-children")
	}
	return nil
}

type posRec struct {
	n     *memo.Capture
	start int
	len   int
}

func walkCaps(n *memo.Capture, f func(*memo.Capture)) {
	f(n)
	it := n.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		walkCaps(ch, f)
	}
}

// moveTree stores the top-level nodes of a built tree as a memoized result,
// and edits the text around it.
func moveTree(c *NavCase, o *Obs) error {
	if len(c.Ops) == 0 || c.T.Len == 0 {
		return nil
	}
	tbl := memo.NewTreeTable(0)
	at := 20
	// the tree again, away from the start of the text
	var shift func(t *Tree, by int) *Tree
	shift = func(t *Tree, by int) *Tree {
		u := *t
		u.Start += by
		u.Kids = nil
		for _, k := range t.Kids {
			u.Kids = append(u.Kids, shift(k, by))
		}
		return &u
	}
	t := shift(c.T, at)
	if t.Run > 0 {
		return nil
	}
	n := t.build()
	tbl.Put(1, at, t.Len, t.Len, 1, []*memo.Capture{n})
	want := t.flat()
	size := at + t.Len + 40
	by := 0
	for i, op := range c.Ops {
		s := op.S % (size + 1)
		d := min(op.D, size-s)
		e := memo.Edit{Start: s, End: s + d, Len: len(op.T)}
		tbl.ApplyEdit(e)
		size += e.Len - d
		lo, hi := at+by, at+by+t.Len
		if max(e.End, s+1) >= lo && s <= hi {
			o.Class("stored-tree-dropped")
			return nil
		}
		if s < lo {
			by += e.Len - d
		}
		o.Class("stored-tree-edit")
		if n.Start() != at+by || n.Len() != t.Len {
			return fmt.Errorf("stored tree: edit %d (%v) leaves it alone; it covers [%d,%d), want [%d,%d)", i, e, n.Start(), n.End(), at+by, at+by+t.Len)
		}
		var move func(l []*CapT) []*CapT
		move = func(l []*CapT) []*CapT {
			var out []*CapT
			for _, c := range l {
				out = append(out, &CapT{c.Id, c.Start + by, c.Len, move(c.Kids)})
			}
			return out
		}
		if got, w := capKids(n), move(want); !capsEq(got, w) {
			return fmt.Errorf("stored tree: edit %d (%v) moves it by %d in all; children {%s}, want {%s}", i, e, by, capsStr(got), capsStr(w))
		}
		if by != 0 && len(want) > 0 {
			o.Class("stored-tree-moved")
			o.Nontrivial = true
		}
	}
	return nil
}

func checkNav(c *NavCase, o *Obs) error {
	if c.T != nil {
		o.Class("built-tree")
		n := c.T.build()
		if err := navigate(n, c.Idx, true, o); err != nil {
			return err
		}
		if got, want := capKids(n), c.T.flat(); !capsEq(got, want) {
			return fmt.Errorf("built tree: children {%s}, want {%s}", capsStr(got), capsStr(want))
		}
		if len(c.T.Kids) > 1 || c.T.Run > 1 {
			o.Nontrivial = true
		}
		return moveTree(c, o)
	}
	code, err := compileP(c.P, &Conv{Checker: checkerFactory(nil)})
	if err != nil {
		return err
	}
	inside := true
	c.P.walk(func(q *P) {
		if q.K == "and" && q.has("cap") {
			inside = false
		}
	})
	if c.P.has("nt") && c.P.has("and") {
		inside = false // the captures may be in a rule
	}
	text := string(c.In)
	tbl := memo.NewTreeTable(c.Th)
	st := &memoStats{Table: tbl}
	pos := map[*memo.Entry]int{}
	var recs map[*memo.Entry][]posRec
	parse := func(step int) (bool, error) {
		ref, _ := reference(c.P, text, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			return false, nil
		}
		r := execStr(code, text, st)
		if r.Root != nil {
			if err := navigate(r.Root, c.Idx, inside, o); err != nil {
				return true, fmt.Errorf("pattern %s, threshold %d, text %q, step %d: %v", c.P, c.Th, text, step, err)
			}
			if !r.Root.Dummy() && r.Root.NumChildren() > 1 {
				o.Nontrivial = true
			}
		}
		return true, nil
	}
	record := func() {
		pos = map[*memo.Entry]int{}
		recs = map[*memo.Entry][]posRec{}
		for _, e := range tbl.AllValues() {
			pos[e] = e.Pos()
			for _, top := range e.Captures() {
				walkCaps(top, func(n *memo.Capture) {
					recs[e] = append(recs[e], posRec{n, n.Start(), n.Len()})
				})
			}
		}
	}
	if ok, err := parse(-1); err != nil || !ok {
		return err
	}
	record()
	for i := range c.Ops {
		var e memo.Edit
		text, e = c.Ops[i].apply(text)
		tbl.ApplyEdit(e)
		o.Class("edit")
		amt := e.Len - (e.End - e.Start)
		alive := map[*memo.Entry]bool{}
		for _, v := range tbl.AllValues() {
			old, known := pos[v]
			if !known {
				return fmt.Errorf("pattern %s: edit %d created a table entry", c.P, i)
			}
			alive[v] = true
			want := old
			if old >= max(e.End, e.Start+1) {
				want += amt
			}
			if v.Pos() != want {
				return fmt.Errorf("pattern %s, threshold %d: edit %d (%v): a surviving entry at %d is now at %d, want %d", c.P, c.Th, i, e, old, v.Pos(), want)
			}
			for j, r := range recs[v] {
				if r.n.Start() != r.start+want-old || r.n.Len() != r.len || r.n.End() != r.n.Start()+r.len {
					return fmt.Errorf("pattern %s, threshold %d: edit %d (%v) leaves a memoized part alone and moves it by %d, but a node of it moved from [%d,%d) to [%d,%d)", c.P, c.Th, i, e, want-old, r.start, r.start+r.len, r.n.Start(), r.n.End())
				}
				recs[v][j].start = r.n.Start()
				if amt != 0 && want != old {
					o.Class("node-moved")
					o.Nontrivial = true
				}
			}
			pos[v] = want
		}
		if c.Ops[i].P {
			ok, err := parse(i)
			if err != nil || !ok {
				return err
			}
			record()
		}
	}
	if st.treePuts > 0 {
		o.Class("tree-merge")
	}
	return nil
}

// ---- C28 -----------------------------------------------------------------------

type SplitCase struct {
	In  Bs       `json:"in"`
	Ops []EditOp `json:"ops"`
	// generated edits of a source text
	Seed int `json:"seed,omitempty"`
	N    int `json:"n,omitempty"`
}

func genSplitCase(t *rapid.T) *SplitCase {
	g := G{t}
	c := &SplitCase{In: Bs(g.str("abc\n\x00\xff", 0, 40))}
	for k := g.n(0, 6); k > 0; k-- {
		c.Ops = append(c.Ops, EditOp{S: g.u(0, 60), D: g.n(0, 12), T: Bs(g.str("xyz\n\xfe", 0, 8))})
	}
	if g.pct(8) {
		c.Seed = g.u(1, 1<<20)
		c.N = g.n(1, 12)
		var b strings.Builder
		for k := g.n(0, 12); k > 0; k-- {
			b.WriteString(g.pick("public ", "private ", "f(x)", "foo(a, b) {\n", "// note\n", "/* long\n*/", "\"s(\\\"\"", "\n", "x = 1;\n", "protected", "}\n", "//public f(\n", " ", "publics(", "\"// no\"\n"))
		}
		c.In = Bs(b.String())
	}
	return c
}

func applyBytes(text []byte, e bench.Edit) ([]byte, error) {
	if e.Start < 0 || e.Start > e.End || e.End > len(text) {
		return nil, fmt.Errorf("edit [%d,%d) lies outside the text of %d bytes", e.Start, e.End, len(text))
	}
	out := append([]byte(nil), text[:e.Start]...)
	out = append(out, e.Text...)
	return append(out, text[e.End:]...), nil
}

func checkSplit(c *SplitCase, o *Obs) error {
	text := []byte(string(c.In))
	want := text
	var edits []bench.Edit
	if c.Seed != 0 {
		if strings.TrimSpace(string(c.In)) == "" {
			c = &SplitCase{In: "x\n", Seed: c.Seed, N: c.N}
			text, want = []byte(c.In), []byte(c.In)
		}
		o.Class("generated-edits")
		return checkGenEdits(c, text, o)
	}
	for _, op := range c.Ops {
		s := op.S % (len(want) + 1)
		e := bench.Edit{Start: s, End: s + min(op.D, len(want)-s), Text: []byte(string(op.T))}
		single := bench.EditToEdits(e)
		w, err := applyBytes(want, e)
		if err != nil {
			panic(HarnessBug{err.Error()})
		}
		if err := splitSame(want, w, single, fmt.Sprintf("edit %v", e), o); err != nil {
			return err
		}
		if string(e.Text) != string(op.T) {
			return fmt.Errorf("EditToEdits changed the edit's text")
		}
		edits = append(edits, e)
		want = w
	}
	if len(edits) > 1 {
		o.Class("several-edits")
	}
	return splitSame(text, want, bench.ToSingleEdits(edits), fmt.Sprintf("edits %v", edits), o)
}

func splitSame(text, want []byte, single []bench.Edit, what string, o *Obs) error {
	cur := text
	for i, s := range single {
		if s.End-s.Start+len(s.Text) > 1 {
			return fmt.Errorf("%s of %q: single edit %d, %v, touches several bytes", what, text, i, s)
		}
		next, err := applyBytes(cur, s)
		if err != nil {
			return fmt.Errorf("%s of %q: single edit %d: %v", what, text, i, err)
		}
		cur = next
	}
	if !bytes.Equal(cur, want) {
		return fmt.Errorf("%s turns %q into %q, but the single edits %v give %q", what, text, want, single, cur)
	}
	if len(single) > 1 {
		o.Nontrivial = true
	}
	return nil
}

var identRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
var newIDRe = regexp.MustCompile(`^[A-Za-z]{4,8}$`)
var quals = map[string]bool{"public": true, "private": true, "protected": true}

func checkGenEdits(c *SplitCase, text []byte, o *Obs) error {
	rand.Seed(int64(c.Seed))
	orig := append([]byte(nil), text...)
	edits := bench.GenerateEdits(text, c.N)
	if len(edits) != c.N {
		return fmt.Errorf("GenerateEdits(%q, %d) returns %d edits", text, c.N, len(edits))
	}
	cur := orig
	kinds := map[string]bool{}
	for i, e := range edits {
		next, err := applyBytes(cur, e)
		if err != nil {
			return fmt.Errorf("GenerateEdits(%q, %d): edit %d: %v", orig, c.N, i, err)
		}
		old := string(cur[e.Start:e.End])
		kind := ""
		switch {
		case old == "" && string(e.Text) == "\n" && (e.Start == 0 || cur[e.Start-1] == '\n'):
			kind = "newline-inserted"
		case old == "\n" && len(e.Text) == 0:
			kind = "newline-removed"
		case strings.HasPrefix(old, "//") && strings.Index(old, "\n") == len(old)-1 && len(e.Text) == 0:
			kind = "comment-removed"
		case quals[old] && quals[string(e.Text)]:
			kind = "qualifier-changed"
		case identRe.MatchString(old) && e.End < len(cur) && cur[e.End] == '(' && newIDRe.MatchString(string(e.Text)):
			kind = "function-renamed"
		default:
			return fmt.Errorf("GenerateEdits(%q, %d) with seed %d: edit %d replaces %q by %q in %q at %d: not an edit of the kinds it promises", orig, c.N, c.Seed, i, old, e.Text, cur, e.Start)
		}
		kinds[kind] = true
		cur = next
	}
	var l []string
	for k := range kinds {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		o.Class("%s", k)
	}
	o.Nontrivial = true
	return nil
}

func init() {
	register(Prop{
		ID:       "C24",
		Rule:     "cases are pairs of set expressions of up to five levels, half of them rewritten from one another; non-trivial: the first is an operation and neither empty nor full",
		Assume:   []string{"a small set is only asked for bytes below 128"},
		Quick:    400000,
		Thorough: 4000000,
	}, genSetCase, checkSet)
	register(Prop{
		ID:       "C27",
		Rule:     "a node with several children was walked, or a node of a surviving memoized part moved with an edit",
		Assume:   []string{"trees built by hand have ordered children inside their parent", "children of trees with captures in lookaheads may lie ahead of their parent"},
		Quick:    120000,
		Thorough: 2000000,
		Batch:    4000,
	}, genNavCase, checkNav)
	register(Prop{
		ID:       "C28",
		Rule:     "an edit was split into several single edits, or edits were generated for a source text",
		Assume:   []string{"edits lie inside the text they apply to"},
		Quick:    300000,
		Thorough: 4000000,
	}, genSplitCase, checkSplit)
}
