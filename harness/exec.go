package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

const (
	refSteps = 20000
	vmSteps  = 20_000_000
)

// Res is the observable outcome of a parse.
type Res struct {
	Match  bool
	Pos    int
	Caps   []*CapT
	Errs   []ErrT
	HasAST bool
	Root   *memo.Capture
}

func capTree(c *memo.Capture) *CapT {
	t := &CapT{Id: c.Id(), Start: c.Start(), Len: c.Len()}
	t.Kids = capKids(c)
	return t
}

func capKids(c *memo.Capture) []*CapT {
	var ks []*CapT
	it := c.ChildIterator(0)
	n := 0
	for ch := it(); ch != nil; ch = it() {
		ks = append(ks, capTree(ch))
		if n++; n > 1_000_000 {
			panic("gpeg: ChildIterator does not end")
		}
	}
	return ks
}

func toRes(match bool, pos int, ast *memo.Capture, errs []vm.ParseError) Res {
	r := Res{Match: match, Pos: pos, HasAST: ast != nil, Root: ast}
	if ast != nil {
		r.Caps = capKids(ast)
	}
	for _, e := range errs {
		r.Errs = append(r.Errs, ErrT{e.Message, e.Pos})
	}
	return r
}

func execOn(code *vm.Code, r io.ReaderAt, tbl memo.Table) Res {
	m, n, ast, errs := code.Exec(r, tbl)
	return toRes(m, n, ast, errs)
}

func execStr(code *vm.Code, s string, tbl memo.Table) Res {
	return execOn(code, strings.NewReader(s), tbl)
}

func errsStr(es []ErrT) string {
	var b strings.Builder
	for i, e := range es {
		if i > 500 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%d:%s ", e.Pos, e.Msg)
	}
	return b.String()
}

func errsEq(a, b []ErrT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r Res) String() string {
	return fmt.Sprintf("match=%v pos=%d caps={%s} errs={%s}", r.Match, r.Pos, capsStr(r.Caps), errsStr(r.Errs))
}

func (r refResult) String() string {
	return fmt.Sprintf("match=%v pos=%d caps={%s} errs={%s}", r.Match, r.Pos, capsStr(r.Caps), errsStr(r.Errs))
}

// sameRes compares two outcomes: position and captures only count on a match.
func sameRes(a, b Res) bool {
	if a.Match != b.Match || !errsEq(a.Errs, b.Errs) {
		return false
	}
	if a.Match {
		return a.Pos == b.Pos && capsEq(a.Caps, b.Caps)
	}
	return true
}

// vsRef compares an outcome with the reference: what = "match", "caps", "errs".
func vsRef(r Res, ref refResult, caps, errs bool) error {
	if r.Match != ref.Match {
		return fmt.Errorf("match = %v, reference says %v", r.Match, ref.Match)
	}
	if r.Match && r.Pos != ref.Pos {
		return fmt.Errorf("end position = %d, reference says %d", r.Pos, ref.Pos)
	}
	if caps && r.Match && !capsEq(r.Caps, ref.Caps) {
		return fmt.Errorf("captures = {%s}, reference says {%s}", capsStr(r.Caps), capsStr(ref.Caps))
	}
	if errs && !errsEq(r.Errs, ref.Errs) {
		return fmt.Errorf("errors = {%s}, reference says {%s}", errsStr(r.Errs), errsStr(ref.Errs))
	}
	return nil
}

// ---- checkers ---------------------------------------------------------------

const (
	ckWords = iota // MapChecker over two fixed words and the empty string
	ckRef          // BackReference with flag as RefKind
	ckEven         // custom: accept even-length text
	ckMore         // custom: consume (id) further bytes if available
	nCheckKinds
)

var ckWordList = []string{"a", "ab", "b", "cc"}

func wordsOf(p *P) []string {
	if len(p.W) == 0 && p.S == "none" {
		return nil
	}
	if len(p.W) == 0 {
		return ckWordList
	}
	l := []string{}
	for _, w := range p.W {
		l = append(l, string(w))
	}
	return l
}

// plainCheckers builds the provided checkers without a recording wrapper.
func plainCheckers() func(p *P) isa.Checker {
	ref := isa.NewBackRef()
	other := checkerFactory(nil)
	return func(p *P) isa.Checker {
		switch p.N {
		case ckWords:
			return isa.NewMapChecker(wordsOf(p))
		case ckRef:
			return ref
		}
		return other(p)
	}
}

// Call is one observed checker invocation.
type Call struct {
	Text     string
	Pos      int
	Id, Flag int
}

type recChecker struct {
	inner isa.Checker
	f     func(b []byte, pos, id, flag int, more func(n int) bool) int
	calls *[]Call
}

func (c *recChecker) Check(b []byte, src *input.Input, id, flag int) int {
	if c.calls != nil {
		*c.calls = append(*c.calls, Call{string(b), src.Pos(), id, flag})
	}
	if c.inner != nil {
		return c.inner.Check(b, src, id, flag)
	}
	return c.f(b, src.Pos(), id, flag, func(n int) bool {
		buf := make([]byte, n)
		k, _ := src.ReadAt(buf, int64(src.Pos()))
		return k == n
	})
}

// checkerFactory builds checkers for one compiled pattern; all back-reference
// nodes share one symbol table.
func checkerFactory(calls *[]Call) func(p *P) isa.Checker {
	ref := isa.NewBackRef()
	return func(p *P) isa.Checker {
		switch p.N {
		case ckWords:
			return &recChecker{inner: isa.NewMapChecker(wordsOf(p)), calls: calls}
		case ckRef:
			if calls == nil {
				// A wrapped back-reference is not copied for each parse.
				return ref
			}
			return &recChecker{inner: ref, calls: calls}
		case ckEven:
			return &recChecker{calls: calls, f: func(b []byte, pos, id, flag int, more func(int) bool) int {
				if len(b)%2 == 0 {
					return 0
				}
				return -1
			}}
		case ckMore:
			return &recChecker{calls: calls, f: func(b []byte, pos, id, flag int, more func(int) bool) int {
				if more(id) {
					return id
				}
				return -1
			}}
		}
		panic(HarnessBug{"unknown checker"})
	}
}

// refCheckers is the reference semantics of the same checkers.
func refCheckers(in string, calls *[]Call) func(p *P, start, end int) int {
	sym := map[int]string{}
	return func(p *P, start, end int) int {
		txt := in[start:end]
		if calls != nil {
			*calls = append(*calls, Call{txt, end, p.Id, p.Flag})
		}
		switch p.N {
		case ckWords:
			for _, w := range wordsOf(p) {
				if w == txt {
					return 0
				}
			}
			return -1
		case ckRef:
			switch p.Flag {
			case 0:
				sym[p.Id] = txt
				return 0
			case 1:
				if strings.HasPrefix(in[end:], sym[p.Id]) {
					return len(sym[p.Id])
				}
				return -1
			}
			return 0
		case ckEven:
			if len(txt)%2 == 0 {
				return 0
			}
			return -1
		case ckMore:
			if end+p.Id <= len(in) {
				return p.Id
			}
			return -1
		}
		panic(HarnessBug{"unknown checker"})
	}
}

// ---- compilation --------------------------------------------------------------

// compileP compiles a model pattern; compile errors on complete patterns are
// violations (returned as errors).
func compileP(p *P, cv *Conv) (*vm.Code, error) {
	prog, err := pattern.Compile(cv.conv(p))
	if err != nil {
		return nil, fmt.Errorf("compilation of a complete pattern failed: %v", err)
	}
	code := vm.Encode(prog)
	return &code, nil
}

func reference(p *P, in string, calls *[]Call) (refResult, *Interp) {
	it := &Interp{in: in, limit: refSteps + 12*len(in)}
	if len(in) > 300 {
		it.limit = refSteps + 60*len(in)
		it.maxDepth = 40 * len(in)
	}
	it.check = refCheckers(in, calls)
	return it.run(p), it
}

// padCase places a pattern at an offset: the input is prefixed with pad bytes
// '_' (outside every alphabet) that the pattern skips first.
func padP(p *P, pad int) *P {
	if pad == 0 {
		return p
	}
	return pSeq(p1("star", pSet("_")), p)
}

func padIn(s string, pad int) string { return strings.Repeat("_", pad) + s }

func genPad(g G) int {
	if g.pct(30) {
		// around the buffer boundaries
		base := 4096
		if g.pct(15) {
			base = 8192
			if g.pct(4) {
				base = 65536
			}
		}
		return max(0, base-g.n(0, 12)+g.n(0, 3))
	}
	return 0
}

// Scale is a long input: Open repeated, a middle, Close repeated.
type Scale struct {
	Open  Bs  `json:"open,omitempty"`
	Mid   Bs  `json:"mid,omitempty"`
	Close Bs  `json:"close,omitempty"`
	N     int `json:"n"`
}

func (s *Scale) text() string {
	return strings.Repeat(string(s.Open), s.N) + string(s.Mid) + strings.Repeat(string(s.Close), s.N)
}

// genScale draws a pattern that repeats or nests a random element, and a long
// input for it, of up to max bytes.
func genScale(pg *PG, max int) (*P, *Scale) {
	g := pg.G
	elem := pg.gen(g.n(1, 3), true, false)
	one := func(p *P, lim int) string {
		e := &emitter{G: g, alpha: pg.Alpha, max: lim, budget: 60}
		for k := 0; k < 5 && len(e.buf) == 0; k++ {
			e.emit(p, nil, 25)
		}
		if len(e.buf) == 0 {
			e.buf = append(e.buf, pg.Alpha[0])
		}
		return string(e.buf)
	}
	cp := func(p *P) *P {
		if pg.Caps && g.pct(60) {
			p = pCap(p, g.n(1, 9))
		}
		if pg.Memo && g.pct(70) {
			pg.memoID++
			p = pMemo(p, memoBase+pg.memoID)
		}
		return p
	}
	s := &Scale{}
	var p *P
	switch g.weighted(6, 2, 4) {
	case 0: // a flat repetition
		if g.pct(60) {
			elem = pAlt(elem, pAny(1))
		}
		p = cp(p1(g.pick("star", "star", "plus"), cp(elem)))
		if g.pct(30) {
			p = pSeq(p, p1("not", pAny(1)))
		}
		s.Open = Bs(one(elem, 12))
	case 1: // right recursion
		p = &P{K: "gram", S: "S"}
		rest := pNT("S")
		d := pSeq(cp(elem), rest)
		if g.pct(60) {
			d = pSeq(cp(elem), rest, p1("opt", pLit("!")))
		}
		p.Defs = []Def{{Name: "S", P: cp(pAlt(d, elem, pAny(1)))}}
		s.Open = Bs(one(elem, 8))
		// the parser copies the captures of the rest at every level
		max = min(max, 4000)
	default: // nesting
		open, cl := pLit(g.str(pg.Alpha, 1, 3)), pLit(g.str(pg.Alpha, 1, 3))
		p = &P{K: "gram", S: "S"}
		d := pSeq(open, pNT("S"), cl)
		switch g.n(0, 3) {
		case 1:
			d = pSeq(open, p1("star", pSeq(p1("not", cl), pNT("S"))), cl)
		case 2:
			d = pSeq(open, pNT("S"), p1("opt", pNT("E")), cl)
		}
		alts := []*P{d, pNT("E")}
		if g.pct(30) {
			alts = []*P{pNT("E"), d}
		}
		p.Defs = []Def{{Name: "S", P: cp(pAlt(alts...))}, {Name: "E", P: cp(elem)}}
		s.Open, s.Close = open.S, cl.S
		max /= 2
	}
	if g.pct(70) {
		s.Mid = Bs(one(elem, 12))
	}
	lim := max / (len(s.Open) + len(s.Close))
	switch g.n(0, 3) {
	case 0:
		lim = min(lim, 200)
	case 1:
		lim = min(lim, 2000)
	case 2:
		lim = min(lim, 10000)
	}
	s.N = g.u(lim/3, lim)
	return p, s
}

var _ = bytes.Equal

func stringsReader(s string) io.ReaderAt { return strings.NewReader(s) }
