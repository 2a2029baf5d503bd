package main

import (
	"fmt"
	"io"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/memo"
)

// C34: parsing from readers that fail. A reader that cannot deliver the text
// from some position on is read as a text that ends there; after transient
// failures nothing is left behind.

type FaultCase struct {
	P    *P           `json:"p"`
	In   Bs           `json:"in"`
	Pad  int          `json:"pad,omitempty"`
	Th   int          `json:"th"`
	Cuts []int        `json:"cuts"` // positions from which the text cannot be read, then can
	Kind []int        `json:"kind"` // how the failing reader answers
	R    []ReaderSpec `json:"r,omitempty"`
	Bad  []int        `json:"bad,omitempty"` // calls of the reader that fail
	Str  string       `json:"str,omitempty"`
}

// cutReader delivers s and fails behind it with an error other than EOF.
type cutReader struct {
	s    string
	kind int
}

var errDisk = fmt.Errorf("disk failure")

func (r cutReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.s)) {
		return 0, errDisk
	}
	n := copy(p, r.s[off:])
	switch {
	case n < len(p):
		if r.kind == 1 {
			// the rest of the buffer may be used as scratch space
			for i := n; i < len(p); i++ {
				p[i] = "ab\nx("[i%5]
			}
		}
		if r.kind == 2 {
			return n, io.ErrUnexpectedEOF
		}
		return n, errDisk
	case r.kind == 3 && off+int64(n) == int64(len(r.s)):
		return n, errDisk // a failure together with complete data
	}
	return n, nil
}

// flakyReader fails on some calls, delivering nothing or a part.
type flakyReader struct {
	s     string
	bad   map[int]int
	calls int
}

func (r *flakyReader) ReadAt(p []byte, off int64) (int, error) {
	i := r.calls
	r.calls++
	if k, ok := r.bad[i]; ok {
		if off >= int64(len(r.s)) {
			return 0, errDisk
		}
		n := copy(p, r.s[off:])
		return n * k / 4, errDisk
	}
	return strings.NewReader(r.s).ReadAt(p, off)
}

func genFault(t *rapid.T) *FaultCase {
	g := G{t}
	alpha := alphaC
	if g.pct(20) {
		alpha = alphaW
	}
	c := &FaultCase{P: genMemoPat(g, alpha, g.pct(20), g.pct(20)), Th: thresholds[g.n(0, len(thresholds)-1)]}
	c.Pad = genPad(g)
	c.In = Bs(docFor(g, c.P, alpha, 90))
	n := len(c.In)
	for k := g.n(1, 3); k > 0; k-- {
		at := c.Pad + g.u(0, n)
		switch g.u(0, 9) {
		case 0:
			at = g.u(0, c.Pad+n)
		case 1:
			at = c.Pad
		case 2:
			at = c.Pad + n
		}
		c.Cuts = append(c.Cuts, at)
		c.Kind = append(c.Kind, g.u(0, 4))
		r := ReaderSpec{K: "stream"}
		for k := g.n(1, 4); k > 0; k-- {
			sz := g.n(0, 9)
			if c.Pad > 500 {
				sz = []int{g.u(1, 9), g.u(100, 3000), 4095, 4096, 4097, 5000}[g.u(0, 5)]
			}
			r.Sizes = append(r.Sizes, sz)
		}
		c.R = append(c.R, r)
	}
	for k := g.n(0, 3); k > 0; k-- {
		c.Bad = append(c.Bad, g.n(0, 7)*4+g.u(0, 3))
	}
	c.Str = c.P.String()
	return c
}

func checkFault(c *FaultCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	text := padIn(string(c.In), c.Pad)
	fresh := func() (res func(r io.ReaderAt, t memo.Table) Res, err error) {
		code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
		if err != nil {
			return nil, err
		}
		return func(r io.ReaderAt, t memo.Table) Res { return execOn(code, r, t) }, nil
	}
	run, err := fresh()
	if err != nil {
		return err
	}
	all, it := reference(p, text, nil)
	if all.Over {
		o.Discard("reference budget exceeded")
		return nil
	}
	// the text is delivered up to a limit that moves
	tbl := memo.NewTreeTable(c.Th)
	limit := 0
	for i, cut := range c.Cuts {
		cut = min(cut, len(text))
		part := text[:cut]
		ref, _ := reference(p, part, nil)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		var r io.ReaderAt
		var ch *chunkReader
		if c.Kind[i] == 4 {
			ch = &chunkReader{data: []byte(text), spec: c.R[i], fail: cut, once: true}
			r = input.FromReader(ch)
			o.Class("failing-stream")
		} else {
			r = cutReader{part, c.Kind[i]}
			o.Class("failing-reader")
		}
		if ch == nil {
			if err := vsRef(run(r, memo.NoneTable{}), ref, true, true); err != nil {
				return fmt.Errorf("pattern %s on %q (pad %d), unreadable from %d on (kind %d): %v", c.P, string(c.In), c.Pad, cut, c.Kind[i], err)
			}
			o.Sub++
		}
		// The table holds results for what could be read before: what can be
		// read now is reported as an edit.
		if cut > limit {
			tbl.ApplyEdit(memo.Edit{Start: limit, End: limit, Len: cut - limit})
			o.Class("more-readable")
		} else if cut < limit {
			tbl.ApplyEdit(memo.Edit{Start: cut, End: limit, Len: 0})
			o.Class("less-readable")
		}
		limit = cut
		if ch != nil {
			// The stream fails once: reads before the failure see the first
			// part. Reads behind it continue the stream, so it must be read
			// to its failure first.
			buf := make([]byte, cut+1)
			if n, err := r.ReadAt(buf, 0); n != cut || err == nil || string(buf[:n]) != part {
				return fmt.Errorf("a stream of %q that fails at %d (chunks %v): reading it gives %d bytes and %v", clip([]byte(text)), cut, c.R[i].Sizes, n, err)
			}
			ch.fail, ch.once = 0, false // it keeps failing
			if err := vsRef(run(r, tbl), ref, true, true); err != nil {
				return fmt.Errorf("pattern %s on %q (pad %d), threshold %d, from a stream that fails at %d: %v", c.P, string(c.In), c.Pad, c.Th, cut, err)
			}
			ch.fail = -1 // it recovers
			if err := vsRef(run(r, memo.NoneTable{}), all, true, true); err != nil {
				return fmt.Errorf("pattern %s on %q (pad %d), from a stream that has recovered from its failure at %d: %v", c.P, string(c.In), c.Pad, cut, err)
			}
		} else if err := vsRef(run(r, tbl), ref, true, true); err != nil {
			return fmt.Errorf("pattern %s on %q (pad %d), threshold %d, unreadable from %d on (kind %d), step %d: %v", c.P, string(c.In), c.Pad, c.Th, cut, c.Kind[i], i, err)
		}
		o.Sub++
		if cut < len(text) && (ref.Match != all.Match || ref.Pos != all.Pos || capsCount(ref.Caps) != capsCount(all.Caps)) {
			o.Nontrivial = true
		}
	}
	if limit < len(text) {
		tbl.ApplyEdit(memo.Edit{Start: limit, End: limit, Len: len(text) - limit})
	}
	if err := vsRef(run(strings.NewReader(text), tbl), all, true, true); err != nil {
		return fmt.Errorf("pattern %s on %q (pad %d), threshold %d, readable again after failures at %v: %v", c.P, string(c.In), c.Pad, c.Th, c.Cuts, err)
	}
	if len(c.Bad) > 0 {
		// Transient failures: the outcome is not specified, but the parse ends,
		// stays inside the text and leaves nothing behind.
		f := &flakyReader{s: text, bad: map[int]int{}}
		for _, b := range c.Bad {
			f.bad[b/4] = b % 4
		}
		r, over := withinSteps(func() Res { return run(f, memo.NoneTable{}) })
		if over {
			// the pattern may have been applied anywhere in the padding
			o.Class("transient-failure-over-budget")
			return nil
		}
		if r.Match && (r.Pos < 0 || r.Pos > len(text)) {
			return fmt.Errorf("pattern %s on %q (pad %d) with a reader that fails at calls %v: match with end position %d", c.P, string(c.In), c.Pad, c.Bad, r.Pos)
		}
		for _, e := range r.Errs {
			if e.Pos < 0 || e.Pos > len(text) {
				return fmt.Errorf("pattern %s on %q (pad %d) with a reader that fails at calls %v: error at position %d", c.P, string(c.In), c.Pad, c.Bad, e.Pos)
			}
		}
		var walk func(cs []*CapT) error
		walk = func(cs []*CapT) error {
			for _, k := range cs {
				if k.Start < 0 || k.Len < 0 || k.Start+k.Len > len(text) {
					return fmt.Errorf("pattern %s on %q (pad %d) with a reader that fails at calls %v: capture of [%d,%d)", c.P, string(c.In), c.Pad, c.Bad, k.Start, k.Start+k.Len)
				}
				if err := walk(k.Kids); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(r.Caps); err != nil {
			return err
		}
		if err := vsRef(run(strings.NewReader(text), memo.NoneTable{}), all, true, true); err != nil {
			return fmt.Errorf("pattern %s on %q (pad %d), parsed after a parse with a reader that fails at calls %v: %v", c.P, string(c.In), c.Pad, c.Bad, err)
		}
		for b := range f.bad {
			if b < f.calls {
				o.Class("transient-failure")
				if it.backtracks > 0 {
					o.Nontrivial = true
				}
			}
		}
	}
	if c.Pad > 0 {
		o.Class("padded-to-buffer-boundary")
	}
	return nil
}

// withinSteps runs f and says whether it was stopped by the instruction limit.
func withinSteps(f func() Res) (r Res, over bool) {
	defer func() {
		if e := recover(); e != nil {
			if fmt.Sprint(e) != "verif: instruction limit exceeded" {
				panic(e)
			}
			over = true
		}
	}()
	return f(), false
}

func init() {
	register(Prop{
		ID:       "C34",
		Rule:     "the unreadable part changes the outcome, or a transient failure was hit in a parse that backtracks",
		Assume:   []string{"a reader fails for all offsets from some position on, or for single calls", "what becomes readable is reported to a table as an edit"},
		Quick:    120000,
		Thorough: 2000000,
		Batch:    4000,
	}, genFault, checkFault)
}
