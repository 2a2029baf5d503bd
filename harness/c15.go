// C15 (input cursor), C16 (stream adapter), C17 (reader independence).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
)

// ---- readers -------------------------------------------------------------------

// ReaderSpec describes where a text comes from.
//
//	bytes strings rope stream short
//
// Sizes are chunk sizes (stream), piece sizes (rope) in order, repeated.
type ReaderSpec struct {
	K     string `json:"k"`
	Sizes []int  `json:"sz,omitempty"`
	Join  int    `json:"join,omitempty"`  // rope: JoinLen
	Split int    `json:"split,omitempty"` // rope: SplitLen
	EOF   bool   `json:"eof,omitempty"`   // stream: EOF together with the last data
	Skew  int    `json:"skew,omitempty"`  // rope: shape of the joins
}

func (r ReaderSpec) size(i int) int {
	if len(r.Sizes) == 0 {
		return 1 << 20
	}
	return r.Sizes[i%len(r.Sizes)]
}

// chunkReader is a stream that splits its data as told; a size of 0 is an
// empty read. After Fail >= 0 bytes it fails with errFail once or forever.
type chunkReader struct {
	data  []byte
	spec  ReaderSpec
	i     int
	empty int
	fail  int // position of a failure, -1 for none
	once  bool
}

var errFail = errors.New("stream failure")

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := c.spec.size(c.i)
	c.i++
	if n <= 0 {
		if c.empty++; c.empty < 3 {
			return 0, nil
		}
		n = 1
	}
	c.empty = 0
	n = min(n, len(p), len(c.data))
	if c.fail >= 0 && c.fail < n || c.fail == 0 {
		n = c.fail
		copy(p, c.data[:n])
		c.data = c.data[n:]
		c.fail = 0
		if c.once {
			c.fail = -1
		}
		return n, errFail
	}
	if c.fail > 0 {
		c.fail -= n
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && (n == 0 || c.spec.EOF) {
		return n, io.EOF
	}
	return n, nil
}

// shortReader is a ReaderAt that fills requests completely but reports EOF
// together with the last bytes.
type shortReader struct{ s string }

func (r shortReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(p, r.s[off:])
	if off+int64(n) == int64(len(r.s)) {
		return n, io.EOF
	}
	return n, nil
}

func (r ReaderSpec) open(s string) io.ReaderAt {
	switch r.K {
	case "strings":
		return strings.NewReader(s)
	case "rope":
		return ropeOf(r, s)
	case "stream":
		return input.FromReader(&chunkReader{data: []byte(s), spec: r, fail: -1})
	case "short":
		return shortReader{s}
	}
	return bytes.NewReader([]byte(s))
}

func ropeOf(r ReaderSpec, s string) *linerope.Node {
	opts := linerope.Options{SplitLen: max(r.Split, 1), JoinLen: r.Join, RebalanceRatio: 1.2, LineSep: []byte("\n")}
	// pieces joined from the left, from the right, or inserted
	var pieces []string
	for i := 0; len(s) > 0; i++ {
		n := min(len(s), max(1, r.size(i)))
		pieces = append(pieces, s[:n])
		s = s[n:]
		if i > 200 {
			pieces = append(pieces, s)
			break
		}
	}
	if len(pieces) == 0 {
		pieces = []string{""}
	}
	mk := func(s string) *linerope.Node { return linerope.NewWithOpts([]byte(s), opts) }
	switch r.Skew % 3 {
	case 0:
		n := mk(pieces[0])
		for _, p := range pieces[1:] {
			n = linerope.Join(n, mk(p))
		}
		return n
	case 1:
		n := mk(pieces[len(pieces)-1])
		for i := len(pieces) - 2; i >= 0; i-- {
			n = linerope.Join(mk(pieces[i]), n)
		}
		return n
	}
	n := mk("")
	at := 0
	for _, p := range pieces {
		n.Insert(at, []byte(p))
		at += len(p)
	}
	return n
}

func genReader(g G, around int) ReaderSpec {
	r := ReaderSpec{K: []string{"bytes", "strings", "rope", "stream", "short", "rope", "stream"}[g.u(0, 6)]}
	switch r.K {
	case "rope":
		r.Split = []int{1, 2, 3, 7, 50, 4096}[g.u(0, 5)]
		r.Join = []int{0, 1, 2, 10, 2048}[g.u(0, 4)]
		r.Skew = g.u(0, 2)
		if around > 500 {
			r.Split = max(r.Split, 50)
		}
	case "stream":
		r.EOF = g.pct(50)
	}
	if r.K == "rope" || r.K == "stream" {
		for k := g.n(1, 6); k > 0; k-- {
			n := g.n(0, 9)
			if around > 500 {
				n = []int{g.u(1, 9), g.u(100, 3000), 4095, 4096, 4097, 5000, 8192}[g.u(0, 6)]
			}
			r.Sizes = append(r.Sizes, n)
		}
	}
	return r
}

// ---- C15 ---------------------------------------------------------------------

// CurOp: peek, before, adv(A), seek(A), seekto (relative to a boundary), slice(A,B), read(A,B), reset
type CurOp struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
}

type CurCase struct {
	Len int        `json:"len"`
	Mul int        `json:"mul"` // contents: byte i is i*Mul/3 + i>>8
	R   ReaderSpec `json:"r"`
	Ops []CurOp    `json:"ops"`
}

const bufSize = 4096

func genCurCase(t *rapid.T) *CurCase {
	g := G{t}
	c := &CurCase{Mul: g.u(1, 200)}
	switch g.u(0, 5) {
	case 0:
		c.Len = g.n(0, 12)
	case 1:
		c.Len = g.u(13, 300)
	case 2, 3:
		c.Len = max(0, bufSize*g.u(1, 3)+g.u(-6, 6))
	case 4:
		c.Len = g.u(bufSize, 3*bufSize)
	default:
		c.Len = bufSize*g.u(1, 3) - g.n(0, 1)
	}
	c.R = genReader(g, c.Len)
	near := func() int {
		switch g.u(0, 5) {
		case 0:
			return g.u(0, c.Len)
		case 1:
			return max(0, c.Len-g.n(0, 5))
		case 2:
			return g.n(0, 5)
		default:
			return min(max(0, bufSize*g.u(1, 3)+g.u(-5, 5)), c.Len)
		}
	}
	for k := g.u(1, 40); k > 0; k-- {
		switch g.weighted(8, 3, 10, 6, 2, 1, 1) {
		case 0:
			c.Ops = append(c.Ops, CurOp{K: "peek"})
		case 1:
			c.Ops = append(c.Ops, CurOp{K: "before"})
		case 2:
			n := g.n(0, 4)
			switch g.u(0, 9) {
			case 0:
				n = g.u(0, 255)
			case 1:
				n = g.u(bufSize-3, bufSize+3)
			case 2:
				n = g.u(0, 3*bufSize)
			}
			c.Ops = append(c.Ops, CurOp{K: "adv", A: n})
		case 3:
			c.Ops = append(c.Ops, CurOp{K: "seek", A: near()})
		case 4:
			a, b := near(), near()
			if g.pct(50) {
				b = a + g.n(0, 10)
			}
			if g.pct(10) {
				b = a + g.u(0, 2*bufSize)
			}
			c.Ops = append(c.Ops, CurOp{K: []string{"slice", "read"}[g.n(0, 1)], A: min(a, b), B: max(a, b)})
		case 5:
			c.Ops = append(c.Ops, CurOp{K: "reset"})
		case 6:
			c.Ops = append(c.Ops, CurOp{K: "seek", A: c.Len + g.n(0, 5000)})
		}
	}
	return c
}

func curText(n, mul int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*mul/3 + i>>8)
	}
	return b
}

func checkCur(c *CurCase, o *Obs) error {
	text := curText(c.Len, c.Mul)
	orig := string(text)
	in := input.NewInput(c.R.open(orig))
	pos := 0
	lost := false // position unknown after a failed advance or an outside seek
	far := 0
	beyond := false
	for step, op := range c.Ops {
		if lost && op.K != "seek" && op.K != "slice" && op.K != "read" && op.K != "reset" {
			// return to a known position first
			p := (step*7919 + op.A) % (c.Len + 1)
			ok := in.SeekTo(p)
			if ok != (p < c.Len) {
				return fmt.Errorf("step %d: SeekTo(%d) in %d bytes = %v", step, p, c.Len, ok)
			}
			pos, lost = p, false
		}
		switch op.K {
		case "peek":
			b, ok := in.Peek()
			if ok != (pos < c.Len) || ok && b != text[pos] {
				return fmt.Errorf("step %d: Peek at %d of %d = %#x, %v", step, pos, c.Len, b, ok)
			}
			far = max(far, pos)
		case "before":
			b, ok := in.PeekBefore()
			if ok != (pos > 0) || ok && b != text[pos-1] {
				return fmt.Errorf("step %d: PeekBefore at %d of %d = %#x, %v", step, pos, c.Len, b, ok)
			}
		case "adv":
			ok := in.Advance(op.A)
			want := pos+op.A <= c.Len
			if ok != want {
				return fmt.Errorf("step %d: Advance(%d) at %d of %d = %v", step, op.A, pos, c.Len, ok)
			}
			if op.A > 0 {
				// the presence of the last skipped byte, or of the byte at
				// the end of the text, decides the result
				far = max(far, min(pos+op.A-1, c.Len))
			}
			if (pos+op.A)/bufSize != pos/bufSize {
				beyond = true
			}
			if want {
				pos += op.A
			} else {
				lost = true
				o.Class("failed-advance")
			}
		case "seek":
			ok := in.SeekTo(op.A)
			if ok != (op.A < c.Len) {
				return fmt.Errorf("step %d: SeekTo(%d) in %d bytes = %v", step, op.A, c.Len, ok)
			}
			if op.A/bufSize != pos/bufSize {
				beyond = true
			}
			pos = op.A
			lost = pos > c.Len
			if lost {
				o.Class("seek-outside")
				if _, ok := in.Peek(); ok {
					return fmt.Errorf("step %d: Peek succeeds at %d, outside of %d bytes", step, pos, c.Len)
				}
			}
		case "slice":
			got := in.Slice(op.A, op.B)
			lo, hi := min(op.A, c.Len), min(op.B, c.Len)
			if !bytes.Equal(got, text[lo:hi]) {
				return fmt.Errorf("step %d: Slice(%d,%d) of %d bytes has %d bytes or wrong contents, want %d", step, op.A, op.B, c.Len, len(got), hi-lo)
			}
			// a slice belongs to the caller
			for i := range got {
				got[i] ^= 0xff
			}
		case "read":
			buf := make([]byte, op.B-op.A)
			n, err := in.ReadAt(buf, int64(op.A))
			lo, hi := min(op.A, c.Len), min(op.B, c.Len)
			if n != hi-lo || !bytes.Equal(buf[:n], text[lo:hi]) || n < len(buf) && err == nil {
				return fmt.Errorf("step %d: ReadAt(%d bytes, %d) = %d, %v", step, len(buf), op.A, n, err)
			}
		case "reset":
			in.ResetFurthest()
			far = 0
		}
		if !lost && in.Pos() != pos {
			return fmt.Errorf("step %d: Pos() = %d after %+v, want %d (of %d)", step, in.Pos(), op, pos, c.Len)
		}
		if in.Furthest() < far {
			return fmt.Errorf("step %d: Furthest() = %d after %+v, but byte %d was examined", step, in.Furthest(), op, far)
		}
	}
	if beyond {
		o.Class("crossed-buffer-boundary")
		o.Nontrivial = true
	}
	o.Class("reader-" + c.R.K)
	return nil
}

// ---- C16 ---------------------------------------------------------------------

type StreamOp struct {
	Off int `json:"o"`
	N   int `json:"n"`
}

type StreamCase struct {
	Len  int        `json:"len"`
	R    ReaderSpec `json:"r"`
	Fail int        `json:"fail"` // -1: never
	Once bool       `json:"once,omitempty"`
	Par  int        `json:"par,omitempty"` // concurrent readers
	Ops  []StreamOp `json:"ops"`
}

func genStreamCase(t *rapid.T) *StreamCase {
	g := G{t}
	c := &StreamCase{Fail: -1}
	switch g.u(0, 4) {
	case 0:
		c.Len = g.n(0, 10)
	case 1, 2:
		c.Len = g.u(0, 60)
	case 3:
		c.Len = max(0, bufSize*g.u(1, 3)+g.u(-4, 4))
	default:
		c.Len = g.u(0, 3*bufSize)
	}
	c.R = ReaderSpec{K: "stream", EOF: g.pct(50)}
	for k := g.n(1, 6); k > 0; k-- {
		n := g.n(0, 9)
		if c.Len > 500 || g.pct(20) {
			n = []int{g.u(1, 30), g.u(100, 3000), 4095, 4096, 4097, 9000}[g.u(0, 5)]
		}
		c.R.Sizes = append(c.R.Sizes, n)
	}
	if g.pct(25) {
		c.Fail = g.u(0, c.Len)
		c.Once = g.pct(50)
	}
	if c.Fail < 0 && g.pct(15) {
		c.Par = g.n(2, 4)
	}
	for k := g.u(1, 15); k > 0; k-- {
		op := StreamOp{Off: g.u(0, c.Len+2), N: g.n(0, 10)}
		switch g.u(0, 5) {
		case 0:
			op.N = max(0, c.Len-op.Off+g.n(0, 3)-1)
		case 1:
			op.N = g.u(0, c.Len+3)
		case 2:
			op.N = bufSize
		case 3:
			op.Off = max(0, c.Len-g.n(0, 4))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkStream(c *StreamCase, o *Obs) error {
	text := curText(c.Len, 7)
	src := &chunkReader{data: append([]byte{}, text...), spec: c.R, fail: c.Fail, once: c.Once}
	r := input.FromReader(src)
	one := func(i int, op StreamOp) error {
		buf := bytes.Repeat([]byte{0xEE}, op.N+2)
		n, err := r.ReadAt(buf[:op.N:op.N], int64(op.Off))
		if n < 0 || n > op.N {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) returns n = %d", i, op.N, op.Off, n)
		}
		if op.Off+n > c.Len && n > 0 {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) returns %d bytes of a stream of %d", i, op.N, op.Off, n, c.Len)
		}
		if n > 0 && !bytes.Equal(buf[:n], text[op.Off:op.Off+n]) {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) returns wrong bytes", i, op.N, op.Off)
		}
		if buf[op.N] != 0xEE || buf[op.N+1] != 0xEE {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) wrote behind the buffer", i, op.N, op.Off)
		}
		if n < op.N && err == nil {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) of a stream of %d returns %d bytes without an error", i, op.N, op.Off, c.Len, n)
		}
		if err == io.EOF && op.Off+n < c.Len {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) returns %d bytes and EOF, but the stream has %d bytes", i, op.N, op.Off, n, c.Len)
		}
		if err != nil && err != io.EOF && (c.Fail < 0 || err != errFail) {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) fails with %v", i, op.N, op.Off, err)
		}
		if c.Fail < 0 || c.Once {
			// a stream that works delivers everything (after a failure that
			// happened once, a read may have been cut short there)
			if want := min(op.N, max(0, c.Len-op.Off)); n != want && !(c.Once && err == errFail) {
				return fmt.Errorf("read %d: ReadAt(%d bytes, %d) of a stream of %d bytes returns %d, %v", i, op.N, op.Off, c.Len, n, err)
			}
		} else if want := min(op.N, max(0, c.Fail-op.Off)); n != want {
			return fmt.Errorf("read %d: ReadAt(%d bytes, %d) of a stream that fails at %d returns %d, %v", i, op.N, op.Off, c.Fail, n, err)
		}
		return nil
	}
	if c.Par > 0 {
		var wg sync.WaitGroup
		errs := make([]error, c.Par)
		for k := 0; k < c.Par; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[k] = fmt.Errorf("panic in a concurrent read: %v", p)
					}
				}()
				for i := range c.Ops {
					j := (i*(k+1) + k) % len(c.Ops)
					if err := one(j, c.Ops[j]); err != nil {
						errs[k] = err
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		o.Class("concurrent")
	}
	back := false
	for i, op := range c.Ops {
		if err := one(i, op); err != nil {
			return err
		}
		if i > 0 && op.Off < c.Ops[i-1].Off {
			back = true
		}
	}
	if c.Fail >= 0 {
		o.Class("failing-stream")
	}
	if back {
		o.Class("out-of-order")
	}
	if back && c.Len > 0 {
		o.Nontrivial = true
	}
	return nil
}

// ---- C17 ---------------------------------------------------------------------

type FromCase struct {
	P   *P           `json:"p"`
	In  Bs           `json:"in"`
	Pad int          `json:"pad,omitempty"`
	Th  int          `json:"th,omitempty"`
	R   []ReaderSpec `json:"r"`
	Str string       `json:"str,omitempty"`
}

func genFromCase(t *rapid.T) *FromCase {
	g := G{t}
	alpha := genAlpha(g)
	eops := g.pct(20)
	if eops {
		alpha = alphaW
	}
	pg := &PG{G: g, Alpha: alpha, Caps: g.pct(85), Errs: g.pct(30), EOps: eops, Checks: g.pct(30), Memo: g.pct(40), Search: g.pct(30), Gram: true, NestGram: g.pct(15), MaxNodes: g.n(4, 40)}
	c := &FromCase{Pad: genPad(g), Th: g.n(0, 3)}
	max := 40
	if g.pct(8) {
		pg.Long = true
		max = 900
	}
	c.P = genTop(pg, g.n(2, 6))
	c.In = Bs(inputFor(g, c.P, alpha, max))
	for k := g.n(1, 4); k > 0; k-- {
		c.R = append(c.R, genReader(g, c.Pad+len(c.In)))
	}
	c.Str = c.P.String()
	return c
}

func checkFrom(c *FromCase, o *Obs) error {
	p := padP(c.P, c.Pad)
	in := padIn(string(c.In), c.Pad)
	ref, it := reference(p, in, nil)
	if ref.Over {
		o.Discard("reference budget exceeded")
		return nil
	}
	run := func(r io.ReaderAt) (Res, Res, error) {
		// afresh: back-references keep state
		code, err := compileP(p, &Conv{Checker: checkerFactory(nil)})
		if err != nil {
			return Res{}, Res{}, err
		}
		return execOn(code, r, memo.NoneTable{}), execOn(code, r, memo.NewTreeTable(c.Th)), nil
	}
	a0, b0, err := run(strings.NewReader(in))
	if err != nil {
		return err
	}
	for _, r := range append([]ReaderSpec{{K: "bytes"}}, c.R...) {
		a, b, err := run(r.open(in))
		if err != nil {
			return err
		}
		if !sameRes(a, a0) || a.HasAST != a0.HasAST {
			return fmt.Errorf("pattern %s on %q (pad %d) from %+v: %s; from a string: %s", c.P, string(c.In), c.Pad, r, a, a0)
		}
		if !sameRes(b, b0) || b.HasAST != b0.HasAST {
			return fmt.Errorf("pattern %s on %q (pad %d) from %+v with a table: %s; from a string: %s", c.P, string(c.In), c.Pad, r, b, b0)
		}
		o.Sub++
		o.Class("reader-" + r.K)
	}
	// the alignment to the buffers does not matter
	if err := vsRef(a0, ref, true, true); err != nil {
		return fmt.Errorf("pattern %s on %q (pad %d): %v", c.P, string(c.In), c.Pad, err)
	}
	if ref.Match && (ref.Pos > c.Pad || it.backtracks > 0) || !ref.Match && it.backtracks > 0 {
		o.Nontrivial = true
	}
	if c.Pad > 0 {
		o.Class("padded-to-buffer-boundary")
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C15",
		Rule:     "cases are (text of 0-12300 bytes, often of a length around a multiple of the buffer size, reader kind, 1-40 cursor operations); every result, the position and the furthest mark are compared with a plain index; non-trivial: an operation crossed a buffer boundary",
		Assume:   []string{"the position after a failed advance or a seek beyond the end is unspecified until the next seek", "advance and slice arguments are non-negative"},
		Quick:    1200000,
		Thorough: 5000000,
	}, genCurCase, checkCur)
	register(Prop{
		ID:       "C16",
		Rule:     "cases are (stream length, chunk sizes including empty reads, EOF with or after the last data, a failure at some byte, 1-15 random-access reads, optionally by 2-4 goroutines first); non-trivial: a read went backwards",
		Assume:   []string{"offsets are non-negative", "an unfailing stream delivers all requested bytes that exist"},
		Quick:    2000000,
		Thorough: 5000000,
	}, genStreamCase, checkStream)
	register(Prop{
		ID:       "C17",
		Rule:     "cases are (pattern, text, offset to a buffer boundary, 1-4 readers: byte reader, rope of some shape, adapted stream with some chunking, reader reporting EOF early); all outcomes with and without a memoization table must be equal and agree with the reference; non-trivial: the parse matched something or backtracked",
		Quick:    400000,
		Thorough: 2000000,
		Batch:    20000,
	}, genFromCase, checkFrom)
}
