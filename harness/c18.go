// C18 (rope contents), C19 (rope line/column conversions).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/input/linerope"
)

// RopeOpts are the options of one rope; the separator is shared by the case.
type RopeOpts struct {
	Split int `json:"split"`
	Join  int `json:"join"`
	Ratio int `json:"ratio"` // per cent
}

// RopeOp is one operation on rope R of the pool (modulo its size).
//
//	new    adds a rope over S
//	ins    inserts S at A
//	own    inserts the rope's own bytes [B,C) at A
//	rem    removes [A,B)
//	spl    replaces the rope by the two halves of a split at A
//	join   replaces ropes R, R2 (and R3 if set) by their join
//	reb    rebuilds, bal rebalances
//	read   reads B bytes at A
//	wto    writes to a writer that fails after A bytes (A < 0: never)
//	leaf   enumerates leaves, stopping after A of them (A < 0: never)
type RopeOp struct {
	O    string    `json:"o"`
	R    int       `json:"r,omitempty"`
	R2   int       `json:"r2,omitempty"`
	R3   int       `json:"r3,omitempty"`
	A    int       `json:"a,omitempty"`
	B    int       `json:"b,omitempty"`
	C    int       `json:"c,omitempty"`
	S    Bs        `json:"s,omitempty"`
	Fill int       `json:"fill,omitempty"` // S is repeated up to this length
	Opts *RopeOpts `json:"opts,omitempty"`
}

type RopeCase struct {
	Sep    Bs       `json:"sep"`
	Ops    []RopeOp `json:"ops"`
	Probe  int      `json:"probe,omitempty"`
	Strict bool     `json:"strict,omitempty"` // check lines even if a separator straddles leaves
}

func (op RopeOp) bytes() []byte {
	if op.Fill > len(op.S) && len(op.S) > 0 {
		return bytes.Repeat([]byte(op.S), op.Fill/len(op.S)+1)[:op.Fill]
	}
	return []byte(op.S)
}

func genRopeOpts(g G) *RopeOpts {
	o := &RopeOpts{}
	switch g.weighted(3, 5, 3, 1) {
	case 0:
		o.Split = g.n(1, 4)
	case 1:
		o.Split = g.n(2, 16)
	case 2:
		o.Split = g.n(8, 80)
	case 3:
		o.Split = 4096
	}
	switch g.weighted(2, 4, 1, 1) {
	case 0:
		o.Join = 0
	case 1:
		o.Join = g.n(0, o.Split)
	case 2:
		o.Join = g.n(0, 3*o.Split)
	case 3:
		o.Join = o.Split / 2
	}
	o.Ratio = []int{120, 100, 0, 200, 400}[g.n(0, 4)]
	return o
}

func genRopeCase(t *rapid.T, multi bool) *RopeCase {
	g := G{t}
	c := &RopeCase{Sep: "\n"}
	if multi {
		c.Sep = Bs([]string{"\n", "\r\n", "x", "\x00", "ab", "<br>"}[g.weighted(6, 3, 1, 1, 1, 1)])
	}
	var alpha []string
	switch g.weighted(4, 2, 1, 1) {
	case 0:
		alpha = []string{"a", "b", "c", string(c.Sep), string(c.Sep)}
	case 1:
		alpha = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", string(c.Sep)}
	case 2:
		alpha = []string{string(c.Sep), string(c.Sep), string(c.Sep), "a"}
	case 3:
		alpha = []string{"a", "\xff", "\r", "\n", "\x00", "é", "<", "b", "x"}
	}
	// sep-sized tokens keep multi-byte separators frequent; parts of one give
	// near misses.
	if len(c.Sep) > 1 && g.pct(50) {
		alpha = append(alpha, string(c.Sep[:1]), string(c.Sep[len(c.Sep)-1:]))
	}
	text := func(lo, hi int) Bs {
		var sb strings.Builder
		for k := g.n(lo, hi); k > 0; k-- {
			sb.WriteString(alpha[g.u(0, len(alpha)-1)])
		}
		return Bs(sb.String())
	}
	base := genRopeOpts(g)
	huge := g.permille(4)
	mk := func() RopeOp {
		op := RopeOp{O: "new", S: text(0, 60), Opts: base}
		if g.pct(15) {
			op.Opts = genRopeOpts(g)
		}
		if op.Opts.Split > 100 || g.pct(3) {
			op.Fill = g.u(0, 3*op.Opts.Split+10)
			if op.Fill > 20000 {
				op.Fill = 20000
			}
		}
		if huge && g.pct(50) {
			op.Fill = min(g.u(60000, 300000), 2000*op.Opts.Split)
		}
		return op
	}
	c.Ops = append(c.Ops, mk())
	lens := []int{max(len(c.Ops[0].S), c.Ops[0].Fill)}
	if len(c.Ops[0].S) == 0 {
		lens[0] = 0
	}
	nops := g.n(1, 25)
	if huge {
		nops = g.n(1, 10)
	} else if g.permille(4) {
		nops = g.u(25, 300)
	}
	for i := 0; i < nops; i++ {
		op := RopeOp{R: g.u(0, len(lens)-1)}
		l := lens[op.R]
		// positions: anywhere, the ends, or around multiples of the split length
		pos := func() int {
			switch g.weighted(6, 2, 2) {
			case 1:
				return []int{0, l}[g.n(0, 1)]
			case 2:
				k := base.Split * g.u(0, l/max(base.Split, 1)+1)
				return min(l, max(0, k+g.u(-1, 1)))
			}
			return g.u(0, l)
		}
		switch g.weighted(10, 10, 6, 6, 3, 3, 3, 2, 2, 2, 2) {
		case 0:
			op.O, op.A = "ins", pos()
			op.S = text(0, []int{3, 10, 60}[g.n(0, 2)])
			if huge && len(op.S) > 0 && g.pct(20) {
				op.Fill = min(g.u(5000, 100000), 1000*base.Split)
			}
			lens[op.R] += max(len(op.S), op.Fill)
		case 1:
			op.O = "rem"
			a, b := pos(), pos()
			if g.pct(50) {
				b = min(l, a+g.n(0, 6))
			}
			op.A, op.B = min(a, b), max(a, b)
			lens[op.R] -= op.B - op.A
		case 2:
			op.O, op.A = "spl", pos()
			lens[op.R] = op.A
			lens = append(lens, l-op.A)
		case 3:
			if len(lens) < 2 {
				op = mk()
				n := max(len(op.S), op.Fill)
				if len(op.S) == 0 {
					n = 0
				}
				lens = append(lens, n)
				break
			}
			op.O = "join"
			op.R2 = g.u(0, len(lens)-1)
			op.R3 = -1
			if len(lens) > 2 && g.pct(30) {
				op.R3 = g.u(0, len(lens)-1)
			}
			if op.R2 == op.R || op.R3 == op.R || op.R3 == op.R2 {
				continue
			}
			lens[op.R] += lens[op.R2]
			dead := []int{op.R2}
			if op.R3 >= 0 {
				lens[op.R] += lens[op.R3]
				dead = []int{max(op.R2, op.R3), min(op.R2, op.R3)}
			}
			for _, d := range dead {
				lens = append(lens[:d], lens[d+1:]...)
			}
		case 4:
			op.O = "reb"
		case 5:
			op.O = "bal"
		case 6:
			op = mk()
			n := max(len(op.S), op.Fill)
			if len(op.S) == 0 {
				n = 0
			}
			lens = append(lens, n)
		case 7:
			op.O, op.A, op.B = "read", g.u(0, l+3), g.u(0, l+5)
		case 8:
			op.O, op.A = "wto", g.u(-1, l)
		case 9:
			op.O, op.A = "leaf", g.u(-1, 4)
		case 10:
			op.O, op.A = "own", pos()
			a, b := pos(), pos()
			op.B, op.C = min(a, b), max(a, b)
			if op.C-op.B > 200 {
				op.C = op.B + 200
			}
			lens[op.R] += op.C - op.B
		}
		c.Ops = append(c.Ops, op)
	}
	c.Probe = g.u(0, 1<<20)
	return c
}

type poolRope struct {
	n *linerope.Node
	s []byte
}

type guard struct {
	what      string
	buf, orig []byte
}

// guarded copies b into a slice with spare capacity filled with a sentinel.
func guarded(b []byte, what string, gs *[]guard) []byte {
	buf := make([]byte, len(b)+16)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	*gs = append(*gs, guard{what, buf, append([]byte(nil), buf...)})
	return buf[:len(b)]
}

type failWriter struct {
	buf  []byte
	left int
}

var errWrite = errors.New("write failure")

func (w *failWriter) Write(p []byte) (int, error) {
	if w.left >= 0 && len(p) > w.left {
		n := w.left
		w.buf = append(w.buf, p[:n]...)
		w.left = 0
		return n, errWrite
	}
	w.buf = append(w.buf, p...)
	if w.left >= 0 {
		w.left -= len(p)
	}
	return len(p), nil
}

// lcg drives the positions probed in large ropes.
type lcg uint64

func (l *lcg) n(m int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l)>>33) % max(m, 1)
}

func runRopes(c *RopeCase, o *Obs, verify func(r *poolRope, rnd *lcg) error) error {
	var pool []*poolRope
	var guards []guard
	rnd := lcg(c.Probe)
	fail := func(i int, op RopeOp, err error) error {
		return fmt.Errorf("op %d (%s): %w", i, op.O, err)
	}
	depthSeen := 0
	for i, op := range c.Ops {
		if op.O == "new" {
			b := op.bytes()
			ro := op.Opts
			opts := linerope.Options{SplitLen: max(ro.Split, 1), JoinLen: ro.Join, RebalanceRatio: float64(ro.Ratio) / 100, LineSep: []byte(c.Sep)}
			init := guarded(b, "initial slice", &guards)
			r := &poolRope{s: append([]byte(nil), b...)}
			if opts.SplitLen == 4096 && opts.JoinLen == 2048 && string(c.Sep) == "\n" {
				r.n = linerope.New(init)
			} else {
				r.n = linerope.NewWithOpts(init, opts)
			}
			pool = append(pool, r)
			if err := verify(r, &rnd); err != nil {
				return fail(i, op, err)
			}
			continue
		}
		if len(pool) == 0 {
			continue
		}
		ri := abs(op.R) % len(pool)
		r := pool[ri]
		l := len(r.s)
		at := func(p int) int { return min(max(p, 0), l) }
		switch op.O {
		case "ins", "own":
			p := at(op.A)
			var v []byte
			if op.O == "own" {
				a, b := at(op.B), at(op.C)
				if a > b {
					a, b = b, a
				}
				v = append([]byte(nil), r.s[a:b]...)
				o.Class("insert-own-bytes")
				r.n.Insert(p, r.n.Value()[a:b])
			} else {
				v = op.bytes()
				r.n.Insert(p, guarded(v, "inserted slice", &guards))
			}
			s := append([]byte(nil), r.s[:p]...)
			s = append(s, v...)
			r.s = append(s, r.s[p:]...)
		case "rem":
			a, b := at(op.A), at(op.B)
			if a > b {
				a, b = b, a
			}
			r.n.Remove(a, b)
			s := append([]byte(nil), r.s[:a]...)
			r.s = append(s, r.s[b:]...)
		case "spl":
			p := at(op.A)
			ln, rn := r.n.SplitAt(p)
			if ln == nil || rn == nil {
				return fail(i, op, fmt.Errorf("SplitAt(%d) returns nil", p))
			}
			r.n = ln
			r2 := &poolRope{rn, append([]byte(nil), r.s[p:]...)}
			r.s = append([]byte(nil), r.s[:p]...)
			pool = append(pool, r2)
			if err := verify(r2, &rnd); err != nil {
				return fail(i, op, fmt.Errorf("right half of SplitAt(%d): %w", p, err))
			}
		case "join":
			j := abs(op.R2) % len(pool)
			if j == ri {
				continue
			}
			if op.R3 >= 0 && op.R3 < len(pool) && op.R3 != ri && op.R3 != j {
				k := op.R3
				r.n = linerope.Join(r.n, pool[j].n, pool[k].n)
				r.s = append(append(append([]byte(nil), r.s...), pool[j].s...), pool[k].s...)
				pool[j], pool[k] = nil, nil
			} else {
				r.n = linerope.Join(r.n, pool[j].n)
				r.s = append(append([]byte(nil), r.s...), pool[j].s...)
				pool[j] = nil
			}
			var np []*poolRope
			for _, q := range pool {
				if q != nil {
					np = append(np, q)
				}
			}
			pool = np
		case "reb":
			r.n.Rebuild()
		case "bal":
			r.n.Rebalance()
		case "read":
			off := max(op.A, 0)
			buf := guarded(make([]byte, max(op.B, 0)), "data read", &guards)
			gi := len(guards) - 1
			n, err := r.n.ReadAt(buf, int64(off))
			want := 0
			if off < l {
				want = min(len(buf), l-off)
			}
			if n != want || (n < len(buf) && err == nil) || (err != nil && err != io.EOF) || (err == io.EOF && off+n < l) {
				return fail(i, op, fmt.Errorf("ReadAt(%d bytes, %d) returns %d, %v; want %d bytes of a %d byte rope", len(buf), off, n, err, want, l))
			}
			if n > 0 && !bytes.Equal(buf[:n], r.s[off:off+n]) {
				return fail(i, op, fmt.Errorf("ReadAt(%d bytes, %d) returns %q, want %q", len(buf), off, buf[:n], r.s[off:off+n]))
			}
			copy(guards[gi].orig, buf[:n]) // bytes beyond n and the sentinel must be intact
		case "wto":
			w := &failWriter{left: op.A}
			n, err := r.n.WriteTo(w)
			if int(n) != len(w.buf) {
				return fail(i, op, fmt.Errorf("WriteTo reports %d bytes, %d were written", n, len(w.buf)))
			}
			if op.A < 0 || op.A >= l {
				if err != nil || !bytes.Equal(w.buf, r.s) {
					return fail(i, op, fmt.Errorf("WriteTo writes %q, %v; want %q", w.buf, err, r.s))
				}
			} else {
				o.Class("failing-writer")
				if err != errWrite || !bytes.Equal(w.buf, r.s[:op.A]) {
					return fail(i, op, fmt.Errorf("WriteTo with a failure after %d bytes writes %q, returns %v", op.A, w.buf, err))
				}
			}
		case "leaf":
			seen, total := 0, 0
			r.n.EachLeaf(func(*linerope.Node) bool { total++; return false })
			depthSeen = max(depthSeen, total)
			stopped := r.n.EachLeaf(func(n *linerope.Node) bool {
				seen++
				return op.A >= 0 && seen > op.A
			})
			want := total
			if op.A >= 0 {
				want = min(total, op.A+1)
			}
			if seen != want || stopped != (op.A >= 0 && op.A < total) {
				return fail(i, op, fmt.Errorf("EachLeaf stopping after %d of %d leaves visits %d and returns %v", op.A+1, total, seen, stopped))
			}
		}
		if err := verify(r, &rnd); err != nil {
			return fail(i, op, err)
		}
		for _, q := range pool {
			if q != r && !bytes.Equal(q.n.Value(), q.s) {
				return fail(i, op, fmt.Errorf("another rope changed: holds %q, want %q", clip(q.n.Value()), clip(q.s)))
			}
		}
		for _, gd := range guards {
			if !bytes.Equal(gd.buf, gd.orig) {
				return fail(i, op, fmt.Errorf("%s was changed: %q, was %q", gd.what, clip(gd.buf), clip(gd.orig)))
			}
		}
		o.Class("op-%s", op.O)
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte(nil), b[:200]...), "..."...)
	}
	return b
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func checkRope(c *RopeCase, o *Obs) error {
	leaves, edits := 0, 0
	for _, op := range c.Ops {
		switch op.O {
		case "ins", "rem", "own", "spl", "join", "reb", "bal":
			edits++
		}
	}
	err := runRopes(c, o, func(r *poolRope, rnd *lcg) error {
		l := len(r.s)
		if r.n.Len() != l {
			return fmt.Errorf("Len() = %d, want %d", r.n.Len(), l)
		}
		if v := r.n.Value(); !bytes.Equal(v, r.s) {
			return fmt.Errorf("Value() = %q, want %q", clip(v), clip(r.s))
		}
		var cat []byte
		nl := 0
		if r.n.EachLeaf(func(n *linerope.Node) bool {
			v := n.Value()
			if n.Len() != len(v) {
				nl = -1 << 30
			}
			nl++
			cat = append(cat, v...)
			return false
		}) {
			return fmt.Errorf("EachLeaf returns true although no call did")
		}
		if nl < 0 {
			return fmt.Errorf("a leaf's Len differs from the length of its value")
		}
		leaves = max(leaves, nl)
		if !bytes.Equal(cat, r.s) {
			return fmt.Errorf("leaves hold %q, want %q", clip(cat), clip(r.s))
		}
		var bad error
		first, cnt := true, 0
		r.n.Each(func(n *linerope.Node) {
			cnt++
			if first && n != r.n {
				bad = fmt.Errorf("Each does not start at the root")
			}
			first = false
			if l <= 2000 && n.Len() != len(n.Value()) {
				bad = fmt.Errorf("a node of length %d holds %d bytes", n.Len(), len(n.Value()))
			}
		})
		if cnt != 2*nl-1 {
			bad = fmt.Errorf("Each visits %d nodes of a tree with %d leaves", cnt, nl)
		}
		if bad != nil {
			return bad
		}
		if l == 0 {
			return nil
		}
		for k := 0; k < 20; k++ {
			p := rnd.n(l)
			if l <= 20 {
				p = k % l
			}
			if b := r.n.At(p); b != r.s[p] {
				return fmt.Errorf("At(%d) = %q, want %q", p, b, r.s[p])
			}
		}
		for k := 0; k < 4; k++ {
			p, m := rnd.n(l+1), rnd.n(l+4)
			if k > 1 {
				m = rnd.n(10)
			}
			buf := make([]byte, m)
			n, err := r.n.ReadAt(buf, int64(p))
			want := min(m, l-p)
			if n != want || !bytes.Equal(buf[:n], r.s[p:p+n]) || n < m && err != io.EOF || err == io.EOF && p+n < l || err != nil && err != io.EOF {
				return fmt.Errorf("ReadAt(%d bytes, %d) = %d, %v, %q; rope of %d bytes holds %q there", m, p, n, err, clip(buf[:n]), l, clip(r.s[p:p+want]))
			}
		}
		var w bytes.Buffer
		if n, err := r.n.WriteTo(&w); err != nil || int(n) != l || !bytes.Equal(w.Bytes(), r.s) {
			return fmt.Errorf("WriteTo = %d, %v, %q, want %q", n, err, clip(w.Bytes()), clip(r.s))
		}
		return nil
	})
	switch {
	case leaves > 8:
		o.Class("leaves>8")
	case leaves > 1:
		o.Class("leaves>1")
	default:
		o.Class("one-leaf")
	}
	o.Nontrivial = leaves > 1 && edits > 0
	return err
}

// lineIndex is the model: the line starts of a text.
type lineIndex struct {
	s      []byte
	sep    []byte
	starts []int
}

func indexLines(s, sep []byte) lineIndex {
	x := lineIndex{s: s, sep: sep, starts: []int{0}}
	for i := 0; i+len(sep) <= len(s); {
		if bytes.HasPrefix(s[i:], sep) {
			i += len(sep)
			x.starts = append(x.starts, i)
		} else {
			i++
		}
	}
	return x
}

func (x lineIndex) lineCol(p int) (int, int) {
	l := 0
	for l+1 < len(x.starts) && x.starts[l+1] <= p {
		l++
	}
	return l, p - x.starts[l]
}

func checkLines(c *RopeCase, o *Obs) error {
	sep := []byte(c.Sep)
	if len(sep) == 0 {
		o.Discard("empty separator")
		return nil
	}
	leaves, lines, edits := 0, 0, 0
	for _, op := range c.Ops {
		switch op.O {
		case "ins", "rem", "own", "spl", "join", "reb", "bal":
			edits++
		}
	}
	err := runRopes(c, o, func(r *poolRope, rnd *lcg) error {
		l := len(r.s)
		x := indexLines(r.s, sep)
		if len(sep) > 1 && !c.Strict {
			// Known finding: a separator that lies in two leaves is not counted.
			off, straddle, nl := 0, false, 0
			r.n.EachLeaf(func(n *linerope.Node) bool {
				for _, st := range x.starts[1:] {
					if st-len(sep) < off && off < st {
						straddle = true
					}
				}
				off += n.Len()
				nl++
				return false
			})
			if straddle {
				o.Class("separator-straddles-leaves")
				return nil
			}
		}
		nlines := len(x.starts) - 1
		lines = max(lines, nlines)
		nl := 0
		r.n.EachLeaf(func(*linerope.Node) bool { nl++; return false })
		leaves = max(leaves, nl)
		if got := r.n.NumLines(); got != nlines {
			return fmt.Errorf("NumLines() = %d, want %d in %q", got, nlines, clip(r.s))
		}
		wl, wc := x.lineCol(l)
		if gl, gc := r.n.LLen(); gl != wl || gc != wc {
			return fmt.Errorf("LLen() = (%d, %d), want (%d, %d) in %q", gl, gc, wl, wc, clip(r.s))
		}
		one := func(p int) error {
			wl, wc := x.lineCol(p)
			gl, gc := r.n.LineColAt(p)
			if gl != wl || gc != wc {
				return fmt.Errorf("LineColAt(%d) = (%d, %d), want (%d, %d) in %q", p, gl, gc, wl, wc, clip(r.s))
			}
			if off := r.n.OffsetAt(wl, wc); off != p {
				return fmt.Errorf("OffsetAt(%d, %d) = %d, want %d in %q", wl, wc, off, p, clip(r.s))
			}
			return nil
		}
		if l <= 120 {
			for p := 0; p <= l; p++ {
				if err := one(p); err != nil {
					return err
				}
			}
		} else {
			for k := 0; k < 60; k++ {
				if err := one(rnd.n(l + 1)); err != nil {
					return err
				}
			}
			if err := one(l); err != nil {
				return err
			}
		}
		for k := 0; k < 12; k++ {
			a, b := rnd.n(l+1), rnd.n(l+1)
			switch k {
			case 0:
				a, b = 0, l
			case 1, 2, 3:
				b = min(l, a+rnd.n(5))
			case 4, 5:
				a, b = x.starts[rnd.n(len(x.starts))], x.starts[rnd.n(len(x.starts))]
			}
			al, ac := x.lineCol(a)
			bl, bc := x.lineCol(b)
			var want []byte
			if a < b {
				want = r.s[a:b]
			}
			if got := r.n.SliceLC(al, ac, bl, bc); !bytes.Equal(got, want) {
				return fmt.Errorf("SliceLC(%d, %d, %d, %d) = %q, want %q in %q", al, ac, bl, bc, clip(got), clip(want), clip(r.s))
			}
		}
		// every node is itself a rope
		var bad error
		if l <= 400 {
			r.n.Each(func(n *linerope.Node) {
				y := indexLines(n.Value(), sep)
				wl, wc := y.lineCol(n.Len())
				if gl, gc := n.LLen(); gl != wl || gc != wc {
					bad = fmt.Errorf("a node holding %q has LLen (%d, %d), want (%d, %d)", clip(n.Value()), gl, gc, wl, wc)
				}
			})
		}
		return bad
	})
	switch {
	case leaves > 8:
		o.Class("leaves>8")
	case leaves > 1:
		o.Class("leaves>1")
	default:
		o.Class("one-leaf")
	}
	if len(sep) > 1 {
		o.Class("long-separator")
	}
	if lines > 5 {
		o.Class("lines>5")
	}
	o.Nontrivial = leaves > 1 && edits > 0 && lines > 0
	return err
}

func init() {
	register(Prop{
		ID:       "C18",
		Rule:     "some rope of the case has more than one leaf and at least one editing operation runs",
		Assume:   []string{"after a split or join the original ropes are no longer used (their nodes are shared with the result)", "SplitLen >= 1"},
		Quick:    500000,
		Thorough: 6000000,
	}, func(t *rapid.T) *RopeCase { return genRopeCase(t, false) }, checkRope)
	register(Prop{
		ID:       "C19",
		Rule:     "some rope of the case has more than one leaf and a line separator, and at least one editing operation runs",
		Assume:   []string{"after a split or join the original ropes are no longer used", "separators do not overlap themselves", "states in which a multi-byte separator lies in two leaves are the known finding and are skipped"},
		Quick:    250000,
		Thorough: 4000000,
	}, func(t *rapid.T) *RopeCase { return genRopeCase(t, true) }, checkLines)
}
