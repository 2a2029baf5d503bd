// C08 (memoization table), C09 (interval maps).
package main

import (
	"fmt"
	"sort"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazy"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
)

// ---- C08 ---------------------------------------------------------------------

// TabOp is one operation on a memoization table.
//
//	put(Id, Pos, Len, Ex, Cnt, Caps) get(Id, Pos) edit(S, E, N)
type TabOp struct {
	K    string `json:"k"`
	Id   int    `json:"id,omitempty"`
	Pos  int    `json:"pos,omitempty"`
	Len  int    `json:"len,omitempty"`
	Ex   int    `json:"ex,omitempty"`
	Cnt  int    `json:"cnt,omitempty"`
	Caps int    `json:"caps,omitempty"`
	End  int    `json:"end,omitempty"`
	N    int    `json:"n,omitempty"`
}

type TabCase struct {
	Th  int     `json:"th"`
	Ops []TabOp `json:"ops"`
}

// tabEntry is the model of one stored entry.
type tabEntry struct {
	id, pos, length, ex, cnt int
	capOffs                  [][2]int // offset from pos, length
	serial                   int
	status                   int // 0 must be found, 1 may be gone, 2 must not be returned
	e                        *memo.Entry
}

func genTabCase(t *rapid.T) *TabCase {
	g := G{t}
	c := &TabCase{Th: []int{0, 0, 0, 1, 3, 8}[g.n(0, 5)]}
	span := []int{6, 12, 25, 60, 200}[g.n(0, 4)]
	nops := g.u(2, 40)
	if g.pct(15) {
		nops = g.u(40, 120)
	}
	w := [][]int{{5, 3, 3}, {8, 2, 1}, {4, 2, 6}}[g.n(0, 2)]
	ids := g.n(1, 3)
	if g.pct(4) {
		// a long session
		span = []int{500, 5000, 100000}[g.u(0, 2)]
		nops = g.u(100, 500)
		ids = []int{1, 3, 300}[g.u(0, 2)]
	}
	for i := 0; i < nops; i++ {
		if span >= 500 && g.pct(3) {
			// somebody types (or deletes) here for a while
			s := g.u(0, span)
			k := g.u(10, 150)
			del := g.pct(30)
			for ; k > 0; k-- {
				if del {
					c.Ops = append(c.Ops, TabOp{K: "edit", Pos: max(0, s-1), End: s})
					s = max(0, s-1)
				} else {
					c.Ops = append(c.Ops, TabOp{K: "edit", Pos: s, End: s, N: 1})
					s++
				}
				if g.pct(10) {
					c.Ops = append(c.Ops, TabOp{K: "put", Id: g.n(0, ids), Pos: max(0, s-g.n(0, 20)), Len: g.n(1, 9), Ex: 10})
				}
			}
		}
		switch g.weighted(w...) {
		case 0:
			op := TabOp{K: "put", Id: g.n(0, ids), Pos: g.u(0, span), Len: g.n(-1, 5), Cnt: g.n(0, 3)}
			op.Ex = max(op.Len, 0) + g.n(0, 3)
			if g.pct(5) {
				op.Ex = g.u(1, span)
			}
			if g.pct(10) {
				op.Len = g.u(1, span)
			}
			if g.pct(3) {
				op.Ex = op.Len - 1
			}
			op.Ex = max(op.Ex, 1)
			if op.Len > 0 {
				op.Caps = g.n(0, 2)
			}
			c.Ops = append(c.Ops, op)
		case 1:
			if g.pct(50) {
				c.Ops = append(c.Ops, TabOp{K: "geti", Pos: g.u(0, nops)})
				continue
			}
			c.Ops = append(c.Ops, TabOp{K: "get", Id: g.n(0, ids), Pos: g.u(0, span)})
		case 2:
			s := g.u(0, span)
			e := s
			switch g.n(0, 3) {
			case 0, 1:
				e = s + g.n(0, 3)
			case 2:
				e = s + g.n(0, span/2)
			}
			n := g.n(0, 4)
			if g.pct(15) {
				n = g.n(0, span)
			}
			if g.pct(15) {
				n = e - s
			}
			c.Ops = append(c.Ops, TabOp{K: "edit", Pos: s, End: e, N: n})
		}
	}
	return c
}

func checkTab(c *TabCase, o *Obs) error {
	t := memo.NewTreeTable(c.Th)
	var model []*tabEntry
	span := 0
	edits, gone, kept := 0, 0, 0
	lookup := func(step int, id, pos int) error {
		e, ok := t.Get(id, pos)
		var cands []*tabEntry
		best := -1
		for _, m := range model {
			if m.id == id && m.pos == pos {
				cands = append(cands, m)
				if m.status == 0 {
					best = max(best, m.ex)
				}
			}
		}
		if !ok {
			if e != nil {
				return fmt.Errorf("step %d: Get(%d,%d) returns an entry with ok=false", step, id, pos)
			}
			for _, m := range cands {
				if m.status == 0 {
					return fmt.Errorf("step %d: Get(%d,%d) finds nothing, but the entry %s stored there is untouched by every later edit", step, id, pos, m)
				}
			}
			return nil
		}
		if e == nil {
			return fmt.Errorf("step %d: Get(%d,%d) returns nil with ok=true", step, id, pos)
		}
		var hit *tabEntry
		for _, m := range model {
			if m.e == e {
				hit = m
			}
		}
		if hit == nil {
			// identify by contents
			for _, m := range cands {
				if m.status != 2 && m.ex == e.Examined() && m.length == e.Length() && m.cnt == e.Count() && len(m.capOffs) == len(e.Captures()) {
					hit = m
				}
			}
			if hit == nil {
				return fmt.Errorf("step %d: Get(%d,%d) returns an entry (length %d, examined %d) that was never stored there", step, id, pos, e.Length(), e.Examined())
			}
		}
		if hit.id != id || hit.pos != pos {
			return fmt.Errorf("step %d: Get(%d,%d) returns the entry %s", step, id, pos, hit)
		}
		if hit.status == 2 {
			return fmt.Errorf("step %d: Get(%d,%d) returns the entry %s whose examined text was edited", step, id, pos, hit)
		}
		if hit.ex < best {
			return fmt.Errorf("step %d: Get(%d,%d) returns %s although a larger valid entry (examined %d) exists", step, id, pos, hit, best)
		}
		return entryIs(step, hit, e)
	}
	for step, op := range c.Ops {
		switch op.K {
		case "put":
			m := &tabEntry{id: op.Id, pos: op.Pos, length: op.Len, ex: max(op.Ex, op.Len), cnt: op.Cnt, serial: step}
			var caps []*memo.Capture
			for i := 0; i < op.Caps; i++ {
				off := (i * op.Len) / 2
				l := max((op.Len-off)/2, 0)
				var kids []*memo.Capture
				if i == 0 {
					kids = []*memo.Capture{memo.NewCaptureNode(9, op.Pos+off, l, nil)}
				}
				caps = append(caps, memo.NewCaptureNode(step, op.Pos+off, l, kids))
				m.capOffs = append(m.capOffs, [2]int{off, l})
			}
			before := t.Size()
			t.Put(op.Id, op.Pos, op.Len, op.Ex, op.Cnt, caps)
			span = max(span, op.Pos+m.ex)
			if op.Len == 0 || op.Ex < c.Th {
				// empty results and those below the threshold need not be kept
				m.status = 1
				if t.Size() == before {
					continue
				}
			}
			for _, e := range t.AllValues() {
				if e.Captures() != nil && len(caps) > 0 && len(e.Captures()) > 0 && e.Captures()[0] == caps[0] {
					m.e = e
				}
			}
			model = append(model, m)
			if err := lookup(step, op.Id, op.Pos); err != nil {
				return err
			}
		case "geti":
			if len(model) > 0 {
				m := model[op.Pos%len(model)]
				if err := lookup(step, m.id, m.pos); err != nil {
					return err
				}
			}
		case "get":
			if err := lookup(step, op.Id, op.Pos); err != nil {
				return err
			}
		case "edit":
			edits++
			t.ApplyEdit(memo.Edit{Start: op.Pos, End: op.End, Len: op.N})
			amt := op.N - (op.End - op.Pos)
			var next []*tabEntry
			for _, m := range model {
				lo, hi := m.pos, m.pos+m.ex // examined [lo,hi)
				touched := lo <= op.End && hi >= op.Pos
				away := lo > op.End+1 || hi < op.Pos
				if touched {
					m.status = 2
					gone++
					continue // positions are meaningless from here on
				}
				if !away {
					m.status = max(m.status, 1)
				} else if m.status == 0 {
					kept++
				}
				if lo >= op.End {
					m.pos += amt
				}
				next = append(next, m)
			}
			model = next
			span = max(0, span+amt)
		}
	}
	// final sweep: every position, plus the enumeration
	ids := map[int]bool{}
	poss := map[int]bool{0: true, span: true}
	for _, m := range model {
		ids[m.id] = true
		poss[m.pos] = true
		poss[m.pos+1] = true
		poss[m.pos-1] = true
	}
	ids[0] = true
	for id := range ids {
		for pos := range poss {
			if pos < 0 {
				continue
			}
			if err := lookup(len(c.Ops), id, pos); err != nil {
				return err
			}
		}
	}
	vals := t.AllValues()
	if t.Size() != len(vals) {
		return fmt.Errorf("Size() = %d, but %d entries are enumerated", t.Size(), len(vals))
	}
	must := 0
	for _, m := range model {
		if m.status == 0 {
			must++
		}
	}
	if len(vals) < must || len(vals) > len(model) {
		return fmt.Errorf("%d entries are enumerated, the model holds %d that must be there and %d that may", len(vals), must, len(model))
	}
	used := map[*tabEntry]bool{}
	for _, e := range vals {
		var hit *tabEntry
		for _, m := range model {
			if used[m] || m.length != e.Length() || m.cnt != e.Count() || m.ex != e.Examined() || len(m.capOffs) != len(e.Captures()) || m.pos != e.Pos() {
				continue
			}
			if len(m.capOffs) > 0 && e.Captures()[0].Id() != m.serial {
				continue
			}
			if hit == nil || m.status < hit.status {
				hit = m
			}
		}
		if hit == nil {
			return fmt.Errorf("enumeration contains an entry (position %d, length %d, examined %d, count %d) that is not live", e.Pos(), e.Length(), e.Examined(), e.Count())
		}
		used[hit] = true
		if err := entryIs(len(c.Ops), hit, e); err != nil {
			return err
		}
	}
	for _, m := range model {
		if m.status == 0 && !used[m] {
			return fmt.Errorf("enumeration misses the live entry %s", m)
		}
	}
	if edits > 0 {
		o.Class("edits")
	}
	if gone > 0 {
		o.Class("entries-invalidated")
	}
	if kept > 0 {
		o.Class("entries-kept-over-edit")
	}
	if gone > 0 && kept > 0 {
		o.Nontrivial = true
	}
	return nil
}

func (m *tabEntry) String() string {
	return fmt.Sprintf("{id %d, position %d, length %d, examined %d, count %d}", m.id, m.pos, m.length, m.ex, m.cnt)
}

func entryIs(step int, m *tabEntry, e *memo.Entry) error {
	if e.Length() != m.length || e.Count() != m.cnt || e.Pos() != m.pos || len(e.Captures()) != len(m.capOffs) {
		// several entries with equal identity are told apart by the caller
		return fmt.Errorf("step %d: entry (position %d, length %d, count %d, %d captures), want %s with %d captures", step, e.Pos(), e.Length(), e.Count(), len(e.Captures()), m, len(m.capOffs))
	}
	if e.Examined() != m.ex {
		return fmt.Errorf("step %d: entry %s has examined %d", step, m, e.Examined())
	}
	for i, cp := range e.Captures() {
		w := m.capOffs[i]
		if cp.Start() != m.pos+w[0] || cp.Len() != w[1] || cp.End() != m.pos+w[0]+w[1] || cp.Id() != m.serial {
			return fmt.Errorf("step %d: capture %d of entry %s is %d@[%d,%d), want %d@[%d,%d)", step, i, m, cp.Id(), cp.Start(), cp.End(), m.serial, m.pos+w[0], m.pos+w[0]+w[1])
		}
		if i == 0 {
			k := cp.Child(0)
			if k == nil || k.Start() != cp.Start() || k.Len() != w[1] {
				return fmt.Errorf("step %d: the child of capture 0 of entry %s moved apart from it", step, m)
			}
		}
	}
	return nil
}

// ---- C09 ---------------------------------------------------------------------

// MapOp: add(Id, Lo, Hi) rm(Lo, Hi, Amt) find(Id, Lo) pos(Lo = index)
type MapOp struct {
	K   string `json:"k"`
	Id  int    `json:"id,omitempty"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi,omitempty"`
	Amt int    `json:"amt,omitempty"`
}

type MapCase struct {
	Ops []MapOp `json:"ops"`
}

// imap is what all three maps offer.
type imap interface {
	FindLargest(id, pos int) interval.Value
	Add(id, low, high int, val interval.Value) interval.Pos
	RemoveAndShift(low, high, amt int)
	Size() int
}

type mval struct {
	serial     int
	id, lo, hi int
}

func genMapCase(t *rapid.T) *MapCase {
	g := G{t}
	c := &MapCase{}
	span := []int{5, 10, 20, 50, 150}[g.n(0, 4)]
	nops := g.u(2, 40)
	if g.pct(20) {
		nops = g.u(40, 150)
	}
	w := [][]int{{6, 2, 2, 1}, {8, 1, 1, 1}, {4, 4, 2, 1}}[g.n(0, 2)]
	ids := g.n(0, 2)
	if g.pct(3) {
		// a long session
		span = []int{500, 5000, 100000}[g.u(0, 2)]
		nops = g.u(100, 500)
		ids = []int{0, 2, 300}[g.u(0, 2)]
	}
	maxLen := []int{2, 4, 10, span}[g.n(0, 3)]
	for i := 0; i < nops; i++ {
		if span >= 500 && g.pct(3) {
			// many small changes in a row
			lo := g.u(0, span)
			del := g.pct(30)
			for k := g.u(10, 150); k > 0; k-- {
				if del && lo > 0 {
					c.Ops = append(c.Ops, MapOp{K: "rm", Lo: lo - 1, Hi: lo, Amt: -1})
					lo--
				} else {
					c.Ops = append(c.Ops, MapOp{K: "rm", Lo: lo, Hi: lo + g.n(0, 1), Amt: 1})
					lo++
				}
				if g.pct(10) {
					lo := max(0, lo-g.n(0, 20))
					c.Ops = append(c.Ops, MapOp{K: "add", Id: g.n(0, ids), Lo: lo, Hi: lo + g.n(1, 9)})
				}
			}
		}
		switch g.weighted(w...) {
		case 0:
			lo := g.u(0, span)
			c.Ops = append(c.Ops, MapOp{K: "add", Id: g.n(0, ids), Lo: lo, Hi: lo + g.n(1, maxLen)})
		case 1:
			lo := g.u(0, span)
			hi := lo + 1
			if g.pct(40) {
				hi = lo + g.n(1, maxLen+2)
			}
			amt := 0
			switch g.n(0, 4) {
			case 0, 1:
				amt = g.n(1, 6)
			case 2, 3:
				amt = -g.n(1, hi-lo)
			}
			if g.pct(5) {
				amt = g.n(0, span)
			}
			c.Ops = append(c.Ops, MapOp{K: "rm", Lo: lo, Hi: hi, Amt: amt})
		case 2:
			if g.pct(50) {
				c.Ops = append(c.Ops, MapOp{K: "findi", Lo: g.u(0, nops)})
				continue
			}
			c.Ops = append(c.Ops, MapOp{K: "find", Id: g.n(0, ids), Lo: g.u(0, span)})
		case 3:
			c.Ops = append(c.Ops, MapOp{K: "pos", Lo: g.u(0, span)})
		}
	}
	return c
}

func checkMaps(c *MapCase, o *Obs) error {
	for _, v := range []struct {
		name      string
		m         imap
		inclusive bool
	}{
		{"lazylog.Tree", &lazylog.Tree{}, true},
		{"lazy.Tree", &lazy.Tree{}, false},
		{"lazy.Array", &lazy.Array{}, false},
	} {
		if err := checkMap(c, v.name, v.m, v.inclusive, o); err != nil {
			return err
		}
	}
	return nil
}

func checkMap(c *MapCase, name string, m imap, inclusive bool, o *Obs) error {
	var live []*mval
	handles := map[*mval]interval.Pos{}
	multi, shifted, removed, dups := false, 0, 0, false
	find := func(step, id, pos int) error {
		got := m.FindLargest(id, pos)
		best := -1
		for _, v := range live {
			if v.id == id && v.lo == pos {
				best = max(best, v.hi-v.lo)
			}
		}
		if got == nil {
			if best >= 0 {
				return fmt.Errorf("%s, step %d: FindLargest(%d,%d) finds nothing, want an interval of length %d", name, step, id, pos, best)
			}
			return nil
		}
		g, ok := got.(*mval)
		if !ok {
			return fmt.Errorf("%s, step %d: FindLargest(%d,%d) returned a foreign value %v", name, step, id, pos, got)
		}
		alive := false
		for _, v := range live {
			if v == g {
				alive = true
			}
		}
		if !alive {
			return fmt.Errorf("%s, step %d: FindLargest(%d,%d) returns the removed value %+v", name, step, id, pos, *g)
		}
		if g.id != id || g.lo != pos || g.hi-g.lo != best {
			return fmt.Errorf("%s, step %d: FindLargest(%d,%d) returns %+v, want length %d there", name, step, id, pos, *g, best)
		}
		return nil
	}
	sizes := func(step int) error {
		if m.Size() != len(live) {
			return fmt.Errorf("%s, step %d: Size() = %d, want %d", name, step, m.Size(), len(live))
		}
		if a, ok := m.(interface{ AllValues() []interval.Value }); ok {
			vals := a.AllValues()
			var got, want []int
			for _, v := range vals {
				got = append(got, v.(*mval).serial)
			}
			for _, v := range live {
				want = append(want, v.serial)
			}
			sort.Ints(got)
			sort.Ints(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("%s, step %d: AllValues() are %v, want %v", name, step, got, want)
			}
		}
		return nil
	}
	for step, op := range c.Ops {
		switch op.K {
		case "add":
			v := &mval{step, op.Id, op.Lo, op.Hi}
			for _, w := range live {
				if w.id == v.id && w.lo == v.lo {
					dups = true
				}
			}
			if shifted > 0 {
				multi = true
			}
			live = append(live, v)
			handles[v] = m.Add(op.Id, op.Lo, op.Hi, v)
			if p := handles[v].Pos(); p != v.lo {
				return fmt.Errorf("%s, step %d: the handle of a fresh interval at %d is at %d", name, step, v.lo, p)
			}
		case "rm":
			m.RemoveAndShift(op.Lo, op.Hi, op.Amt)
			var next []*mval
			for _, v := range live {
				var ov bool
				if inclusive {
					ov = v.lo <= op.Hi && v.hi >= op.Lo
				} else {
					ov = v.lo < op.Hi && v.hi > op.Lo
				}
				if ov {
					removed++
					continue
				}
				if v.lo >= op.Lo {
					v.lo += op.Amt
					v.hi += op.Amt
					if op.Amt != 0 {
						shifted++
					}
				}
				next = append(next, v)
			}
			live = next
			if step%4 == 0 {
				if err := sizes(step); err != nil {
					return err
				}
			}
		case "findi":
			if len(live) > 0 {
				v := live[op.Lo%len(live)]
				if err := find(step, v.id, v.lo); err != nil {
					return err
				}
			}
		case "find":
			if err := find(step, op.Id, op.Lo); err != nil {
				return err
			}
		case "pos":
			if len(live) > 0 {
				v := live[op.Lo%len(live)]
				if p := handles[v].Pos(); p != v.lo {
					return fmt.Errorf("%s, step %d: the handle of %+v is at %d", name, step, *v, p)
				}
			}
		}
	}
	if err := sizes(len(c.Ops)); err != nil {
		return err
	}
	for _, v := range live {
		if p := handles[v].Pos(); p != v.lo {
			return fmt.Errorf("%s, at the end: the handle of %+v is at %d", name, *v, p)
		}
		for d := -1; d <= 1; d++ {
			if err := find(len(c.Ops), v.id, v.lo+d); err != nil {
				return err
			}
		}
	}
	if err := sizes(len(c.Ops)); err != nil {
		return err
	}
	if name == "lazylog.Tree" {
		if removed > 0 && len(live) > 0 {
			o.Class("removal-with-survivors")
		}
		if multi {
			o.Class("add-after-shift")
		}
		if dups {
			o.Class("several-intervals-with-one-key")
		}
		if shifted > 0 {
			o.Class("shifted")
		}
		if removed > 0 && shifted > 0 && len(live) > 1 {
			o.Nontrivial = true
		}
		if len(live) > 10 {
			o.Class("live>10")
		}
	}
	o.Sub++
	return nil
}

func init() {
	register(Prop{
		ID:       "C08",
		Rule:     "cases are histories of stores, lookups and edits (inserting, deleting, replacing) on a tree table; a list model says which entries must be found, may be gone, or must not be returned; non-trivial: some entry was invalidated and some entry survived an edit",
		Assume:   []string{"an entry examines [position, position+max(examined, length))", "an entry that starts one byte after an edit may or may not be dropped"},
		Quick:    150000,
		Thorough: 3000000,
	}, genTabCase, checkTab)
	register(Prop{
		ID:       "C09",
		Rule:     "cases are histories of additions, overlap removals with shifts and queries, run on lazylog.Tree, lazy.Tree and lazy.Array and compared with a list of intervals; non-trivial: intervals were removed and shifted and at least two are live at the end",
		Assume:   []string{"lazylog removes intervals that overlap or touch the range, lazy those that properly overlap it", "a shift never moves an interval left past the removed range (amount >= -(high-low))"},
		Quick:    120000,
		Thorough: 2500000,
	}, genMapCase, checkMaps)
}
