// C37: the block and word-list patterns of the bench package, used as the
// tokens of a scanner, against a scan by hand.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/bench"
	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

type BlockDef struct {
	Start Bs `json:"start"`
	End   Bs `json:"end"`
	Esc   Bs `json:"esc,omitempty"` // an escape is this character ...
	Set   Bs `json:"set,omitempty"` // ... and one of these, or the two of Lit
	Lit   Bs `json:"lit,omitempty"`
}

type ScanCase struct {
	Blocks []BlockDef `json:"blocks"`
	Words  [][]Bs     `json:"words"`
	Memo   bool       `json:"memo"`
	Th     int        `json:"th"`
	In     []Bs       `json:"in"`
}

// escape returns the length of the escape at a position, -1 if there is none.
func (b *BlockDef) escape(s string) int {
	if len(b.Lit) > 0 && strings.HasPrefix(s, string(b.Lit)) {
		return len(b.Lit)
	}
	if len(b.Esc) > 0 && len(s) > 1 && s[0] == b.Esc[0] && strings.IndexByte(string(b.Set), s[1]) >= 0 {
		return 2
	}
	return -1
}

// scan returns the length of the block at the start of s, -1 if there is none.
func (b *BlockDef) scan(s string) int {
	if !strings.HasPrefix(s, string(b.Start)) {
		return -1
	}
	i := len(b.Start)
	for i < len(s) {
		if n := b.escape(s[i:]); n > 0 {
			i += n
		} else if strings.HasPrefix(s[i:], string(b.End)) {
			break
		} else {
			i++
		}
	}
	if !strings.HasPrefix(s[i:], string(b.End)) {
		return -1
	}
	return i + len(b.End)
}

func (b *BlockDef) patt() pattern.Pattern {
	var esc []pattern.Pattern
	if len(b.Lit) > 0 {
		esc = append(esc, pattern.Literal(string(b.Lit)))
	}
	if len(b.Esc) > 0 {
		esc = append(esc, pattern.Concat(pattern.Literal(string(b.Esc)), pattern.Set(charset.New([]byte(b.Set)))))
	}
	if len(esc) == 0 {
		return bench.BlockPatt(string(b.Start), string(b.End), nil)
	}
	return bench.BlockPatt(string(b.Start), string(b.End), pattern.Or(esc...))
}

func genScan(t *rapid.T) *ScanCase {
	g := G{t}
	c := &ScanCase{Memo: g.pct(40), Th: []int{0, 1, 64}[g.n(0, 2)]}
	var parts []string
	for k := g.n(0, 3); k > 0; k-- {
		b := BlockDef{Start: Bs(g.pick("//", "/*", "\"", "(*", "aa", "/", "<!--")), End: Bs(g.pick("\n", "*/", "\"", "*)", "aa", "aab", "-->", "**/"))}
		if g.pct(60) {
			b.Esc = Bs(g.pick("\\", "\"", "*", "a"))
			b.Set = Bs(g.pick("\"", "\\\"nt", "*/", "ab\n", "\\"))
		}
		if g.pct(25) {
			b.Lit = Bs(g.pick("\"\"", "**/", "\\\n", "*", "aa", "\\u00"))
		}
		c.Blocks = append(c.Blocks, b)
		parts = append(parts, string(b.Start), string(b.Start), string(b.End), string(b.End), string(b.Esc), string(b.Lit))
		if len(b.Esc) > 0 {
			parts = append(parts, string(b.Esc)+string(b.Set[:1]))
		}
	}
	for k := g.n(0, 2); k > 0; k-- {
		var l []Bs
		for j := g.n(0, 5); j > 0; j-- {
			w := g.pick("public", "private", "a", "ab", "_", "A9z", "protected", "Z", "aZ_0", "9a", "a b", "", "pub", "ab_")
			l = append(l, Bs(w))
			parts = append(parts, w, w, w+g.pick("1", "s", "_", "Z", "z", "@", "[", "`", "{", "/", ":", "A"))
		}
		c.Words = append(c.Words, l)
	}
	if len(parts) == 0 {
		parts = []string{"a", "//"}
	}
	for k := g.n(1, 3); k > 0; k-- {
		var s strings.Builder
		for j := g.n(0, 14); j > 0; j-- {
			switch g.weighted(6, 3, 2) {
			case 0:
				s.WriteString(parts[g.u(0, len(parts)-1)])
			case 1:
				s.WriteString(g.pick(" ", "\n", "x", "a", "*", "/", "\"", "\\", "9", "_"))
			case 2:
				s.WriteString(g.str("ab/*\\\"\n _9Z\xe9", 0, 4))
			}
		}
		if g.permille(4) {
			s.WriteString(strings.Repeat(g.pick("*", "x ", "\\"), g.u(2000, 5000)))
			s.WriteString(parts[g.u(0, len(parts)-1)])
		}
		c.In = append(c.In, Bs(s.String()))
	}
	return c
}

func identLen(s string) int {
	i := 0
	for i < len(s) {
		b := s[i]
		if !(b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || i > 0 && b >= '0' && b <= '9') {
			break
		}
		i++
	}
	return i
}

func checkScan(c *ScanCase, o *Obs) error {
	var alts []pattern.Pattern
	for i := range c.Blocks {
		alts = append(alts, pattern.Cap(c.Blocks[i].patt(), i))
	}
	lists := make([]map[string]bool, len(c.Words))
	for i, l := range c.Words {
		lists[i] = map[string]bool{}
		var ws []string
		for _, w := range l {
			lists[i][string(w)] = true
			ws = append(ws, string(w))
		}
		alts = append(alts, pattern.Cap(bench.WordMatch(ws...), 100+i))
	}
	alts = append(alts, pattern.Any(1))
	item := pattern.Or(alts...)
	if c.Memo {
		item = pattern.Memo(item)
	}
	var code vm.Code
	var err error
	withThreshold(c.Th, func() {
		prog, e := pattern.Compile(pattern.Star(item))
		if err = e; err == nil {
			code = vm.Encode(prog)
		}
	})
	if err != nil {
		return fmt.Errorf("the scanner does not compile: %v", err)
	}
	for i, b := range c.In {
		s := string(b)
		var want []*CapT
	scan:
		for at := 0; at < len(s); {
			for k := range c.Blocks {
				if n := c.Blocks[k].scan(s[at:]); n >= 0 {
					want = append(want, &CapT{k, at, n, nil})
					at += n
					o.Nontrivial = true
					o.Class("block")
					if n > 2000 {
						o.Class("long-block")
					}
					continue scan
				}
			}
			if n := identLen(s[at:]); n > 0 {
				for k := range lists {
					if lists[k][s[at:at+n]] {
						want = append(want, &CapT{100 + k, at, n, nil})
						at += n
						o.Nontrivial = true
						o.Class("word")
						continue scan
					}
				}
			}
			at++
		}
		tbls := []memo.Table{memo.NoneTable{}}
		if c.Memo {
			t := memo.NewTreeTable(0)
			tbls = append(tbls, t, t)
		}
		for k, t := range tbls {
			o.Sub++
			r := execStr(&code, s, t)
			if !r.Match || r.Pos != len(s) {
				return fmt.Errorf("input #%d %.300q, run %d: match=%v end=%d of %d", i, s, k, r.Match, r.Pos, len(s))
			}
			if !capsEq(r.Caps, want) {
				return fmt.Errorf("input #%d %.300q, run %d: tokens %.600s, want %.600s", i, s, k, capsStr(r.Caps), capsStr(want))
			}
		}
	}
	return nil
}

func init() {
	register[ScanCase](Prop{
		ID:       "C37",
		Rule:     "cases are scanners of up to 3 block patterns (with and without escapes) and up to 2 word lists, run on texts made of their marks, escapes and words, near-words among them; non-trivial: a block or a word was found",
		Assume:   []string{"start and end marks are not empty; an escape is a character followed by one of a set, a fixed text, or both"},
		Quick:    150000,
		Thorough: 2500000,
		Batch:    300,
	}, genScan, checkScan)
}
