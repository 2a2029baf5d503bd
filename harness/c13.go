// C13 (serialization), C14 (encoding of large programs).
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// ---- C13 ---------------------------------------------------------------------

// Dmg is one way of damaging serialized bytes.
type Dmg struct {
	F string `json:"f"` // form: bin gob json raw rawgob rawjson
	K string `json:"k"` // set cut dup del ins
	A int    `json:"a"`
	N int    `json:"n,omitempty"`
	B Bs     `json:"b,omitempty"`
}

type SerCase struct {
	P   *P     `json:"p"`
	In  []Bs   `json:"in"`
	Th  int    `json:"th,omitempty"`
	Dmg []Dmg  `json:"dmg,omitempty"`
	Str string `json:"str,omitempty"`
}

func genSerCase(t *rapid.T) *SerCase {
	g := G{t}
	alpha := genAlpha(g)
	eops := g.pct(20)
	if eops {
		alpha = alphaW
	}
	pg := &PG{G: g, Alpha: alpha, Caps: g.pct(80), Errs: g.pct(50), ErrW: 6, ErrNil: g.pct(30), EOps: eops, Checks: g.pct(45), CheckW: 10, Words: true,
		Memo: g.pct(40), Search: g.pct(30), Gram: true, NestGram: g.pct(20), MaxNodes: g.n(3, 45), OptRich: g.pct(50)}
	c := &SerCase{P: genTop(pg, g.n(1, 6))}
	// only the provided checkers can be saved; odd messages
	msgs := []string{"", "expected \"x\"", "a\nb\x00", "é<&>\u2028", "\xff\xfe", "%d %s", "\\u0041"}
	c.P.walk(func(q *P) {
		if q.K == "check" && q.N != ckWords && q.N != ckRef {
			q.N = []int{ckWords, ckRef}[g.n(0, 1)]
		}
		if q.K == "err" && g.pct(40) {
			q.S = Bs(msgs[g.n(0, len(msgs)-1)])
		}
	})
	for k := g.n(1, 4); k > 0; k-- {
		c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 40)))
	}
	c.Th = g.n(0, 3)
	for k := g.n(0, 6); k > 0; k-- {
		d := Dmg{F: g.pick("bin", "gob", "gob", "json", "raw", "rawgob", "rawjson"), K: g.pick("set", "cut", "dup", "del", "ins"), A: g.u(0, 4095), N: g.n(0, 8)}
		b := make([]byte, g.n(1, 6))
		for i := range b {
			b[i] = byte(g.u(0, 255))
		}
		if g.pct(20) {
			b = []byte(g.pick(`{"Sets":[{"Bits":[1,2,3,4,5]}]}`, `{"Checkers":[{}]}`, `{"Insns":"AA=="}`, `{"Insns":"A"}`, `null`, `[]`, `"`, `{"Sets":null,"Errors":[null]}`, "\x1f\x8b\x08\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\xff"))
		}
		d.B = Bs(b)
		c.Dmg = append(c.Dmg, d)
	}
	c.Str = c.P.String()
	return c
}

func (d *Dmg) apply(b []byte) []byte {
	b = append([]byte{}, b...)
	if strings.HasPrefix(d.F, "raw") {
		return []byte(d.B)
	}
	if len(b) == 0 {
		return []byte(d.B)
	}
	i := d.A % len(b)
	j := min(len(b), i+d.N)
	switch d.K {
	case "set":
		for k, x := range []byte(d.B) {
			if i+k < len(b) {
				b[i+k] = x
			}
		}
	case "cut":
		b = b[:i]
	case "dup":
		b = append(b[:j:j], b[i:]...)
	case "del":
		b = append(b[:i:i], b[j:]...)
	case "ins":
		b = append(b[:i:i], append([]byte(d.B), b[i:]...)...)
	}
	return b
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func gzipped(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func checkSer(c *SerCase, o *Obs) error {
	// Every program is compiled or loaded afresh: back-references keep state.
	orig, err := compileP(c.P, &Conv{Checker: plainCheckers()})
	if err != nil {
		return err
	}
	bin, err := orig.ToBytes()
	if err != nil {
		return fmt.Errorf("pattern %s: ToBytes failed: %v", c.P, err)
	}
	type form struct {
		name string
		code vm.Code
	}
	var forms []form
	load := func(name string, b []byte) error {
		code, err := vm.FromBytes(b)
		if err != nil {
			return fmt.Errorf("pattern %s: FromBytes (%s) failed: %v", c.P, name, err)
		}
		forms = append(forms, form{name, code})
		return nil
	}
	if err := load("binary", bin); err != nil {
		return err
	}
	// a second generation, saved before any use
	again, err := forms[0].code.ToBytes()
	if err != nil {
		return fmt.Errorf("pattern %s: ToBytes of a loaded program failed: %v", c.P, err)
	}
	if err := load("binary, twice", again); err != nil {
		return err
	}
	// the encoding of the gzip container is irrelevant
	raw, err := gunzip(bin)
	if err == nil {
		if err := load("binary, recompressed", gzipped(raw)); err != nil {
			return err
		}
	}
	jsonOK := true
	hasCheck := false
	c.P.walk(func(q *P) {
		if q.K == "check" {
			jsonOK = false
			hasCheck = true
		}
		if q.K == "err" && !utf8.ValidString(string(q.S)) {
			jsonOK = false
		}
	})
	var js []byte
	if jsonOK {
		js, err = orig.ToJson()
		if err != nil {
			return fmt.Errorf("pattern %s: ToJson failed: %v", c.P, err)
		}
		code, err := vm.FromJson(js)
		if err != nil {
			return fmt.Errorf("pattern %s: FromJson failed: %v", c.P, err)
		}
		forms = append(forms, form{"JSON", code})
		o.Class("json")
	} else {
		js, _ = orig.ToJson()
	}
	for _, f := range forms {
		if f.code.Size() != orig.Size() {
			return fmt.Errorf("pattern %s: Size() = %d, %d after %s", c.P, orig.Size(), f.code.Size(), f.name)
		}
	}
	any := false
	// all inputs in the same order on every program
	var want []Res
	var runs []Bs
	run := func(code *vm.Code, s Bs) []Res {
		tbl := memo.NewTreeTable(c.Th)
		return []Res{execStr(code, string(s), memo.NoneTable{}), execStr(code, string(s), tbl), execStr(code, string(s), tbl)}
	}
	for _, s := range c.In {
		if ref, _ := reference(c.P, string(s), nil); ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		runs = append(runs, s)
		want = append(want, run(orig, s)...)
	}
	for _, f := range forms {
		i := 0
		for _, s := range runs {
			for k, r := range run(&f.code, s) {
				w := want[i]
				i++
				if !sameRes(r, w) || r.HasAST != w.HasAST {
					return fmt.Errorf("pattern %s on %q (run %d): after %s: %s, original: %s", c.P, string(s), k, f.name, r, w)
				}
				o.Sub++
				if w.Match && capsCount(w.Caps) > 0 || len(w.Errs) > 0 || hasCheck {
					o.Nontrivial = true
				}
			}
		}
	}
	if hasCheck {
		o.Class("provided-checkers")
	}
	if c.P.has("memo") && !hasCheck && len(runs) > 1 {
		// a table filled by one form of the program serves the others
		tbl := memo.NewTreeTable(c.Th)
		old := ""
		for i := 0; i < 2*len(runs); i++ {
			s := string(runs[i%len(runs)])
			a := 0
			for a < min(len(old), len(s)) && old[a] == s[a] {
				a++
			}
			b := 0
			for b < min(len(old), len(s))-a && old[len(old)-1-b] == s[len(s)-1-b] {
				b++
			}
			if i > 0 && old != s {
				tbl.ApplyEdit(memo.Edit{Start: a, End: len(old) - b, Len: len(s) - a - b})
			}
			old = s
			code, name := orig, "the original"
			if k := i % (len(forms) + 1); k > 0 {
				code, name = &forms[k-1].code, forms[k-1].name
			}
			w := want[3*(i%len(runs))]
			if r := execStr(code, s, tbl); !sameRes(r, w) {
				return fmt.Errorf("pattern %s on %q (text %d of a history, threshold %d) with a table used by several forms of the program, now %s: %s, without a table: %s", c.P, s, i, c.Th, name, r, w)
			}
			o.Sub++
			o.Class("table-shared-by-forms")
		}
	}
	for _, w := range want {
		if len(w.Errs) > 0 {
			o.Class("with-errors")
			break
		}
	}
	for _, d := range c.Dmg {
		var err error
		if hasCheck && (d.F == "gob" || d.F == "bin") {
			// a damaged map length makes encoding/gob allocate that much
			continue
		}
		switch d.F {
		case "bin", "raw":
			_, err = vm.FromBytes(d.apply(bin))
		case "gob", "rawgob":
			_, err = vm.FromBytes(gzipped(d.apply(raw)))
		case "json", "rawjson":
			_, err = vm.FromJson(d.apply(js))
		}
		if err != nil {
			o.Class("damage-rejected")
		} else {
			o.Class("damage-loaded")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

// ---- C14 ---------------------------------------------------------------------

// BigCase builds a large program from a small description.
//
//	fill    core pattern P with long fillers that never decide the match
//	sets    N distinct character sets in sequence and in loops
//	rules   N rules calling each other at a distance
//	errs    N distinct error messages
//	checks  N checkers
//	ids     capture, checker and flag identifiers around Id
//	huge    one literal of N bytes before an alternative
type BigCase struct {
	K   string `json:"k"`
	P   *P     `json:"p,omitempty"`
	In  []Bs   `json:"in,omitempty"`
	N   int    `json:"n,omitempty"`
	M   int    `json:"m,omitempty"`
	Id  int    `json:"id,omitempty"`
	V   []int  `json:"v,omitempty"`
	Str string `json:"str,omitempty"`
}

func genBigCase(t *rapid.T) *BigCase {
	g := G{t}
	c := &BigCase{}
	for k := g.n(2, 8); k > 0; k-- {
		c.V = append(c.V, g.u(0, 1<<16))
	}
	switch g.weighted(400, 140, 140, 70, 70, 100, 2) {
	case 0:
		c.K = "fill"
		alpha := genAlpha(g)
		pg := &PG{G: g, Alpha: alpha, Caps: true, Errs: g.pct(30), Checks: g.pct(20), Memo: g.pct(20), Search: g.pct(30), Gram: true, NestGram: g.pct(20), MaxNodes: g.n(4, 40), OptRich: true, NTW: 12}
		c.P = genTop(pg, g.n(2, 6))
		c.N = []int{50, 300, 33000, 66000, 140000}[g.u(0, 4)] + g.u(0, 40)
		c.M = g.u(0, 5)
		for k := g.n(1, 3); k > 0; k-- {
			c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 40)))
		}
		c.Str = c.P.String()
	case 1:
		c.K = "sets"
		c.N = []int{g.u(1, 60), g.u(120, 135), g.u(245, 262), g.u(200, 400)}[g.u(0, 3)]
		c.M = g.u(0, 3)
	case 2:
		c.K = "rules"
		c.N = g.u(2, 60)
		if g.pct(30) {
			c.N = g.u(100, 1500)
		}
		c.M = []int{0, 10, 100, 2000}[g.u(0, 3)]
		if c.N > 100 {
			c.M = min(c.M, 100)
		}
	case 3:
		c.K = "errs"
		c.N = g.u(1, 900)
		if g.pct(20) {
			c.N = g.u(900, 5000)
		} else if g.pct(5) {
			c.N = g.u(65500, 65600)
		}
	case 4:
		c.K = "checks"
		c.N = g.u(1, 900)
		if g.pct(10) {
			c.N = g.u(65530, 65545)
		}
	case 5:
		c.K = "ids"
		c.Id = []int{0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 20, -1, -128, -32768, -32769, 1 << 40}[g.u(0, 14)]
		c.M = g.u(0, 3)
	case 6:
		c.K = "huge"
		c.N = []int{1 << 20, 1<<23 - 40, 1<<23 + 10}[g.u(0, 2)] + g.u(0, 30)
	}
	return c
}

// filled places long subpatterns all over p that do not change its meaning.
func filled(p *P, c *BigCase, n *int) *P {
	q := *p
	q.L, q.Defs = nil, nil
	for _, s := range p.L {
		q.L = append(q.L, filled(s, c, n))
	}
	for _, d := range p.Defs {
		q.Defs = append(q.Defs, Def{d.Name, filled(d.P, c, n)})
	}
	*n++
	v := c.V[*n%len(c.V)] + *n*7
	if v%3 != 0 || *n > 40 && c.N > 1000 {
		return &q
	}
	size := c.N
	switch {
	case c.N > 1000 && v%4 != 0:
		size = 20
	}
	long := pLit("~" + strings.Repeat("#", size))
	switch (v / 12) % 6 {
	case 0:
		return pAlt(long, &q)
	case 1:
		return pSeq(p1("not", long), &q)
	case 2:
		return pSeq(&q, p1("opt", long))
	case 3:
		return pSeq(p1("star", pCap(long, 77)), &q)
	case 4:
		if q.K == "err" {
			return &q
		}
		return pAlt(pSeq(&q), long)
	default:
		return pSeq(p1("not", pSeq(pSet("~"), p1("plus", pLit(strings.Repeat("#", size))))), &q)
	}
}

// bigRun encodes a pattern and compares its parses with the reference.
// refusable: the program may be refused at encoding time.
func bigRun(o *Obs, desc string, p *P, ins []string, refusable func(prog isa.Program) bool) error {
	prog, err := pattern.Compile((&Conv{Checker: checkerFactory(nil)}).conv(p))
	if err != nil {
		return fmt.Errorf("%s: compilation failed: %v", desc, err)
	}
	var code vm.Code
	refused := any(nil)
	func() {
		defer func() { refused = recover() }()
		code = vm.Encode(prog)
	}()
	if refused != nil {
		if !refusable(prog) {
			return fmt.Errorf("%s: encoding was refused: %v", desc, refused)
		}
		o.Class("refused")
		o.Nontrivial = true
		return nil
	}
	size := code.Size()
	switch {
	case size > 1<<24:
		o.Class("code>16MiB")
	case size > 1<<16:
		o.Class("code>64KiB")
	case size > 1<<15:
		o.Class("code>32KiB")
	}
	any := false
	for _, in := range ins {
		it := &Interp{in: in, limit: 300000 + 12*len(in)}
		it.check = refCheckers(in, nil)
		ref := it.run(p)
		if ref.Over {
			o.Class("ref-budget-exceeded")
			continue
		}
		any = true
		r := execStr(&code, in, memo.NoneTable{})
		if err := vsRef(r, ref, true, true); err != nil {
			return fmt.Errorf("%s (%d bytes of code) on %.200q: %v", desc, size, in, err)
		}
		o.Sub++
		if it.backtracks > 0 || it.calls > 0 || it.loops > 0 {
			if size > 1<<16 {
				o.Class("parse-with-jumps-in-code>64KiB")
				o.Nontrivial = true
			}
		}
		if ref.Match {
			o.Class("match")
		}
	}
	if !any {
		o.Discard("reference budget exceeded on all inputs")
	}
	return nil
}

func distinctSets(prog isa.Program) int {
	m := map[charset.Set]bool{}
	for _, i := range prog {
		switch t := i.(type) {
		case isa.Set:
			m[t.Chars] = true
		case isa.Span:
			m[t.Chars] = true
		case isa.TestSet:
			m[t.Chars] = true
		case isa.TestSetNoChoice:
			m[t.Chars] = true
		}
	}
	return len(m)
}

func never(isa.Program) bool { return false }

func checkBig(c *BigCase, o *Obs) error {
	o.Class(c.K)
	if len(c.V) == 0 {
		c.V = []int{0}
	}
	v := func(i int) int { return c.V[i%len(c.V)] + i*31 }
	switch c.K {
	case "fill":
		n := 0
		var ins []string
		for _, s := range c.In {
			ins = append(ins, string(s))
		}
		return bigRun(o, fmt.Sprintf("pattern %s with fillers of %d bytes", c.P, c.N), filled(c.P, c, &n), ins, never)
	case "sets":
		// item i matches a set that identifies it: i in binary over 9 letters
		var items []*P
		var good strings.Builder
		for i := 0; i < c.N; i++ {
			var s string
			for b := 0; b < 9; b++ {
				if (i+1)>>b&1 == 1 {
					s += string(rune('a' + b))
				}
			}
			if c.M&2 != 0 {
				s += "A" // no single-letter sets
			}
			set := pSet(s)
			x := s[v(i)%len(s) : v(i)%len(s)+1]
			switch v(i) % 5 {
			case 0:
				items = append(items, set)
				good.WriteString(x)
			case 1:
				items = append(items, p1("star", set), pLit("-"))
				good.WriteString(strings.Repeat(x, v(i)%3) + "-")
			case 2:
				items = append(items, pAlt(pSeq(set, pLit("!")), pSeq(set, pLit("?"))))
				good.WriteString(x + "?")
			case 3:
				items = append(items, p1("opt", pSeq(set, pLit("+"))))
				good.WriteString(x + "+")
			case 4:
				items = append(items, pCap(set, i))
				good.WriteString(x)
			}
		}
		in := good.String()
		ins := []string{in}
		for k := 0; k < 3; k++ {
			// damaged at one place
			b := []byte(in)
			if len(b) > 0 {
				b[v(k)%len(b)] = byte('a' + v(k+1)%9)
			}
			ins = append(ins, string(b))
		}
		if c.M&1 != 0 {
			in2 := in + "ab"
			items = append(items, p1("not", pLit("c")), pSet("ab"))
			ins = append(ins, in2)
		}
		return bigRun(o, fmt.Sprintf("sequence of %d items with distinct sets", c.N), pSeq(items...), ins, func(prog isa.Program) bool {
			n := distinctSets(prog)
			if n > 256 {
				o.Class("more-than-256-sets")
			}
			return n > 256
		})
	case "rules":
		// rule i: reads a letter that selects the next rule
		gram := &P{K: "gram", S: "R0"}
		name := func(i int) string { return fmt.Sprintf("R%d", i) }
		for i := 0; i < c.N; i++ {
			a, b := v(i)%c.N, (v(i)*7+i)%c.N
			body := pAlt(
				pSeq(pLit("a"), pNT(name(a))),
				pSeq(pLit("b"), pNT(name(b)), p1("opt", pSeq(pLit("c"), pNT(name(i))))),
				pCap(pLit("z"), i%1000),
				pSeq(pLit("y"), p1("not", pNT(name(a)))),
			)
			if c.M > 0 {
				body = pAlt(pLit("~"+strings.Repeat("#", c.M)), body)
			}
			gram.Defs = append(gram.Defs, Def{name(i), body})
		}
		var ins []string
		for k := 0; k < 6; k++ {
			var s strings.Builder
			for j := 0; j < 1+v(k)%30; j++ {
				s.WriteByte("aabbbcz"[v(k+j)%7])
			}
			s.WriteString("zczy"[v(k)%3:])
			ins = append(ins, s.String())
		}
		return bigRun(o, fmt.Sprintf("grammar of %d rules with fillers of %d bytes", c.N, c.M), gram, ins, never)
	case "errs":
		// three base-64 digits select the message
		digit := func(i, k int) byte { return byte(48 + i>>(6*k)&63) }
		var tree func(lo, hi, k int) *P
		tree = func(lo, hi, k int) *P {
			var alts []*P
			for i := lo; i < hi; i += 1 << (6 * k) {
				if k == 0 {
					alts = append(alts, pSeq(pLit(string([]byte{digit(i, 0)})), &P{K: "err", S: Bs(fmt.Sprintf("message %d", i)), L: []*P{pCap(pAny(1), i%30000)}}))
				} else {
					alts = append(alts, pSeq(pLit(string([]byte{digit(i, k)})), tree(i, min(hi, i+1<<(6*k)), k-1)))
				}
			}
			return pAlt(alts...)
		}
		var ins []string
		for k := 0; k < 8; k++ {
			in := ""
			for _, i := range []int{v(k) % c.N, v(k+3) % c.N, c.N - 1 - v(k)%min(c.N, 3)} {
				in += string([]byte{digit(i, 2), digit(i, 1), digit(i, 0), 'x'})
			}
			ins = append(ins, in)
		}
		if c.N > 1000 {
			o.Class("more-than-1000-messages")
		}
		if c.N > 65536 {
			o.Class("more-than-65536-messages")
		}
		return bigRun(o, fmt.Sprintf("%d error messages", c.N), p1("star", tree(0, c.N, 2)), ins, never)
	case "checks":
		return bigChecks(c, o, v)
	case "ids":
		var p *P
		in16 := c.Id >= -(1<<15) && c.Id < 1<<15
		ins := []string{"a", "ab", "abab", "b"}
		switch c.M {
		case 0:
			p = pCap(pLit("a"), c.Id)
		case 1:
			p = p1("star", pCap(p1("plus", pAlt(pLit("a"), pLit("b"))), c.Id))
		case 2:
			p = &P{K: "check", N: ckEven, Id: c.Id, L: []*P{p1("star", pSet("ab"))}}
		case 3:
			p = &P{K: "check", N: ckEven, Flag: c.Id, L: []*P{p1("star", pSet("ab"))}}
		}
		if c.M >= 2 {
			// the values reach the checker
			var want, got []Call
			ref, _ := reference(p, "abab", &want)
			refused := any(nil)
			var r Res
			func() {
				defer func() { refused = recover() }()
				code, err := compileP(p, &Conv{Checker: checkerFactory(&got)})
				if err == nil {
					r = execStr(code, "abab", memo.NoneTable{})
				}
			}()
			if refused == nil {
				if err := vsRef(r, ref, true, true); err != nil {
					return fmt.Errorf("pattern %s: %v", p, err)
				}
				if fmt.Sprint(want) != fmt.Sprint(got) {
					return fmt.Errorf("pattern %s: the checker is called with %v, want %v", p, got, want)
				}
			}
		}
		o.Nontrivial = true
		return bigRun(o, fmt.Sprintf("pattern %s", p), p, ins, func(isa.Program) bool { return !in16 })
	case "huge":
		long := pLit("~" + strings.Repeat("#", c.N))
		p := p1("star", pAlt(long, pCap(pSeq(pLit("a"), p1("opt", pLit("c"))), 3), pSeq(pLit("b"), p1("not", pLit("b")))))
		return bigRun(o, fmt.Sprintf("literal of %d bytes before alternatives", c.N), p, []string{"aacaab", "abab", "bb", "~"}, func(prog isa.Program) bool {
			return prog.Size()*2+200 > 1<<24
		})
	}
	return nil
}

func bigChecks(c *BigCase, o *Obs, v func(int) int) error {
	// checker i accepts only the text w<i>; the pattern is a sequence with one
	// optional item per checker, selected by its position
	n := c.N
	var items []pattern.Pattern
	pick := map[int]bool{}
	for k := 0; k < 5; k++ {
		pick[v(k)%n] = true
	}
	pick[n-1] = true
	word := func(i int) string { return fmt.Sprintf("w%d", i) }
	var in strings.Builder
	wantCaps := 0
	body := pattern.Plus(pattern.Set(charset.Range('0', '9').Add(charset.New([]byte("w")))))
	for i := 0; i < n; i++ {
		items = append(items, pattern.Optional(pattern.Cap(pattern.Concat(pattern.Check(body, isa.NewMapChecker([]string{word(i)})), pattern.Literal(".")), i%32768)))
		if pick[i] {
			in.WriteString(word(i) + ".")
			wantCaps++
		}
	}
	// compilation of long sequences takes quadratic time
	var chunks []pattern.Pattern
	for len(items) > 0 {
		k := min(300, len(items))
		chunks = append(chunks, pattern.Concat(items[:k]...))
		items = items[k:]
	}
	prog, err := pattern.Compile(pattern.Concat(chunks...))
	if err != nil {
		return err
	}
	code := vm.Encode(prog)
	if code.Size() > 1<<16 {
		o.Class("code>64KiB")
		o.Nontrivial = true
	}
	if n > 255 {
		o.Class("more-than-255-checkers")
	}
	r := execStr(&code, in.String(), memo.NoneTable{})
	if !r.Match || r.Pos != in.Len() {
		return fmt.Errorf("%d checkers: the parse of %q gives match=%v at %d", n, in.String(), r.Match, r.Pos)
	}
	if len(r.Caps) != wantCaps {
		return fmt.Errorf("%d checkers: the parse of %q gives %d captures, want %d", n, in.String(), len(r.Caps), wantCaps)
	}
	for _, cp := range r.Caps {
		txt := in.String()[cp.Start : cp.Start+cp.Len]
		found := false
		for i := range pick {
			if i%32768 == cp.Id && txt == word(i)+"." {
				found = true
			}
		}
		if !found {
			return fmt.Errorf("%d checkers: text %q was accepted as number %d", n, txt, cp.Id)
		}
	}
	o.Sub++
	return nil
}

func init() {
	register(Prop{
		ID:       "C13",
		Rule:     "cases are (pattern with captures, memoization, errors, provided checkers, 1-4 inputs, up to 6 damages); the program loaded from the binary form (once, twice, recompressed) and from JSON (no checkers, UTF-8 messages) must behave as the original; damaged and arbitrary bytes must load or be rejected without panicking; non-trivial: some compared outcome had captures or errors, or the program has checkers",
		Assume:   []string{"JSON cannot represent checkers or messages that are not UTF-8", "the behaviour of programs loaded from damaged bytes is unspecified", "damage to a saved program that contains a map (a checker) is not explored: encoding/gob then allocates memory for any damaged length"},
		Quick:    60000,
		Thorough: 1500000,
		Batch:    4000,
	}, genSerCase, checkSer)
	register(Prop{
		ID:       "C14",
		Rule:     "cases are patterns grown by long meaningless fillers (up to several MiB of code), hundreds of distinct sets, up to 1500 rules, 65600 messages, 65000 checkers, extreme identifiers and literals up to 16 MiB of code; non-trivial: a parse with jumps in code above 64 KiB, extreme identifiers, or a refused program",
		Assume:   []string{"a program may be refused if it needs more than 256 distinct sets, identifiers outside 16 bits, or more than 16 MiB of code; nothing else may be refused"},
		Quick:    3000,
		Thorough: 60000,
		Batch:    1000,
	}, genBigCase, checkBig)
}
