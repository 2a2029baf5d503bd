// C26: the shipped JSON, arithmetic and notation grammars.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// shipped is one grammar of the repository, compiled with a capture for every
// rule and without captures.
type shipped struct {
	name  string
	caps  vm.Code
	plain vm.Code
	rule  map[int]string
	err   error
}

var (
	shippedMu sync.Mutex
	shippedM  = map[string]*shipped{}
)

func grammarDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return filepath.Join(d, "grammars")
	}
	return "/repo/grammars"
}

// ship loads and compiles a grammar once per process.
func ship(name string) (*shipped, error) {
	shippedMu.Lock()
	defer shippedMu.Unlock()
	s := shippedM[name]
	if s == nil {
		s = &shipped{name: name, rule: map[int]string{}}
		s.err = s.load()
		shippedM[name] = s
	}
	return s, s.err
}

func (s *shipped) load() error {
	file, rules, wrap := strings.Cut(s.name, "+")
	text, err := os.ReadFile(filepath.Join(grammarDir(), file))
	if err != nil {
		panic(HarnessBug{err.Error()})
	}
	if wrap {
		// memoize the given rules
		p, _, ok := parseNotation(string(text))
		if !ok || p.K != "gram" {
			return fmt.Errorf("grammar %s is no grammar", file)
		}
		for _, r := range strings.Split(rules, ",") {
			for i := range p.Defs {
				if p.Defs[i].Name == r {
					p.Defs[i].P = &P{K: "memo", L: []*P{p.Defs[i].P}}
				}
			}
		}
		text = []byte(notationOf(p))
	}
	ids := map[string]int{}
	cp, err := re.CompileCap(string(text), ids)
	if err != nil {
		return fmt.Errorf("grammar %s does not compile: %v", s.name, err)
	}
	pp, err := re.Compile(string(text))
	if err != nil {
		return fmt.Errorf("grammar %s does not compile: %v", s.name, err)
	}
	for r, id := range ids {
		s.rule[id] = r
	}
	cprog, err := pattern.Compile(cp)
	if err != nil {
		return fmt.Errorf("grammar %s does not compile: %v", s.name, err)
	}
	pprog, err := pattern.Compile(pp)
	if err != nil {
		return fmt.Errorf("grammar %s does not compile: %v", s.name, err)
	}
	s.caps, s.plain = vm.Encode(cprog), vm.Encode(pprog)
	return nil
}

// RNode is a captured rule.
type RNode struct {
	Rule       string
	Start, End int
	Kids       []*RNode
}

func (s *shipped) tree(c *memo.Capture) []*RNode {
	var l []*RNode
	it := c.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		l = append(l, &RNode{s.rule[ch.Id()], ch.Start(), ch.End(), s.tree(ch)})
	}
	return l
}

func nodesEq(a, b []*RNode) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Rule != b[i].Rule || a[i].Start != b[i].Start || a[i].End != b[i].End || !nodesEq(a[i].Kids, b[i].Kids) {
			return false
		}
	}
	return true
}

// nodesDiff names the first difference.
func nodesDiff(a, b []*RNode) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("missing %s [%d,%d)", b[i].Rule, b[i].Start, b[i].End)
		case i >= len(b):
			return fmt.Sprintf("additional %s [%d,%d)", a[i].Rule, a[i].Start, a[i].End)
		case a[i].Rule != b[i].Rule || a[i].Start != b[i].Start || a[i].End != b[i].End:
			return fmt.Sprintf("%s [%d,%d) instead of %s [%d,%d)", a[i].Rule, a[i].Start, a[i].End, b[i].Rule, b[i].Start, b[i].End)
		}
		if d := nodesDiff(a[i].Kids, b[i].Kids); d != "" {
			return "in " + a[i].Rule + ": " + d
		}
	}
	return ""
}

// parse runs the grammar with captures; the plain program must agree.
func (s *shipped) parse(text string, tbl memo.Table) (bool, int, []*RNode, error) {
	m, n, ast, errs := s.caps.Exec(strings.NewReader(text), tbl)
	if len(errs) > 0 {
		return m, n, nil, fmt.Errorf("grammar %s on %q reports errors %v", s.name, text, errs)
	}
	pm, pn, _, _ := s.plain.Exec(strings.NewReader(text), memo.NoneTable{})
	if pm != m || m && pn != n {
		return m, n, nil, fmt.Errorf("grammar %s on %q: with captures %v %d, without %v %d", s.name, text, m, n, pm, pn)
	}
	if !m {
		return m, n, nil, nil
	}
	if ast == nil {
		return m, n, nil, fmt.Errorf("grammar %s on %q: no tree", s.name, text)
	}
	return m, n, s.tree(ast), nil
}

// parseBoth parses with a grammar and its memoized variant, with and without
// tables, comparing everything.
func parseBoth(plain, memoized string, text string, th int, o *Obs) (bool, int, []*RNode, error) {
	sp, err := ship(plain)
	if err != nil {
		return false, 0, nil, err
	}
	m, n, t, err := sp.parse(text, memo.NoneTable{})
	if err != nil || memoized == "" {
		return m, n, t, err
	}
	sm, err := ship(memoized)
	if err != nil {
		return false, 0, nil, err
	}
	tbl := memo.NewTreeTable(th)
	for i, tb := range []memo.Table{memo.NoneTable{}, tbl, tbl} {
		mm, mn, mt, err := sm.parse(text, tb)
		if err != nil {
			return false, 0, nil, err
		}
		if mm != m || m && mn != n {
			return false, 0, nil, fmt.Errorf("%q: grammar %s gives %v %d, %s (table %d) %v %d", text, plain, m, n, memoized, i, mm, mn)
		}
		if !nodesEq(t, mt) {
			return false, 0, nil, fmt.Errorf("%q: grammars %s and %s (table %d) give different trees: %s", text, plain, memoized, i, nodesDiff(mt, t))
		}
	}
	if tbl.Size() > 0 {
		o.Class("memo-entries")
	}
	return m, n, t, nil
}

// ShipCase is a text for one of the grammars.
type ShipCase struct {
	Lang string   `json:"lang"`
	Text Bs       `json:"text"`
	Want int      `json:"want"` // 1 must be accepted, -1 must be rejected, 0 decided by the oracle
	Tree string   `json:"tree,omitempty"`
	Toks []Bs     `json:"toks,omitempty"` // the tokens of an unchanged program
	Mut  string   `json:"mut,omitempty"`
	Th   int      `json:"th,omitempty"`
	Ops  []EditOp `json:"ops,omitempty"`
}

// ---- JSON ------------------------------------------------------------------------

type jsonGen struct {
	G
	sb   strings.Builder
	left int
}

func (w *jsonGen) ws() {
	if w.pct(20) {
		w.sb.WriteString(w.pick(" ", "\n", "\t", "\r", "  ", " \t\n\r ", "\r\n"))
	}
}

func (w *jsonGen) str() {
	w.sb.WriteByte('"')
	for k := w.n(0, 8); k > 0; k-- {
		switch w.weighted(8, 3, 2, 1, 1) {
		case 0:
			w.sb.WriteString(w.pick("a", "b", "{", "}", ",", ":", "[", "]", "/", "'", " ", "x1", "|", "true", "*", "-"))
		case 1:
			w.sb.WriteString("\\" + w.pick("\"", "\\", "/", "b", "f", "n", "r", "t"))
		case 2:
			w.sb.WriteString("\\u")
			for i := 0; i < 4; i++ {
				w.sb.WriteByte("0123456789abcdefABCDEF"[w.u(0, 21)])
			}
		case 3:
			w.sb.WriteString(w.pick("é", "\u2028", "😀", "\x7f", "\xff", "\x80"))
		case 4:
			for c := byte(w.u(0x20, 0x7e)); ; {
				if c == '"' || c == '\\' {
					break
				}
				w.sb.WriteByte(c)
				break
			}
		}
	}
	w.sb.WriteByte('"')
}

func (w *jsonGen) num() {
	if w.pct(30) {
		w.sb.WriteByte('-')
	}
	dig := func(lo int) {
		for k := w.n(lo, 4); k > 0; k-- {
			w.sb.WriteByte('0' + byte(w.u(0, 9)))
		}
	}
	if w.pct(30) {
		w.sb.WriteByte('0')
	} else {
		w.sb.WriteByte('1' + byte(w.u(0, 8)))
		dig(0)
	}
	if w.pct(35) {
		w.sb.WriteByte('.')
		dig(1)
	}
	if w.pct(35) {
		w.sb.WriteString(w.pick("e", "E") + w.pick("", "+", "-"))
		dig(1)
	}
}

func (w *jsonGen) val(d int) {
	w.ws()
	w.left--
	k := w.weighted(5, 5, 3, 3, 2, 2, 2)
	if d <= 0 || w.left <= 0 {
		k = w.weighted(0, 0, 3, 3, 2, 2, 2)
	}
	switch k {
	case 0, 1:
		open, end := "{", "}"
		if k == 1 {
			open, end = "[", "]"
		}
		w.sb.WriteString(open)
		n := w.n(0, 4)
		if n == 0 {
			w.ws()
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			if k == 0 {
				w.ws()
				w.str()
				w.ws()
				w.sb.WriteByte(':')
			}
			w.val(d - 1)
		}
		w.sb.WriteString(end)
	case 2:
		w.str()
	case 3:
		w.num()
	case 4:
		w.sb.WriteString("true")
	case 5:
		w.sb.WriteString("false")
	case 6:
		w.sb.WriteString("null")
	}
	w.ws()
}

// mutateDoc changes a text at a few places.
func mutateDoc(g G, s string, toks []string, alpha string) string {
	b := []byte(s)
	for k := g.n(1, 3); k > 0; k-- {
		if len(b) == 0 {
			b = []byte(toks[g.u(0, len(toks)-1)])
			continue
		}
		i := g.u(0, len(b)-1)
		switch g.weighted(4, 4, 3, 2) {
		case 0:
			j := min(len(b), i+1+g.n(0, 3))
			b = append(b[:i:i], b[j:]...)
		case 1:
			t := toks[g.u(0, len(toks)-1)]
			b = append(b[:i:i], append([]byte(t), b[i:]...)...)
		case 2:
			b[i] = alpha[g.u(0, len(alpha)-1)]
		case 3:
			j := min(len(b), i+1+g.n(0, 12))
			part := append([]byte(nil), b[i:j]...)
			at := g.u(0, len(b))
			b = append(b[:at:at], append(part, b[at:]...)...)
		}
	}
	return string(b)
}

var jsonToks = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "0", "-", ".", "e", "E+", "true", "false", "null", "\"a\"", " ", "\n", "01", "1", "\x00", "\x1f", "tru", "+", "\\/", "\\x", "\\{", "\\|", "'", "/", "\\\"", "\\u12", "nulL", "TRUE", "//", "\"\"", "[]", "{}"}

func genJSON(g G, c *ShipCase) {
	if g.pct(2) {
		// deep nesting
		n := g.u(20, 600)
		op := make([]byte, n)
		var cl []byte
		for i := range op {
			op[i] = '['
			cl = append(cl, ']')
		}
		c.Text = Bs(string(op) + g.pick("", "1", "{}", "\"\"") + string(cl))
	} else {
		w := &jsonGen{G: g, left: g.n(1, 40)}
		w.val(g.n(0, 6))
		c.Text = Bs(w.sb.String())
	}
	c.Want = 1
	if g.pct(50) {
		c.Text = Bs(mutateDoc(g, string(c.Text), jsonToks, "{}[],:\"\\0-e. at1"))
		c.Want = 0
		c.Mut = "mutated"
	}
	c.Th = thresholds[g.n(0, 8)]
	n := len(c.Text)
	for k := g.n(0, 3); k > 0; k-- {
		e := EditOp{S: g.u(0, n), D: g.n(0, 4)}
		e.T = Bs(jsonToks[g.u(0, len(jsonToks)-1)])
		if g.pct(40) {
			w := &jsonGen{G: g, left: 4}
			w.val(2)
			e.T = Bs(w.sb.String())
		}
		c.Ops = append(c.Ops, e)
		n = max(0, n-e.D) + len(e.T)
	}
}

// jsonNodes lists the values of a valid document in order.
type jsonScan struct {
	s string
	i int
	l []*RNode
}

func (j *jsonScan) ws() {
	for j.i < len(j.s) && strings.IndexByte(" \t\r\n", j.s[j.i]) >= 0 {
		j.i++
	}
}

func (j *jsonScan) str() {
	st := j.i
	for j.i++; j.s[j.i] != '"'; j.i++ {
		if j.s[j.i] == '\\' {
			j.i++
		}
	}
	j.i++
	j.l = append(j.l, &RNode{Rule: "String", Start: st, End: j.i})
}

func (j *jsonScan) value() {
	j.ws()
	st := j.i
	switch c := j.s[j.i]; c {
	case '{', '[':
		n := &RNode{Rule: "Object", Start: st}
		if c == '[' {
			n.Rule = "Array"
		}
		j.l = append(j.l, n)
		for j.i++; ; {
			j.ws()
			if j.s[j.i] == ']' || j.s[j.i] == '}' {
				break
			}
			if j.s[j.i] == ',' {
				j.i++
				j.ws()
			}
			if c == '{' {
				j.str()
				j.ws()
				j.i++ // colon
			}
			j.value()
		}
		j.i++
		n.End = j.i
	case '"':
		j.str()
	default:
		k := map[byte]string{'t': "True", 'f': "False", 'n': "Null"}[c]
		if k == "" {
			k = "Number"
		}
		for j.i < len(j.s) && strings.IndexByte(" \t\r\n,]}", j.s[j.i]) < 0 {
			j.i++
		}
		j.l = append(j.l, &RNode{Rule: k, Start: st, End: j.i})
	}
	j.ws()
}

func jsonFlat(l []*RNode, text string, out *[]*RNode) {
	for _, n := range l {
		switch n.Rule {
		case "Object", "Array", "String", "Number", "True", "False", "Null":
			s, e := n.Start, n.End
			for s < e && strings.IndexByte(" \t\r\n", text[s]) >= 0 {
				s++
			}
			for e > s && strings.IndexByte(" \t\r\n", text[e-1]) >= 0 {
				e--
			}
			*out = append(*out, &RNode{Rule: n.Rule, Start: s, End: e})
		}
		jsonFlat(n.Kids, text, out)
	}
}

func checkJSON(c *ShipCase, o *Obs) error {
	text := string(c.Text)
	sm, err := ship("json_memo.peg")
	if err != nil {
		return err
	}
	tbl := memo.NewTreeTable(c.Th)
	for i := 0; ; i++ {
		if strings.ContainsAny(text, "\v\f") {
			o.Discard("form feed or vertical tab")
			return nil
		}
		valid := json.Valid([]byte(text))
		if i == 0 && c.Want == 1 && !valid {
			panic(HarnessBug{fmt.Sprintf("generated document %q is not valid", text)})
		}
		m, n, tree, err := parseBoth("json.peg", "json_memo.peg", text, c.Th, o)
		if err != nil {
			return err
		}
		if m != valid {
			return fmt.Errorf("JSON text %q: accepted %v by the grammar, valid %v", text, m, valid)
		}
		if m && n != len(text) {
			return fmt.Errorf("JSON text %q: accepted up to %d of %d", text, n, len(text))
		}
		o.Class("json-valid=%v", valid)
		// the memoized grammar with a table kept over the edits
		im, in, it, err := sm.parse(text, tbl)
		if err != nil {
			return err
		}
		if im != m || m && in != n || !nodesEq(it, tree) {
			return fmt.Errorf("JSON text %q after %d edits with threshold %d: incremental parse %v %d, direct parse %v %d %s", text, i, c.Th, im, in, m, n, nodesDiff(it, tree))
		}
		if valid {
			js := &jsonScan{s: text}
			js.value()
			var got []*RNode
			jsonFlat(tree, text, &got)
			if !nodesEq(got, js.l) {
				return fmt.Errorf("JSON text %q: the captured values differ: %s", text, nodesDiff(got, js.l))
			}
			if len(got) > 2 {
				o.Nontrivial = true
			}
		} else if c.Mut != "" {
			o.Nontrivial = true
		}
		if i == len(c.Ops) {
			return nil
		}
		var e memo.Edit
		text, e = c.Ops[i].apply(text)
		tbl.ApplyEdit(e)
		o.Class("json-edit")
	}
}

// ---- arithmetic --------------------------------------------------------------------

type arithScan struct {
	s string
	i int
}

// The oracle is a precedence-climbing reader: it returns the fully
// parenthesised form of the longest expression prefix.
func (a *arithScan) primary() (string, bool) {
	st := a.i
	if a.i < len(a.s) && a.s[a.i] == '(' {
		a.i++
		e, ok := a.climb(1)
		if ok && a.i < len(a.s) && a.s[a.i] == ')' {
			a.i++
			return "[" + e + "]", true
		}
		a.i = st
		return "", false
	}
	for a.i < len(a.s) && a.s[a.i] >= '0' && a.s[a.i] <= '9' {
		a.i++
	}
	return a.s[st:a.i], a.i > st
}

func arithPrec(c byte) int {
	switch c {
	case '+', '-':
		return 1
	case '*', '/':
		return 2
	}
	return 0
}

func (a *arithScan) climb(min int) (string, bool) {
	l, ok := a.primary()
	if !ok {
		return "", false
	}
	for a.i < len(a.s) {
		op := a.s[a.i]
		p := arithPrec(op)
		if p == 0 || p < min {
			break
		}
		at := a.i
		a.i++
		r, ok := a.climb(p + 1)
		if !ok {
			a.i = at
			break
		}
		l = "(" + l + string(op) + r + ")"
	}
	return l, true
}

func arithForm(n *RNode, text string) (string, error) {
	switch n.Rule {
	case "Number":
		return text[n.Start:n.End], nil
	case "Term":
		if len(n.Kids) != 1 {
			return "", fmt.Errorf("Term with %d children", len(n.Kids))
		}
		f, err := arithForm(n.Kids[0], text)
		if n.Kids[0].Rule == "Expr" {
			return "[" + f + "]", err
		}
		return f, err
	}
	if len(n.Kids) == 0 {
		return "", fmt.Errorf("%s without children", n.Rule)
	}
	f, err := arithForm(n.Kids[0], text)
	for i := 1; i < len(n.Kids) && err == nil; i++ {
		var r string
		r, err = arithForm(n.Kids[i], text)
		f = "(" + f + text[n.Kids[i-1].End:n.Kids[i].Start] + r + ")"
	}
	return f, err
}

func genArith(g G, c *ShipCase) {
	var sb strings.Builder
	var ex func(d int)
	ex = func(d int) {
		for k := g.n(1, 4); k > 0; k-- {
			if d > 0 && g.pct(35) {
				sb.WriteByte('(')
				ex(d - 1)
				sb.WriteByte(')')
			} else {
				sb.WriteString(g.pick("1", "0", "7", "42", "00", "123456789", "9", "8", "65"))
			}
			if k > 1 {
				sb.WriteString(g.pick("+", "-", "*", "/"))
			}
		}
	}
	ex(g.n(0, 6))
	c.Text = Bs(sb.String())
	c.Want = 1
	if g.pct(45) {
		c.Text = Bs(mutateDoc(g, string(c.Text), []string{"+", "-", "*", "/", "(", ")", "1", "05", "(2)", " ", "x", "()", "(-1)", "++", ":", ",", ".", "%"}, "+-*/()19 a.,"))
		c.Want = 0
		c.Mut = "mutated"
	}
}

func checkArith(c *ShipCase, o *Obs) error {
	text := string(c.Text)
	a := &arithScan{s: text}
	want, ok := a.climb(1)
	if c.Want == 1 && (!ok || a.i != len(text)) {
		panic(HarnessBug{fmt.Sprintf("generated expression %q is not valid", text)})
	}
	m, n, tree, err := parseBoth("arith.peg", "", text, 0, o)
	if err != nil {
		return err
	}
	if m != ok || ok && n != a.i {
		return fmt.Errorf("expression %q: the grammar gives %v %d, want %v %d", text, m, n, ok, a.i)
	}
	if !ok {
		o.Class("arith-no-expression")
		return nil
	}
	if len(tree) != 1 {
		return fmt.Errorf("expression %q: %d trees", text, len(tree))
	}
	got, err := arithForm(tree[0], text)
	if err != nil || got != want {
		return fmt.Errorf("expression %q: structure %s (%v), want %s", text, got, err, want)
	}
	o.Class("arith")
	if strings.Contains(want, "(") {
		o.Nontrivial = true
	}
	return nil
}

// ---- notation grammars ---------------------------------------------------------------

// fordText prints rules in the dialect of peg.peg (no braces, no complement,
// no escaped dash): it reuses the printer and rejects other texts.
func fordOK(text string) bool {
	return !strings.ContainsAny(text, "{}") && !strings.Contains(text, "\\-") && !strings.Contains(text, "[^")
}

// lpegGen prints texts of the LPeg re dialect.
type lpegGen struct {
	G
	par  []int // offsets of grouping parentheses
	sb   strings.Builder
	left int
}

func (w *lpegGen) s() {
	if w.pct(25) {
		w.sb.WriteString(w.pick(" ", "\t", "\n", "\r\n", "  ", " # c\n", "# 'x <- \n", "#\r"))
	}
}

func (w *lpegGen) sp() { w.sb.WriteString(w.pick(" ", "\n", " # <- \n", "\t")) }

func (w *lpegGen) name() {
	w.sb.WriteString(w.pick("a", "B", "foo", "x1", "A_b", "num", "exp"))
}

func (w *lpegGen) exp(d int) {
	n := w.n(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.sb.WriteString("/")
			w.s()
		}
		for k := w.n(0, 3); k > 0; k-- {
			w.prefix(d)
		}
	}
}

func (w *lpegGen) prefix(d int) {
	for w.pct(15) {
		w.sb.WriteString(w.pick("&", "!"))
		w.s()
	}
	w.primary(d)
	w.s()
	for k := w.n(0, 2); k > 0 && w.pct(50); k-- {
		switch w.weighted(6, 2, 2, 1) {
		case 0:
			w.sb.WriteString(w.pick("*", "+", "?"))
		case 1:
			w.sb.WriteString("^" + w.pick("", "+", "-") + w.pick("0", "3", "12"))
		case 2:
			w.sb.WriteString("->")
			w.s()
			switch w.n(0, 2) {
			case 0:
				w.sb.WriteString("{}")
			case 1:
				w.string()
			default:
				w.name()
				w.sp()
				continue
			}
		case 3:
			w.sb.WriteString("=>")
			w.s()
			w.name()
			w.sp()
			continue
		}
		// a digit or letter may not follow a number or name directly
		w.sp()
	}
}

func (w *lpegGen) string() {
	w.sb.WriteString(w.pick("'a'", "\"b\"", "''", "'\"'", "\"it's\"", "'<-'", "'%1'", "'\\'"))
}

func (w *lpegGen) primary(d int) {
	w.left--
	k := w.weighted(4, 4, 3, 1, 3, 3, 1, 2)
	if d <= 0 || w.left <= 0 {
		k = w.weighted(4, 4, 3, 1, 3)
	}
	switch k {
	case 0:
		w.string()
	case 1:
		w.name()
		w.sp()
	case 2:
		w.sb.WriteByte('[')
		if w.pct(25) {
			w.sb.WriteByte('^')
		}
		for k := w.n(1, 3); k > 0; k-- {
			w.sb.WriteString(w.pick("a-z", "x", "0-9", "%a", "+", "'", "%s", "!-/", "-"))
			if strings.HasSuffix(w.sb.String(), "-") {
				break
			}
		}
		w.sb.WriteByte(']')
	case 3:
		w.sb.WriteString(w.pick("%nl", "%a", "=foo"))
		w.sp()
	case 4:
		w.sb.WriteByte('.')
	case 5:
		w.par = append(w.par, w.sb.Len())
		w.sb.WriteByte('(')
		w.s()
		w.exp(d - 1)
		w.par = append(w.par, w.sb.Len())
		w.sb.WriteByte(')')
	case 6:
		w.sb.WriteString("{:")
		if w.pct(50) {
			w.sb.WriteString(w.pick("a", "foo") + ":")
		}
		w.s()
		w.exp(d - 1)
		w.sb.WriteString(":}")
	case 7:
		o, c := "{", "}"
		switch w.n(0, 2) {
		case 1:
			o, c = "{~", "~}"
		case 2:
			o, c = "{|", "|}"
		}
		w.sb.WriteString(o)
		w.sp()
		w.exp(d - 1)
		w.sb.WriteString(c)
	}
}

// treeToP reads the meaning of a notation text off its captured tree.
func treeToP(n *RNode, text string) (*P, error) {
	var kids []*RNode
	for _, k := range n.Kids {
		switch strings.TrimSuffix(k.Rule, "_") {
		case "Spacing", "Space", "Comment", "EndOfLine", "EndOfFile", "LEFTARROW", "SLASH", "CLOSE", "BRACEC", "BRACEPC":
			continue
		}
		kids = append(kids, k)
	}
	at := func(i int) string {
		if i < len(kids) {
			return strings.TrimSuffix(kids[i].Rule, "_")
		}
		return ""
	}
	sub := func(i int) (*P, error) {
		if i >= len(kids) {
			return nil, fmt.Errorf("%s has %d children", n.Rule, len(kids))
		}
		return treeToP(kids[i], text)
	}
	list := func() ([]*P, error) {
		var l []*P
		for i := range kids {
			p, err := sub(i)
			if err != nil {
				return nil, err
			}
			l = append(l, p)
		}
		return l, nil
	}
	nt := &notation{s: text}
	switch n.Rule {
	case "Pattern":
		return sub(0)
	case "Grammar":
		g := &P{K: "gram"}
		for _, d := range kids {
			if d.Rule != "Definition" {
				continue
			}
			name, _, _ := nt.identifier(d.Start)
			var body *P
			for _, e := range d.Kids {
				if e.Rule == "Expression" {
					var err error
					if body, err = treeToP(e, text); err != nil {
						return nil, err
					}
				}
			}
			set := false
			for i := range g.Defs {
				if g.Defs[i].Name == name {
					g.Defs[i].P = body
					set = true
				}
			}
			if !set {
				g.Defs = append(g.Defs, Def{name, body})
			}
		}
		if len(g.Defs) == 0 {
			return nil, fmt.Errorf("Grammar without definitions")
		}
		g.S = Bs(g.Defs[0].Name)
		return g, nil
	case "Expression":
		l, err := list()
		if err != nil || len(l) == 1 {
			return append(l, nil)[0], err
		}
		return &P{K: "alt", L: l}, nil
	case "Sequence":
		l, err := list()
		switch {
		case err != nil:
			return nil, err
		case len(l) == 0:
			return &P{K: "empty"}, nil
		case len(l) == 1:
			return l[0], nil
		}
		return &P{K: "seq", L: l}, nil
	case "Prefix":
		switch at(0) {
		case "AND", "NOT":
			p, err := sub(1)
			return p1(strings.ToLower(at(0)), p), err
		}
		return sub(0)
	case "Suffix":
		p, err := sub(0)
		if k := map[string]string{"QUESTION": "opt", "STAR": "star", "PLUS": "plus"}[at(1)]; k != "" {
			p = p1(k, p)
		}
		return p, err
	case "Primary":
		switch at(0) {
		case "OPEN", "BRACEO":
			return sub(1)
		case "BRACEPO":
			p, err := sub(1)
			return pMemo(p, 0), err
		case "DOT":
			return pAny(1), nil
		}
		return sub(0)
	case "Identifier":
		name, _, _ := nt.identifier(n.Start)
		return pNT(name), nil
	case "Literal":
		var b []byte
		for _, k := range kids {
			if k.Rule != "Char" {
				return nil, fmt.Errorf("Literal with a child %s", k.Rule)
			}
			c, _, _ := nt.char(k.Start)
			b = append(b, c)
		}
		return pLit(string(b)), nil
	case "Class":
		var set [256]bool
		neg := false
		for _, k := range kids {
			if k.Rule == "CARAT" {
				neg = true
				continue
			}
			if k.Rule != "Range" || len(k.Kids) == 0 {
				return nil, fmt.Errorf("Class with a child %s", k.Rule)
			}
			lo, _, _ := nt.char(k.Kids[0].Start)
			hi, _, _ := nt.char(k.Kids[len(k.Kids)-1].Start)
			for c := int(lo); c <= int(hi); c++ {
				set[c] = true
			}
		}
		var b []byte
		for c := range set {
			if set[c] != neg {
				b = append(b, byte(c))
			}
		}
		return pSet(string(b)), nil
	}
	return nil, fmt.Errorf("unexpected rule %s", n.Rule)
}

func genNotation(g G, c *ShipCase) {
	switch c.Lang {
	case "re":
		alpha := reAlpha(g)
		var b string
		if g.weighted(4, 1) == 0 {
			p := notationPG(g, alpha, g.pct(25))
			b = spell(g, p, g.pct(40), nil)
		} else {
			braces := 0
			for k := g.n(0, 14); k > 0; k-- {
				tok := reTokens[g.u(0, len(reTokens)-1)]
				if strings.Contains(tok, "{") {
					if braces++; braces > 6 {
						continue
					}
				}
				b += tok
			}
		}
		if g.pct(40) {
			b = mutateDoc(g, b, reTokens, alpha+"[]'\"<-/ ")
			c.Mut = "mutated"
		}
		c.Text = Bs(b)
	case "peg":
		p := notationPG(g, g.pick("abc", "ab'", "ab\"", "a\\n", "[]a", "\n\r\t", " #a", "01", "a.*", "/()"), false)
		if p.K != "gram" {
			p = &P{K: "gram", S: "Start", Defs: []Def{{"Start", p}}}
		}
		c.Text = Bs(spell(g, p, g.pct(40), nil))
		if g.pct(30) {
			c.Text = Bs(mutateDoc(g, string(c.Text), reTokens, "ab[]'\"<-/ ()"))
			c.Mut = "mutated"
		}
	case "lpeg":
		w := &lpegGen{G: g, left: 20}
		w.s()
		if g.pct(50) {
			c.Mut = "grammar"
			for k := g.n(1, 4); k > 0; k-- {
				w.name()
				w.s()
				w.sb.WriteString("<-")
				w.s()
				w.exp(3)
				w.sp()
			}
		} else {
			w.exp(3)
		}
		c.Want = 1
		text := w.sb.String()
		if len(w.par) > 0 && g.pct(30) {
			i := w.par[g.u(0, len(w.par)-1)]
			text = text[:i] + text[i+1:]
			c.Want = -1
			c.Mut = "unbalanced"
		}
		c.Text = Bs(text)
	}
}

func checkNotation(c *ShipCase, o *Obs) error {
	text := string(c.Text)
	if strings.Count(text, "{") > 16 {
		o.Discard("many braces")
		return nil
	}
	want := c.Want == 1
	decided := true
	var p *P
	switch c.Lang {
	case "re":
		p, _, want = parseNotation(text)
	case "peg":
		if !fordOK(text) {
			o.Discard("not in the dialect of peg.peg")
			return nil
		}
		p, _, want = parseNotation(text)
		want = want && p.K == "gram"
	case "lpeg":
		decided = c.Want != 0
	}
	m, n, tree, err := parseBoth(c.Lang+".peg", "", text, 0, o)
	if err != nil {
		return err
	}
	if decided && m != want {
		return fmt.Errorf("%s.peg on %q: accepted %v, want %v", c.Lang, text, m, want)
	}
	if m && n != len(text) {
		return fmt.Errorf("%s.peg on %q: accepted up to %d of %d", c.Lang, text, n, len(text))
	}
	if m && c.Lang != "lpeg" {
		if len(tree) != 1 {
			return fmt.Errorf("%s.peg on %q: %d trees", c.Lang, text, len(tree))
		}
		got, err := treeToP(tree[0], text)
		if err != nil {
			return fmt.Errorf("%s.peg on %q: %v", c.Lang, text, err)
		}
		a, _ := json.Marshal(got)
		b, _ := json.Marshal(p)
		if string(a) != string(b) {
			return fmt.Errorf("%s.peg on %q: the tree means %s, want %s", c.Lang, text, got, p)
		}
	}
	o.Class("%s-accept=%v", c.Lang, m)
	if strings.Contains(text, "<-") || !m {
		o.Nontrivial = true
	}
	return nil
}

func genShip(t *rapid.T) *ShipCase {
	g := G{t}
	c := &ShipCase{}
	switch g.weighted(5, 2, 2, 2, 2) {
	case 0:
		c.Lang = "json"
		genJSON(g, c)
	case 1:
		c.Lang = "arith"
		genArith(g, c)
	case 2:
		c.Lang = "re"
		genNotation(g, c)
	case 3:
		c.Lang = "peg"
		genNotation(g, c)
	case 4:
		c.Lang = "lpeg"
		genNotation(g, c)
	}
	return c
}

func checkShip(c *ShipCase, o *Obs) error {
	o.Class("%s", c.Lang)
	switch c.Lang {
	case "json":
		return checkJSON(c, o)
	case "arith":
		return checkArith(c, o)
	}
	return checkNotation(c, o)
}

func init() {
	register(Prop{
		ID:       "C26",
		Rule:     "JSON documents with at least three values or rejected mutants; arithmetic with an operator; notation texts with a definition or rejected ones",
		Assume:   []string{"encoding/json decides JSON validity", "JSON texts contain no form feed or vertical tab (the grammar takes them as spacing)", "the LPeg dialect is generated without {* *} and {+ +}, whose closing sign that grammar reads as a suffix"},
		Quick:    600000,
		Thorough: 20000000,
	}, genShip, checkShip)
}
