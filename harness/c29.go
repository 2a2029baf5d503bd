// C29: the shipped Java grammars. C30: the shipped C grammar.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
)

// stok is a token of a generated program. Kinds: 'b' bracket, 'n' name that
// is being declared, 'w' name that no keyword at all may replace, 'u' name used in an expression, 'l' literal, 'o' binary
// operator, 'g' angle bracket of type arguments, ';' a semicolon that ends a
// declaration or statement, 0 anything else.
type stok struct {
	s string
	k byte
}

// srcGen writes programs as token lists.
type srcGen struct {
	G
	toks []stok
	left int
	uniq [][2]int // token ranges that may not be repeated
}

// once notes that the tokens since m may not occur twice in a row.
func (w *srcGen) once(m int) { w.uniq = append(w.uniq, [2]int{m, len(w.toks)}) }

// t appends space-separated tokens.
func (w *srcGen) t(l ...string) {
	for _, s := range l {
		k := byte(0)
		if len(s) == 1 && strings.Contains("(){}[]", s) {
			k = 'b'
		}
		w.toks = append(w.toks, stok{s, k})
	}
}

func (w *srcGen) k(s string, k byte) { w.toks = append(w.toks, stok{s, k}) }
func (w *srcGen) semi()              { w.k(";", ';') }

func isIdByte(c byte) bool {
	return isIdentStart(c) || c >= '0' && c <= '9' || c == '$' || c == '\\'
}

// tight says whether two tokens may be written without spacing.
func tight(a, b stok) bool {
	soft := func(t stok) bool {
		return t.k == 'b' || t.k == ';' || t.s == ";" || t.s == ","
	}
	if soft(a) || soft(b) {
		return true
	}
	x, y := a.s[len(a.s)-1], b.s[0]
	quote := func(c byte) bool { return c == '"' || c == '\'' }
	if a.k == 'g' || b.k == 'g' {
		return (a.k == 'g' || isIdByte(x)) && (b.k == 'g' || isIdByte(y))
	}
	if quote(x) {
		return !quote(y) && !isIdByte(y)
	}
	if quote(y) {
		return !isIdByte(x)
	}
	if a.s == "." || b.s == "." {
		o := x
		if a.s == "." {
			o = y
		}
		return isIdentStart(o) && a.k != 'l' && b.k != 'l'
	}
	if isIdByte(x) && isIdByte(y) {
		return false
	}
	if a.k == 'l' && y == '.' || b.k == 'l' && y == '.' || x == '.' {
		return false
	}
	return isIdByte(x) || isIdByte(y)
}

func (w *srcGen) space() string {
	if w.pct(85) {
		return w.pick(" ", " ", " ", "\n", "\t", "  ", "\r\n", "\n\n ")
	}
	c := w.pick("/* c */", "/**/", "/***/", "/* \" ' { ( */", "/* a * / ** b */", "/*\n // x */")
	if w.pct(35) {
		c = w.pick("// c", "//", "// /* \" }", "// it's", "//// x (") + "\n"
	}
	return " " + c + w.pick("", " ", "\n")
}

// join writes the tokens with random spacing.
func (w *srcGen) join(ts []stok) string {
	var sb strings.Builder
	if w.pct(20) {
		sb.WriteString(w.space())
	}
	loose := w.pick2(0, 1) == 0
	for i, t := range ts {
		if i > 0 {
			ok := tight(ts[i-1], t)
			switch {
			case !loose && w.pct(10), loose && !ok, loose && w.pct(30), !ok:
				sb.WriteString(w.space())
			}
		}
		sb.WriteString(t.s)
	}
	if w.pct(20) {
		sb.WriteString(w.space())
	}
	return sb.String()
}

// stripSrc removes spacing and comments outside literals.
func stripSrc(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		switch {
		case s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r':
			i++
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return string(b)
			}
			i += 2 + j + 2
		case s[i] == '#' || strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case s[i] == '"' || s[i] == '\'':
			j := i + 1
			for j < len(s) && s[j] != s[i] {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
			b = append(b, s[i:j]...)
			i = j
		default:
			b = append(b, s[i])
			i++
		}
	}
	return string(b)
}

func tokStr(ts []stok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.s)
	}
	return b.String()
}

// level describes one level of binary operators.
type level struct {
	rule string
	ops  []string
}

// corrupt turns the tokens of a valid program into those of an invalid one.
func (w *srcGen) corrupt(keywords, allKeywords, never, badLit, badOp []string, starters map[string]bool) (ts []stok, how string) {
	ts = append(ts, w.toks...)
	find := func(k byte) int {
		var l []int
		for i, t := range ts {
			if t.k == k && (k != ';' || i+1 < len(ts) && (ts[i+1].s == "}" || starters[ts[i+1].s])) {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[w.u(0, len(l)-1)]
	}
	ins := func(i int, t stok) {
		ts = append(ts[:i:i], append([]stok{t}, ts[i:]...)...)
	}
	switch w.weighted(4, 2, 3, 2, 3, 3, 3, 3) {
	case 7:
		if len(w.uniq) > 0 {
			how = "clause repeated"
			u := w.uniq[w.u(0, len(w.uniq)-1)]
			ts = append(ts[:u[1]:u[1]], append(append([]stok{}, w.toks[u[0]:u[1]]...), w.toks[u[1]:]...)...)
		}
	case 0:
		if i := find('b'); i >= 0 {
			how = "bracket deleted"
			ts = append(ts[:i:i], ts[i+1:]...)
		}
	case 1:
		how = "bracket inserted"
		ins(w.u(0, len(ts)), stok{w.pick("(", ")", "{", "}", "[", "]"), 'b'})
	case 2:
		if i := find('w'); i >= 0 && w.pct(50) {
			how = "keyword as name"
			ts[i].s = allKeywords[w.u(0, len(allKeywords)-1)]
		} else if i := find('n'); i >= 0 {
			how = "keyword as name"
			ts[i].s = keywords[w.u(0, len(keywords)-1)]
		}
	case 3:
		how = "impossible token"
		ins(w.u(0, len(ts)), stok{never[w.u(0, len(never)-1)], 0})
	case 4:
		if i := find(';'); i >= 0 {
			how = "semicolon deleted"
			ts = append(ts[:i:i], ts[i+1:]...)
		}
	case 5:
		if i := find('l'); i >= 0 {
			how = "bad literal"
			ts[i].s = badLit[w.u(0, len(badLit)-1)]
		}
	case 6:
		if i := find('o'); i >= 0 {
			how = "bad operator"
			ts[i].s = badOp[w.u(0, len(badOp)-1)]
		}
	}
	return ts, how
}

// exprForm gives the structure of a captured expression.
type exprForm struct {
	text   string
	levels map[string]bool
	skip   map[string]bool
	unary  func(f *exprForm, n *RNode) (string, error)
}

func (f *exprForm) raw(n *RNode) string { return stripSrc(f.text[n.Start:n.End]) }

func (f *exprForm) kids(n *RNode) []*RNode {
	var l []*RNode
	for _, k := range n.Kids {
		if !f.skip[k.Rule] {
			l = append(l, k)
		}
	}
	return l
}

func (f *exprForm) of(n *RNode) (string, error) {
	if !f.levels[n.Rule] {
		return f.unary(f, n)
	}
	ks := f.kids(n)
	if len(ks) == 0 {
		return "", fmt.Errorf("%s %q without children", n.Rule, f.raw(n))
	}
	if len(ks) == 1 {
		return f.of(ks[0])
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		if f.levels[k.Rule] || strings.HasSuffix(k.Rule, "Expression") {
			s, err := f.of(k)
			if err != nil {
				return "", err
			}
			b.WriteString(s)
		} else {
			b.WriteString(f.raw(k))
		}
	}
	b.WriteByte(')')
	return b.String(), nil
}

func findRule(l []*RNode, rule string) *RNode {
	for _, n := range l {
		if n.Rule == rule {
			return n
		}
		if r := findRule(n.Kids, rule); r != nil {
			return r
		}
	}
	return nil
}

// ---- Java ------------------------------------------------------------------------

var javaKeywords = strings.Fields("abstract assert boolean break byte case catch char class const continue default do double else enum extends final finally float for goto if implements import instanceof int interface long native new package private protected public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null")

var javaLevels = []level{
	{"ConditionalOrExpression", []string{"||"}},
	{"ConditionalAndExpression", []string{"&&"}},
	{"InclusiveOrExpression", []string{"|"}},
	{"ExclusiveOrExpression", []string{"^"}},
	{"AndExpression", []string{"&"}},
	{"EqualityExpression", []string{"==", "!="}},
	{"RelationalExpression", []string{"<", ">", "<=", ">="}},
	{"ShiftExpression", []string{"<<", ">>", ">>>"}},
	{"AdditiveExpression", []string{"+", "-"}},
	{"MultiplicativeExpression", []string{"*", "/", "%"}},
}

type javaGen struct {
	srcGen
	depth int
}

func (w *javaGen) word() string {
	switch w.weighted(6, 2, 2) {
	case 0:
		return w.pick("a", "b", "x", "foo", "Bar", "i1", "_y", "$z", "T", "A$1")
	case 1:
		// a keyword with something before or after it
		if w.pct(60) {
			return w.near(javaKeywords, isJavaKeyword)
		}
		k := javaKeywords[w.u(0, len(javaKeywords)-1)]
		if w.pct(20) {
			return w.pick("a", "_", "$") + k
		}
		return k + w.pick("x", "Z", "_", "$", "0", "9", "a1")
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$"
	b := []byte{first[w.u(0, len(first)-1)]}
	for k := w.n(0, 4); k > 0; k-- {
		b = append(b, (first + "0123456789")[w.u(0, len(first)+9)])
	}
	if isJavaKeyword[string(b)] {
		b = append(b, '_')
	}
	return string(b)
}

// near writes something that almost is a keyword.
func (w *srcGen) near(kws []string, kw map[string]bool) string {
	b := []byte(kws[w.u(0, len(kws)-1)])
	i := len(b) - 1
	if w.pct(40) {
		i = w.u(0, len(b)-1)
	}
	const other = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	switch w.weighted(3, 3, 2, 1, 1) {
	case 0: // another letter
		b[i] = other[w.u(0, len(other)-1)]
	case 1: // the other case
		if b[i] != '_' {
			b[i] ^= 0x20
		}
	case 2: // one letter less
		b = append(b[:i:i], b[i+1:]...)
	case 3: // letters from the end missing
		b = b[:max(1, i)]
	case 4: // one letter more
		b = append(b[:i:i], append([]byte{other[w.u(0, len(other)-1)]}, b[i:]...)...)
	}
	if kw[string(b)] || !isIdentStart(b[0]) {
		return "nearly"
	}
	return string(b)
}

// digits writes digits with underscores between them.
func (w *srcGen) digits(alpha string, lo, hi int, under bool) string {
	var b []byte
	for k := w.n(lo, hi); k > 0; k-- {
		for under && len(b) > 0 && w.pct(15) {
			b = append(b, '_')
		}
		b = append(b, alpha[w.u(0, len(alpha)-1)])
	}
	return string(b)
}

const (
	decDigits = "0123456789"
	hexDigits = "0123456789abcdefABCDEF"
)

func (w *javaGen) number() string {
	dec := func() string { return w.digits(decDigits, 1, 4, true) }
	exp := func() string { return w.pick("e", "E") + w.pick("", "+", "-") + dec() }
	opt := func(p int, s string) string {
		if w.pct(p) {
			return s
		}
		return ""
	}
	suf := w.pick("f", "F", "d", "D")
	bexp := func() string { return w.pick("p", "P") + w.pick("", "+", "-") + dec() }
	hex := func() string { return w.digits(hexDigits, 1, 4, true) }
	x := w.pick("0x", "0X")
	switch w.n(0, 10) {
	case 0:
		return w.pick("0", w.digits("123456789", 1, 1, false)+opt(60, w.pick("", "_", "__")+dec())) + opt(30, w.pick("l", "L"))
	case 1:
		return x + hex() + opt(30, w.pick("l", "L"))
	case 2:
		return "0" + w.pick("", "_") + w.digits("01234567", 1, 4, true) + opt(30, w.pick("l", "L"))
	case 3:
		return w.pick("0b", "0B") + w.digits("01", 1, 5, true) + opt(30, w.pick("l", "L"))
	case 4:
		return dec() + "." + opt(60, dec()) + opt(40, exp()) + opt(40, suf)
	case 5:
		return "." + dec() + opt(40, exp()) + opt(40, suf)
	case 6:
		return dec() + exp() + opt(40, suf)
	case 7:
		return dec() + opt(40, exp()) + suf
	case 8:
		return x + hex() + opt(40, ".") + bexp() + opt(40, suf)
	case 9:
		return x + opt(50, hex()) + "." + hex() + bexp() + opt(40, suf)
	}
	return w.pick("0", "1", "42")
}

func (w *srcGen) javaChar(q string) string {
	switch w.weighted(5, 3, 2, 2) {
	case 0:
		for {
			c := string(rune(w.u(0x20, 0x7e)))
			if c != q && c != "\\" {
				return c
			}
			return "a"
		}
	case 1:
		return "\\" + w.pick("b", "t", "n", "f", "r", "\"", "'", "\\")
	case 2:
		return "\\" + w.pick("", "0", "1", "2", "3")[0:] + w.digits("01234567", 1, 2, false)
	}
	return "\\u" + w.pick("", "u", "uu") + w.digits(hexDigits, 4, 4, false)
}

func (w *javaGen) id()   { w.k(w.word(), 'u') }
func (w *javaGen) decl() { w.k(w.word(), 'n') }

func (w *javaGen) qual() {
	w.id()
	for w.pct(30) {
		w.t(".")
		w.id()
	}
}

func (w *javaGen) lit() {
	switch w.weighted(4, 1, 2, 2) {
	case 0:
		w.k(w.number(), 'l')
	case 1:
		w.k("'"+w.javaChar("'")+"'", 'l')
	case 2:
		l := "\""
		for k := w.n(0, 5); k > 0; k-- {
			l += w.javaChar("\"")
		}
		w.k(l+w.pick("", "", "", "// no", "/* no", "}", "*/")+"\"", 'l')
	case 3:
		w.k(w.pick("true", "false", "null"), 'l')
	}
}

var javaBadLit = []string{"0x", "08", "1_", "0b2", "0b", "'ab'", "''", "'\\x'", "\"\\x\"", "\"\\u12\"", "1e", "0x1.8", "0xg", "'\\400'", "0x_1", "1.5.5", "1LL", "1u", "0b1.0", "'\\u12'", "1e+", "\"\\8\"", "'\\'", "0x1p", "0_", "1lf", "1.5ff", "1e+-5", "1e5e5", "0x1p+-1", "0x1p1fd", "1._5", "0b12", "'\\u004'", "0x.p1", "\"\\u\"", "1.0.", "0xp1", "1__l1", "'abc'", "0b_1", "0_8"}

var javaBadOp = []string{"===", "=>", "<>", "**", "->", "::", "@", ">>>>", "&&&", "|||", "%%", "<<<", "^^", "#", "!==", "<=>", "===="}

var javaNever = []string{"goto", "const", "#", "`", "\\", "é", "->", "::"}

var isJavaKeyword = map[string]bool{}

func init() {
	for _, k := range javaKeywords {
		isJavaKeyword[k] = true
	}
}

var javaStarters = map[string]bool{}

func init() {
	for _, s := range strings.Fields("if while for do try switch return throw break continue int long class final static public private import case default assert synchronized void interface enum abstract else catch finally") {
		javaStarters[s] = true
	}
}

func (w *javaGen) basic() {
	w.t(w.pick("int", "byte", "short", "char", "long", "float", "double", "boolean"))
}

func (w *javaGen) dims(lo, hi int) {
	for k := w.n(lo, hi); k > 0; k-- {
		w.t("[", "]")
	}
}

func (w *javaGen) refType(d int) {
	if w.pct(15) {
		w.basic()
		w.dims(1, 3)
		return
	}
	w.classType(d)
	if w.pct(20) {
		w.dims(1, 3)
	}
}

func (w *javaGen) typeArgs(d int) {
	w.k("<", 'g')
	for i := w.n(1, 3); i > 0; i-- {
		if w.pct(25) {
			w.t("?")
			if w.pct(60) {
				w.t(w.pick("extends", "super"))
				w.refType(d - 1)
			}
		} else {
			w.refType(d - 1)
		}
		if i > 1 {
			w.t(",")
		}
	}
	w.k(">", 'g')
}

func (w *javaGen) classType(d int) {
	w.id()
	if d > 0 && w.pct(25) {
		w.typeArgs(d)
	}
	for w.pct(15) {
		w.t(".")
		w.id()
		if d > 0 && w.pct(20) {
			w.typeArgs(d)
		}
	}
}

func (w *javaGen) typ() {
	if w.pct(50) {
		w.basic()
	} else {
		w.classType(2)
	}
	if w.pct(20) {
		w.dims(1, 3)
	}
}

// nwArgs writes type arguments without wildcards.
func (w *javaGen) nwArgs() {
	defer w.once(w.mark())
	w.nwArgsOnly()
}

// nwArgsOnly does so where repeated arguments may read as a comparison.
func (w *javaGen) nwArgsOnly() {
	w.k("<", 'g')
	for k := w.n(1, 3); k > 0; k-- {
		w.refType(1)
		if k > 1 {
			w.t(",")
		}
	}
	w.k(">", 'g')
}

func (w *javaGen) mark() int { return len(w.toks) }

func (w *javaGen) since(m int) string { return tokStr(w.toks[m:]) }

// expr writes an expression and returns its structure.
func (w *javaGen) expr(d int) string {
	w.left--
	if d > 0 && w.pct(8) {
		// assignment chain
		parts := []string{w.lhs(d)}
		for k := w.n(1, 2); k > 0; k-- {
			op := w.pick("=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=", ">>>=")
			w.k(op, 0)
			parts = append(parts, op, w.cond(d-1))
		}
		return "(" + strings.Join(parts, " ") + ")"
	}
	return w.cond(d)
}

func (w *javaGen) cond(d int) string {
	c := w.bin(0, d)
	if d <= 0 || !w.pct(8) {
		return c
	}
	parts := []string{c}
	for k := w.n(1, 2); k > 0; k-- {
		w.t("?")
		e := w.expr(d - 1)
		w.t(":")
		parts = append(parts, "?", e, ":", w.bin(0, d-1))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (w *javaGen) bin(l, d int) string {
	if l == len(javaLevels) {
		return w.unary(d)
	}
	if d <= 0 || w.left <= 0 {
		return w.bin(len(javaLevels), d)
	}
	// skip levels quickly
	if w.pct(30) {
		return w.bin(min(len(javaLevels), l+1+w.n(0, 9)), d)
	}
	parts := []string{w.bin(l+1, d-1)}
	for w.pct(22) && len(parts) < 7 {
		lv := javaLevels[l]
		if lv.rule == "RelationalExpression" && w.pct(20) {
			w.t("instanceof")
			m := w.mark()
			w.refType(1)
			parts = append(parts, "instanceof", w.since(m))
			continue
		}
		op := lv.ops[w.u(0, len(lv.ops)-1)]
		if len(op) == 1 && parts[max(0, len(parts)-2)] == "instanceof" {
			op += "=" // a "<" would start type arguments
		}
		w.k(op, 'o')
		parts = append(parts, op, w.bin(l+1, d-1))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (w *javaGen) unary(d int) string {
	if d > 0 && w.pct(15) {
		op := w.pick("-", "+", "!", "~", "++", "--")
		w.t(op)
		return "(" + op + " " + w.unary(d-1) + ")"
	}
	if d > 0 && w.pct(7) {
		w.t("(")
		m := w.mark()
		w.typ()
		ty := w.since(m)
		w.t(")")
		// the operand starts with no sign: "(a) - b" reads as a cast, too
		return "(cast " + ty + " " + w.postfix(d-1) + ")"
	}
	return w.postfix(d)
}

func (w *javaGen) args(d int) {
	w.t("(")
	for k := w.n(0, 3); k > 0; k-- {
		w.expr(d - 1)
		if k > 1 {
			w.t(",")
		}
	}
	w.t(")")
}

// lhs writes an assignable expression.
func (w *javaGen) lhs(d int) string {
	m := w.mark()
	switch w.n(0, 3) {
	case 0, 1:
		w.qual()
	case 2:
		w.qual()
		w.t("[")
		w.expr(d - 1)
		w.t("]")
	case 3:
		w.t("this", ".")
		w.id()
	}
	return w.since(m)
}

func (w *javaGen) postfix(d int) string {
	pre := ""
	m := w.mark()
	if d > 0 && w.pct(12) {
		// parenthesised: at least one operator, else it may be a cast
		w.t("(")
		l := w.u(0, len(javaLevels)-1)
		lv := javaLevels[l]
		op := lv.ops[w.u(0, len(lv.ops)-1)]
		a := w.bin(l+1, d-1)
		w.k(op, 'o')
		b := w.bin(l+1, d-1)
		w.t(")")
		pre = "[(" + a + " " + op + " " + b + ")]"
		m = w.mark()
	} else {
		w.primary(d)
	}
	if d > 0 {
		for w.pct(15) {
			switch w.weighted(4, 3, 1, 1, 1, 1) {
			case 0:
				w.t(".")
				w.id()
				if w.pct(50) {
					w.args(d - 1)
				}
			case 1:
				// an array creation would take the index as a dimension
				if l := w.toks[len(w.toks)-1]; l.s != "]" && l.s != "}" && l.s != "class" {
					w.t("[")
					w.expr(d - 1)
					w.t("]")
				}
			case 2:
				w.t(".")
				w.nwArgs()
				if w.pct(25) {
					w.t("super")
					w.superSuffix(d - 1)
				} else {
					w.id()
					w.args(d - 1)
				}
			case 3:
				w.t(".", "new")
				if w.pct(25) {
					w.nwArgs()
				}
				w.id()
				w.creatorRest(d - 1)
			case 4:
				w.t(".", "this")
			case 5:
				w.t(".", "super")
				w.superSuffix(d - 1)
			}
		}
	}
	for w.pct(6) {
		w.t(w.pick("++", "--"))
	}
	return pre + w.since(m)
}

func (w *javaGen) primary(d int) {
	k := w.weighted(8, 8)
	if d > 0 && w.left > 0 {
		k = w.weighted(8, 8, 5, 2, 2, 2, 3, 2, 1, 1, 1, 1, 1, 2)
	}
	switch k {
	case 0:
		w.qual()
	case 1:
		w.lit()
	case 2:
		w.qual()
		w.args(d - 1)
	case 3:
		w.t("this")
		if w.pct(15) {
			w.args(d - 1)
		}
		if w.pct(50) {
			w.t(".")
			w.id()
		}
	case 4:
		w.t("super")
		w.superSuffix(d - 1)
	case 5:
		w.qual()
		w.t("[")
		w.expr(d - 1)
		w.t("]")
	case 6:
		w.t("new")
		if w.pct(10) {
			w.nwArgsOnly()
		}
		w.id()
		if w.pct(20) {
			w.nwArgsOnly()
		}
		for w.pct(15) {
			w.t(".")
			w.id()
			if w.pct(30) {
				w.nwArgs()
			}
		}
		w.creatorRest(d - 1)
	case 7:
		w.t("new")
		if w.pct(60) {
			w.basic()
		} else {
			w.classType(1)
		}
		if w.pct(50) {
			w.t("[", "]")
			w.dims(0, 2)
			w.arrayInit(d - 1)
		} else {
			for k := w.n(1, 3); k > 0; k-- {
				w.t("[")
				w.expr(d - 1)
				w.t("]")
			}
			w.dims(0, 2)
		}
	case 8:
		if w.pct(50) {
			w.basic()
		} else {
			w.id()
		}
		w.dims(0, 2)
		w.t(".", "class")
	case 9:
		w.id()
		w.t(".", "this")
	case 10:
		w.t("void", ".", "class")
	case 11:
		w.id()
		w.t(".", "super")
		w.superSuffix(d - 1)
	case 12:
		w.nwArgs()
		switch w.n(0, 2) {
		case 0:
			w.t("this")
			w.args(d - 1)
		case 1:
			w.t("super")
			w.superSuffix(d - 1)
		case 2:
			w.id()
			w.args(d - 1)
		}
	case 13:
		w.qual()
		w.t(".")
		switch w.n(0, 4) {
		case 0:
			w.t("class")
		case 1:
			w.nwArgs()
			w.id()
			w.args(d - 1)
		case 2:
			w.t("this")
		case 3:
			w.t("super")
			w.args(d - 1)
		case 4:
			w.t("new")
			if w.pct(30) {
				w.nwArgs()
			}
			w.id()
			w.creatorRest(d - 1)
		}
	}
}

func (w *javaGen) superSuffix(d int) {
	if w.pct(30) {
		w.args(d)
		return
	}
	w.t(".")
	w.id()
	if w.pct(60) {
		w.args(d)
	}
}

func (w *javaGen) creatorRest(d int) {
	if w.pct(15) {
		m := w.mark()
		w.k("<", 'g')
		w.k(">", 'g')
		w.once(m)
	}
	w.args(d)
	if w.pct(12) && w.depth < 2 {
		w.classBody("X", false)
	}
}

func (w *javaGen) arrayInit(d int) {
	w.t("{")
	n := w.n(0, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		w.varInit(d - 1)
	}
	if w.pct(20) {
		w.t(",")
	}
	w.t("}")
}

func (w *javaGen) varInit(d int) {
	if d > 0 && w.pct(20) {
		w.arrayInit(d)
	} else {
		w.expr(d)
	}
}

func (w *javaGen) annotation(d int) {
	w.t("@")
	w.qual()
	switch w.n(0, 4) {
	case 1:
		w.t("(", ")")
	case 2:
		w.t("(")
		w.elemVal(d)
		w.t(")")
	case 3:
		w.t("(")
		for k := w.n(1, 3); k > 0; k-- {
			w.id()
			w.t("=")
			w.elemVal(d)
			if k > 1 {
				w.t(",")
			}
		}
		w.t(")")
	}
}

func (w *javaGen) elemVal(d int) {
	switch {
	case d > 0 && w.pct(15):
		w.annotation(d - 1)
	case d > 0 && w.pct(25):
		w.t("{")
		n := w.n(0, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.t(",")
			}
			w.elemVal(d - 1)
		}
		if w.pct(20) {
			w.t(",")
		}
		w.t("}")
	default:
		w.cond(1)
	}
}

func (w *javaGen) mods(l ...string) {
	for w.pct(30) {
		if w.pct(20) {
			w.annotation(1)
		} else {
			w.t(w.pick(l...))
		}
	}
}

func (w *javaGen) varDecls(d int, init bool) {
	for k := w.n(1, 3); k > 0; k-- {
		w.decl()
		if w.pct(15) {
			w.dims(1, 3)
		}
		if w.pct(60) {
			w.t("=")
			w.varInit(d)
		}
		if k > 1 {
			w.t(",")
		}
	}
}

// varMods writes the modifiers of a variable.
func (w *javaGen) varMods() {
	for w.pct(18) {
		if w.pct(60) {
			w.t("final")
		} else {
			w.annotation(0)
		}
	}
}

func (w *javaGen) params() {
	defer w.once(w.mark())
	w.t("(")
	n := w.n(0, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		w.varMods()
		w.typ()
		if i == n-1 && w.pct(20) {
			w.t("...")
		}
		w.decl()
		if w.pct(10) {
			w.dims(1, 3)
		}
	}
	w.t(")")
}

// clause writes a keyword and a list of types that may occur once.
func (w *javaGen) clause(kw string, more bool) {
	defer w.once(w.mark())
	w.t(kw)
	w.classType(1)
	for more && w.pct(30) {
		w.t(",")
		w.classType(1)
	}
}

func (w *javaGen) typeParams() {
	defer w.once(w.mark())
	w.k("<", 'g')
	for k := w.n(1, 3); k > 0; k-- {
		w.decl()
		if w.pct(40) {
			w.t("extends")
			w.classType(1)
			for w.pct(30) {
				w.t("&")
				w.classType(1)
			}
		}
		if k > 1 {
			w.t(",")
		}
	}
	w.k(">", 'g')
}

func (w *javaGen) throws() {
	if w.pct(20) {
		defer w.once(w.mark())
		w.t("throws")
		w.classType(0)
		for w.pct(30) {
			w.t(",")
			w.classType(0)
		}
	}
}

func (w *javaGen) block(d int) {
	w.t("{")
	for k := w.n(0, 3); k > 0; k-- {
		w.blockStmt(d - 1)
	}
	w.t("}")
}

func (w *javaGen) stmtExpr(d int) {
	switch w.n(0, 4) {
	case 0, 1:
		w.lhs(d)
		w.t(w.pick("=", "+=", "-=", "<<=", ">>>=", "|="))
		w.expr(d)
	case 2:
		w.qual()
		w.args(d)
	case 3:
		if w.pct(50) {
			w.t(w.pick("++", "--"))
			w.qual()
		} else {
			w.qual()
			w.t(w.pick("++", "--"))
		}
	case 4:
		w.t("new")
		w.id()
		w.args(d)
	}
}

func (w *javaGen) par(d int) {
	w.t("(")
	w.expr(d)
	w.t(")")
}

func (w *javaGen) stmt(d int) { w.statement(d, false) }

// blockStmt may also be a declaration.
func (w *javaGen) blockStmt(d int) { w.statement(d, true) }

func (w *javaGen) statement(d int, block bool) {
	w.left -= 2
	if d <= 0 || w.left <= 0 {
		if w.pct(20) {
			w.t(";")
		} else {
			w.stmtExpr(1)
			w.semi()
		}
		return
	}
	k := w.weighted(5, 6, 3, 3, 2, 2, 2, 2, 2, 1, 2, 1, 1, 1, 1, 1)
	if !block && (k == 1 || k == 13) {
		k = 0
	}
	switch k {
	case 0:
		w.stmtExpr(2)
		w.semi()
	case 1:
		w.varMods()
		w.typ()
		w.varDecls(2, true)
		w.semi()
	case 2:
		w.t("if")
		w.par(2)
		w.stmt(d - 1)
		if w.pct(40) {
			w.t("else")
			w.stmt(d - 1)
		}
	case 3:
		w.t("for", "(")
		if w.pct(30) {
			w.varMods()
			w.typ()
			w.decl()
			w.t(":")
			w.expr(1)
			w.t(")")
		} else {
			switch w.n(0, 2) {
			case 1:
				w.varMods()
				w.typ()
				w.varDecls(1, true)
			case 2:
				w.stmtExpr(1)
				for w.pct(30) {
					w.t(",")
					w.stmtExpr(1)
				}
			}
			w.t(";")
			if w.pct(70) {
				w.expr(1)
			}
			w.t(";")
			if w.pct(70) {
				w.stmtExpr(1)
				for w.pct(30) {
					w.t(",")
					w.stmtExpr(1)
				}
			}
			w.t(")")
		}
		w.stmt(d - 1)
	case 4:
		w.t("while")
		w.par(2)
		w.stmt(d - 1)
	case 5:
		w.t("do")
		w.stmt(d - 1)
		w.t("while")
		w.par(1)
		w.semi()
	case 6:
		w.t("try")
		res := w.pct(30)
		if res {
			w.t("(")
			for k := w.n(1, 3); k > 0; k-- {
				w.varMods()
				w.typ()
				w.decl()
				w.t("=")
				w.expr(1)
				if k > 1 {
					w.t(";")
				}
			}
			if w.pct(20) {
				w.t(";")
			}
			w.t(")")
		}
		w.block(d - 1)
		n := w.n(0, 2)
		for i := 0; i < n; i++ {
			w.t("catch", "(")
			w.varMods()
			w.classType(0)
			for w.pct(25) {
				w.t("|")
				w.classType(0)
			}
			w.decl()
			w.t(")")
			w.block(d - 1)
		}
		if n == 0 && !res || w.pct(30) {
			m := w.mark()
			w.t("finally")
			w.block(d - 1)
			w.once(m)
		}
	case 7:
		w.t("switch")
		w.par(1)
		w.t("{")
		for k := w.n(0, 3); k > 0; k-- {
			for first := true; first || w.pct(20); first = false {
				switch w.n(0, 2) {
				case 0:
					w.t("default", ":")
				case 1:
					w.t("case")
					w.id()
					w.t(":")
				default:
					w.t("case")
					w.lit()
					w.t(":")
				}
			}
			for j := w.n(0, 2); j > 0; j-- {
				w.blockStmt(d - 1)
			}
		}
		w.t("}")
	case 8:
		switch w.n(0, 3) {
		case 0:
			w.t("return")
			if w.pct(70) {
				w.expr(2)
			}
		case 1:
			w.t("throw")
			w.expr(1)
		case 2:
			w.t("break")
			if w.pct(40) {
				m := w.mark()
				w.id()
				w.once(m)
			}
		case 3:
			w.t("continue")
			if w.pct(40) {
				m := w.mark()
				w.id()
				w.once(m)
			}
		}
		w.semi()
	case 9:
		w.t("synchronized")
		w.par(1)
		w.block(d - 1)
	case 10:
		w.block(d)
	case 11:
		w.t("assert")
		w.expr(1)
		if w.pct(40) {
			w.t(":")
			w.expr(1)
		}
		w.semi()
	case 12:
		w.decl()
		w.t(":")
		w.stmt(d - 1)
	case 13:
		if w.depth < 2 {
			w.mods("final", "abstract")
			if w.pct(25) {
				w.enum()
			} else {
				w.class()
			}
		} else {
			w.t(";")
		}
	case 14:
		w.t(";")
	case 15:
		w.t(w.pick("this", "super"))
		w.args(1)
		w.semi()
	}
}

var javaMods = []string{"public", "protected", "private", "static", "abstract", "final", "native", "synchronized", "transient", "volatile", "strictfp"}

func (w *javaGen) classBody(name string, iface bool) {
	w.depth++
	defer func() { w.depth-- }()
	w.t("{")
	for k := w.n(0, 4); k > 0 && w.left > 0; k-- {
		w.member(name)
	}
	w.t("}")
}

func (w *javaGen) member(name string) {
	w.left -= 3
	switch w.weighted(6, 6, 2, 2, 1, 1, 1, 1) {
	case 0: // method
		w.mods(javaMods...)
		if w.pct(15) {
			w.typeParams()
		}
		void := w.pct(50)
		if void {
			w.t("void")
		} else {
			w.typ()
		}
		w.decl()
		w.params()
		if !void && w.pct(5) {
			w.dims(1, 3)
		}
		w.throws()
		if w.pct(15) {
			w.semi()
		} else {
			w.block(3)
		}
	case 1: // field
		w.mods(javaMods...)
		w.typ()
		w.varDecls(3, true)
		w.semi()
	case 2: // constructor
		w.mods("public", "protected", "private")
		if w.pct(10) {
			w.typeParams()
		}
		w.k(name, 'n')
		w.params()
		w.throws()
		w.block(3)
	case 3: // nested type
		w.mods(javaMods...)
		if w.depth < 3 {
			w.anyType()
		} else {
			w.t("int")
			w.decl()
			w.semi()
		}
	case 4:
		if w.pct(50) {
			w.t("static")
		}
		w.block(2)
	case 5:
		w.t(";")
	case 6:
		w.t("int")
		w.decl()
		w.t("=")
		w.expr(4)
		w.semi()
	case 7:
		w.id()
		w.decl()
		w.params()
		w.semi()
	}
}

func (w *javaGen) class() {
	w.t("class")
	name := w.word()
	w.k(name, 'n')
	if w.pct(20) {
		w.typeParams()
	}
	if w.pct(20) {
		w.clause("extends", false)
	}
	if w.pct(20) {
		w.clause("implements", true)
	}
	w.classBody(name, false)
}

func (w *javaGen) anyType() {
	switch w.weighted(4, 2, 2, 1) {
	case 0:
		w.class()
	case 1: // interface
		w.t("interface")
		w.decl()
		if w.pct(20) {
			w.typeParams()
		}
		if w.pct(20) {
			w.clause("extends", true)
		}
		w.depth++
		w.t("{")
		for k := w.n(0, 3); k > 0 && w.left > 0; k-- {
			w.left -= 2
			w.mods("public", "static", "final", "abstract")
			switch w.n(0, 4) {
			case 0, 1:
				if w.pct(20) {
					w.typeParams()
				}
				void := w.pct(40)
				if void {
					w.t("void")
				} else {
					w.typ()
				}
				w.decl()
				w.params()
				if !void && w.pct(5) {
					w.dims(1, 3)
				}
				w.throws()
				w.semi()
			case 2:
				w.typ()
				for k := w.n(1, 3); k > 0; k-- {
					w.decl()
					if w.pct(10) {
						w.dims(1, 3)
					}
					w.t("=")
					w.varInit(2)
					if k > 1 {
						w.t(",")
					}
				}
				w.semi()
			case 3:
				if w.depth < 3 {
					w.anyType()
				} else {
					w.class()
				}
			case 4:
				w.t("void")
				w.decl()
				w.params()
				w.semi()
			}
			if w.pct(10) {
				w.t(";")
			}
		}
		w.t("}")
		w.depth--
	case 2:
		w.enum()
	case 3: // annotation type
		w.annType()
	}
}

func (w *javaGen) enum() {
	w.t("enum")
	w.decl()
	if w.pct(20) {
		w.clause("implements", true)
	}
	w.depth++
	w.t("{")
	n := w.n(0, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		for w.pct(15) {
			w.annotation(0)
		}
		w.decl()
		if w.pct(25) {
			w.args(1)
		}
		if w.pct(12) && w.depth < 3 {
			w.classBody("E", false)
		}
	}
	if w.pct(15) {
		w.t(",")
	}
	if w.pct(40) {
		w.t(";")
		for k := w.n(0, 2); k > 0; k-- {
			w.member("E")
		}
	}
	w.t("}")
	w.depth--
}

func (w *javaGen) annType() {
	w.t("@", "interface")
	w.decl()
	w.depth++
	w.t("{")
	for k := w.n(0, 3); k > 0; k-- {
		w.left--
		w.mods("public", "abstract")
		switch w.n(0, 3) {
		case 0, 1:
			w.typ()
			w.decl()
			w.t("(", ")")
			if w.pct(50) {
				m := w.mark()
				w.t("default")
				w.elemVal(2)
				w.once(m)
			}
			w.semi()
		case 2:
			w.typ()
			w.decl()
			w.t("=")
			w.expr(1)
			w.semi()
		case 3:
			if w.depth < 3 {
				w.anyType()
			} else {
				w.class()
			}
		}
		if w.pct(10) {
			w.t(";")
		}
	}
	w.t("}")
	w.depth--
}

func (w *javaGen) unit() {
	if w.pct(30) {
		m := w.mark()
		for w.pct(25) {
			w.annotation(0)
		}
		w.t("package")
		w.qual()
		w.semi()
		w.once(m)
	}
	for w.pct(25) {
		w.t("import")
		if w.pct(30) {
			m := w.mark()
			w.t("static")
			w.once(m)
		}
		w.qual()
		if w.pct(30) {
			m := w.mark()
			w.t(".", "*")
			w.once(m)
		}
		w.semi()
	}
	for k := w.n(0, 3); k > 0; k-- {
		if w.pct(10) {
			w.t(";")
			continue
		}
		w.mods("public", "abstract", "final", "strictfp")
		w.anyType()
	}
}

var javaToks = []string{"{", "}", "(", ")", "[", "]", ";", ",", "int", "class", "x", " ", "\n", "/*", "*/", "//", "\"", "'", "1", ".5", "+", "++", ">>", ">", "<", "=", "==", "?", ":", "@", "return", "new", "public", "int x;", "void f() { }", "x = 1;", "{ }", "/* c */", "a + ", " * b", "if (x) y();", ".z", "()", "<T>", "final ", "abc", "\\"}

func javaEdits(g G, c *ShipCase, w *javaGen) {
	n := len(c.Text)
	for k := g.n(0, 4); k > 0; k-- {
		e := EditOp{S: g.u(0, n), D: g.n(0, 6)}
		if g.pct(30) {
			v := &javaGen{srcGen: srcGen{G: g, left: 8}}
			switch g.n(0, 2) {
			case 0:
				v.stmt(2)
			case 1:
				v.member("X")
			case 2:
				v.expr(2)
			}
			e.T = Bs(" " + v.join(v.toks) + " ")
		} else if g.pct(70) {
			e.T = Bs(javaToks[g.u(0, len(javaToks)-1)])
		}
		c.Ops = append(c.Ops, e)
		n = max(0, n-e.D) + len(e.T)
	}
}

func genJava(t *rapid.T) *ShipCase {
	g := G{t}
	c := &ShipCase{Lang: "java", Want: 1}
	w := &javaGen{srcGen: srcGen{G: g, left: g.n(2, 60)}}
	if g.pct(35) {
		w.t("class", "A", "{", "int", "x", "=")
		w.left = g.n(2, 50)
		c.Tree = w.expr(g.n(1, 8))
		w.semi()
		w.t("}")
	} else {
		w.unit()
	}
	ts := w.toks
	if g.pct(35) {
		if bad, how := w.corrupt(javaKeywords, javaKeywords, javaNever, javaBadLit, javaBadOp, javaStarters); how != "" {
			ts, c.Mut, c.Want, c.Tree = bad, how, -1, ""
		}
	}
	c.Text = Bs(w.join(ts))
	if c.Want == 1 {
		for _, t := range ts {
			c.Toks = append(c.Toks, Bs(t.s))
		}
	}
	if c.Want == 1 && g.pct(25) {
		c.Toks = nil
		c.Text = Bs(mutateDoc(g, string(c.Text), javaToks, "{}();=+ab1 \n\"'/*<>"))
		c.Want, c.Mut, c.Tree = 0, "mutated", ""
	}
	c.Th = thresholds[g.n(0, 8)]
	if g.pct(50) {
		javaEdits(g, c, w)
	}
	return c
}

// javaUnary gives the structure of a unary expression.
func javaUnary(f *exprForm, n *RNode) (string, error) {
	ks := f.kids(n)
	if n.Rule != "UnaryExpression" {
		return f.raw(n), nil
	}
	if len(ks) == 0 {
		return "", fmt.Errorf("UnaryExpression %q without children", f.raw(n))
	}
	switch ks[0].Rule {
	case "PrefixOp":
		if len(ks) != 2 {
			return "", fmt.Errorf("UnaryExpression %q has %d children", f.raw(n), len(ks))
		}
		s, err := f.of(ks[1])
		return "(" + f.raw(ks[0]) + " " + s + ")", err
	case "LPAR":
		if len(ks) != 4 || ks[1].Rule != "Type" {
			return "", fmt.Errorf("UnaryExpression %q is no cast", f.raw(n))
		}
		s, err := f.of(ks[3])
		return "(cast " + f.raw(ks[1]) + " " + s + ")", err
	}
	p := ks[0]
	if len(p.Kids) > 0 && p.Kids[0].Rule == "ParExpression" {
		e := findRule(p.Kids[0].Kids, "Expression")
		if e == nil {
			return "", fmt.Errorf("no expression in %q", f.raw(p))
		}
		s, err := f.of(e)
		return "[" + s + "]" + stripSrc(f.text[p.End:n.End]), err
	}
	return f.raw(n), nil
}

func javaForm(text string, tree []*RNode) (string, error) {
	f := &exprForm{text: text, levels: map[string]bool{"Expression": true, "ConditionalExpression": true}, skip: map[string]bool{"Spacing": true}, unary: javaUnary}
	for _, l := range javaLevels {
		f.levels[l.rule] = true
	}
	v := findRule(tree, "VariableInitializer")
	if v == nil || len(v.Kids) != 1 || v.Kids[0].Rule != "Expression" {
		return "", fmt.Errorf("no initializer")
	}
	return f.of(v.Kids[0])
}

// javaTok says whether a captured rule is a token.
func javaTok(n *RNode) bool {
	switch n.Rule {
	case "Identifier", "Literal", "BasicType":
		return true
	case "Modifier":
		return findRule(n.Kids, "Annotation") == nil
	case "EOT":
		return false
	}
	return strings.ToUpper(n.Rule) == n.Rule
}

// sameToks compares the tokens in a tree with those of the program.
func sameToks(want []Bs, tree []*RNode, text string, isTok func(*RNode) bool) error {
	i := 0
	var walk func(l []*RNode) error
	walk = func(l []*RNode) error {
		for _, n := range l {
			if !isTok(n) {
				if err := walk(n.Kids); err != nil {
					return err
				}
				continue
			}
			got := stripSrc(text[n.Start:n.End])
			if i >= len(want) || stripSrc(string(want[i])) != got {
				w := "nothing"
				if i < len(want) {
					w = fmt.Sprintf("%q", want[i])
				}
				return fmt.Errorf("token %d in the tree is %s %q, want %s", i, n.Rule, got, w)
			}
			i++
		}
		return nil
	}
	if err := walk(tree); err != nil {
		return err
	}
	if i != len(want) {
		return fmt.Errorf("%d tokens in the tree, want %d", i, len(want))
	}
	return nil
}

func checkJava(c *ShipCase, o *Obs) error {
	text := string(c.Text)
	m, n, tree, err := parseBoth("java.peg", "java_memo.peg", text, c.Th, o)
	if err != nil {
		return err
	}
	if c.Mut != "" {
		o.Class("%s", c.Mut)
	}
	if m && n != len(text) {
		return fmt.Errorf("Java text %q: accepted up to %d of %d", text, n, len(text))
	}
	switch {
	case c.Want == 1 && !m:
		return fmt.Errorf("Java text %q is rejected", text)
	case c.Want == -1 && m:
		return fmt.Errorf("Java text %q (%s) is accepted", text, c.Mut)
	}
	if c.Toks != nil && m {
		if err := sameToks(c.Toks, tree, text, javaTok); err != nil {
			return fmt.Errorf("Java text %q: %v", text, err)
		}
	}
	o.Class("accept=%v", m)
	if len(text) > 12 {
		o.Nontrivial = true
	}
	if c.Tree != "" {
		got, err := javaForm(text, tree)
		if err != nil || got != c.Tree {
			return fmt.Errorf("Java text %q: the initializer has the structure %s (%v), want %s", text, got, err, c.Tree)
		}
		o.Class("structure")
	}
	if len(c.Ops) == 0 {
		return nil
	}
	// incremental parses with one table
	sp, _ := ship("java.peg")
	sm, _ := ship("java_memo.peg")
	tbl := memo.NewTreeTable(c.Th)
	if _, _, _, err := sm.parse(text, tbl); err != nil {
		return err
	}
	for i := range c.Ops {
		var e memo.Edit
		text, e = c.Ops[i].apply(text)
		tbl.ApplyEdit(e)
		m, n, tree, err := sp.parse(text, memo.NoneTable{})
		if err != nil {
			return err
		}
		im, in, it, err := sm.parse(text, tbl)
		if err != nil {
			return err
		}
		if im != m || m && in != n || !nodesEq(it, tree) {
			return fmt.Errorf("Java text %q after %d edits of %q with threshold %d: incremental parse %v %d, direct parse %v %d, %s", text, i+1, string(c.Text), c.Th, im, in, m, n, nodesDiff(it, tree))
		}
		o.Class("edit-accept=%v", m)
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C29",
		Rule:     "texts of more than 12 bytes",
		Assume:   []string{"generated programs are Java 7 without Unicode letters and form feeds, line comments end with a line break", "a parenthesised name before a sign reads as a cast", "corrupted programs are invalid Java by construction"},
		Quick:    150000,
		Thorough: 1500000,
	}, genJava, checkJava)
}
