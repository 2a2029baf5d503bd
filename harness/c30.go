// C30: the shipped C grammar.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
)

var cKeywords = strings.Fields("auto break case char const continue default double do else enum extern float for goto if int inline long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Complex _Imaginary _stdcall __declspec __attribute__")

// cBadNames are keywords that stand in no declaration.
var cBadNames = strings.Fields("break case continue do else for goto if return sizeof switch while _Imaginary")

var cStarters = map[string]bool{}

var isCKeyword = map[string]bool{}

func init() {
	for _, k := range cKeywords {
		isCKeyword[k] = true
	}
	for _, k := range strings.Fields("break case char const continue do double enum extern float for goto if int long register return short signed static struct switch typedef union unsigned void while auto _Bool") {
		cStarters[k] = true
	}
}

var cLevels = []level{
	{"LogicalORExpression", []string{"||"}},
	{"LogicalANDExpression", []string{"&&"}},
	{"InclusiveORExpression", []string{"|"}},
	{"ExclusiveORExpression", []string{"^"}},
	{"ANDExpression", []string{"&"}},
	{"EqualityExpression", []string{"==", "!="}},
	{"RelationalExpression", []string{"<", ">", "<=", ">="}},
	{"ShiftExpression", []string{"<<", ">>"}},
	{"AdditiveExpression", []string{"+", "-"}},
	{"MultiplicativeExpression", []string{"*", "/", "%"}},
}

var (
	cBadLit = []string{"0x", "08", "0b1", "'\\x'", "\"\\x\"", "\"\\u12\"", "1e", "0xg", "1.5.5", "1LLL", "1uu", "1lul", "1e+", "1.5ff", "1fl", "'\\u12'", "'", "'\\'", "\"\\q\"", "0x.p1", "1.0.", "\"\n\"", "'\n'", "1lL", "1Ll", "0x1p", "1e5e5", "1.5u", "\"\\U0001234\"", "\"\\8\"", "L 'a' 'b'", "1_0", "'a' 'b'", "0x1p+", "1.5ll", "l'a'", "l\"a\"", "U'a'"}
	cBadOp  = []string{"===", "=>", "<>", "@", "$", ">>>", "^^", "%%", "<<<", "|||", "!==", "<=>", "=<", "><", "====", "..", "`", "=>="}
	cNever  = []string{"@", "`", "$", "\\", "é", "?? ??", "_Imaginary"}
)

type cGen struct {
	srcGen
	depth  int
	form   bool // structures are compared: parenthesised names and types read differently
	noName int  // token index at which no name may stand
}

func (w *cGen) word() string {
	switch w.weighted(6, 2, 2) {
	case 0:
		return w.pick("a", "b", "x", "foo", "Bar", "i1", "_y", "T", "A1", "L", "u", "e1", "size_t", "\\u00e9", "x\\U0001F600y")
	case 1:
		if w.pct(60) {
			return w.near(cKeywords, isCKeyword)
		}
		k := cKeywords[w.u(0, len(cKeywords)-1)]
		if w.pct(20) {
			return w.pick("a", "_", "Z") + k
		}
		return k + w.pick("x", "Z", "_", "0", "9", "a1", "\\u00e9")
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	b := []byte{first[w.u(0, len(first)-1)]}
	for k := w.n(0, 4); k > 0; k-- {
		b = append(b, (first + "0123456789")[w.u(0, len(first)+9)])
	}
	if isCKeyword[string(b)] {
		return "v"
	}
	return string(b)
}

func (w *cGen) id()                { w.k(w.word(), 'u') }
func (w *cGen) strict()            { w.k(w.word(), 'w') }
func (w *cGen) decl()              { w.k(w.word(), 'n') }
func (w *cGen) mark() int          { return len(w.toks) }
func (w *cGen) since(m int) string { return stripSrc(tokStr(w.toks[m:])) }

func (w *cGen) number() string {
	opt := func(p int, s string) string {
		if w.pct(p) {
			return s
		}
		return ""
	}
	dec := func() string { return w.digits(decDigits, 1, 4, false) }
	hex := func() string { return w.digits(hexDigits, 1, 4, false) }
	suf := opt(40, w.pick("u", "U", "l", "L", "ll", "LL", "ul", "uL", "UL", "ull", "uLL", "lu", "lU", "LLu", "llU", "Lu"))
	fs := opt(40, w.pick("f", "F", "l", "L"))
	exp := func() string { return w.pick("e", "E") + w.pick("", "+", "-") + dec() }
	bexp := func() string { return w.pick("p", "P") + w.pick("", "+", "-") + dec() }
	x := w.pick("0x", "0X")
	switch w.n(0, 9) {
	case 0:
		return w.digits("123456789", 1, 1, false) + opt(60, dec()) + suf
	case 1:
		return x + hex() + suf
	case 2:
		return "0" + opt(70, w.digits("01234567", 1, 4, false)) + suf
	case 3:
		return dec() + "." + opt(60, dec()) + opt(40, exp()) + fs
	case 4:
		return "." + dec() + opt(40, exp()) + fs
	case 5:
		return dec() + exp() + fs
	case 6:
		return x + hex() + bexp() + fs
	case 7:
		return x + opt(50, hex()) + "." + hex() + bexp() + fs
	case 8:
		return x + hex() + "." + bexp() + fs
	}
	return w.pick("0", "1", "42")
}

func (w *cGen) char(q string) string {
	switch w.weighted(5, 3, 1, 1, 1) {
	case 0:
		c := string(rune(w.u(0x20, 0x7e)))
		if c == q || c == "\\" {
			c = "a"
		}
		return c
	case 1:
		return "\\" + w.pick("'", "\"", "?", "\\", "a", "b", "f", "n", "r", "t", "v")
	case 2:
		return "\\" + w.digits("01234567", 1, 3, false)
	case 3:
		return "\\x" + w.digits(hexDigits, 1, 5, false)
	}
	if w.pct(30) {
		return "\\U" + w.digits(hexDigits, 8, 8, false)
	}
	return "\\u" + w.digits(hexDigits, 4, 4, false)
}

func (w *cGen) lit() {
	switch w.weighted(5, 2, 3) {
	case 0:
		w.k(w.number(), 'l')
	case 1:
		l := w.pick("", "", "L") + "'" + w.char("'")
		for w.pct(10) {
			l += w.char("'")
		}
		w.k(l+"'", 'l')
	case 2:
		l := ""
		for {
			l += w.pick("", "", "", "L") + "\""
			for k := w.n(0, 5); k > 0; k-- {
				l += w.char("\"")
			}
			l += w.pick("", "", "", "// no", "/* no", "}", "*/", "#") + "\""
			if !w.pct(15) {
				break
			}
			l += w.pick("", " ", "\n", "/* c */")
		}
		w.k(l, 'l')
	}
}

// ---- expressions

func (w *cGen) expr(d int) string { // AssignmentExpression
	w.left--
	if d > 0 && w.pct(8) {
		parts := []string{w.lhs(d)}
		for k := w.n(1, 2); k > 0; k-- {
			op := w.pick("=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=")
			w.k(op, 0)
			if k > 1 {
				parts = append(parts, op, w.lhs(d-1))
			} else {
				parts = append(parts, op, w.cond(d-1))
			}
		}
		s := parts[len(parts)-1]
		for i := len(parts) - 3; i >= 0; i -= 2 {
			s = "(" + parts[i] + " " + parts[i+1] + " " + s + ")"
		}
		return s
	}
	return w.cond(d)
}

func (w *cGen) lhs(d int) string {
	if w.pct(30) {
		w.t("*")
		return "(* " + w.postfix(d-1) + ")"
	}
	return w.postfix(d - 1)
}

// comma writes an Expression.
func (w *cGen) comma(d int) string {
	s := w.expr(d)
	p := 8
	l := s
	for w.pct(p) {
		w.k(",", 'o')
		l += " , " + w.expr(d-1)
		p = 40
	}
	if l != s {
		return "(" + l + ")"
	}
	return s
}

func (w *cGen) cond(d int) string {
	c := w.bin(0, d)
	if d <= 0 || !w.pct(8) {
		return c
	}
	parts := []string{c}
	for k := w.n(1, 2); k > 0; k-- {
		w.t("?")
		e := w.comma(d - 1)
		w.t(":")
		parts = append(parts, "?", e, ":", w.bin(0, d-1))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (w *cGen) bin(l, d int) string {
	if l == len(cLevels) {
		return w.unary(d)
	}
	if d <= 0 || w.left <= 0 {
		return w.bin(len(cLevels), d)
	}
	if w.pct(30) {
		return w.bin(min(len(cLevels), l+1+w.n(0, 9)), d)
	}
	parts := []string{w.bin(l+1, d-1)}
	for w.pct(22) && len(parts) < 7 {
		op := cLevels[l].ops[w.u(0, len(cLevels[l].ops)-1)]
		w.k(op, 'o')
		parts = append(parts, op, w.bin(l+1, d-1))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (w *cGen) unary(d int) string {
	if d > 0 {
		switch w.weighted(16, 3, 1, 1, 1) {
		case 1:
			op := w.pick("-", "+", "!", "~", "&", "*")
			w.t(op)
			return "(" + op + " " + w.unary(d-1) + ")"
		case 2:
			op := w.pick("++", "--")
			w.t(op)
			return "(" + op + " " + w.postfix(d-1) + ")"
		case 3:
			w.t("sizeof")
			if w.pct(50) {
				m := w.mark()
				w.t("(")
				w.typeName(d-1, true)
				w.t(")")
				return "(sizeof " + w.since(m) + ")"
			}
			return "(sizeof " + w.postfix(d-1) + ")"
		case 4:
			w.t("(")
			m := w.mark()
			w.typeName(d-1, w.form)
			ty := w.since(m)
			w.t(")")
			return "(cast " + ty + " " + w.unary(d-1) + ")"
		}
	}
	return w.postfix(d)
}

func (w *cGen) args(d int) {
	w.t("(")
	for k := w.n(0, 3); k > 0; k-- {
		w.expr(d - 1)
		if k > 1 {
			w.t(",")
		}
	}
	w.t(")")
}

func (w *cGen) postfix(d int) string {
	m := w.mark()
	pre := ""
	switch k := w.weighted(6, 4, 3, 1); {
	case k == 2 && d > 0 && w.depth < 3 && w.left > 0:
		w.depth++
		w.t("(")
		if w.form {
			w.noName = len(w.toks)
		}
		s := w.comma(d - 1)
		w.t(")")
		w.depth--
		pre = "[" + s + "]"
		m = w.mark()
	case k == 3 && d > 0 && w.depth < 3 && w.left > 0:
		// compound literal
		w.depth++
		w.t("(")
		w.typeName(d-1, w.form)
		w.t(")")
		w.braces(d - 1)
		w.depth--
	case k == 0 && len(w.toks) != w.noName:
		w.id()
	default:
		w.lit()
	}
	for d > 0 && w.left > 0 && w.pct(20) {
		w.left--
		switch w.n(0, 4) {
		case 0:
			w.args(d)
		case 1:
			w.t("[")
			w.comma(d - 1)
			w.t("]")
		case 2:
			w.t(w.pick(".", "->"))
			w.strict()
		case 3:
			w.t(w.pick("++", "--"))
		case 4:
			w.t(".")
			w.strict()
		}
	}
	return pre + w.since(m)
}

// braces writes an initializer list.
func (w *cGen) braces(d int) {
	w.t("{")
	n := w.n(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		if w.pct(25) {
			for ok := true; ok; ok = w.pct(25) {
				if w.pct(50) {
					w.t(".")
					w.strict()
				} else {
					w.t("[")
					w.cond(1)
					w.t("]")
				}
			}
			w.t("=")
		}
		w.initializer(d - 1)
	}
	if w.pct(20) {
		w.t(",")
	}
	w.t("}")
}

func (w *cGen) initializer(d int) {
	if d > 0 && w.pct(20) {
		w.braces(d)
		return
	}
	w.expr(d)
}

// ---- declarations

func (w *cGen) quals() {
	for w.pct(12) {
		if w.pct(10) {
			w.t("__declspec", "(")
			w.id()
			w.t(")")
		} else {
			w.t(w.pick("const", "volatile", "restrict"))
		}
	}
}

// typeSpec writes type specifiers; with key they start with a keyword.
func (w *cGen) typeSpec(d int, key bool, extra func()) {
	extra()
	switch w.weighted(8, 4, 2, 1) {
	case 0:
		for i, s := range strings.Fields(w.pick("int", "char", "void", "unsigned", "short", "long", "float", "double", "signed char", "unsigned long long int", "long double", "_Bool", "double _Complex", "int long unsigned", "short int", "signed")) {
			if i > 0 {
				extra()
			}
			w.t(s)
		}
	case 1:
		if key {
			w.t("int")
		} else {
			w.id()
		}
	case 2:
		w.t(w.pick("struct", "union"))
		if d <= 0 || w.depth > 2 || w.left <= 0 || w.pct(40) {
			w.id()
		} else {
			if w.pct(50) {
				w.decl()
			}
			w.structBody(d)
		}
	case 3:
		w.t("enum")
		if d <= 0 || w.pct(40) {
			w.id()
		} else {
			if w.pct(50) {
				w.decl()
			}
			w.t("{")
			n := w.n(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					w.t(",")
				}
				w.strict()
				if w.pct(30) {
					w.t("=")
					w.cond(1)
				}
			}
			if w.pct(20) {
				w.t(",")
			}
			w.t("}")
		}
	}
	extra()
}

func (w *cGen) structBody(d int) {
	w.depth++
	w.t("{")
	for k := w.n(0, 3); k > 0; k-- {
		w.left -= 2
		if w.pct(5) {
			w.t(";")
			continue
		}
		w.typeSpec(d-1, false, w.quals)
		n := w.n(0, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.t(",")
			}
			bits := w.pct(25)
			if !bits || w.pct(70) {
				w.declarator(1)
			}
			if bits {
				m := w.mark()
				w.t(":")
				w.cond(1)
				w.once(m)
			}
		}
		if n > 0 {
			w.semi()
		} else {
			w.t(";")
		}
	}
	w.t("}")
	w.depth--
}

func (w *cGen) specs(d int, storage bool) {
	w.typeSpec(d, false, func() {
		w.quals()
		if storage && w.pct(12) {
			switch w.n(0, 7) {
			case 5:
				w.t("inline")
			case 6:
				w.t("_stdcall")
			case 7:
				w.k("__attribute__(("+w.pick("packed", "", "noreturn", "aligned , x", "a{b")+"))", 'x')
			default:
				w.t(w.pick("typedef", "extern", "static", "auto", "register"))
			}
		}
	})
}

func (w *cGen) pointer() {
	for w.pct(20) {
		w.t("*")
		w.quals()
	}
}

func (w *cGen) declarator(d int) {
	w.pointer()
	if d > 0 && w.pct(10) {
		w.t("(")
		w.declarator(d - 1)
		w.t(")")
	} else {
		w.decl()
	}
	for d > 0 && w.pct(15) {
		w.suffix(d, false)
	}
}

func (w *cGen) suffix(d int, abstract bool) {
	if w.pct(50) {
		w.params(d - 1)
		return
	}
	w.t("[")
	switch k := w.n(0, 5); {
	case k == 0:
	case k == 1:
		w.t("*")
	case abstract || k == 2:
		w.expr(1)
	case k == 3:
		w.quals()
		if w.pct(50) {
			w.expr(1)
		} else if w.pct(50) {
			w.t("*")
		}
	default:
		m := w.mark()
		if w.pct(50) {
			w.t("static")
			w.once(m)
			w.quals()
		} else {
			w.t(w.pick("const", "restrict"))
			w.quals()
			m = w.mark()
			w.t("static")
			w.once(m)
		}
		w.expr(1)
	}
	w.t("]")
}

func (w *cGen) params(d int) {
	w.depth++
	defer func() { w.depth-- }()
	w.t("(")
	switch w.n(0, 5) {
	case 0:
	case 1:
		w.t("void")
	case 2:
		n := w.n(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.t(",")
			}
			w.id()
		}
	default:
		n := w.n(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.t(",")
			}
			w.specs(0, w.pct(20))
			switch w.n(0, 3) {
			case 0, 1:
				w.declarator(d)
			case 2:
				w.abstract(d)
			}
		}
		if w.pct(12) {
			m := w.mark()
			w.t(",", "...")
			w.once(m)
		}
	}
	w.t(")")
}

// abstract writes an abstract declarator, possibly nothing.
func (w *cGen) abstract(d int) {
	w.pointer()
	if d > 0 && w.depth < 4 && w.pct(15) {
		w.depth++
		w.t("(")
		w.t("*")
		w.abstract(d - 1)
		w.t(")")
		w.depth--
		if w.pct(50) {
			w.suffix(d-1, true)
		}
		return
	}
	for d > 0 && w.pct(12) {
		w.suffix(d-1, true)
	}
}

func (w *cGen) typeName(d int, key bool) {
	w.typeSpec(min(d, 1), key, w.quals)
	w.abstract(d)
}

func (w *cGen) declaration(d int) {
	w.specs(2, true)
	n := w.n(0, 3)
	if n == 0 && w.pct(60) {
		n = 1
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		w.declarator(2)
		if w.pct(40) {
			w.t("=")
			w.initializer(d)
		}
	}
	if n > 0 {
		w.semi()
	} else {
		w.t(";")
	}
}

func (w *cGen) function() {
	w.specs(1, true)
	w.pointer()
	w.decl()
	if w.pct(10) {
		// old style
		w.t("(")
		n := w.n(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.t(",")
			}
			w.id()
		}
		w.t(")")
		for i := 0; i < n; i++ {
			w.specs(0, false)
			w.declarator(1)
			w.semi()
		}
	} else {
		w.params(2)
	}
	w.block(3)
}

// ---- statements

func (w *cGen) block(d int) {
	w.t("{")
	for k := w.n(0, 4); k > 0 && w.left > 0; k-- {
		if w.pct(35) {
			w.left -= 2
			w.declaration(2)
		} else {
			w.stmt(d)
		}
	}
	w.t("}")
}

func (w *cGen) par() {
	w.t("(")
	w.comma(2)
	w.t(")")
}

func (w *cGen) opt() {
	if w.pct(60) {
		w.comma(2)
	}
}

func (w *cGen) stmt(d int) {
	w.left--
	if d <= 0 || w.left <= 0 {
		if w.pct(20) {
			w.t(";")
		} else {
			w.id()
			w.args(1)
			w.semi()
		}
		return
	}
	switch w.n(0, 14) {
	case 0, 1, 2:
		w.comma(3)
		w.semi()
	case 3:
		w.t(";")
	case 4:
		w.block(d - 1)
	case 5:
		w.t("if")
		w.par()
		w.stmt(d - 1)
		if w.pct(40) {
			w.t("else")
			w.stmt(d - 1)
		}
	case 6:
		w.t("switch")
		w.par()
		w.stmt(d - 1)
	case 7:
		w.t("while")
		w.par()
		w.stmt(d - 1)
	case 8:
		w.t("do")
		w.stmt(d - 1)
		w.t("while")
		w.par()
		w.semi()
	case 9:
		w.t("for", "(")
		if w.pct(40) {
			w.declaration(1)
		} else {
			w.opt()
			w.t(";")
		}
		w.opt()
		w.t(";")
		w.opt()
		w.t(")")
		w.stmt(d - 1)
	case 10:
		w.decl()
		w.t(":")
		w.stmt(d - 1)
	case 11:
		if w.pct(30) {
			w.t("default")
		} else {
			w.t("case")
			w.cond(1)
		}
		w.t(":")
		w.stmt(d - 1)
	case 12:
		w.t("goto")
		m := w.mark()
		w.strict()
		w.once(m)
		w.semi()
	case 13:
		m := w.mark()
		w.t(w.pick("break", "continue"))
		w.once(m)
		w.semi()
	case 14:
		w.t("return")
		w.opt()
		w.semi()
	}
}

func (w *cGen) unit() {
	for k := w.n(0, 4); k > 0; k-- {
		switch w.weighted(4, 4, 1) {
		case 0:
			w.declaration(3)
		case 1:
			w.function()
		case 2:
			w.t(";")
		}
	}
}

var cToks = []string{"{", "}", "(", ")", "[", "]", ";", ",", "int", "struct", "x", " ", "\n", "/*", "*/", "//", "\"", "'", "1", ".5", "+", "++", ">>", ">", "<", "=", "==", "?", ":", "...", "return", "#", "static ", "int x;", "void f() { }", "x = 1;", "{ }", "/* c */", "a + ", " * b", "if (x) y();", ".z", "()", "->", "const ", "abc", "\\", "L", "T "}

func cEdits(g G, c *ShipCase) {
	n := len(c.Text)
	for k := g.n(0, 4); k > 0; k-- {
		e := EditOp{S: g.u(0, n), D: g.n(0, 6)}
		if g.pct(30) {
			v := &cGen{srcGen: srcGen{G: g, left: 8}, noName: -1}
			switch g.n(0, 2) {
			case 0:
				v.stmt(2)
			case 1:
				v.declaration(1)
			case 2:
				v.expr(2)
			}
			e.T = Bs(" " + v.join(v.toks) + " ")
		} else if g.pct(70) {
			e.T = Bs(cToks[g.u(0, len(cToks)-1)])
		}
		c.Ops = append(c.Ops, e)
		n = max(0, n-e.D) + len(e.T)
	}
}

// deepest gives the largest nesting of brackets in a text. The grammar, as
// published, tries a parenthesis as a type and as an expression, which takes
// time exponential in the nesting.
func deepest(s string) int {
	d, m := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
			m = max(m, d)
		case ')', ']':
			d--
		case '{', '}', ';':
		}
	}
	return m
}

func genC(t *rapid.T) *ShipCase {
	g := G{t}
	c := &ShipCase{Lang: "c", Want: 1}
	w := &cGen{srcGen: srcGen{G: g, left: g.n(2, 40)}, noName: -1}
	if g.pct(35) {
		w.form = true
		w.t("int", "x", "=")
		w.left = g.n(2, 30)
		c.Tree = w.expr(g.n(1, 6))
		w.semi()
	} else {
		w.unit()
	}
	ts := w.toks
	if g.pct(35) {
		if bad, how := w.corrupt(cBadNames, cKeywords, cNever, cBadLit, cBadOp, cStarters); how != "" {
			ts, c.Mut, c.Want, c.Tree = bad, how, -1, ""
		}
	}
	c.Text = Bs(w.join(ts))
	if c.Want == 1 {
		for _, t := range ts {
			if t.k == 'x' {
				c.Toks = append(c.Toks, Bs("__attribute__"), Bs("("), Bs("("), Bs(")"), Bs(")"))
				continue
			}
			c.Toks = append(c.Toks, Bs(t.s))
		}
		if g.pct(10) {
			c.Text = Bs(g.pick("#pragma x (\n", "# 1 \"f.c\"\n", "#\n", "#define A {\n")) + c.Text
		}
		if g.pct(10) {
			c.Text += Bs(g.pick("// end", "\n#endif", "/* end */", "\n# \"", "//"))
		}
	}
	if c.Want == 1 && g.pct(25) {
		c.Toks = nil
		c.Text = Bs(mutateDoc(g, string(c.Text), cToks, "{}();=+ab1 \n\"'/*<>#"))
		c.Want, c.Mut, c.Tree = 0, "mutated", ""
	}
	c.Th = thresholds[g.n(0, 8)]
	if g.pct(50) {
		cEdits(g, c)
	}
	return c
}

// cUnary gives the structure of a cast, unary or postfix expression.
func cUnary(f *exprForm, n *RNode) (string, error) {
	ks := f.kids(n)
	rest := func(i int) string { return stripSrc(f.text[ks[i].Start:n.End]) }
	switch n.Rule {
	case "CastExpression":
		if len(ks) == 4 && ks[0].Rule == "LPAR" && ks[1].Rule == "TypeName" {
			s, err := f.of(ks[3])
			return "(cast " + f.raw(ks[1]) + " " + s + ")", err
		}
		if len(ks) == 1 {
			return f.of(ks[0])
		}
	case "UnaryExpression":
		if len(ks) == 0 {
			break
		}
		switch ks[0].Rule {
		case "PostfixExpression":
			return f.of(ks[0])
		case "UnaryOperator", "INC", "DEC":
			if len(ks) == 2 {
				s, err := f.of(ks[1])
				return "(" + f.raw(ks[0]) + " " + s + ")", err
			}
		case "SIZEOF":
			if len(ks) == 2 {
				s, err := f.of(ks[1])
				return "(sizeof " + s + ")", err
			}
			if len(ks) == 4 {
				return "(sizeof " + rest(1) + ")", nil
			}
		}
	case "PostfixExpression":
		if len(ks) > 0 && ks[0].Rule == "PrimaryExpression" {
			if p := f.kids(ks[0]); len(p) == 3 && p[0].Rule == "LPAR" && p[1].Rule == "Expression" {
				s, err := f.of(p[1])
				return "[" + s + "]" + stripSrc(f.text[ks[0].End:n.End]), err
			}
		}
		return f.raw(n), nil
	}
	return "", fmt.Errorf("unexpected %s %q", n.Rule, f.raw(n))
}

func cForm(text string, tree []*RNode) (string, error) {
	f := &exprForm{text: text, levels: map[string]bool{"Expression": true, "ConditionalExpression": true, "AssignmentExpression": true}, skip: map[string]bool{"Spacing": true}, unary: cUnary}
	for _, l := range cLevels {
		f.levels[l.rule] = true
	}
	v := findRule(tree, "Initializer")
	if v == nil || len(v.Kids) != 1 || v.Kids[0].Rule != "AssignmentExpression" {
		return "", fmt.Errorf("no initializer")
	}
	return f.of(v.Kids[0])
}

func cTok(n *RNode) bool {
	switch n.Rule {
	case "Identifier", "FloatConstant", "IntegerConstant", "CharacterConstant", "StringLiteral":
		return true
	case "EOT":
		return false
	}
	return strings.ToUpper(n.Rule) == n.Rule
}

// cMemos are the sets of rules that are memoized for the incremental parses.
var cMemos = []string{"c.peg+ExternalDeclaration", "c.peg+ExternalDeclaration,Statement,Declaration", "c.peg+Statement,Expression,Declarator,Initializer,Spacing", "c.peg+AssignmentExpression,UnaryExpression,TypeName,DeclarationSpecifiers,Identifier"}

func checkC(c *ShipCase, o *Obs) error {
	text := string(c.Text)
	if deepest(text) > 9 {
		o.Class("skipped: deep")
		return nil
	}
	variant := cMemos[(c.Th%len(cMemos)+len(cMemos)+len(text))%len(cMemos)]
	m, n, tree, err := parseBoth("c.peg", variant, text, c.Th, o)
	if err != nil {
		return err
	}
	if c.Mut != "" {
		o.Class("%s", c.Mut)
	}
	if m && n != len(text) {
		return fmt.Errorf("C text %q: accepted up to %d of %d", text, n, len(text))
	}
	switch {
	case c.Want == 1 && !m:
		return fmt.Errorf("C text %q is rejected", text)
	case c.Want == -1 && m:
		return fmt.Errorf("C text %q (%s) is accepted", text, c.Mut)
	}
	if c.Toks != nil && m {
		if err := sameToks(c.Toks, tree, text, cTok); err != nil {
			return fmt.Errorf("C text %q: %v", text, err)
		}
	}
	o.Class("accept=%v", m)
	if len(text) > 12 {
		o.Nontrivial = true
	}
	if c.Tree != "" {
		got, err := cForm(text, tree)
		if err != nil || got != c.Tree {
			return fmt.Errorf("C text %q: the initializer has the structure %s (%v), want %s", text, got, err, c.Tree)
		}
		o.Class("structure")
	}
	if len(c.Ops) == 0 {
		return nil
	}
	sp, _ := ship("c.peg")
	sm, _ := ship(variant)
	tbl := memo.NewTreeTable(c.Th)
	if _, _, _, err := sm.parse(text, tbl); err != nil {
		return err
	}
	for i := range c.Ops {
		var e memo.Edit
		text, e = c.Ops[i].apply(text)
		tbl.ApplyEdit(e)
		if deepest(text) > 9 {
			return nil
		}
		m, n, tree, err := sp.parse(text, memo.NoneTable{})
		if err != nil {
			return err
		}
		im, in, it, err := sm.parse(text, tbl)
		if err != nil {
			return err
		}
		if im != m || m && in != n || !nodesEq(it, tree) {
			return fmt.Errorf("C text %q after %d edits of %q with %s and threshold %d: incremental parse %v %d, direct parse %v %d, %s", text, i+1, string(c.Text), variant, c.Th, im, in, m, n, nodesDiff(it, tree))
		}
		o.Class("edit-accept=%v", m)
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C30",
		Rule:     "texts of more than 12 bytes",
		Assume:   []string{"every identifier may name a type, as the grammar file says: structures are compared only where a parenthesis cannot be read both ways", "brackets nested more than 9 deep are skipped: the grammar takes time exponential in the nesting", "corrupted programs are invalid C by construction", "the memoized variants are c.peg with some rules wrapped in {{ }} by the harness"},
		Quick:    120000,
		Thorough: 1500000,
	}, genC, checkC)
}
