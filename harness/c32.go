// C32: the printed listing of a program, alone and as written by the
// command-line tool, describes the program: executing the text gives the
// parse of the pattern.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

// ---- a reader and an executor of listings -------------------------------------------

type asmInsn struct {
	op   string
	b    byte
	set  [256]bool
	n    int // count, identifier or distance
	id   int
	lbl  string
	to   int
	msg  string
	fail bool
}

// asmQuoted reads a quoted character of at most one byte.
func asmQuoted(s string) (byte, string, error) {
	if s == "" || s[0] != '\'' {
		return 0, "", fmt.Errorf("no quote at %q", s)
	}
	r, _, tail, err := strconv.UnquoteChar(s[1:], '\'')
	if err != nil || r < 0 || r > 255 || tail == "" || tail[0] != '\'' {
		return 0, "", fmt.Errorf("bad character at %q", s)
	}
	return byte(r), tail[1:], nil
}

func asmSet(s string) (set [256]bool, tail string, err error) {
	if s == "" || s[0] != '{' {
		return set, "", fmt.Errorf("no set at %q", s)
	}
	s = s[1:]
	if s != "" && s[0] == '}' {
		return set, s[1:], nil
	}
	for {
		lo, t, err := asmQuoted(s)
		if err != nil {
			return set, "", err
		}
		hi := lo
		if strings.HasPrefix(t, "..") {
			if hi, t, err = asmQuoted(t[2:]); err != nil {
				return set, "", err
			}
		}
		if hi < lo {
			return set, "", fmt.Errorf("empty range in %q", s)
		}
		for b := int(lo); b <= int(hi); b++ {
			if set[b] {
				return set, "", fmt.Errorf("a byte is listed twice in %q", s)
			}
			set[b] = true
		}
		if t == "" {
			return set, "", fmt.Errorf("set without end")
		}
		if t[0] == '}' {
			return set, t[1:], nil
		}
		if t[0] != ',' {
			return set, "", fmt.Errorf("bad set at %q", t)
		}
		s = t[1:]
	}
}

// asmParse reads a listing: lines with an optional label and an instruction.
func asmParse(text string) ([]asmInsn, error) {
	var prog []asmInsn
	labels := map[string]int{}
	for _, line := range strings.Split(text, "\n") {
		// labels end in a colon, instructions are indented
		for line != "" && line[0] != '\t' {
			l, rest, ok := strings.Cut(line, ":")
			if !ok || strings.ContainsAny(l, " \t'") {
				return nil, fmt.Errorf("line %q is neither label nor instruction", line)
			}
			if _, dup := labels[l]; dup {
				return nil, fmt.Errorf("label %s is defined twice", l)
			}
			labels[l] = len(prog)
			line = rest
		}
		if line == "" {
			continue
		}
		op, arg, _ := strings.Cut(line[1:], " ")
		in := asmInsn{op: op}
		var err error
		num := func(s string) int {
			v, e := strconv.Atoi(s)
			if e != nil && err == nil {
				err = e
			}
			return v
		}
		tail := ""
		switch op {
		case "Char":
			in.b, tail, err = asmQuoted(arg)
		case "TestChar", "TestCharNoChoice":
			in.b, tail, err = asmQuoted(arg)
			in.lbl, tail = strings.TrimPrefix(tail, " "), ""
		case "Set", "Span":
			in.set, tail, err = asmSet(arg)
		case "TestSet", "TestSetNoChoice":
			in.set, tail, err = asmSet(arg)
			in.lbl, tail = strings.TrimPrefix(tail, " "), ""
		case "Any":
			in.n = num(arg)
		case "TestAny":
			a, l, _ := strings.Cut(arg, " ")
			in.n, in.lbl = num(a), l
		case "Jump", "Choice", "Call", "Commit", "PartialCommit", "BackCommit":
			in.lbl = arg
		case "MemoOpen", "MemoTreeOpen":
			l, a, _ := strings.Cut(arg, " ")
			in.lbl, in.id = l, num(a)
		case "MemoTreeClose":
			in.id = num(arg)
		case "Return", "Fail", "FailTwice", "MemoClose", "MemoTreeInsert", "MemoTree":
			tail = arg
		case "Capture":
			f := strings.Fields(arg)
			switch {
			case len(f) == 2 && f[0] == "begin":
				in.op, in.id = "CaptureBegin", num(f[1])
			case len(f) == 3 && f[0] == "late":
				in.op, in.n, in.id = "CaptureLate", num(f[1]), num(f[2])
			case len(f) == 3 && f[0] == "full":
				in.op, in.n, in.id = "CaptureFull", num(f[1]), num(f[2])
			case len(f) == 1 && f[0] == "end":
				in.op = "CaptureEnd"
			default:
				err = fmt.Errorf("bad capture")
			}
		case "Error":
			in.msg, err = strconv.Unquote(arg)
		case "Empty":
			in.msg = arg
			switch arg {
			case "BeginLine", "EndLine", "BeginText", "EndText", "WordBoundary", "NoWordBoundary":
			default:
				err = fmt.Errorf("unknown assertion")
			}
		case "End":
			if arg != "Fail" && arg != "Success" {
				err = fmt.Errorf("bad end")
			}
			in.fail = arg == "Fail"
		default:
			err = fmt.Errorf("unknown instruction")
		}
		if err != nil || tail != "" {
			return nil, fmt.Errorf("line %q of the listing: %v", line, err)
		}
		prog = append(prog, in)
	}
	for i := range prog {
		if prog[i].lbl != "" {
			to, ok := labels[prog[i].lbl]
			if !ok {
				return nil, fmt.Errorf("label %q is used and not defined", prog[i].lbl)
			}
			prog[i].to = to
		} else if strings.HasPrefix(prog[i].op, "Test") {
			return nil, fmt.Errorf("%s without a label", prog[i].op)
		}
	}
	return prog, nil
}

type asmFrame struct {
	ret   bool // return address, otherwise a backtrack entry
	ip    int
	pos   int
	nopen int
	caps  []*CapT // the list under construction when the entry was made
	open  []asmOpen
}

type asmOpen struct {
	id, start int
	caps      []*CapT // captures of the enclosing level
}

var errAsmOver = fmt.Errorf("too many steps")

// asmRun executes a listing. Captures made so far are an immutable list that
// backtracking restores.
func asmRun(prog []asmInsn, s string) (refResult, error) {
	var res refResult
	var stack []asmFrame
	var caps []*CapT
	var open []asmOpen
	pos, ip := 0, 0
	add := func(l []*CapT, c *CapT) []*CapT { return append(l[:len(l):len(l)], c) }
	choice := func(to int) { stack = append(stack, asmFrame{ip: to, pos: pos, caps: caps, open: open}) }
	isWord := func(i int) bool {
		return i >= 0 && i < len(s) && (s[i] == '_' || s[i] < 128 && (unicode.IsLetter(rune(s[i])) || unicode.IsDigit(rune(s[i]))))
	}
	for steps := 0; ; steps++ {
		if steps > 200000 {
			return res, errAsmOver
		}
		if ip >= len(prog) {
			res.Match, res.Pos, res.Caps = true, pos, caps
			return res, nil
		}
		in := &prog[ip]
		ip++
		failed := false
		switch in.op {
		case "Char":
			if failed = !(pos < len(s) && s[pos] == in.b); !failed {
				pos++
			}
		case "Set":
			if failed = !(pos < len(s) && in.set[s[pos]]); !failed {
				pos++
			}
		case "Any":
			if failed = pos+in.n > len(s); !failed {
				pos += in.n
			}
		case "Span":
			for pos < len(s) && in.set[s[pos]] {
				pos++
			}
		case "TestChar":
			if pos < len(s) && s[pos] == in.b {
				choice(in.to)
				pos++
			} else {
				ip = in.to
			}
		case "TestCharNoChoice":
			if pos < len(s) && s[pos] == in.b {
				pos++
			} else {
				ip = in.to
			}
		case "TestSet":
			if pos < len(s) && in.set[s[pos]] {
				choice(in.to)
				pos++
			} else {
				ip = in.to
			}
		case "TestSetNoChoice":
			if pos < len(s) && in.set[s[pos]] {
				pos++
			} else {
				ip = in.to
			}
		case "TestAny":
			if pos+in.n <= len(s) {
				choice(in.to)
				pos += in.n
			} else {
				ip = in.to
			}
		case "Jump":
			ip = in.to
		case "Choice":
			choice(in.to)
		case "Call":
			stack = append(stack, asmFrame{ret: true, ip: ip})
			ip = in.to
		case "Return":
			if len(stack) == 0 || !stack[len(stack)-1].ret {
				return res, fmt.Errorf("Return without a return address on the stack")
			}
			ip = stack[len(stack)-1].ip
			stack = stack[:len(stack)-1]
		case "Commit", "PartialCommit", "BackCommit", "FailTwice":
			if len(stack) == 0 || stack[len(stack)-1].ret {
				return res, fmt.Errorf("%s without a backtrack entry on the stack", in.op)
			}
			t := &stack[len(stack)-1]
			switch in.op {
			case "Commit":
				stack = stack[:len(stack)-1]
				ip = in.to
			case "PartialCommit":
				t.pos, t.caps, t.open = pos, caps, open
				ip = in.to
			case "BackCommit":
				pos = t.pos
				stack = stack[:len(stack)-1]
				ip = in.to
			case "FailTwice":
				stack = stack[:len(stack)-1]
				failed = true
			}
		case "Fail":
			failed = true
		case "CaptureBegin", "CaptureLate":
			open = append(open[:len(open):len(open)], asmOpen{id: in.id, start: pos - in.n, caps: caps})
			caps = nil
		case "CaptureFull":
			caps = add(caps, &CapT{Id: in.id, Start: pos - in.n, Len: in.n})
		case "CaptureEnd":
			if len(open) == 0 {
				return res, fmt.Errorf("capture ended and not begun")
			}
			t := open[len(open)-1]
			open = open[:len(open)-1]
			caps = add(t.caps, &CapT{Id: t.id, Start: t.start, Len: pos - t.start, Kids: caps})
		case "MemoOpen", "MemoClose", "MemoTreeOpen", "MemoTreeInsert", "MemoTree", "MemoTreeClose":
			// without a table these do nothing
		case "Error":
			res.Errs = append(res.Errs, ErrT{in.msg, pos})
		case "End":
			if in.fail {
				return res, nil
			}
			res.Match, res.Pos, res.Caps = true, pos, caps
			return res, nil
		case "Empty":
			switch in.msg {
			case "BeginLine":
				failed = !(pos == 0 || s[pos-1] == '\n')
			case "EndLine":
				failed = !(pos == len(s) || s[pos] == '\n')
			case "BeginText":
				failed = pos != 0
			case "EndText":
				failed = pos != len(s)
			case "WordBoundary":
				failed = isWord(pos-1) == isWord(pos)
			case "NoWordBoundary":
				failed = isWord(pos-1) != isWord(pos)
			}
		}
		if failed {
			for len(stack) > 0 && stack[len(stack)-1].ret {
				stack = stack[:len(stack)-1]
			}
			if len(stack) == 0 {
				return res, nil
			}
			t := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			ip, pos, caps, open = t.ip, t.pos, t.caps, t.open
		}
	}
}

// ---- the command-line tool ------------------------------------------------------------

var cliOnce sync.Once
var cliPath string

// cli returns the path of the tool, built from the repository.
func cli() string {
	cliOnce.Do(func() {
		if cliPath = os.Getenv("VERIF_CLI"); cliPath != "" {
			return
		}
		dir, err := os.MkdirTemp("", "gpegverif-cli-")
		if err != nil {
			panic(HarnessBug{err.Error()})
		}
		cliPath = filepath.Join(dir, "gpeg")
		cleanups = append(cleanups, func() { os.RemoveAll(dir) })
		if err := buildCLI(cliPath); err != nil {
			panic(HarnessBug{err.Error()})
		}
	})
	return cliPath
}

func buildCLI(path string) error {
	cmd := exec.Command("go", "build", "-o", path, "./cmd/gpeg")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("the command-line tool does not build: %v\n%s", err, out)
	}
	return nil
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// runCLI runs the tool on a text given on its standard input or as a file.
func runCLI(text string, regex, file bool) (stdout, stderr string, code int) {
	args := []string{}
	if regex {
		args = append(args, "-regex")
	}
	if file {
		f, err := os.CreateTemp("", "gpegverif-in-")
		if err != nil {
			panic(HarnessBug{err.Error()})
		}
		f.WriteString(text)
		f.Close()
		defer os.Remove(f.Name())
		args = append(args, f.Name())
	}
	cmd := exec.Command(cli(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	if !file {
		cmd.Stdin = strings.NewReader(text)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(HarnessBug{err.Error()})
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		<-done
		return so.String(), "did not end", -1
	}
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return so.String(), se.String(), code
}

// ---- the property -----------------------------------------------------------------------

type ListCase struct {
	Kind string  `json:"kind"` // pat, text, regexp, bad
	P    *P      `json:"p,omitempty"`
	Text Bs      `json:"text,omitempty"`
	Rx   *RxCase `json:"rx,omitempty"`
	In   []Bs    `json:"in"`
	CLI  bool    `json:"cli,omitempty"`
	File bool    `json:"file,omitempty"`
	Raw  bool    `json:"raw,omitempty"` // the program before optimisation
}

func genList(t *rapid.T) *ListCase {
	g := G{t}
	c := &ListCase{File: g.pct(50), CLI: g.pct(6)}
	switch g.weighted(10, 4, 3, 2) {
	case 0:
		c.Kind = "pat"
		c.CLI = false
		c.Raw = g.pct(20)
		alpha := g.pick(alphaC, alphaC, "a'\\", "\x00\x7f\x80", "\xfd\xfe\xff", "\n\t\"", "{},.-", "é")
		pg := &PG{G: g, Alpha: alpha, Caps: true, Memo: g.pct(30), Errs: g.pct(40), Gram: g.pct(50), Search: g.pct(40), EOps: g.pct(40), Words: true, OptRich: g.pct(40), Long: g.pct(10), MaxNodes: g.n(3, 50)}
		c.P = genTop(pg, g.n(1, 6))
		for i := g.n(1, 4); i > 0; i-- {
			c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 40)))
		}
	case 1:
		c.Kind = "text"
		alpha := reAlpha(g)
		c.P = notationPG(g, alpha, g.pct(20))
		c.Text = Bs(spell(g, c.P, g.pct(30), nil))
		for i := g.n(1, 4); i > 0; i-- {
			c.In = append(c.In, Bs(inputFor(g, c.P, alpha, 30)))
		}
	case 2:
		c.Kind = "regexp"
		c.Rx = genRxCase(t)
		c.Rx.Flags = int(syntax.Perl)
		c.In = c.Rx.In
	case 3:
		if g.pct(60) {
			tc := genTextCase(t)
			c.Kind, c.Text = "bad", tc.Text
		} else {
			rc := genRxText(t)
			c.Kind, c.Text = "badrx", rc.Re
		}
		c.CLI = g.pct(30)
	}
	return c
}

func checkList(c *ListCase, o *Obs) error {
	o.Class("%s", c.Kind)
	if c.CLI {
		o.Class("command-line")
	}
	where := ""
	var pat pattern.Pattern
	var err error
	text, regex := string(c.Text), false
	switch c.Kind {
	case "pat":
		where = fmt.Sprintf("pattern %s", c.P)
		pat = (&Conv{Checker: plainCheckers()}).conv(c.P)
	case "text", "bad":
		where = fmt.Sprintf("text %q", text)
		pat, err = re.Compile(text)
	case "regexp", "badrx":
		if c.Rx != nil {
			text = string(c.Rx.Re)
		}
		regex = true
		where = fmt.Sprintf("regexp %q", text)
		pat, err = rxconv.FromRegexp(text, syntax.Perl)
	}
	var listing string
	var code *vm.Code
	if err == nil {
		prog, e := pattern.Compile(pat)
		err = e
		if e == nil {
			listing = prog.String()
			cd := vm.Encode(prog)
			code = &cd
			if c.Raw {
				// the parts of a pattern have listings, too
				if raw, e := pat.Compile(); e == nil {
					listing = raw.String()
					o.Class("unoptimised")
				}
			}
		}
	}
	if err != nil && (c.Kind == "pat" || c.Kind == "text") {
		return fmt.Errorf("%s: refused: %v", where, err)
	}
	listings := []string{listing}
	if c.CLI {
		out, msg, rc := runCLI(text, regex, c.File)
		if err != nil {
			o.Class("command-line-refused")
			o.Nontrivial = true
			if rc <= 0 || out != "" || !strings.Contains(msg, strings.TrimSpace(err.Error())) && utf8.ValidString(err.Error()) || strings.Contains(msg, "goroutine ") {
				return fmt.Errorf("%s is refused (%v): the command-line tool exits with %d, output %q, message %q", where, err, rc, out, msg)
			}
			return nil
		}
		if rc != 0 || msg != "" {
			return fmt.Errorf("%s is valid: the command-line tool exits with %d, message %q", where, rc, msg)
		}
		listings = append(listings, out)
	}
	if err != nil {
		return nil
	}
	var progs [][]asmInsn
	for i, l := range listings {
		pr, err := asmParse(l)
		if err != nil {
			return fmt.Errorf("%s, listing %d: %v\n%s", where, i, err, l)
		}
		progs = append(progs, pr)
		for _, in := range pr {
			o.Class("%s", in.op)
		}
	}
	for _, s := range c.In {
		in := string(s)
		var ref refResult
		if c.P != nil {
			ref, _ = reference(c.P, in, nil)
			if ref.Over {
				o.Class("ref-budget-exceeded")
				continue
			}
		} else {
			// C22 decides whether conversions are right
			in = asciiOnly(in)
			m := &rxModel{in: in, max: 3000}
			if rx, e := syntax.Parse(text, syntax.Perl); e != nil {
				continue
			} else if _, _, ok := m.find(rx); !ok {
				continue
			}
			r := execStr(code, in, memo.NoneTable{})
			ref = refResult{Match: r.Match, Pos: r.Pos, Caps: r.Caps, Errs: r.Errs}
		}
		for i, pr := range progs {
			got, err := asmRun(pr, in)
			if err == errAsmOver {
				o.Class("too-many-steps")
				continue
			}
			o.Sub++
			if err == nil {
				r := Res{Match: got.Match, Pos: got.Pos, Caps: got.Caps, Errs: got.Errs, HasAST: got.Match}
				err = vsRef(r, ref, true, true)
			}
			if err != nil {
				return fmt.Errorf("%s on %q: executing listing %d: %v\n%s", where, in, i, err, listings[i])
			}
			if got.Match && got.Pos > 0 || len(got.Errs) > 0 {
				o.Nontrivial = true
			}
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C32",
		Rule:     "executing a listing consumed input or reported an error, or the tool refused a text",
		Assume:   []string{"programs without checkers: a listing names neither their identifiers nor their flags", "the instructions mean what the GPeg paper and the comments of package isa say"},
		Quick:    150000,
		Batch:    8000,
		Thorough: 2000000,
		CLI:      true,
	}, genList, checkList)
}
