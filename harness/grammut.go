// Development aid: "grammut ID GRAMMAR MEMO CASES SHARD SHARDS" deletes one
// alternative, predicate, repetition or sequence element of a shipped grammar
// at a time and lists the changes that the check ID does not notice in CASES
// generated cases. No check uses it.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

type grammarMutant struct {
	what string
	p    *P
}

// notationOf prints a pattern as notation text without variation.
func notationOf(p *P) string {
	par := func(s string) string { return "(" + s + ")" }
	switch p.K {
	case "alt", "seq":
		var l []string
		for _, c := range p.L {
			l = append(l, par(notationOf(c)))
		}
		if p.K == "alt" {
			return strings.Join(l, " / ")
		}
		return strings.Join(l, " ")
	case "empty":
		return "''"
	case "not":
		return "!" + par(notationOf(p.L[0]))
	case "and":
		return "&" + par(notationOf(p.L[0]))
	case "star":
		return par(notationOf(p.L[0])) + "*"
	case "plus":
		return par(notationOf(p.L[0])) + "+"
	case "opt":
		return par(notationOf(p.L[0])) + "?"
	case "any":
		return "."
	case "nt":
		return string(p.S) + " "
	case "lit", "set":
		q := [2]string{"'", "'"}
		if p.K == "set" {
			q = [2]string{"[", "]"}
		}
		s := q[0]
		neg := p.K == "set" && len(p.S) > 128
		if neg {
			s += "^"
			in := [256]bool{}
			for i := 0; i < len(p.S); i++ {
				in[p.S[i]] = true
			}
			for c := 0; c < 256; c++ {
				if !in[c] {
					s += fmt.Sprintf("\\%03o", c)
				}
			}
			return s + q[1]
		}
		for i := 0; i < len(p.S); i++ {
			s += fmt.Sprintf("\\%03o", p.S[i])
		}
		return s + q[1]
	case "memo":
		return "{{ " + notationOf(p.L[0]) + " }}"
	case "gram":
		s := ""
		for _, d := range p.Defs {
			s += d.Name + " <- " + notationOf(d.P) + "\n"
		}
		return s
	}
	panic(p.K)
}

// swaps also exchanges neighbouring alternatives (mostly without effect).
var swaps = os.Getenv("SWAPS") != ""

// grammarMutants lists the changes of p.
func grammarMutants(p *P) []grammarMutant {
	var out []grammarMutant
	var walk func(p *P, where string, put func(*P))
	var root *P
	emit := func(what string) {
		// deep copy through the printer
		text := notationOf(root)
		q, _, ok := parseNotation(text)
		if !ok {
			panic("mutant does not parse: " + text)
		}
		out = append(out, grammarMutant{what, q})
	}
	walk = func(p *P, where string, put func(*P)) {
		desc := func(q *P) string {
			s := q.String()
			if len(s) > 60 {
				s = s[:60] + "…"
			}
			return s
		}
		switch p.K {
		case "alt":
			for i := range p.L {
				l := p.L
				p.L = append(append([]*P{}, l[:i]...), l[i+1:]...)
				emit(fmt.Sprintf("%s: alternative %s deleted", where, desc(l[i])))
				p.L = l
				if i > 0 && swaps {
					p.L = append([]*P{}, l...)
					p.L[i-1], p.L[i] = p.L[i], p.L[i-1]
					emit(fmt.Sprintf("%s: alternatives %s and %s swapped", where, desc(l[i-1]), desc(l[i])))
					p.L = l
				}
			}
		case "seq":
			for i := range p.L {
				l := p.L
				p.L = append(append([]*P{}, l[:i]...), l[i+1:]...)
				emit(fmt.Sprintf("%s: element %s of sequence deleted", where, desc(l[i])))
				p.L = l
			}
		case "star":
			for _, k := range []string{"plus", "opt"} {
				p.K = k
				emit(fmt.Sprintf("%s: %s* becomes %s", where, desc(p.L[0]), k))
			}
			p.K = "star"
		case "plus":
			put(p.L[0])
			emit(fmt.Sprintf("%s: %s+ becomes one", where, desc(p.L[0])))
			put(p)
			p.K = "star"
			emit(fmt.Sprintf("%s: %s+ becomes star", where, desc(p.L[0])))
			p.K = "plus"
		case "opt":
			put(p.L[0])
			emit(fmt.Sprintf("%s: %s? becomes mandatory", where, desc(p.L[0])))
			put(p)
			p.K = "star"
			emit(fmt.Sprintf("%s: %s? becomes star", where, desc(p.L[0])))
			p.K = "opt"
		case "set":
			s := p.S
			for _, cut := range []Bs{s[1:], s[:len(s)-1]} {
				p.S = cut
				emit(fmt.Sprintf("%s: set %q becomes %q", where, s, cut))
			}
			p.S = s
		}
		for i := range p.L {
			i := i
			walk(p.L[i], where, func(q *P) { p.L[i] = q })
		}
	}
	root = p
	for i := range p.Defs {
		i := i
		walk(p.Defs[i].P, p.Defs[i].Name, func(q *P) { p.Defs[i].P = q })
	}
	return out
}

func grammut(args []string) {
	id, name, memoName := args[0], args[1], args[2]
	var cases, shard, shards int
	fmt.Sscan(args[3], &cases)
	fmt.Sscan(args[4], &shard)
	fmt.Sscan(args[5], &shards)
	text, err := os.ReadFile(filepath.Join(grammarDir(), name))
	if err != nil {
		panic(err)
	}
	p, _, ok := parseNotation(string(text))
	if !ok {
		panic("grammar does not parse")
	}
	prop := props[id]
	gen := rapid.Custom(func(t *rapid.T) *ShipCase { return prop.gen(t).(*ShipCase) })
	var cs []*ShipCase
	for i := 0; i < cases; i++ {
		cs = append(cs, gen.Example(i))
	}
	load := func(p *P) (*shipped, error) {
		s := &shipped{name: name, rule: map[int]string{}}
		ids := map[string]int{}
		text := notationOf(p)
		cp, err := re.CompileCap(text, ids)
		if err != nil {
			return nil, err
		}
		pp, err := re.Compile(text)
		if err != nil {
			return nil, err
		}
		for r, id := range ids {
			s.rule[id] = r
		}
		s.caps, s.plain = vm.Encode(pattern.MustCompile(cp)), vm.Encode(pattern.MustCompile(pp))
		return s, nil
	}
	setMaxSteps(3_000_000)
	test := func(s *shipped) (at int, err error) {
		defer func() {
			if r := recover(); r != nil {
				at = 0
			}
		}()
		shippedM[name] = s
		if memoName != "-" {
			for _, v := range strings.Split(memoName, ":") {
				shippedM[v] = s
			}
		}
		for i, c := range cs {
			d := *c
			d.Ops = nil
			if err := prop.check(&d, &Obs{}); err != nil {
				return i, err
			}
		}
		return -1, nil
	}
	s, err := load(p)
	if err != nil {
		panic(err)
	}
	if i, err := test(s); i >= 0 {
		fmt.Println("original fails:", err)
		return
	}
	ms := grammarMutants(p)
	caught := 0
	for k, m := range ms {
		if k%shards != shard {
			continue
		}
		s, err := load(m.p)
		if err != nil {
			caught++
			continue
		}
		if i, _ := test(s); i < 0 {
			fmt.Println("MISSED", m.what)
		} else {
			caught++
		}
	}
	fmt.Printf("shard %d: %d of %d changes noticed\n", shard, caught, (len(ms)+shards-1-shard)/shards)
}
