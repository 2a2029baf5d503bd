// C35: patterns are values. A history builds patterns out of earlier ones,
// compiles, walks, prints and optimises them in any order; every pattern keeps
// the meaning it was built with.
package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// PoolOp is one step. Operands index the patterns built so far, modulo their
// number.
type PoolOp struct {
	K     string   `json:"k"`
	A     []int    `json:"a,omitempty"`
	N     int      `json:"n,omitempty"`
	S     Bs       `json:"s,omitempty"`
	P     *P       `json:"p,omitempty"`
	Names []string `json:"names,omitempty"`
}

type PoolCase struct {
	Ops []PoolOp `json:"ops"`
	In  []Bs     `json:"in"`
}

type poolEntry struct {
	pat    pattern.Pattern
	p      *P
	visits map[pattern.Pattern]int
	count  int
	pretty string
	uses   int
}

type poolProg struct {
	code *vm.Code
	ent  int
	step int
}

var poolNames = []string{"A", "B", "C", "D"}

const poolMax = 220 // most model nodes in a pattern

// poolModel builds the model of an operation from the models of its operands;
// nil if the operation does not apply.
func poolModel(op *PoolOp, at func(i int) *P) *P {
	var l []*P
	n := 1
	for _, a := range op.A {
		q := at(a)
		if q == nil {
			return nil
		}
		l = append(l, q)
		n += q.size()
	}
	need := 1
	var p *P
	switch op.K {
	case "leaf", "re":
		return op.P
	case "seq", "alt":
		need = 0
		p = &P{K: op.K, L: l}
	case "star", "plus":
		if len(l) > 0 && mayNull(l[0]) {
			return nil
		}
		if op.K == "plus" {
			n *= 2
		}
		p = &P{K: op.K, L: l}
	case "opt", "not", "and", "search":
		p = &P{K: op.K, L: l}
	case "cap", "memo":
		p = &P{K: op.K, L: l, N: op.N}
	case "check":
		p = &P{K: op.K, L: l, N: op.N, Id: 1}
	case "rep":
		n *= max(op.N, 1)
		p = &P{K: "rep", N: op.N, L: l}
	case "err":
		p = &P{K: "err", S: op.S, L: l}
	case "gram", "capgram":
		need = 0
		p = &P{K: "gram", S: op.S}
		for i, name := range op.Names {
			if i >= len(l) {
				break
			}
			p.Defs = append(p.Defs, Def{name, l[i]})
		}
		if len(p.Defs) == 0 {
			return nil
		}
	case "get":
		if len(l) > 0 {
			p = l[0]
		}
	default:
		return nil
	}
	if len(l) < need || n > poolMax || p == nil {
		return nil
	}
	return p
}

func genPoolCase(t *rapid.T) *PoolCase {
	g := G{t}
	alpha := genAlpha(g)
	c := &PoolCase{}
	var pool []*P
	pg := &PG{G: g, Alpha: alpha, Caps: true, Search: true, OptRich: g.pct(40), CapW: 8}
	at := func(i int) *P {
		if len(pool) == 0 {
			return nil
		}
		return pool[i%len(pool)]
	}
	idx := func() int {
		// recent ones more often
		if g.pct(50) {
			return len(pool) - 1 - g.n(0, len(pool)-1)
		}
		return g.u(0, len(pool)-1)
	}
	add := func(op PoolOp) {
		p := poolModel(&op, at)
		switch op.K {
		case "compile", "walk", "print":
			c.Ops = append(c.Ops, op)
			return
		}
		if p == nil {
			return
		}
		c.Ops = append(c.Ops, op)
		pool = append(pool, p)
	}
	for k := g.n(2, 5); k > 0; k-- {
		pg.nodes, pg.MaxNodes = 0, g.n(1, 6)
		add(PoolOp{K: "leaf", P: pg.gen(g.n(0, 2), g.pct(70), false)})
	}
	for k := g.n(0, 3); k > 0; k-- {
		add(PoolOp{K: "leaf", P: pNT(poolNames[g.n(0, 3)])})
	}
	steps := g.n(3, 30)
	for k := 0; k < steps; k++ {
		switch g.weighted(6, 5, 5, 3, 2, 5, 6, 2, 2, 2, 2) {
		case 0:
			op := PoolOp{K: "seq"}
			for j := g.n(0, 4); j >= 0; j-- {
				op.A = append(op.A, idx())
			}
			add(op)
		case 1:
			op := PoolOp{K: "alt"}
			for j := g.n(0, 4); j >= 0; j-- {
				op.A = append(op.A, idx())
			}
			add(op)
		case 2:
			add(PoolOp{K: g.pick("star", "plus", "opt", "not", "and", "search"), A: []int{idx()}})
		case 3:
			add(PoolOp{K: "cap", N: g.n(1, 9), A: []int{idx()}})
		case 4:
			add(PoolOp{K: "rep", N: g.n(0, 4), A: []int{idx()}})
		case 5:
			op := PoolOp{K: g.pick("gram", "gram", "capgram")}
			n := g.n(1, 3)
			for j := 0; j < n; j++ {
				op.Names = append(op.Names, poolNames[j])
				op.A = append(op.A, idx())
			}
			op.S = Bs(poolNames[g.n(0, n-1)])
			add(op)
		case 6:
			add(PoolOp{K: "compile", A: []int{idx()}, N: []int{100, 100, 0, 2, 8, 30}[g.n(0, 5)]})
		case 7:
			add(PoolOp{K: g.pick("walk", "print"), A: []int{idx()}})
		case 8:
			add(PoolOp{K: "get", A: []int{idx()}})
		case 9:
			if g.pct(40) {
				p := notationPG(g, alpha, false)
				if p.size() <= 40 {
					add(PoolOp{K: "re", P: p, S: Bs(spell(g, p, true, nil))})
				}
			} else if g.pct(40) {
				add(PoolOp{K: "check", N: ckEven, A: []int{idx()}})
			} else {
				add(PoolOp{K: "memo", N: memoBase + k, A: []int{idx()}})
			}
		case 10:
			op := PoolOp{K: "err", S: g.errMsg()}
			if g.pct(85) {
				op.A = []int{idx()}
			}
			add(op)
		}
	}
	for k := g.n(1, 3); k > 0; k-- {
		c.In = append(c.In, Bs(inputFor(g, pool[len(pool)-1-g.n(0, len(pool)-1)], alpha, 24)))
	}
	c.In = append(c.In, Bs(g.str(alpha, 0, 8)))
	return c
}

func visitsOf(p pattern.Pattern) (map[pattern.Pattern]int, int) {
	m := map[pattern.Pattern]int{}
	n := 0
	pattern.WalkPattern(p, true, func(s pattern.Pattern) {
		m[s]++
		n++
	})
	return m, n
}

// prettyOf is the printed form; the rules of a grammar are printed in any
// order.
func prettyOf(p pattern.Pattern) string {
	b := []byte(pattern.Prettify(p))
	if strings.Contains(string(b), " <- ") {
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	}
	return string(b)
}

func checkPool(c *PoolCase, o *Obs) error {
	var pool []*poolEntry
	var progs []poolProg
	refs := map[*P]map[string]refResult{}
	cv := &Conv{Checker: plainCheckers()}

	// unchanged: the objects are as they were when they were built.
	unchanged := func(i, step int, why string) error {
		e := pool[i]
		v, n := visitsOf(e.pat)
		if k := pattern.CountSubPatterns(e.pat); k != n {
			return fmt.Errorf("step %d (%s): %d sub-patterns are counted in %s, %d are visited", step, why, k, e.p, n)
		}
		if n != e.count {
			return fmt.Errorf("step %d (%s): pattern %d, %s, had %d sub-patterns and has %d", step, why, i, e.p, e.count, n)
		}
		for s, k := range e.visits {
			if v[s] != k {
				return fmt.Errorf("step %d (%s): a sub-pattern (%T) of pattern %d, %s, was visited %d times and is visited %d times", step, why, s, i, e.p, k, v[s])
			}
		}
		if s := prettyOf(e.pat); s != e.pretty {
			return fmt.Errorf("step %d (%s): pattern %d, %s, was printed as %q and is printed as %q", step, why, i, e.p, clip35(e.pretty), clip35(s))
		}
		return nil
	}
	run := func(pr poolProg, why string) error {
		p := pool[pr.ent].p
		for _, in := range c.In {
			m := refs[p]
			if m == nil {
				m = map[string]refResult{}
				refs[p] = m
			}
			ref, ok := m[string(in)]
			if !ok {
				var it *Interp
				ref, it = reference(p, string(in), nil)
				m[string(in)] = ref
				if !ref.Over && it.backtracks+it.loops+it.calls+it.predicates > 0 && pool[pr.ent].uses > 1 {
					o.Nontrivial = true
				}
			}
			if ref.Over {
				o.Class("ref-budget-exceeded")
				continue
			}
			o.Sub++
			var tbl memo.Table = memo.NoneTable{}
			if p.has("memo") {
				tbl = memo.NewTreeTable(0)
			}
			if err := vsRef(execStr(pr.code, string(in), tbl), ref, true, true); err != nil {
				return fmt.Errorf("%s: pattern %d, %s, compiled at step %d, on %q: %v", why, pr.ent, p, pr.step, string(in), err)
			}
			if ref.Match && ref.Pos > 0 {
				o.Class("match")
			}
		}
		return nil
	}
	compile := func(i, th, step int) error {
		e := pool[i]
		var err error
		var code *vm.Code
		withThreshold(th, func() {
			prog, e2 := pattern.Compile(e.pat)
			if err = e2; err == nil {
				k := vm.Encode(prog)
				code = &k
			}
		})
		all := unresolved(e.p)
		if err != nil {
			o.Class("rejected")
			if len(all) == 0 {
				return fmt.Errorf("step %d: every use in pattern %d, %s, is defined, but compilation says %v", step, i, e.p, err)
			}
			return nil
		}
		if len(all) > 0 {
			if must := reachableUnresolved(e.p); len(must) > 0 {
				return fmt.Errorf("step %d: pattern %d, %s, compiles although %v are not defined", step, i, e.p, keysOf(must))
			}
			o.Class("unreachable-undefined")
			return nil
		}
		pr := poolProg{code, i, step}
		if err := run(pr, fmt.Sprintf("step %d", step)); err != nil {
			return err
		}
		for _, q := range progs {
			if q.ent == i {
				o.Class("compiled-again")
			}
		}
		progs = append(progs, pr)
		return nil
	}

	at := func(i int) *P {
		if len(pool) == 0 {
			return nil
		}
		return pool[i%len(pool)].p
	}
	for step := range c.Ops {
		op := &c.Ops[step]
		switch op.K {
		case "compile", "walk", "print":
			if len(op.A) == 0 || len(pool) == 0 {
				continue
			}
			i := op.A[0] % len(pool)
			var err error
			switch op.K {
			case "compile":
				if err = compile(i, op.N, step); err == nil {
					err = unchanged(i, step, "compiled")
				}
			case "walk", "print":
				err = unchanged(i, step, op.K)
			}
			if err != nil {
				return err
			}
			continue
		}
		model := poolModel(op, at)
		if model == nil {
			continue
		}
		var args []pattern.Pattern
		for _, a := range op.A {
			e := pool[a%len(pool)]
			e.uses++
			if e.uses > 1 {
				o.Class("reused")
			}
			args = append(args, e.pat)
		}
		keep := append([]pattern.Pattern(nil), args...)
		defs := map[string]pattern.Pattern{}
		var pat pattern.Pattern
		switch op.K {
		case "leaf":
			pat = cv.conv(op.P)
		case "re":
			var err error
			pat, err = re.Compile(string(op.S))
			if err != nil {
				return fmt.Errorf("step %d: text %q is refused: %v", step, string(op.S), err)
			}
			o.Class("notation")
		case "seq":
			pat = pattern.Concat(args...)
		case "alt":
			pat = pattern.Or(args...)
		case "star":
			pat = pattern.Star(args[0])
		case "plus":
			pat = pattern.Plus(args[0])
		case "opt":
			pat = pattern.Optional(args[0])
		case "not":
			pat = pattern.Not(args[0])
		case "and":
			pat = pattern.And(args[0])
		case "search":
			pat = pattern.Search(args[0])
		case "cap":
			pat = pattern.Cap(args[0], op.N)
		case "memo":
			pat = pattern.MemoId(args[0], op.N)
		case "check":
			pat = pattern.CheckFlags(args[0], cv.Checker(&P{K: "check", N: op.N}), 1, 0)
		case "rep":
			pat = pattern.Repeat(args[0], op.N)
		case "err":
			var r pattern.Pattern
			if len(args) > 0 {
				r = args[0]
			}
			pat = pattern.Error(string(op.S), r)
		case "gram", "capgram":
			for i, d := range model.Defs {
				defs[d.Name] = args[i]
			}
			given := map[string]pattern.Pattern{}
			for k, v := range defs {
				given[k] = v
			}
			if op.K == "gram" {
				pat = pattern.Grammar(string(op.S), given)
			} else {
				ids := map[string]int{}
				pat = pattern.CapGrammar(string(op.S), given, ids)
				seen := map[int]bool{}
				for _, d := range model.Defs {
					id, ok := ids[d.Name]
					if !ok || seen[id] || len(ids) != len(model.Defs) {
						return fmt.Errorf("step %d: the rules of %s are given the identifiers %v", step, model, ids)
					}
					seen[id] = true
				}
				model = capRules(model, ids)
				o.Class("rules-captured")
			}
			if len(given) != len(defs) {
				return fmt.Errorf("step %d: the caller's map of rules of %s has %d rules instead of %d", step, model, len(given), len(defs))
			}
			for k, v := range defs {
				if given[k] != v {
					return fmt.Errorf("step %d: rule %s of the caller's map of %s was replaced", step, k, model)
				}
			}
		case "get":
			pat = pattern.Get(args[0])
			o.Class("optimised")
		}
		for i, a := range args {
			if a != keep[i] {
				return fmt.Errorf("step %d: operand %d of the caller's list for %s was replaced", step, i, model)
			}
		}
		e := &poolEntry{pat: pat, p: model, pretty: prettyOf(pat)}
		e.visits, e.count = visitsOf(pat)
		if op.K != "get" && !(op.K == "rep" && op.N <= 0) {
			total := 0
			for _, a := range op.A {
				sub := pool[a%len(pool)]
				total += sub.count
				for s := range sub.visits {
					if e.visits[s] == 0 {
						return fmt.Errorf("step %d: a sub-pattern (%T) of %s is not visited in %s", step, s, sub.p, model)
					}
				}
			}
			if op.K != "rep" && e.count < total {
				return fmt.Errorf("step %d: %d sub-patterns are visited in %s, its parts have %d", step, e.count, model, total)
			}
		}
		pool = append(pool, e)
	}
	if len(pool) == 0 {
		return nil
	}
	// everything built, oldest last, and everything compiled before
	for i := len(pool) - 1; i >= 0; i-- {
		if err := compile(i, 100, len(c.Ops)); err != nil {
			return err
		}
	}
	for _, pr := range progs {
		if err := run(pr, "at the end"); err != nil {
			return err
		}
	}
	for i := range pool {
		if err := unchanged(i, len(c.Ops), "end"); err != nil {
			return err
		}
	}
	return nil
}

func clip35(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func init() {
	register[PoolCase](Prop{
		ID:       "C35",
		Rule:     "cases are histories of 3-30 steps that build patterns out of earlier ones with every combinator (grammars, captured grammars and notation texts among them), compile them under inlining thresholds, walk, count, print and optimise them; at the end everything is compiled again and every program is run again on 2-4 inputs; non-trivial: a pattern used at least twice was compiled and its parse backtracked, looped, called or looked ahead",
		Assume:   []string{"the caller does not modify pattern objects, and does not call Inline on a grammar it goes on using elsewhere", "patterns whose reference parse exceeds its budget (left recursion) are compiled but not run"},
		Quick:    60000,
		Thorough: 2000000,
		Batch:    300,
	}, genPoolCase, checkPool)
}
