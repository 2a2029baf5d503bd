// C25: one compiled program executed concurrently. Built with the race
// detector and without the verif tag.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// ConcCase: every worker performs its jobs in order; all workers share one
// program.
type ConcCase struct {
	P      *P          `json:"p"`
	In     []Bs        `json:"in"`
	Reader ReaderSpec  `json:"reader"`
	Mode   string      `json:"mode"` // own, shared-reader, shared-table
	Th     int         `json:"th"`
	Jobs   [][]ConcJob `json:"jobs"`
	Ops    []EditOp    `json:"ops,omitempty"` // edits between the phases of a shared table
	Str    string      `json:"str,omitempty"`
}

type ConcJob struct {
	In  int  `json:"in"`
	Tbl bool `json:"tbl,omitempty"` // a table of its own, kept by the worker for this text
	Rng bool `json:"rng,omitempty"` // over the whole range (dedicated table)
}

func genConc(t *rapid.T) *ConcCase {
	g := G{t}
	alpha := alphaC
	c := &ConcCase{}
	if g.pct(40) {
		pg := &PG{G: g, Alpha: alpha, Caps: true, Checks: true, CheckW: 6, Errs: g.pct(40), Words: true, Gram: g.pct(50), Search: g.pct(30), MaxNodes: g.n(5, 40)}
		c.P = genTop(pg, g.n(2, 6))
		c.Mode = g.pick("own", "own", "shared-reader")
	} else {
		c.P = genMemoPat(g, alpha, g.pct(15), false)
		c.Mode = g.pick("shared-table", "shared-table", "own", "shared-reader")
	}
	c.Reader = genReader(g, 0)
	c.Th = thresholds[g.n(0, 8)]
	nin := g.n(1, 4)
	if c.Mode == "shared-table" {
		nin = 1
	}
	for k := nin; k > 0; k-- {
		c.In = append(c.In, Bs(docFor(g, c.P, alpha, g.pick2(60, 300))))
	}
	workers := g.u(2, 6)
	for w := 0; w < workers; w++ {
		var l []ConcJob
		for k := g.u(1, 5); k > 0; k-- {
			l = append(l, ConcJob{In: g.u(0, nin-1), Tbl: g.pct(60), Rng: g.pct(10)})
		}
		c.Jobs = append(c.Jobs, l)
	}
	if c.Mode == "shared-table" {
		n := len(c.In[0])
		for k := g.n(0, 4); k > 0; k-- {
			e := genEdit(g, c.P, alpha, n, 0)
			c.Ops = append(c.Ops, e)
			n = max(0, n-e.D) + len(e.T)
		}
	}
	c.Str = c.P.String()
	return c
}

func (g G) pick2(a, b int) int {
	if g.pct(80) {
		return a
	}
	return b
}

func checkConc(c *ConcCase, o *Obs) error {
	code, err := compileP(c.P, &Conv{Checker: plainCheckers()})
	if err != nil {
		return err
	}
	o.Class("%s", c.Mode)
	if c.Mode == "shared-table" {
		return concTable(c, code, o)
	}
	refs := make([]refResult, len(c.In))
	shared := make([]io.ReaderAt, len(c.In))
	for i, s := range c.In {
		ref, it := reference(c.P, string(s), nil)
		if ref.Over {
			o.Discard("reference budget exceeded")
			return nil
		}
		refs[i] = ref
		if it.checks > 0 {
			o.Class("with-checkers")
		}
		switch c.Reader.K {
		case "rope":
			shared[i] = ropeOf(c.Reader, string(s))
		case "bytes":
			shared[i] = bytes.NewReader([]byte(string(s)))
		case "strings":
			shared[i] = strings.NewReader(string(s))
		default:
			// an adapted stream fetches its data while it is shared
			shared[i] = c.Reader.open(string(s))
		}
	}
	errs := make([]error, len(c.Jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range c.Jobs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Errorf("panic in a concurrent parse: %v", r)
				}
			}()
			<-start
			own := map[int]memo.Table{}
			for j, job := range c.Jobs[w] {
				var tbl memo.Table = memo.NoneTable{}
				if job.Tbl {
					if own[job.In] == nil {
						own[job.In] = memo.NewTreeTable(c.Th)
					}
					tbl = own[job.In]
				}
				var r Res
				in := string(c.In[job.In])
				switch {
				case job.Rng:
					m, n, ast, es := code.ExecInterval(strings.NewReader(in), memo.NewTreeTable(c.Th), &vm.Interval{Low: -1 << 30, High: 1 << 30})
					r = toRes(m, n, ast, es)
				case c.Mode == "shared-reader":
					r = execOn(code, shared[job.In], tbl)
				default:
					r = execOn(code, c.Reader.open(in), tbl)
				}
				if err := vsRef(r, refs[job.In], true, true); err != nil {
					errs[w] = fmt.Errorf("pattern %s, worker %d, parse %d of %q concurrent with others: %v", c.P, w, j, in, err)
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if len(c.Jobs) > 1 && (capsCount(refs[0].Caps) > 0 || refs[0].Match && refs[0].Pos > 0) {
		o.Nontrivial = true
	}
	return nil
}

func concTable(c *ConcCase, code *vm.Code, o *Obs) error {
	tbl := memo.NewTreeTable(c.Th)
	text := string(c.In[0])
	for phase := 0; phase <= len(c.Ops); phase++ {
		if phase > 0 {
			var e memo.Edit
			text, e = c.Ops[phase-1].apply(text)
			tbl.ApplyEdit(e)
			o.Class("edit")
		}
		ref, _ := reference(c.P, text, nil)
		if ref.Over {
			o.Discard("reference budget exceeded")
			return nil
		}
		errs := make([]error, len(c.Jobs))
		roots := make([]Res, len(c.Jobs))
		hits := make([]int, len(c.Jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range c.Jobs {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[w] = fmt.Errorf("panic in a concurrent parse: %v", r)
					}
				}()
				<-start
				for j := range c.Jobs[w] {
					st := &memoStats{Table: tbl}
					r := execOn(code, strings.NewReader(text), st)
					hits[w] += st.hits
					roots[w] = r
					if err := vsRef(r, ref, true, true); err != nil {
						errs[w] = fmt.Errorf("pattern %s, threshold %d, phase %d, worker %d, parse %d of %q with a table shared by %d workers: %v", c.P, c.Th, phase, w, j, text, len(c.Jobs), err)
						return
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for w, err := range errs {
			if err != nil {
				return err
			}
			if roots[w].Root != nil {
				if again := capKids(roots[w].Root); !capsEq(again, ref.Caps) {
					return fmt.Errorf("pattern %s: worker %d's tree became {%s} after the other parses, want {%s}", c.P, w, capsStr(again), capsStr(ref.Caps))
				}
			}
			if hits[w] > 0 {
				o.Class("shared-table-hit")
				o.Nontrivial = true
			}
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C25",
		Rule:     "several workers and a parse that consumes or captures; with a shared table, a hit in it",
		Assume:   []string{"user-written checkers are safe for concurrent use", "shared texts are strings.Reader, bytes.Reader or a rope nobody modifies", "interleavings are those of the Go scheduler", "edits of a shared table happen between the concurrent phases"},
		Quick:    30000,
		Thorough: 400000,
		Batch:    4000,
		Race:     true,
	}, genConc, checkConc)
}
