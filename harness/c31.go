// C31: patterns built and compiled concurrently. Built with the race detector
// and without the verif tag.
package main

import (
	"fmt"
	"regexp/syntax"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// BuildJob is one pattern that some worker builds, compiles and executes.
type BuildJob struct {
	Kind string  `json:"kind"` // pat, text, regexp
	P    *P      `json:"p,omitempty"`
	Text Bs      `json:"text,omitempty"`
	Rx   *RxCase `json:"rx,omitempty"`
	In   []Bs    `json:"in,omitempty"`
	Th   int     `json:"th,omitempty"`
	Rep  int     `json:"rep"`
}

// BuildCase: every worker performs its jobs (indices into Jobs) in order. A
// pattern job listed in Shared is built once, before the workers start, and
// only compiled and executed by them.
type BuildCase struct {
	Jobs    []BuildJob `json:"jobs"`
	Shared  []int      `json:"shared,omitempty"`
	Workers [][]int    `json:"workers"`
}

func genBuild(t *rapid.T) *BuildCase {
	g := G{t}
	c := &BuildCase{}
	for k := g.u(1, 6); k > 0; k-- {
		j := BuildJob{Rep: g.n(1, 6)}
		switch g.weighted(5, 5, 1, 1) {
		case 0:
			alpha := alphaC
			j.Kind = "pat"
			pg := &PG{G: g, Alpha: alpha, Caps: true, Checks: g.pct(30), Errs: g.pct(30), Words: true, Gram: g.pct(60), Search: g.pct(40), OptRich: g.pct(40), MaxNodes: g.n(5, 50)}
			j.P = genTop(pg, g.n(2, 6))
			for i := g.n(1, 3); i > 0; i-- {
				j.In = append(j.In, Bs(inputFor(g, j.P, alpha, 40)))
			}
		case 1:
			j.Kind = "pat"
			j.P = genMemoPat(g, alphaC, false, false)
			for i := g.n(1, 2); i > 0; i-- {
				j.In = append(j.In, Bs(docFor(g, j.P, alphaC, 60)))
			}
			j.Th = thresholds[g.n(0, 8)]
		case 2:
			j.Kind = "text"
			alpha := reAlpha(g)
			p := notationPG(g, alpha, g.pct(30))
			j.Text = Bs(spell(g, p, g.pct(30), nil))
			j.P = p
			for i := g.n(1, 2); i > 0; i-- {
				j.In = append(j.In, Bs(inputFor(g, p, alpha, 30)))
			}
			j.Rep = min(j.Rep, 2)
		case 3:
			j.Kind = "regexp"
			j.Rx = genRxCase(t)
			if rx, err := syntax.Parse(string(j.Rx.Re), syntax.Flags(j.Rx.Flags)); err == nil {
				f := &rxFeat{}
				rxFeatures(rx, 0, f)
				if f.wide || f.size > 60 || f.stars > 3 {
					// a large class of characters is a large program, which
					// says nothing about concurrency and takes long
					j.Rx.Re = "(a|b)*c"
				}
			}
		}
		i := len(c.Jobs)
		c.Jobs = append(c.Jobs, j)
		if j.Kind == "pat" && g.pct(50) {
			c.Shared = append(c.Shared, i)
		}
	}
	for w := g.u(2, 6); w > 0; w-- {
		var l []int
		for k := g.u(1, 5); k > 0; k-- {
			l = append(l, g.u(0, len(c.Jobs)-1))
		}
		c.Workers = append(c.Workers, l)
	}
	return c
}

func checkBuild(c *BuildCase, o *Obs) error {
	type pre struct {
		refs []refResult
		over bool
		pat  pattern.Pattern // shared
	}
	pres := make([]pre, len(c.Jobs))
	jobUsed := map[int]int{}
	for w, l := range c.Workers {
		seen := map[int]bool{}
		for _, i := range l {
			if !seen[i] {
				seen[i] = true
				jobUsed[i]++
			}
		}
		_ = w
	}
	for i, j := range c.Jobs {
		o.Class("%s", j.Kind)
		if j.Kind != "pat" {
			continue
		}
		for _, s := range j.In {
			ref, _ := reference(j.P, string(s), nil)
			if ref.Over {
				pres[i].over = true
			}
			pres[i].refs = append(pres[i].refs, ref)
		}
	}
	for _, i := range c.Shared {
		pres[i].pat = (&Conv{Checker: plainCheckers(), MemoAPI: true}).conv(c.Jobs[i].P)
		if jobUsed[i] > 1 {
			o.Class("shared-pattern")
		}
	}
	errs := make([]error, len(c.Workers))
	subs := make([]Obs, len(c.Workers))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range c.Workers {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if hb, ok := r.(HarnessBug); ok {
						errs[w] = fmt.Errorf("HARNESS %s", hb.Msg)
						return
					}
					errs[w] = fmt.Errorf("panic while patterns are built concurrently: %v", r)
				}
			}()
			<-start
			for _, i := range c.Workers[w] {
				j := &c.Jobs[i]
				for rep := 0; rep < j.Rep; rep++ {
					if err := buildJob(j, pres[i].pat, pres[i].refs, pres[i].over, &subs[w]); err != nil {
						errs[w] = fmt.Errorf("worker %d, job %d, repetition %d, concurrent with other workers: %v", w, i, rep, err)
						return
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			if strings.HasPrefix(err.Error(), "HARNESS ") {
				panic(HarnessBug{err.Error()})
			}
			return err
		}
	}
	for _, s := range subs {
		o.Sub += s.Sub
		if s.Nontrivial {
			o.Nontrivial = true
		}
	}
	return nil
}

func buildJob(j *BuildJob, shared pattern.Pattern, refs []refResult, over bool, o *Obs) error {
	switch j.Kind {
	case "text":
		return meaning(string(j.Text), j.P, j.In, o)
	case "regexp":
		return checkRx(j.Rx, &Obs{})
	}
	pat := shared
	if pat == nil {
		pat = (&Conv{Checker: plainCheckers(), MemoAPI: true}).conv(j.P)
	}
	prog, err := pattern.Compile(pat)
	if err != nil {
		return fmt.Errorf("pattern %s does not compile: %v", j.P, err)
	}
	code := vm.Encode(prog)
	if over {
		return nil
	}
	for k, s := range j.In {
		tbls := []memo.Table{memo.NoneTable{}}
		if j.P.has("memo") {
			tbls = append(tbls, memo.NewTreeTable(j.Th))
		}
		for _, tbl := range tbls {
			r := execStr(&code, string(s), tbl)
			o.Sub++
			if err := vsRef(r, refs[k], true, true); err != nil {
				return fmt.Errorf("pattern %s on %q: %v", j.P, string(s), err)
			}
		}
		if refs[k].Match && refs[k].Pos > 0 || capsCount(refs[k].Caps) > 0 {
			o.Nontrivial = true
		}
	}
	return nil
}

func init() {
	register(Prop{
		ID:       "C31",
		Rule:     "at least two workers built, compiled and executed patterns, and some parse consumed input or captured",
		Assume:   []string{"interleavings are those of the Go scheduler", "a pattern value shared by workers is not modified by the caller"},
		Quick:    12000,
		Thorough: 200000,
		Batch:    400,
		Race:     true,
	}, genBuild, checkBuild)
}
