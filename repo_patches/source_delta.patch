From 02fe13020bf8e735f4d4825d1f0cfb296d8d54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 01/42] vm: count executed instructions under the verif build
 tag

---
 vm/verif_off.go |  8 ++++++++
 vm/verif_on.go  | 26 ++++++++++++++++++++++++++
 vm/vm.go        |  2 ++
 3 files changed, 36 insertions(+)
 create mode 100644 vm/verif_off.go
 create mode 100644 vm/verif_on.go

diff --git a/vm/verif_off.go b/vm/verif_off.go
new file mode 100644
index 0000000..4d6f707
--- /dev/null
+++ b/vm/verif_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package vm
+
+type verifCounter struct{}
+
+func (c *verifCounter) step() {}
diff --git a/vm/verif_on.go b/vm/verif_on.go
new file mode 100644
index 0000000..53b29dd
--- /dev/null
+++ b/vm/verif_on.go
@@ -0,0 +1,26 @@
+//go:build verif
+// +build verif
+
+package vm
+
+import "sync/atomic"
+
+// VerifMaxSteps, if positive, bounds the number of instructions a single
+// execution may perform; exceeding it panics. Only built with the verif tag.
+var VerifMaxSteps int64
+
+var verifTotal int64
+
+// VerifTotalSteps returns the number of instructions executed so far by all
+// executions.
+func VerifTotalSteps() int64 { return atomic.LoadInt64(&verifTotal) }
+
+type verifCounter struct{ n int64 }
+
+func (c *verifCounter) step() {
+	c.n++
+	atomic.AddInt64(&verifTotal, 1)
+	if VerifMaxSteps > 0 && c.n > VerifMaxSteps {
+		panic("verif: instruction limit exceeded")
+	}
+}
diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..9218119 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -82,9 +82,11 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 
 	success := true
 	var errs []ParseError = nil
+	var verif verifCounter
 
 loop:
 	for {
+		verif.step()
 		op := idata[ip]
 		switch op {
 		case opChar:
-- 
2.43.0


From f16a46d96edbc7047e8c8da788a5d1ac5fd76c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 02/42] fix: restore the position when a TestAny instruction
 fails

The head-fail form of a choice starting with Any(n) left the input position
moved past the end when fewer than n bytes remained, so the next alternative
was tried at the wrong place.
---
 vm/vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 9218119..7d8d39d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -239,6 +239,8 @@ loop:
 				st.pushBacktrack(ent)
 				ip += szTestAny
 			} else {
+				// Advance may have moved the position even though it failed.
+				src.SeekTo(ent.off)
 				ip = int(lbl)
 			}
 		case opCaptureBegin:
-- 
2.43.0


From 0af20160b84f09f4e8b67991211b47ac203174ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 03/42] fix: Input.Advance may skip past the end of the cached
 chunk

Advancing by more than one byte across a chunk boundary reported failure even
though the data continues in the next chunk, so Any(n) failed there.
---
 input/input.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..7a857d4 100644
--- a/input/input.go
+++ b/input/input.go
@@ -94,11 +94,16 @@ func (i *Input) Advance(n int) bool {
 	}
 
 	i.coff += n
-	if i.coff > i.nchunk {
-		i.refill(i.base + i.coff)
-		return false
-	} else if i.coff == i.nchunk {
-		i.refill(i.base + i.coff)
+	if i.coff < i.nchunk {
+		return true
+	}
+	past := i.coff > i.nchunk
+	i.refill(i.base + i.coff)
+	if past && i.nchunk == 0 {
+		// There is no data at the new position: the advance was successful
+		// only if it went to the exact end of the data.
+		nb, _ := i.r.ReadAt(i.b[:], int64(i.base-1))
+		return nb == 1
 	}
 	return true
 }
-- 
2.43.0


From d88802f7bd20137da19a8a2ad0e501f7e675a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 04/42] fix: advancing by zero bytes at the end of the input
 succeeds

Any(0) failed at the end of the input although no characters are needed.
---
 input/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/input/input.go b/input/input.go
index 7a857d4..dd980e3 100644
--- a/input/input.go
+++ b/input/input.go
@@ -89,6 +89,9 @@ func (i *Input) SeekTo(pos int) bool {
 // that even if Advance returns true the next call to Peek may return false if
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
+	if n == 0 {
+		return true
+	}
 	if i.nchunk == 0 {
 		return false
 	}
-- 
2.43.0


From 08f1b3ea9edc84ce7837b8babd74cb9c20f3dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 05/42] fix: Input.Advance updates the furthest read position

Any(n) with n > 1 depends on bytes that were never peeked at, so memoized
results survived edits that invalidate them.
---
 input/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input/input.go b/input/input.go
index dd980e3..d4bcfac 100644
--- a/input/input.go
+++ b/input/input.go
@@ -92,6 +92,10 @@ func (i *Input) Advance(n int) bool {
 	if n == 0 {
 		return true
 	}
+	// The result depends on the presence of all skipped bytes.
+	if last := i.base + i.coff + n - 1; last > i.furthest {
+		i.furthest = last
+	}
 	if i.nchunk == 0 {
 		return false
 	}
-- 
2.43.0


From ccbef8f8b99c40604335a0781531b70f95b90d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 06/42] fix: compile searches without capturing the enclosing
 grammar's non-terminals

---
 pattern/compile.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..d5f105c 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -317,7 +317,6 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
-	var rsearch Pattern
 	var set charset.Set
 	opt := false
 
@@ -344,15 +343,24 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 		}
 	}
 
+	// The search `S <- p / . S` is a loop: it must not be compiled as a grammar
+	// because the non-terminals in p belong to the enclosing grammar.
+	code := make(isa.Program, 0, len(sub)+8)
+	L1 := isa.NewLabel()
+	L2 := isa.NewLabel()
+	L3 := isa.NewLabel()
+	code = append(code, L1)
+	code = append(code, isa.Choice{Lbl: L2})
+	code = append(code, sub...)
+	code = append(code, isa.Commit{Lbl: L3})
+	code = append(code, L2)
+	code = append(code, isa.Any{N: 1})
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
-	} else {
-		rsearch = NonTerm("S")
+		code = append(code, isa.Span{Chars: set})
 	}
-
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
-	}).Compile()
+	code = append(code, isa.Jump{Lbl: L1})
+	code = append(code, L3)
+	return code, nil
 }
 
 // Compile this node.
-- 
2.43.0


From a8c09f10bd8eac0f121245a2b55a700b4dfb4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 07/42] fix: resolve non-terminals through enclosing grammars
 and report every missing one

---
 pattern/compile.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index d5f105c..62202c5 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,15 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	// every call must have been resolved by an enclosing grammar.
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -374,6 +383,12 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
+
 	p.Inline()
 
 	used := make(map[string]bool)
@@ -418,9 +433,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// not defined here: left to the enclosing grammar.
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
-- 
2.43.0


From 6a0419e8e99e6fba819aa2cb9c3572857df4a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 08/42] fix: inlining respects nested scopes and leaves the
 caller's pattern unchanged

---
 pattern/compile.go  |  3 ++-
 pattern/nodes.go    | 40 ++++++++++++++++++++++++++++++++++++++++
 pattern/optimize.go | 15 ++++++++++++++-
 pattern/string.go   |  1 +
 4 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 62202c5..1a3aa70 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -19,7 +19,8 @@ func (e *NotFoundError) Error() string { return "non-terminal " + e.Name + ": no
 // Compile takes an input pattern and returns the result of compiling it into a
 // parsing program, and optimizing the program.
 func Compile(p Pattern) (isa.Program, error) {
-	c, err := p.Compile()
+	// compile a copy: inlining is only valid for this compilation.
+	c, err := clone(p).Compile()
 	if err != nil {
 		return nil, err
 	}
diff --git a/pattern/nodes.go b/pattern/nodes.go
index 44613ad..561d511 100644
--- a/pattern/nodes.go
+++ b/pattern/nodes.go
@@ -177,3 +177,43 @@ func WalkPattern(p Pattern, followInline bool, fn WalkFunc) {
 		}
 	}
 }
+
+// clone returns a deep copy of p.
+func clone(p Pattern) Pattern {
+	switch t := p.(type) {
+	case *AltNode:
+		return &AltNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *SeqNode:
+		return &SeqNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *StarNode:
+		return &StarNode{Patt: clone(t.Patt)}
+	case *PlusNode:
+		return &PlusNode{Patt: clone(t.Patt)}
+	case *OptionalNode:
+		return &OptionalNode{Patt: clone(t.Patt)}
+	case *NotNode:
+		return &NotNode{Patt: clone(t.Patt)}
+	case *AndNode:
+		return &AndNode{Patt: clone(t.Patt)}
+	case *CapNode:
+		return &CapNode{Patt: clone(t.Patt), Id: t.Id}
+	case *MemoNode:
+		return &MemoNode{Patt: clone(t.Patt), Id: t.Id}
+	case *CheckNode:
+		return &CheckNode{Patt: clone(t.Patt), Checker: t.Checker, Id: t.Id, Flag: t.Flag}
+	case *SearchNode:
+		return &SearchNode{Patt: clone(t.Patt)}
+	case *ErrorNode:
+		return &ErrorNode{Message: t.Message, Recover: clone(t.Recover)}
+	case *GrammarNode:
+		defs := make(map[string]Pattern, len(t.Defs))
+		for name, def := range t.Defs {
+			defs[name] = clone(def)
+		}
+		return &GrammarNode{Defs: defs, Start: t.Start}
+	case *NonTermNode:
+		return &NonTermNode{Name: t.Name, Inlined: t.Inlined}
+	}
+	// leaf nodes are never modified.
+	return p
+}
diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..acf7f28 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -120,11 +120,24 @@ func (p *GrammarNode) inline() bool {
 		leaves[n] = leaf
 	}
 
+	// Non-terminals that are defined by a grammar nested in this one do not
+	// refer to our definitions.
+	shadowed := make(map[*NonTermNode]bool)
+	WalkPattern(p, true, func(sub Pattern) {
+		if g, ok := sub.(*GrammarNode); ok && g != p {
+			WalkPattern(g, true, func(s Pattern) {
+				if t, ok := s.(*NonTermNode); ok && g.Defs[t.Name] != nil {
+					shadowed[t] = true
+				}
+			})
+		}
+	})
+
 	didInline := false
 	WalkPattern(p, true, func(sub Pattern) {
 		switch t := sub.(type) {
 		case *NonTermNode:
-			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil {
+			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil && !shadowed[t] {
 				// We only inline nodes if they are small enough and don't use
 				// any non-terminals themselves.
 				if sz < InlineThreshold && leaves[t.Name] {
diff --git a/pattern/string.go b/pattern/string.go
index 6acbe68..222981b 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -43,6 +43,7 @@ func Prettify(p Pattern) string {
 		return fmt.Sprintf("empty(%v)", t.Op)
 	case *GrammarNode:
 		s := fmt.Sprintf("%s\n", t.Start)
+		t = clone(t).(*GrammarNode)
 		t.Inline()
 		for name, patt := range t.Defs {
 			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
-- 
2.43.0


From e59236f33d90dc26570fe525b812b3100062e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 09/42] fix: do not memoize parses that reported errors

---
 vm/stack.go |  1 +
 vm/vm.go    | 35 ++++++++++++++++++++++-------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/vm/stack.go b/vm/stack.go
index 9bd0352..29826c6 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -75,6 +75,7 @@ type stackMemo struct {
 	id    int16
 	pos   int
 	count int
+	errs  int // number of errors reported before this entry
 }
 
 func newStack() *stack {
diff --git a/vm/vm.go b/vm/vm.go
index 7d8d39d..14673d2 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -72,16 +72,22 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		})
 	}
 
-	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
+	success := true
+	var errs []ParseError = nil
+
+	memoize := func(ent stackMemo, mlen, count int, capt []*memo.Capture) {
+		if len(errs) > ent.errs {
+			// A memo entry does not store the errors reported while it was
+			// parsed, so reusing it would lose them.
+			return
+		}
 		if intrvl != nil {
 			capt = nil
 		}
-		mexam := max(src.Furthest(), src.Pos()) - pos + 1
-		memtbl.Put(id, pos, mlen, mexam, count, capt)
+		mexam := max(src.Furthest(), src.Pos()) - ent.pos + 1
+		memtbl.Put(int(ent.id), ent.pos, mlen, mexam, count, capt)
 	}
 
-	success := true
-	var errs []ParseError = nil
 	var verif verifCounter
 
 loop:
@@ -307,8 +313,9 @@ loop:
 				ip = int(lbl)
 			} else {
 				st.pushMemo(stackMemo{
-					id:  id,
-					pos: src.Pos(),
+					id:   id,
+					pos:  src.Pos(),
+					errs: len(errs),
 				})
 				ip += szMemoOpen
 			}
@@ -316,7 +323,7 @@ loop:
 			ent := st.pop(true)
 			if ent != nil && ent.stype == stMemo {
 				mlen := src.Pos() - ent.memo.pos
-				memoize(int(ent.memo.id), ent.memo.pos, mlen, 1, ent.capt)
+				memoize(ent.memo, mlen, 1, ent.capt)
 			} else {
 				panic("memo close failed")
 			}
@@ -334,6 +341,7 @@ loop:
 					id:    id,
 					pos:   src.Pos(),
 					count: ment.Count(),
+					errs:  len(errs),
 				})
 				capt := ment.Captures()
 				if capt != nil {
@@ -344,8 +352,9 @@ loop:
 				ip = int(lbl)
 			} else {
 				st.pushMemoTree(stackMemo{
-					id:  id,
-					pos: src.Pos(),
+					id:   id,
+					pos:  src.Pos(),
+					errs: len(errs),
 				})
 				ip += szMemoTreeOpen
 			}
@@ -362,7 +371,7 @@ loop:
 			}
 			mlen := src.Pos() - ent.memo.pos
 			ent.memo.count++
-			memoize(int(ent.memo.id), ent.memo.pos, mlen, ent.memo.count, ent.capt)
+			memoize(ent.memo, mlen, ent.memo.count, ent.capt)
 			ip += szMemoTreeInsert
 		case opMemoTree:
 			seen := 0
@@ -396,7 +405,7 @@ loop:
 
 				next.memo.count = accum + next.memo.count
 				mlen := src.Pos() - next.memo.pos
-				memoize(int(next.memo.id), next.memo.pos, mlen, next.memo.count, next.capt)
+				memoize(next.memo, mlen, next.memo.count, next.capt)
 
 				accum = 0
 				seen = 0
@@ -462,7 +471,7 @@ fail:
 		ent.capt = nil
 	case stMemo:
 		// Mark this position in the memoTable as a failed match
-		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
+		memoize(ent.memo, -1, 0, nil)
 		ent.capt = nil
 		goto fail
 	case stRet, stCapt, stCheck:
-- 
2.43.0


From 3147c2c2b29c1bf37f7b539f6c0b545c07fc17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 10/42] fix: do not memoize parses without their captures in
 interval parses

---
 vm/vm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 14673d2..fa330c8 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -81,8 +81,10 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 			// parsed, so reusing it would lose them.
 			return
 		}
-		if intrvl != nil {
-			capt = nil
+		if intrvl != nil && len(capt) > 0 {
+			// Entries with captures in the interval are not reusable: a
+			// parse with another interval needs different captures.
+			return
 		}
 		mexam := max(src.Furthest(), src.Pos()) - ent.pos + 1
 		memtbl.Put(int(ent.id), ent.pos, mlen, mexam, count, capt)
-- 
2.43.0


From 9868c55dd4264eb65cbd95cf543dc1e3fa29900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 11/42] fix: reusing a memo entry counts as examining the text
 it depends on

---
 input/input.go | 7 +++++++
 vm/vm.go       | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/input/input.go b/input/input.go
index d4bcfac..2d24b84 100644
--- a/input/input.go
+++ b/input/input.go
@@ -134,6 +134,13 @@ func (i *Input) Furthest() int {
 	return i.furthest
 }
 
+// Examine records that the byte at pos has been examined, without reading it.
+func (i *Input) Examine(pos int) {
+	if pos > i.furthest {
+		i.furthest = pos
+	}
+}
+
 // ResetFurthest resets the furthest read tracker to zero.
 func (i *Input) ResetFurthest() {
 	i.furthest = 0
diff --git a/vm/vm.go b/vm/vm.go
index fa330c8..8c55d37 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -304,6 +304,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// A reused result depends on everything that was examined
+				// to determine it.
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -336,6 +339,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// A reused result depends on everything that was examined
+				// to determine it.
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From c8ba513e861f1d3d8d575931a91cb104ce99173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 12/42] fix: interval trees count every interval in their size

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..2bd0b97 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -324,7 +324,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..f8558c1 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From 066a79c09723011aae5928c9147f5f290d3e4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 13/42] fix: removing an inner node of a lazylog tree keeps its
 successor's intervals

---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index f8558c1..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From 816eff72d11e7a4390a88027dda4f91aebd85960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 14/42] fix: a left shift keeps the maximum of unshifted
 intervals in lazy trees

---
 memo/interval/lazy/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 2bd0b97..e031c3c 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -122,6 +122,10 @@ func (n *node) applyShifts() {
 				}
 			}
 			n.max += sh.amt
+			if n.max < sh.idx {
+				// intervals that end at or before idx are not shifted
+				n.max = sh.idx
+			}
 			// n.updateMax()
 		}
 
-- 
2.43.0


From f49b593f98c3bcf93d37c6498ad9eeaa723fd54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 15/42] fix: appending captures never writes into the captures
 of a memo entry

---
 vm/stack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/stack.go b/vm/stack.go
index 29826c6..41a426b 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -58,7 +58,9 @@ func (se *stackEntry) addCapt(capt []*memo.Capture) {
 		return
 	}
 	if len(se.capt) == 0 {
-		se.capt = capt
+		// the captures may belong to a memo entry, so appending to them must
+		// not write into their backing array
+		se.capt = capt[:len(capt):len(capt)]
 	} else {
 		se.capt = append(se.capt, capt...)
 	}
-- 
2.43.0


From 89a018f6e7194923783425b5f629c34bc42ba1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 16/42] fix: programs with back-references can be serialized

---
 vm/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/code.go b/vm/code.go
index 06d568b..c0a3215 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -36,7 +36,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
-- 
2.43.0


From e9b5b020914830dd6f31375c9eb42f6acbc9979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 17/42] fix: serialization keeps a shared back-reference shared

---
 vm/code.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vm/code.go b/vm/code.go
index c0a3215..2614a9d 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -304,7 +304,18 @@ func addError(code *Code, msg string) uint {
 	return uint(len(code.data.Errors) - 1)
 }
 
+// Adds the checker to the code's list of checkers, and returns the index it was
+// added at. A back-reference that is used in several places is added once, so
+// that it is still one symbol table after the code has been serialized.
 func addChecker(code *Code, checker isa.Checker) uint {
+	if ref, ok := checker.(*isa.BackReference); ok {
+		for i, c := range code.data.Checkers {
+			if r, ok := c.(*isa.BackReference); ok && r == ref {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From a72c8740ea2f5b57306ac3a482d5c557fa069db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 18/42] fix: FromReader returns no error for reads that are
 complete

---
 input/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/input/reader.go b/input/reader.go
index fca7d53..32a9ad7 100644
--- a/input/reader.go
+++ b/input/reader.go
@@ -48,7 +48,13 @@ func (r *readerWrapper) ReadAt(b []byte, off int64) (n int, err error) {
 		return 0, err
 	}
 
-	return copy(b, r.buf[off:]), err
+	n = copy(b, r.buf[off:])
+	if int64(n) == blen {
+		// all requested data is available, so the error (if any) only concerns
+		// data beyond it.
+		err = nil
+	}
+	return n, err
 }
 
 // Slice returns the slice [low:high) in the given ReaderAt.
-- 
2.43.0


From df9ed69ef5e01c729eebcd7515c7f38f5614a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 19/42] fix: rebuilding a rope turns the node into a leaf
 before adjusting it

---
 input/linerope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..bc5572b 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -387,6 +387,7 @@ func (n *Node) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From 1acc86503875921a658d48cac47593db2a080010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 20/42] fix: inserting a part of a rope's own value into it

---
 input/linerope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index bc5572b..6e74311 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -475,6 +475,8 @@ func max(a, b int) int {
 // from slice tricks
 func insert(s []byte, k int, vs []byte) []byte {
 	if n := len(s) + len(vs); n <= cap(s) {
+		// vs may be a part of s (obtained with Value), which is moved below.
+		vs = append([]byte(nil), vs...)
 		s2 := s[:n]
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
-- 
2.43.0


From ab077e38573054abbd770da111cda7a825d628ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 21/42] fix: line zero starts at offset zero with any line
 separator

---
 input/linerope/line.go | 4 ++--
 input/linerope/rope.go | 2 +-
 input/linerope/util.go | 8 ++++++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/input/linerope/line.go b/input/linerope/line.go
index 0925616..23ca690 100644
--- a/input/linerope/line.go
+++ b/input/linerope/line.go
@@ -93,7 +93,7 @@ func maxloc(a, b loc) loc {
 }
 
 func sliceloc(b, sep []byte, start, end loc) []byte {
-	soff := indexN(b, sep, start.line) + len(sep) + start.col
-	eoff := indexN(b, sep, end.line) + len(sep) + end.col
+	soff := lineStart(b, sep, start.line) + start.col
+	eoff := lineStart(b, sep, end.line) + end.col
 	return b[soff:eoff]
 }
diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 6e74311..42ce69c 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -264,7 +264,7 @@ func (n *Node) OffsetAt(line, col int) int {
 	pos := loc{line, col}
 	switch n.kind {
 	case tLeaf:
-		return indexN(n.value, n.opts.LineSep, line) + len(n.opts.LineSep) + col
+		return lineStart(n.value, n.opts.LineSep, line) + col
 	default: // case tNode
 		leftLength := n.left.llength
 		if pos.cmp(leftLength) < 0 {
diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..9f1139f 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -24,6 +24,14 @@ func indexN(b, sep []byte, n int) (index int) {
 	return
 }
 
+// lineStart returns the index of the first byte of the n-th line of b.
+func lineStart(b, sep []byte, n int) int {
+	if n == 0 {
+		return 0
+	}
+	return indexN(b, sep, n) + len(sep)
+}
+
 // lineCol converts an absolute position to a line/col pair by scanning b.
 func lineCol(b, sep []byte, pos int) loc {
 	var line, last int
-- 
2.43.0


From 6f3c1213e7da3e9cda6de87ea35eb8fa00ff48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 22/42] fix: an offset inside a line separator belongs to the
 line it ends

---
 input/linerope/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 9f1139f..2671930 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -39,7 +39,7 @@ func lineCol(b, sep []byte, pos int) loc {
 		idx := bytes.Index(b[last:], sep)
 		if idx < 0 {
 			break
-		} else if last+idx >= pos {
+		} else if last+idx+len(sep) > pos {
 			return loc{line, pos - last}
 		}
 		last += idx + len(sep)
-- 
2.43.0


From f6c4379869b335e501b6438bfbcc1c7b568eb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:40 +0000
Subject: [PATCH 23/42] fix: rebuilding and rebalancing a rope recount its
 lines

---
 input/linerope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 42ce69c..1f66f97 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -388,6 +388,7 @@ func (n *Node) Rebuild() {
 		n.left = nil
 		n.right = nil
 		n.kind = tLeaf
+		n.llength = llen(n.value, n.opts.LineSep)
 		n.adjust()
 	}
 }
@@ -403,6 +404,7 @@ func (n *Node) Rebalance() {
 		} else {
 			n.left.Rebalance()
 			n.right.Rebalance()
+			n.llength = addlocs(n.left.llength, n.right.llength)
 		}
 	}
 }
-- 
2.43.0


From bed7a64e84621cb4efe7545a82acf07b79507e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 24/42] fix: octal escapes above 177 in the PEG notation

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..99d127a 100644
--- a/re/re.go
+++ b/re/re.go
@@ -147,7 +147,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From ea8a350859818cfd203e52b08b527d838a87cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 25/42] fix: an empty class in the PEG notation is a pattern
 that never matches

---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index 99d127a..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From c0f50f0621845e75aa793e2a3631b03b428e983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 26/42] fix: braces in the PEG notation group instead of
 yielding a nil pattern

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 0e3101d..6ecaa84 100644
--- a/re/re.go
+++ b/re/re.go
@@ -84,7 +84,7 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		switch root.Child(0).Id() {
 		case idIdentifier, idLiteral, idClass:
 			p = compile(root.Child(0), s, capg, ids)
-		case idOPEN:
+		case idOPEN, idBRACEO:
 			p = compile(root.Child(1), s, capg, ids)
 		case idBRACEPO:
 			p = pattern.Memo(compile(root.Child(1), s, capg, ids))
-- 
2.43.0


From e4e0d90f46f45bd61e92c16aba0832cad57c4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 27/42] fix: convert character classes of regular expressions
 to sets of bytes

---
 rxconv/rxconv.go | 72 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..f7787cc 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -25,6 +26,61 @@ func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
 	return p.Grammar(nterm, nonterms)
 }
 
+// class converts a list of rune ranges. Non-ASCII runes are matched by their
+// UTF-8 encodings.
+func class(ranges []rune) p.Pattern {
+	var ascii charset.Set
+	alts := make([]p.Pattern, 1)
+	for i := 0; i < len(ranges); i += 2 {
+		lo, hi := ranges[i], ranges[i+1]
+		if lo < utf8.RuneSelf {
+			ascii = ascii.Add(charset.Range(byte(lo), byte(min(hi, utf8.RuneSelf-1))))
+			lo = utf8.RuneSelf
+		}
+		// Split the rest into aligned blocks whose size is a power of two: their
+		// encodings have the same length and a range of values for each byte.
+		for lo <= hi {
+			size := rune(1)
+			for lo&(2*size-1) == 0 && lo+2*size-1 <= hi {
+				size *= 2
+			}
+			alts = append(alts, block(lo, lo+size-1))
+			lo += size
+		}
+	}
+	alts[0] = p.Set(ascii)
+	return p.Or(alts...)
+}
+
+// block matches the encodings of the runes in an aligned block.
+func block(lo, hi rune) p.Pattern {
+	n := 4
+	if lo < 0x800 {
+		n = 2
+	} else if lo < 0x10000 {
+		n = 3
+	}
+	bytes := make([]p.Pattern, n)
+	for i := n - 1; i >= 0; i-- {
+		mark := rune(0x80)
+		mask := rune(0x3f)
+		if i == 0 {
+			mark = 0xf00 >> n & 0xff
+			mask = 0x7f >> n
+		}
+		bytes[i] = p.Set(charset.Range(byte(mark|lo&mask), byte(mark|hi&mask)))
+		lo, hi = lo>>6, hi>>6
+	}
+	return p.Concat(bytes...)
+}
+
+func min(a, b rune) rune {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	switch e.Op {
@@ -33,21 +89,7 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpLiteral:
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
-		lits := make([]p.Pattern, 0, len(e.Rune))
-		for i := 0; i < len(e.Rune); i += 2 {
-			start := e.Rune[i]
-			end := e.Rune[i+1]
-			var patt p.Pattern
-			if start < 256 && end < 256 {
-				patt = p.Set(charset.Range(byte(start), byte(end)))
-				lits = append(lits, p.Concat(patt, k))
-			} else {
-				for ; start <= end; start++ {
-					lits = append(lits, p.Concat(p.Literal(string(start)), k))
-				}
-			}
-		}
-		return p.Or(lits...)
+		return p.Concat(class(e.Rune), k)
 	case syntax.OpAnyChar:
 		// TODO: unicode
 		return p.Concat(p.Any(1), k)
-- 
2.43.0


From 02d598d8a178d359b5438c100cf1bd0c5ea83f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 28/42] fix: convert case-insensitive literals of regular
 expressions

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index f7787cc..b914f11 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -52,6 +53,19 @@ func class(ranges []rune) p.Pattern {
 	return p.Or(alts...)
 }
 
+// fold matches a string of runes regardless of case.
+func fold(runes []rune) p.Pattern {
+	lits := make([]p.Pattern, len(runes))
+	for i, r := range runes {
+		ranges := []rune{r, r}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			ranges = append(ranges, f, f)
+		}
+		lits[i] = class(ranges)
+	}
+	return p.Concat(lits...)
+}
+
 // block matches the encodings of the runes in an aligned block.
 func block(lo, hi rune) p.Pattern {
 	n := 4
@@ -87,6 +101,9 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(fold(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		return p.Concat(class(e.Rune), k)
-- 
2.43.0


From 6782bd8e69fbbf665efab6aae5f9ffbe4cc659c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 29/42] fix: convert non-greedy operators of regular
 expressions

---
 rxconv/rxconv.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index b914f11..731d52e 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -20,10 +20,18 @@ func uniq() string {
 	return "a" + strconv.Itoa(num)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+// optional chooses between a repetition and what follows it.
+func optional(e *syntax.Regexp, repeat, k p.Pattern) p.Pattern {
+	if e.Flags&syntax.NonGreedy != 0 {
+		return p.Or(k, repeat)
+	}
+	return p.Or(repeat, k)
+}
+
+func star(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = optional(e, pi(e.Sub[0], p.NonTerm(nterm)), k)
 	return p.Grammar(nterm, nonterms)
 }
 
@@ -127,11 +135,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e, k)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e, k))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return optional(e, pi(e.Sub[0], k), k)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From 67c4c6c550e9853a937385c7038fb15b55236aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:54 +0000
Subject: [PATCH 30/42] fix: convert loops over expressions that match the
 empty string, and share continuations

---
 rxconv/rxconv.go | 162 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 133 insertions(+), 29 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 731d52e..f1468fb 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -3,6 +3,7 @@
 package rxconv
 
 import (
+	"errors"
 	"fmt"
 	"regexp/syntax"
 	"strconv"
@@ -13,11 +14,37 @@ import (
 	p "github.com/zyedidia/gpeg/pattern"
 )
 
-var num = 0
+// A converter collects the non-terminals of the grammar that a regular
+// expression is converted to.
+type converter struct {
+	nonterms map[string]p.Pattern
+}
+
+// maxNonterms limits the size of a converted expression.
+const maxNonterms = 10000
+
+var errTooLarge = errors.New("invalid regexp (too complex)")
 
-func uniq() string {
-	num++
-	return "a" + strconv.Itoa(num)
+// newNonterm returns a non-terminal to be defined by the caller.
+func (c *converter) newNonterm() *p.NonTermNode {
+	if len(c.nonterms) >= maxNonterms {
+		panic(errTooLarge)
+	}
+	name := "a" + strconv.Itoa(len(c.nonterms)+1)
+	c.nonterms[name] = nil
+	return &p.NonTermNode{Name: name}
+}
+
+// share returns a pattern equivalent to k that may be used several times
+// without repeating k.
+func (c *converter) share(k p.Pattern) p.Pattern {
+	switch k.(type) {
+	case *p.NonTermNode, *p.EmptyNode:
+		return k
+	}
+	nterm := c.newNonterm()
+	c.nonterms[nterm.Name] = k
+	return nterm
 }
 
 // optional chooses between a repetition and what follows it.
@@ -28,11 +55,44 @@ func optional(e *syntax.Regexp, repeat, k p.Pattern) p.Pattern {
 	return p.Or(repeat, k)
 }
 
-func star(e *syntax.Regexp, k p.Pattern) p.Pattern {
-	nterm := uniq()
-	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = optional(e, pi(e.Sub[0], p.NonTerm(nterm)), k)
-	return p.Grammar(nterm, nonterms)
+// loop converts the repetition of e's operand, followed by k, to two
+// non-terminals: iter starts with an iteration, and rest may have none. An
+// iteration that consumes nothing is not repeated.
+func (c *converter) loop(e *syntax.Regexp, k p.Pattern) (iter, rest p.Pattern) {
+	n, m := c.newNonterm(), c.newNonterm()
+	k = c.share(k)
+	k0 := k
+	if !nullable(e.Sub[0]) {
+		k0 = m
+	}
+	c.nonterms[n.Name] = c.pi(e.Sub[0], k0, m)
+	c.nonterms[m.Name] = optional(e, n, k)
+	return n, m
+}
+
+// nullable returns false if e always consumes something.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpLiteral, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
 }
 
 // class converts a list of rune ranges. Non-ASCII runes are matched by their
@@ -103,11 +163,12 @@ func min(a, b rune) rune {
 	return b
 }
 
-// continuation-based conversion
-func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
+// continuation-based conversion: k0 follows if e consumes nothing, and k follows
+// if it consumes something.
+func (c *converter) pi(e *syntax.Regexp, k0, k p.Pattern) p.Pattern {
 	switch e.Op {
 	case syntax.OpEmptyMatch:
-		return k
+		return k0
 	case syntax.OpLiteral:
 		if e.Flags&syntax.FoldCase != 0 {
 			return p.Concat(fold(e.Rune), k)
@@ -121,43 +182,82 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpAnyCharNotNL:
 		return p.Concat(p.Set(charset.New([]byte{'\n'}).Complement()), k)
 	case syntax.OpConcat:
-		patt := k
 		for i := len(e.Sub) - 1; i >= 0; i-- {
-			patt = pi(e.Sub[i], patt)
+			if k0 == k {
+				k = c.pi(e.Sub[i], k, k)
+				k0 = k
+				continue
+			}
+			k0, k = c.share(k0), c.share(k)
+			k0, k = c.pi(e.Sub[i], k0, k), c.pi(e.Sub[i], k, k)
 		}
-		return patt
+		return k0
 	case syntax.OpAlternate:
+		k0, k = c.shareBoth(k0, k)
 		alts := make([]p.Pattern, 0, len(e.Sub))
 		for _, s := range e.Sub {
-			alts = append(alts, pi(s, k))
+			alts = append(alts, c.pi(s, k0, k))
 		}
 		return p.Or(alts...)
 	case syntax.OpCapture:
-		return pi(e.Sub[0], k)
+		return c.pi(e.Sub[0], k0, k)
 	case syntax.OpStar:
-		return star(e, k)
+		iter, rest := c.loop(e, k)
+		if k0 == k {
+			return rest
+		}
+		k0 = c.share(k0)
+		if nullable(e.Sub[0]) {
+			iter = c.pi(e.Sub[0], k0, rest)
+		}
+		return optional(e, iter, k0)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e, k))
+		iter, rest := c.loop(e, k)
+		if k0 == k || !nullable(e.Sub[0]) {
+			return iter
+		}
+		return c.pi(e.Sub[0], c.share(k0), rest)
 	case syntax.OpQuest:
-		return optional(e, pi(e.Sub[0], k), k)
+		k0, k = c.shareBoth(k0, k)
+		return optional(e, c.pi(e.Sub[0], k0, k), k0)
 	case syntax.OpBeginLine:
-		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k0)
 	case syntax.OpEndLine:
-		return p.Concat(p.EmptyOp(syntax.EmptyEndLine), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyEndLine), k0)
 	case syntax.OpBeginText:
-		return p.Concat(p.EmptyOp(syntax.EmptyBeginText), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyBeginText), k0)
 	case syntax.OpEndText:
-		return p.Concat(p.EmptyOp(syntax.EmptyEndText), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyEndText), k0)
 	case syntax.OpWordBoundary:
-		return p.Concat(p.EmptyOp(syntax.EmptyWordBoundary), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyWordBoundary), k0)
 	case syntax.OpNoWordBoundary:
-		return p.Concat(p.EmptyOp(syntax.EmptyNoWordBoundary), k)
+		return p.Concat(p.EmptyOp(syntax.EmptyNoWordBoundary), k0)
 	}
 	panic(fmt.Sprintf("unimplemented %s", e.Op))
 }
 
-func convert(r *syntax.Regexp) p.Pattern {
-	return pi(r, &p.EmptyNode{})
+func (c *converter) shareBoth(k0, k p.Pattern) (p.Pattern, p.Pattern) {
+	if k0 == k {
+		k = c.share(k)
+		return k, k
+	}
+	return c.share(k0), c.share(k)
+}
+
+func convert(r *syntax.Regexp) (patt p.Pattern, err error) {
+	defer func() {
+		if e := recover(); e == errTooLarge {
+			err = errTooLarge
+		} else if e != nil {
+			panic(e)
+		}
+	}()
+
+	c := &converter{nonterms: make(map[string]p.Pattern)}
+	start := c.newNonterm()
+	end := &p.EmptyNode{}
+	c.nonterms[start.Name] = c.pi(r, end, end)
+	return p.Grammar(start.Name, c.nonterms), nil
 }
 
 func FromRegexp(s string, flags syntax.Flags) (p.Pattern, error) {
@@ -168,7 +268,11 @@ func FromRegexp(s string, flags syntax.Flags) (p.Pattern, error) {
 	if !verify(re) {
 		return nil, fmt.Errorf("invalid regexp (repeat not supported)")
 	}
-	return p.Search(p.Cap(convert(re), 0)), nil
+	patt, err := convert(re)
+	if err != nil {
+		return nil, err
+	}
+	return p.Search(p.Cap(patt, 0)), nil
 }
 
 func verify(e *syntax.Regexp) bool {
-- 
2.43.0


From 9ad10570d72e2acbfe81020c1cbc23ae72220eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 31/42] fix: the edit generator handles texts without a newline

---
 bench/edit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/edit.go b/bench/edit.go
index 03a9407..3d4e73b 100644
--- a/bench/edit.go
+++ b/bench/edit.go
@@ -93,7 +93,7 @@ func GenerateEdits(data []byte, nedits int) []Edit {
 
 		switch typ {
 		case EditInsertNewline:
-			line := rand.Intn(r.NumLines())
+			line := rand.Intn(r.NumLines() + 1)
 			off := r.OffsetAt(line, 0)
 			e = Edit{
 				Start: off,
-- 
2.43.0


From 49604285620754fbf52df02380d1cd1db27e77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 32/42] fix: back-references do not see definitions of earlier
 parses

---
 vm/vm.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 8c55d37..e91869d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/input"
+	"github.com/zyedidia/gpeg/isa"
 	"github.com/zyedidia/gpeg/memo"
 )
 
@@ -51,6 +52,27 @@ func (vm *Code) ExecInterval(r io.ReaderAt, memtbl memo.Table, intrvl *Interval)
 	return vm.exec(ip, st, src, memtbl, intrvl)
 }
 
+// parseCheckers returns the checkers for one parse. Back-references get their
+// own symbol table, so that the definitions of one parse are not seen by others.
+func (vm *Code) parseCheckers() []isa.Checker {
+	checkers := vm.data.Checkers
+	for i, c := range vm.data.Checkers {
+		ref, ok := c.(*isa.BackReference)
+		if !ok {
+			continue
+		}
+		if &checkers[0] == &vm.data.Checkers[0] {
+			checkers = append([]isa.Checker(nil), checkers...)
+		}
+		own := isa.NewBackRef()
+		for id, sym := range ref.Symbols {
+			own.Symbols[id] = sym
+		}
+		checkers[i] = own
+	}
+	return checkers
+}
+
 func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, intrvl *Interval) (bool, int, *memo.Capture, []ParseError) {
 	idata := vm.data.Insns
 
@@ -74,6 +96,7 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 
 	success := true
 	var errs []ParseError = nil
+	checkers := vm.parseCheckers()
 
 	memoize := func(ent stackMemo, mlen, count int, capt []*memo.Capture) {
 		if len(errs) > ent.errs {
@@ -435,7 +458,7 @@ loop:
 				panic("check end needs check stack entry")
 			}
 			checkid := decodeU24(idata[ip+1:])
-			checker := vm.data.Checkers[checkid]
+			checker := checkers[checkid]
 
 			id := int(ent.memo.id)
 			flag := ent.memo.count
-- 
2.43.0


From 018e9ec18172f4d69b6d4040ef22f09cb6491b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 33/42] fix: positions in a shared table are read under its
 lock

---
 memo/capture.go |  2 +-
 memo/entry.go   |  5 +++++
 memo/tree.go    | 10 ++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/memo/capture.go b/memo/capture.go
index 039229a..2cf56ac 100644
--- a/memo/capture.go
+++ b/memo/capture.go
@@ -94,7 +94,7 @@ func (c *Capture) NumChildren() int {
 
 func (c *Capture) Start() int {
 	if c.ment != nil {
-		return c.ment.pos.Pos() + c.off
+		return c.ment.Pos() + c.off
 	}
 	return c.off
 }
diff --git a/memo/entry.go b/memo/entry.go
index 913bb12..dfd1ff3 100644
--- a/memo/entry.go
+++ b/memo/entry.go
@@ -1,6 +1,8 @@
 package memo
 
 import (
+	"sync"
+
 	"github.com/zyedidia/gpeg/memo/interval"
 )
 
@@ -15,6 +17,7 @@ type Entry struct {
 	count    int
 	captures []*Capture
 	pos      interval.Pos
+	lock     *sync.Mutex // the lock of the table that tracks pos
 }
 
 func (e *Entry) setPos(pos interval.Pos) {
@@ -26,6 +29,8 @@ func (e *Entry) setPos(pos interval.Pos) {
 
 // Pos returns this entry's starting position.
 func (e *Entry) Pos() int {
+	e.lock.Lock()
+	defer e.lock.Unlock()
 	return e.pos.Pos()
 }
 
diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..a82f79c 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -42,6 +42,7 @@ func (t *TreeTable) Put(id, start, length, examined, count int, captures []*Capt
 		examined: examined,
 		count:    count,
 		captures: captures,
+		lock:     &t.lock,
 	}
 	t.lock.Lock()
 	e.setPos(t.Map.Add(id, start, start+examined, e))
@@ -61,7 +62,9 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 }
 
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
@@ -69,6 +72,13 @@ func (t *TreeTable) AllValues() []*Entry {
 	return entries
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From 7118a9e443d27062a825f5b5f3ac331fbcf71fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 34/42] fix: the grammar of the PEG notation accepts the
 notation

---
 grammars/re.peg | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/grammars/re.peg b/grammars/re.peg
index 940e92c..6399130 100644
--- a/grammars/re.peg
+++ b/grammars/re.peg
@@ -1,16 +1,16 @@
-Pattern    <- Spacing_ (Expression / Grammar) EndOfFile_
+Pattern    <- Spacing_ (Grammar / Expression) EndOfFile_
 Grammar    <- Definition+
-Definition <- Identifier '<-' Expression
+Definition <- Identifier LEFTARROW Expression
 
-Expression <- Sequence ('/' Sequence)*
+Expression <- Sequence (SLASH Sequence)*
 Sequence   <- Prefix*
 Prefix     <- (AND / NOT)? Suffix
 Suffix     <- Primary (QUESTION / STAR / PLUS)?
-Primary    <- Identifier !'<-'
-            / '(' Expression ')'
+Primary    <- Identifier !LEFTARROW
+            / OPEN Expression CLOSE
             / Literal / Class
-            / '{' Expression '}'
-            / '{+' Expression '+}'
+            / BRACEPO Expression BRACEPC
+            / BRACEO Expression BRACEC
             / DOT
 
 # Lexical syntax
@@ -22,7 +22,7 @@ Literal    <- ['] (!['] Char)* ['] Spacing_
             / ["] (!["] Char)* ["] Spacing_
 Class      <- '[' CARAT? (!']' Range)* ']' Spacing_
 Range      <- Char '-' Char / Char
-Char       <- '\\' [nrt'"\[\]\\]
+Char       <- '\\' [nrt'"\[\]\\\-]
             / '\\' [0-2][0-7][0-7]
             / '\\' [0-7][0-7]?
             / !'\\' .
@@ -34,6 +34,14 @@ STAR       <- '*' Spacing_
 PLUS       <- '+' Spacing_
 DOT        <- '.' Spacing_
 CARAT      <- '^' Spacing_
+BRACEO     <- '{' Spacing_
+BRACEC     <- '}' Spacing_
+BRACEPO    <- '{{' Spacing_
+BRACEPC    <- '}}' Spacing_
+LEFTARROW  <- '<-' Spacing_
+OPEN       <- '(' Spacing_
+CLOSE      <- ')' Spacing_
+SLASH      <- '/' Spacing_
 
 Spacing_   <- (Space_ / Comment_)*
 Comment_   <- '#' (!EndOfLine_ .)* EndOfLine_
-- 
2.43.0


From c1c35454f48d30ae144d97275a663cede4cc0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 35/42] fix: the grammar of LPeg's re module accepts grammars

---
 grammars/lpeg.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/lpeg.peg b/grammars/lpeg.peg
index 608bb50..5fdc0bc 100644
--- a/grammars/lpeg.peg
+++ b/grammars/lpeg.peg
@@ -1,5 +1,5 @@
 pattern         <- exp !.
-exp             <- S (alternative / grammar)
+exp             <- S (grammar / alternative)
 
 alternative     <- seq ('/' S seq)*
 seq             <- prefix*
-- 
2.43.0


From 5f84f01e46a568cb9197d7a5bac0ac443637aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 36/42] fix: the JSON grammars accept escaped slashes and
 consecutive leading escapes

---
 grammars/json.peg      | 4 ++--
 grammars/json_memo.peg | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/grammars/json.peg b/grammars/json.peg
index 9073074..6cdeb8d 100644
--- a/grammars/json.peg
+++ b/grammars/json.peg
@@ -2,9 +2,9 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON (',' JSON)* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- Escape* ((!["\\\00-\37] .)+ Escape*)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
diff --git a/grammars/json_memo.peg b/grammars/json_memo.peg
index 0e75955..50f7969 100644
--- a/grammars/json_memo.peg
+++ b/grammars/json_memo.peg
@@ -2,9 +2,9 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON ({{',' JSON}})* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- Escape* ((!["\\\00-\37] .)+ Escape*)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
-- 
2.43.0


From 10680b35eccb588e963da780343634a2b184c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 37/42] fix: c.peg: wide character constants (L'a') are
 accepted

---
 grammars/c.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/c.peg b/grammars/c.peg
index ee02a73..85bf9b3 100644
--- a/grammars/c.peg
+++ b/grammars/c.peg
@@ -528,8 +528,8 @@ HexQuad <- HexDigit HexDigit HexDigit HexDigit
 Constant
    <- FloatConstant
     / IntegerConstant       # Note: can be a prefix of Float Constant!
+    / CharacterConstant     # Note: the prefix L is an Enumeration Constant!
     / EnumerationConstant
-    / CharacterConstant
 
 IntegerConstant
    <- ( DecimalConstant
-- 
2.43.0


From 5a4d213606fa74f4c4c1205c6de6725117b80ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:48 +0000
Subject: [PATCH 38/42] fix: c.peg: a wide string literal after another string
 literal is accepted

---
 grammars/c.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/c.peg b/grammars/c.peg
index 85bf9b3..21f9758 100644
--- a/grammars/c.peg
+++ b/grammars/c.peg
@@ -606,7 +606,7 @@ HexEscape    <- '\\x' HexDigit+
 #  A.1.6  String Literals
 #-------------------------------------------------------------------------
 
-StringLiteral <- 'L'? (["] StringChar* ["] Spacing)+
+StringLiteral <- ('L'? ["] StringChar* ["] Spacing)+
 
 StringChar <- Escape / ![\"\n\\] .
 
-- 
2.43.0


From 2377a99f54d71deec1003e0a6ef6958a9129d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 39/42] fix: c.peg: a compound literal of a named type is
 accepted

---
 grammars/c.peg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammars/c.peg b/grammars/c.peg
index 21f9758..bb12273 100644
--- a/grammars/c.peg
+++ b/grammars/c.peg
@@ -308,8 +308,8 @@ PrimaryExpression
     / LPAR Expression RPAR
 
 PostfixExpression
-   <- ( PrimaryExpression
-      / LPAR TypeName RPAR LWING InitializerList COMMA? RWING
+   <- ( LPAR TypeName RPAR LWING InitializerList COMMA? RWING
+      / PrimaryExpression
       )
       ( LBRK Expression RBRK
       / LPAR ArgumentExpressionList? RPAR
-- 
2.43.0


From 6ca8bc73a50548bababd4ac2e587a860a649010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 40/42] fix: patterns can be built and compiled by several
 goroutines at once

---
 isa/isa.go         |  6 +++---
 pattern/compile.go |  2 +-
 pattern/pattern.go | 22 +++++++++++++++++++---
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/isa/isa.go b/isa/isa.go
index 80f4952..4f0b5f4 100644
--- a/isa/isa.go
+++ b/isa/isa.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 )
@@ -37,7 +38,7 @@ type JumpType interface {
 	jumpt()
 }
 
-var uniqId int
+var uniqId int64
 
 // Label is used for marking a location in the instruction code with
 // a unique ID
@@ -48,9 +49,8 @@ type Label struct {
 
 // NewLabel returns a new label with a unique ID
 func NewLabel() Label {
-	uniqId++
 	return Label{
-		Id: uniqId,
+		Id: int(atomic.AddInt64(&uniqId, 1)),
 	}
 }
 
diff --git a/pattern/compile.go b/pattern/compile.go
index 1a3aa70..a1f2be3 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -154,7 +154,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		L2 := isa.NewLabel()
 		L3 := isa.NewLabel()
 		NoJump := isa.NewLabel()
-		memoId++
+		memoId := newMemoId()
 
 		code = append(code, L1)
 		code = append(code, isa.MemoTreeOpen{Id: memoId, Lbl: L3})
diff --git a/pattern/pattern.go b/pattern/pattern.go
index 7cd1a8a..cf3a3fb 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -4,6 +4,7 @@ package pattern
 
 import (
 	"regexp/syntax"
+	"sync"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -34,7 +35,21 @@ func CheckFlags(p Pattern, c isa.Checker, id, flag int) Pattern {
 	}
 }
 
-var memoId = 0
+// memoId is the next free memoization ID. Patterns may be built and compiled
+// by several goroutines at once.
+var (
+	memoId   = 0
+	memoLock sync.Mutex
+)
+
+// newMemoId returns a memoization ID that was not used before.
+func newMemoId() int {
+	memoLock.Lock()
+	defer memoLock.Unlock()
+	id := memoId
+	memoId++
+	return id
+}
 
 // MemoId marks a pattern as memoizable with a particular ID.
 func MemoId(p Pattern, id int) Pattern {
@@ -42,7 +57,9 @@ func MemoId(p Pattern, id int) Pattern {
 		Patt: p,
 		Id:   id,
 	}
+	memoLock.Lock()
 	memoId = max(memoId, id) + 1
+	memoLock.Unlock()
 	return m
 }
 
@@ -50,9 +67,8 @@ func MemoId(p Pattern, id int) Pattern {
 func Memo(p Pattern) Pattern {
 	m := &MemoNode{
 		Patt: p,
-		Id:   memoId,
+		Id:   newMemoId(),
 	}
-	memoId++
 	return m
 }
 
-- 
2.43.0


From 6c2e17e42e3cc913b09b37e0add06dfa09d9d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:45 +0000
Subject: [PATCH 41/42] fix: Prettify printed a repeated or optional predicate
 as a predicate of the repetition

---
 pattern/string.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pattern/string.go b/pattern/string.go
index 222981b..7c48071 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -3,8 +3,19 @@ package pattern
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
+// prettyOperand returns the text of a pattern to which a suffix operator is
+// applied. Prefix operators bind less tightly and need parentheses.
+func prettyOperand(p Pattern) string {
+	s := Prettify(p)
+	if strings.HasPrefix(s, "!") || strings.HasPrefix(s, "&") {
+		return "(" + s + ")"
+	}
+	return s
+}
+
 func Prettify(p Pattern) string {
 	switch t := Get(p).(type) {
 	case *LiteralNode:
@@ -20,11 +31,11 @@ func Prettify(p Pattern) string {
 	case *SeqNode:
 		return fmt.Sprintf("(%s %s)", Prettify(Get(t.Left)), Prettify(Get(t.Right)))
 	case *StarNode:
-		return fmt.Sprintf("%s*", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s*", prettyOperand(Get(t.Patt)))
 	case *PlusNode:
-		return fmt.Sprintf("%s+", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s+", prettyOperand(Get(t.Patt)))
 	case *OptionalNode:
-		return fmt.Sprintf("%s?", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s?", prettyOperand(Get(t.Patt)))
 	case *NotNode:
 		return fmt.Sprintf("!%s", Prettify(Get(t.Patt)))
 	case *AndNode:
-- 
2.43.0


From 19dbb0fcd89612c656056ca85eeccf55adaddf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:45 +0000
Subject: [PATCH 42/42] fix: Prettify printed Any(n) as a single dot whatever n
 is

---
 pattern/string.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pattern/string.go b/pattern/string.go
index 7c48071..5df6bcd 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -23,7 +23,13 @@ func Prettify(p Pattern) string {
 	case *ClassNode:
 		return fmt.Sprintf("[%s]", t.Chars.String())
 	case *DotNode:
-		return "."
+		switch t.N {
+		case 0:
+			return "\"\""
+		case 1:
+			return "."
+		}
+		return "(." + strings.Repeat(" .", int(t.N)-1) + ")"
 	case *EmptyNode:
 		return "\"\""
 	case *AltNode:
-- 
2.43.0

