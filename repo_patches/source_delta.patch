From ddce6a7f0b31e9756d4e41b4e128e660b2040aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 01/93] fix: keep a conflict found at level 0 across later
 operations

After Solve found the clauses unsatisfiable by propagation alone, the
conflict was forgotten by the next Solve or Add: the next Solve could fail
its model check and exit, or answer SAT.
---
 internal/xo/cgc.go |  3 +++
 internal/xo/s.go   | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..944a0f9 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,6 +192,9 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
+	if q, ok := rlm[cdb.Bot]; ok && q != CNull {
+		cdb.Bot = q
+	}
 	// reasons
 	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
 	// watches
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..265b137 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -427,6 +427,10 @@ func (s *S) Untest() int {
 		s.x = x
 		return -1
 	}
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	s.x = CNull
 	s.xLit = z.LitNull
 	return 0
@@ -542,6 +546,7 @@ func (s *S) ensure0() {
 	if len(s.testLevels) != 0 {
 		panic("ivalid operation under test scope")
 	}
+	s.pinConflict()
 	if s.Trail.Level != 0 {
 		s.Trail.Back(0)
 	}
@@ -550,6 +555,14 @@ func (s *S) ensure0() {
 	s.failed = nil
 }
 
+// pinConflict records a conflict found at level 0: the problem is then unsat
+// without assumptions and nothing can be derived from or undo the conflict.
+func (s *S) pinConflict() {
+	if s.x != CNull && s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Bot = s.x
+	}
+}
+
 // Assume causes the solver to Assume the literal m to be true for the
 // next call to Solve() or Test().
 //
@@ -639,6 +652,7 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		s.pinConflict()
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
-- 
2.43.0


From d2fc7b468970288f42379f05dfceb5f505d7163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 02/93] fix: Solve under a failed Test stays unsat until Untest

Solve after a Test returning -1 forgot the tested assumptions.
---
 internal/xo/s.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 265b137..259590d 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -46,6 +46,8 @@ type S struct {
 	// keeps level of start of each test (before assumptions)
 	testLevels   []int
 	endTestLevel int
+	// the last Test was unsat and has not been undone with Untest.
+	testFailed bool
 	// assumptionLevel can be > endTestLevel for untested assumptions
 	assumptLevel int
 	assumes      []z.Lit // only last set of requested assumptions before solve/test.
@@ -154,6 +156,7 @@ func (s *S) Copy() *S {
 	other.testLevels = make([]int, len(s.testLevels), cap(s.testLevels))
 	copy(other.testLevels, s.testLevels)
 	other.endTestLevel = s.endTestLevel
+	other.testFailed = s.testFailed
 	other.assumptLevel = s.assumptLevel
 	other.assumes = make([]z.Lit, len(s.assumes), cap(s.assumes))
 	copy(other.assumes, s.assumes)
@@ -359,6 +362,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	trail := s.Trail
 	start := trail.Tail
 	if r := s.makeAssumptions(); r == -1 {
+		s.testFailed = true
 		ns = nil
 		res = -1
 		return
@@ -416,6 +420,7 @@ func (s *S) Untest() int {
 	}
 	trail := s.Trail
 	lastTestLevel := s.lastTestLevel()
+	s.testFailed = false
 	s.testLevels = s.testLevels[:len(s.testLevels)-1]
 	s.endTestLevel = lastTestLevel
 	if x := s.cleanupSolve(); x != CNull {
@@ -622,6 +627,11 @@ func (s *S) solveInit() int {
 			break
 		}
 	}
+	if s.testFailed {
+		// tested assumptions remain until Untest, so does the conflict
+		// found under them (in s.x or s.xLit).
+		return -1
+	}
 	if x := s.cleanupSolve(); x != CNull {
 		s.x = x
 		return -1
-- 
2.43.0


From d6fec5153392b0f8583f63868f9d6e0081454059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 03/93] fix: keep Vars.Reasons indexed by variable when clauses
 are removed

---
 internal/xo/cgc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 944a0f9..8c4c2a0 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -196,7 +196,13 @@ func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 		cdb.Bot = q
 	}
 	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	reasons := cdb.Vars.Reasons
+	for v, p := range reasons {
+		// nb indexed by variable, removed reasons stay in place as CNull.
+		if q, ok := rlm[p]; ok {
+			reasons[v] = q
+		}
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
-- 
2.43.0


From 6fb56b0d75613de59bb12233bed103781853a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 04/93] fix: unlinking clauses keeps the clause being added

---
 internal/xo/cdb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..20c7f0c 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -258,6 +258,7 @@ func (c *Cdb) Size(p z.C) int {
 // clause garbage collection.
 func (c *Cdb) Unlink(rms []z.C) {
 	d := c.CDat.D
+	pending := len(c.AddLits)
 	wLits := c.AddLits
 	wVals := c.AddVals
 	rMap := make(map[z.C]bool, len(rms))
@@ -276,6 +277,9 @@ func (c *Cdb) Unlink(rms []z.C) {
 			wLits = append(wLits, m)
 		}
 	}
+	// nb a clause being added must survive.
+	c.AddLits = wLits[:pending]
+	wLits = wLits[pending:]
 
 	for _, m := range wLits {
 		ws := c.Vars.Watches[m]
@@ -296,7 +300,6 @@ func (c *Cdb) Unlink(rms []z.C) {
 	for _, m := range wLits {
 		wVals[m.Var()] = 0
 	}
-	c.AddLits = c.AddLits[:0]
 }
 
 func (c *Cdb) SetTracer(t Tracer) {
-- 
2.43.0


From d23023da2cda8e821ad9d71d7c0ab47aea0176a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 05/93] fix: activating a clause true at level 0 is not a panic

---
 internal/xo/active.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..b8fbd7d 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// trivially true at level 0: nothing to activate.
 		return
 	}
 	// add occs
@@ -63,8 +63,8 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
-	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
+	a.Free = append(a.Free, m)
 }
 
 func (a *Active) CRemap(rlm map[z.C]z.C) {
-- 
2.43.0


From 9d79e5f4e99bbbb4c49e60138b1fc31b67c48b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 06/93] fix: don't recycle an activation literal fixed at level
 0

---
 internal/xo/active.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b8fbd7d..ac71c87 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -64,6 +64,11 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	a.Occs[mv] = nil
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
 	a.IsActive[mv] = false
+	if cdb.Vars.Vals[m] != 0 {
+		// m is fixed at level 0 by the clauses it activated, so it can't
+		// activate any other clause.
+		return
+	}
 	a.Free = append(a.Free, m)
 }
 
-- 
2.43.0


From 72a4c30347c6d04f9f2b54f8c8f54112fb198c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 07/93] fix: a Try deadline does not outlive its Try

---
 internal/xo/s.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 259590d..bec7b9f 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -198,6 +198,10 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	defer func() {
+		// later solves have no deadline
+		s.deadline = s.startTime
+	}()
 	return s.Solve()
 }
 
-- 
2.43.0


From 7a94bf88c4b6a9aec330d10048bdbde83b4f15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 08/93] fix: filter dimacs comments after blank lines and in
 data read with an error

---
 dimacs/cfilt.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..8035b12 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -43,10 +43,8 @@ func (s state) String() string {
 
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
+	// nb a reader may return data together with an error.
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +67,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +97,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil && n > 0 {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From 0b33f75bef6d7f6329b02c1dd01fb630ad023a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 09/93] fix: dimacs integers need digits and must be in the
 range of literals

---
 dimacs/int.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..92919be 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -9,9 +9,14 @@ import (
 	"io"
 )
 
+// largest magnitude of integers which are accepted, the largest
+// variable for which there are literals.
+const maxInt = 1<<31 - 1
+
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
+	nd := 0
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
@@ -22,6 +27,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		nd++
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -30,7 +36,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
-			return v * m, nil
+			break
 		}
 		if e != nil {
 			return 0, e
@@ -41,8 +47,15 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		if c < byte('0') || c > byte('9') {
 			return 0, fmt.Errorf("bad character for int: %c", c)
 		}
+		nd++
 		v *= 10
 		v += int(c - byte('0'))
+		if v > maxInt {
+			return 0, fmt.Errorf("int out of range")
+		}
+	}
+	if nd == 0 {
+		return 0, fmt.Errorf("no digits in int")
 	}
 	return v * m, nil
 }
-- 
2.43.0


From 8bab8b349123186feb2bcf70b710bc93a836be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 10/93] fix: dimacs cnf header after blank lines, negative
 header numbers, end of file

---
 dimacs/cnf.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..34ab18c 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -79,14 +79,13 @@ func (r *cnfReader) Read() error {
 				r.hdrVars, r.hdrCls, r.vMax, r.nCls)
 		}
 	}
+	r.vis.Eof()
 	return nil
 }
 
 // ReadHeaders reads the header 'p cnf N M'
 func (r *cnfReader) readHeader() error {
-	var e error = nil
-	var b byte
-	b, e = r.rdr.ReadByte()
+	b, e := readNextNonWhiteByte(r.rdr)
 	if e != nil {
 		return e
 	}
@@ -159,6 +158,9 @@ func (r *cnfReader) readP() error {
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative number\n")
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
-- 
2.43.0


From 7de51a38fe4ce049f1b29c6ed4c22370b1285af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 11/93] fix: bound the memory allocated for a dimacs problem
 line

---
 internal/xo/dimacs.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/xo/dimacs.go b/internal/xo/dimacs.go
index 0ac4113..dde58b3 100644
--- a/internal/xo/dimacs.go
+++ b/internal/xo/dimacs.go
@@ -11,7 +11,20 @@ type DimacsVis struct {
 	s *S
 }
 
+// maximum capacity hints taken from a problem line, which may
+// be unrelated to what follows it.
+const (
+	maxDimacsVars    = 1 << 20
+	maxDimacsClauses = 1 << 22
+)
+
 func (d *DimacsVis) Init(v, c int) {
+	if v > maxDimacsVars {
+		v = maxDimacsVars
+	}
+	if c > maxDimacsClauses {
+		c = maxDimacsClauses
+	}
 	d.s = NewSVc(v, c)
 }
 
-- 
2.43.0


From 326df7496b126b7dda5f84a12a688a0115104ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 12/93] fix: whitespace before icnf assumption lines and at the
 end of icnf files

---
 dimacs/icnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..f48c32b 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -34,7 +34,7 @@ func (i *iCnfReader) read() error {
 	vis := i.vis
 	assumptions := false
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
 			vis.Eof()
 			return nil
-- 
2.43.0


From 34d57619893b0d60d441a2a330988b88a0ae5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 13/93] fix: read solver output with values over several lines

---
 dimacs/solve.go | 57 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..babdaa6 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -46,19 +46,43 @@ func (s *sRdr) handleSolution(sol string) error {
 	return nil
 }
 
+func (s *sRdr) handleValues(vals string) error {
+	rdr := bufio.NewReader(strings.NewReader(vals))
+	for {
+		m, e := readLit(rdr)
+		if e == io.EOF {
+			return nil
+		}
+		if e != nil {
+			return e
+		}
+		s.vis.Value(m)
+	}
+}
+
+// handleLine handles the contents of a line whose first character
+// gave state.
+func (s *sRdr) handleLine(state solveState, buf []byte) error {
+	switch state {
+	case sol:
+		return s.handleSolution(string(buf))
+	case values:
+		return s.handleValues(string(buf))
+	}
+	return nil
+}
+
 func (s *sRdr) read() error {
 	rdr := s.rdr
 	vis := s.vis
 	state := neither
-	solbuf := make([]byte, 0, 32)
+	linebuf := make([]byte, 0, 32)
 	line := 0
 	for {
 		c, e := rdr.ReadByte()
 		if e == io.EOF {
-			if len(solbuf) != 0 {
-				if e := s.handleSolution(string(solbuf)); e != nil {
-					return e
-				}
+			if e := s.handleLine(state, linebuf); e != nil {
+				return e
 			}
 			vis.Eof()
 			return nil
@@ -68,13 +92,11 @@ func (s *sRdr) read() error {
 		}
 		if c == byte('\n') {
 			line++
-			state = neither
-			if len(solbuf) != 0 {
-				if e := s.handleSolution(string(solbuf)); e != nil {
-					return e
-				}
+			if e := s.handleLine(state, linebuf); e != nil {
+				return e
 			}
-			solbuf = solbuf[:0]
+			state = neither
+			linebuf = linebuf[:0]
 			continue
 		}
 		switch state {
@@ -86,17 +108,8 @@ func (s *sRdr) read() error {
 			} else {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
-		case values:
-			if e := rdr.UnreadByte(); e != nil {
-				return e
-			}
-			m, e := readLit(rdr)
-			if e != nil {
-				return e
-			}
-			vis.Value(m)
-		case sol:
-			solbuf = append(solbuf, c)
+		case sol, values:
+			linebuf = append(linebuf, c)
 		}
 	}
 }
-- 
2.43.0


From 13285e0069e3a000a7e97a9e8127693a560a92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 14/93] fix: header of written cnf, writing an empty cnf

---
 internal/xo/cdat.go | 2 +-
 internal/xo/cdb.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..3f6dac1 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 16)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 20c7f0c..d972b4d 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -307,7 +307,7 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
-- 
2.43.0


From 10af3cfddc7e7bf6b786c2becf19183614f527d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 15/93] fix: empty reads in the dimacs comment filter

---
 dimacs/cfilt.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 8035b12..1691176 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -41,7 +41,11 @@ func (s state) String() string {
 	}
 }
 
+// number of consecutive empty reads after which reading fails
+const maxEmptyReads = 100
+
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
+	empty := 0
 Start:
 	// nb a reader may return data together with an error.
 	n, e = f.rdr.Read(buf)
@@ -97,7 +101,12 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 && e == nil && n > 0 {
+	if j == 0 && e == nil && len(buf) > 0 {
+		if n > 0 {
+			empty = 0
+		} else if empty++; empty >= maxEmptyReads {
+			return 0, io.ErrNoProgress
+		}
 		goto Start
 	}
 	return j, e
-- 
2.43.0


From d930a1a88890315691ef4fc814fa14eb23ef7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 16/93] fix: a truncated cnf problem line is an error

---
 dimacs/cnf.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index 34ab18c..50b4d37 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -143,6 +143,9 @@ func (r *cnfReader) readP() error {
 	rdr := r.rdr
 	for _, c := range []byte{byte('p'), byte(' '), byte('c'), byte('n'), byte('f'), byte(' ')} {
 		b, e := rdr.ReadByte()
+		if e == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return e
 		}
@@ -151,10 +154,16 @@ func (r *cnfReader) readP() error {
 		}
 	}
 	nv, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
 	nc, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From cfa8254597d9a09614fd52c15e2d6b9f8f12e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 17/93] fix: don't write removed clauses

---
 internal/xo/cdat.go | 6 +++++-
 internal/xo/cdb.go  | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 3f6dac1..3027c3a 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -194,9 +194,13 @@ func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
 
 // func Dimacs writes a dimacs file (no header)
 func (c *CDat) Dimacs(w io.Writer) error {
+	return c.dimacs(w, nil)
+}
+
+func (c *CDat) dimacs(w io.Writer, skip map[z.C]bool) error {
 	var ret error
 	c.Forall(func(i int, o z.C, ms []z.Lit) {
-		if ret != nil {
+		if ret != nil || skip[o] {
 			return
 		}
 		//fmt.Fprintf(w, "%s: ", o)
diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index d972b4d..c2e6eb7 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -307,7 +307,12 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen))
+	// nb removed clauses may still be in CDat.
+	rmd := make(map[z.C]bool, len(c.gc.rmq))
+	for _, p := range c.gc.rmq {
+		rmd[p] = true
+	}
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen-len(rmd)))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
@@ -316,7 +321,7 @@ func (c *Cdb) Write(w io.Writer) error {
 			return e
 		}
 	}
-	return c.CDat.Dimacs(w)
+	return c.CDat.dimacs(w, rmd)
 }
 
 func (c *Cdb) String() string {
-- 
2.43.0


From 59d1445863957851f2bad915669c95a7f8dc54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 18/93] fix: InPos does not list the constant as an input

---
 logic/c.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..d6ab078 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -186,7 +186,8 @@ func (c *C) Lit() z.Lit {
 func (c *C) InPos(dst []int) []int {
 	dst = dst[:0]
 	for i, n := range c.nodes {
-		if i == 0 {
+		if i <= 1 {
+			// LitNull and the constant
 			continue
 		}
 		if n.a == z.LitNull && n.b == z.LitNull {
-- 
2.43.0


From 3c5df256cf1d68b20000a1d36cdd57223267b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 19/93] fix: Eval64 makes the constant true in all 64 bits

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index d6ab078..cc60a24 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -229,7 +229,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From ae28616839995c97c4cd51797f5b84d907a0e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 20/93] fix: a copied circuit keeps its hash table usable

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index cc60a24..2fd1469 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,7 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	ns := make([]node, len(c.nodes), cap(c.nodes))
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From 25da782c353884a0a56d99ec9b66a4843e640765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 21/93] fix: aiger: write constants uninverted in ascii

---
 logic/aiger/aiger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..7083bfa 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1407,11 +1407,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From c6caa1db578dcf93af97698161df8b495bf7f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 22/93] fix: aiger: write the constant true as such in binary

---
 logic/aiger/aiger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 7083bfa..ad90ebc 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -603,9 +603,11 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
-	v := m.Var()
-	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if m == abw.trueLit {
+		return 1
+	}
+	a := abw.idMap[m.Var()]
+	if m == abw.trueLit.Not() || m.IsPos() {
 		return a
 	}
 	return a | 1
-- 
2.43.0


From a29f06f658c92ee78e39e5e65cc27929be3080b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 23/93] fix: aiger: write every and gate which the header
 counts

---
 logic/aiger/aiger.go | 34 +++-------------------------------
 logic/aiger/dfs.go   |  9 +++++++++
 2 files changed, 12 insertions(+), 31 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index ad90ebc..279e86d 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -371,23 +371,12 @@ func (a *T) WriteBinary(w io.Writer) error {
 		abw.mapLit(m)
 	}
 	// create mapping for and gates
-	nexts := make([]z.Lit, 0, len(a.Latches))
-	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
-	}
 	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
 		if s.Type(m) == logic.SAnd {
 			abw.mapLit(m)
 		}
 	})
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	dfs.post(a.Constraints...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	dfs.postAll()
 	dfs.reset()
 
 	// Stage2: write the remaining data.  Latches
@@ -428,13 +417,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	}
 	// second pass writes the ands in binary format.
 	dfs.fn = abw.writeBinAnd
-	dfs.post(a.Outputs...)
-	dfs.post(nexts...)
-	dfs.post(a.Bad...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
+	dfs.postAll()
 	a.writeSymtab(bw)
 	// finally write comment
 	writeComment(bw)
@@ -572,18 +555,7 @@ func (a *T) writeAsciiAnds(w *bufio.Writer) {
 		writeLit(w, c1, a.S.T)
 		w.WriteString("\n")
 	})
-	nexts := make([]z.Lit, 0, len(a.Latches))
-	for _, m := range a.Latches {
-		nexts = append(nexts, a.Next(m))
-	}
-	dfs.post(a.Outputs...)
-	dfs.post(a.Bad...)
-	dfs.post(a.Constraints...)
-	for _, ma := range a.Justice {
-		dfs.post(ma...)
-	}
-	dfs.post(a.Fair...)
-	dfs.post(nexts...)
+	dfs.postAll()
 }
 
 // state information for binary writer
diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..01ef0f6 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -31,6 +31,15 @@ func (d *sDfs) post(ms ...z.Lit) {
 	}
 }
 
+// postAll visits all nodes, whether or not something refers to them: the
+// header counts every and gate.
+func (d *sDfs) postAll() {
+	n := d.s.Len()
+	for i := 1; i < n; i++ {
+		d.post(d.s.At(i))
+	}
+}
+
 func (d *sDfs) vis(m z.Lit) {
 	if d.marks[m.Var()] == 2 {
 		return
-- 
2.43.0


From f875f64a2fe05c23c00ddb355b44b9e34209269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 24/93] fix: aiger: order the operands of binary and gates by
 their aiger literals

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 279e86d..2d56f1f 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -598,6 +598,10 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		// the order in aiger need not be the order in *logic.S
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-- 
2.43.0


From deb7cb39e864c892b40842303f0c8237f50ca343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 25/93] fix: aiger: an index one past the end cannot be named

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 2d56f1f..03e1663 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -124,7 +124,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -146,7 +146,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -178,7 +178,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -200,7 +200,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -222,7 +222,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -244,7 +244,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -266,7 +266,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From 5dbafe5cf91ac36c1e948084db6cee5883d7c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 26/93] fix: aiger: Copy keeps the inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 03e1663..aee1542 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From 5011139f7c37fd2e3e49857306949b8eda9e7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 27/93] fix: aiger: an unspecified initial value is the latch's
 own literal, however latches are numbered

---
 logic/aiger/aiger.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index aee1542..edb5063 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -754,6 +754,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		g := (hdr.In + i + 1) * 2
 		if ascii {
 			latch, latchErr := readUint(br)
 			if latchErr != nil {
@@ -763,6 +764,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return SignedLatch
 			}
 			abr.AigLatches = append(abr.AigLatches, latch)
+			g = latch
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
 			b, e := br.ReadByte()
@@ -776,7 +778,6 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(g, m)
 		}
@@ -808,7 +809,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == g {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From 2bdf45873fde90a987149f765459974fd87818b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 28/93] fix: aiger: the size of a justice property is not
 bounded by the literals

---
 logic/aiger/aiger.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index edb5063..d33c58c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -727,6 +727,7 @@ func (aigrdr *aigerReader) commit(ascii bool) error {
 		aigrdr.Constraints = append(aigrdr.Constraints, m)
 	}
 	for i, ua := range aigrdr.AigJustice {
+		aigrdr.Justice[i] = make([]z.Lit, len(ua))
 		for j, u := range ua {
 			m := aigrdr.litFor(u)
 			if m == 0 {
@@ -910,25 +911,21 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 	a.Justice = make([][]z.Lit, int(count), int(count))
 	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	counts := make([]uint, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
-		counts = append(counts, int(v))
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
 	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+		a.AigJustice = append(a.AigJustice, nil)
+		for j := uint(0); j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -936,7 +933,7 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			a.AigJustice[i] = append(a.AigJustice[i], v)
 			if err := readNL(r); err != nil {
 				return err
 			}
-- 
2.43.0


From 41f8596e5d1f5d0714370a2b49295458c0f820ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 29/93] fix: aiger: keep the sign of gates which simplify when
 read

---
 logic/aiger/aiger.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index d33c58c..3b3cedd 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -642,7 +642,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	litMap         []z.Lit // by aiger variable
 	AigAnds        []aigAnd
 }
 
@@ -657,14 +657,14 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		litMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	abr.litMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -674,16 +674,14 @@ func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
 		}
 		return abr.S.F
 	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.litMap[aigerLit>>1]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1093,7 +1091,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
+			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
 				return err
 			}
 		}
@@ -1104,7 +1102,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
+			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From f010e17e9def8ee0444c21afa2b84b7cac464680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 30/93] fix: aiger: operands of ascii and gates may be constant

---
 logic/aiger/aiger.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 3b3cedd..b782676 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -989,7 +989,9 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
 	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds[0] = aigAnd{defined: true, mapped: true} // the constant
 	var i uint
+
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
 		if gErr != nil {
-- 
2.43.0


From 08419e6989d60717a798127293549772b950a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 31/93] fix: aiger: check the variables of latches, gates and
 headers before using them as an index

---
 logic/aiger/aiger.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index b782676..4946004 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -759,6 +759,9 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
@@ -968,7 +971,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
@@ -1188,6 +1191,9 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// the largest variable a z.Lit can have
+const maxVar = 1<<31 - 1
+
 // header for aiger v 1.9
 type aigerHeader struct {
 	Binary     bool
@@ -1286,6 +1292,17 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		}
 		wantSpace = false
 	}
+	if counts[0] > maxVar {
+		return nil, BadHeader
+	}
+	// every input, latch and gate has its own variable
+	left := counts[0]
+	for _, n := range [...]uint{counts[1], counts[2], counts[4]} {
+		if n > left {
+			return nil, BadHeader
+		}
+		left -= n
+	}
 	result.Max = counts[0]
 	result.In = counts[1]
 	result.Latch = counts[2]
-- 
2.43.0


From f5ddde6af65ac47c53aa8c67967e1775818e16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 32/93] fix: aiger: numbers in a header do not allocate memory
 by themselves

---
 logic/aiger/aiger.go | 97 +++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 47 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 4946004..a790cbf 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -441,7 +441,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	if err := aigrdr.readAsciiInputs(hdr, br); err != nil {
 		return nil, err
@@ -489,7 +489,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if !hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	var i uint
 	for i = 0; i < hdr.In; i++ {
@@ -621,7 +621,6 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 // etc.
 type aigAnd struct {
 	children [2]uint
-	defined  bool
 	mapped   bool
 	dfsColor uint8
 }
@@ -642,29 +641,30 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	litMap         []z.Lit // by aiger variable
-	AigAnds        []aigAnd
+	litMap         map[uint]z.Lit   // by aiger variable
+	AigAnds        map[uint]*aigAnd // by aiger variable
+	andVars        []uint           // those of the gates, as in the file
 }
 
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 	abr := &aigerReader{
 		T:              a,
-		AigInputs:      make([]uint, 0, hdr.In),
-		AigLatches:     make([]uint, 0, hdr.Latch),
-		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
-		litMap:         make([]z.Lit, hdr.Max+1),
+		AigInputs:      make([]uint, 0, capHint(hdr.In)),
+		AigLatches:     make([]uint, 0, capHint(hdr.Latch)),
+		AigLatchNexts:  make([]uint, 0, capHint(hdr.Latch)),
+		AigOutputs:     make([]uint, 0, capHint(hdr.Out)),
+		AigBad:         make([]uint, 0, capHint(hdr.Bad)),
+		AigConstraints: make([]uint, 0, capHint(hdr.Constraint)),
+		AigJustice:     make([][]uint, 0, capHint(hdr.Justice)),
+		AigFair:        make([]uint, 0, capHint(hdr.Fair)),
+		litMap:         make(map[uint]z.Lit, capHint(hdr.Max+1)),
 		AigAnds:        nil}
 	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.litMap[int(aigerLit>>1)] = m
+	abr.litMap[aigerLit>>1] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -725,7 +725,7 @@ func (aigrdr *aigerReader) commit(ascii bool) error {
 		aigrdr.Constraints = append(aigrdr.Constraints, m)
 	}
 	for i, ua := range aigrdr.AigJustice {
-		aigrdr.Justice[i] = make([]z.Lit, len(ua))
+		aigrdr.Justice = append(aigrdr.Justice, make([]z.Lit, len(ua)))
 		for j, u := range ua {
 			m := aigrdr.litFor(u)
 			if m == 0 {
@@ -851,7 +851,7 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
+	abr.AigOutputs = make([]uint, 0, capHint(nOut))
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -870,8 +870,8 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
+	abr.AigBad = make([]uint, 0, capHint(count))
+	abr.Bad = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -890,8 +890,8 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
+	a.AigConstraints = make([]uint, 0, capHint(count))
+	a.Constraints = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -910,9 +910,9 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]uint, 0, int(count))
+	a.Justice = make([][]z.Lit, 0, capHint(count))
+	a.AigJustice = make([][]uint, 0, capHint(count))
+	counts := make([]uint, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -944,8 +944,8 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
+	a.AigFair = make([]uint, 0, capHint(count))
+	a.Fair = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -991,8 +991,8 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 }
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
-	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
-	aigrdr.AigAnds[0] = aigAnd{defined: true, mapped: true} // the constant
+	aigrdr.AigAnds = make(map[uint]*aigAnd, capHint(hdr.Max+1))
+	aigrdr.AigAnds[0] = &aigAnd{mapped: true} // the constant
 	var i uint
 
 	for i = 0; i < hdr.And; i++ {
@@ -1050,13 +1050,11 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		aa := &aigrdr.AigAnds[int(g>>1)]
-		if aa.defined {
+		if aigrdr.AigAnds[g>>1] != nil {
 			return AndMultiplyDefined
 		}
-		aa.defined = true
-		aa.children[0] = c0
-		aa.children[1] = c1
+		aigrdr.AigAnds[g>>1] = &aigAnd{children: [2]uint{c0, c1}}
+		aigrdr.andVars = append(aigrdr.andVars, g>>1)
 	}
 	if err := aigrdr.mapAnds(); err != nil {
 		return err
@@ -1066,19 +1064,15 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 
 func (aigrdr *aigerReader) mapAnds() error {
 	for _, m := range aigrdr.AigInputs {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
 	}
 	for _, m := range aigrdr.AigLatches {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
 	}
-	for i := 0; i < len(aigrdr.AigAnds); i++ {
-		ag := &aigrdr.AigAnds[i]
-		if ag.defined && !ag.mapped {
-			if err := aigrdr.mapAndsRec(ag, uint(i*2)); err != nil {
+	for _, v := range aigrdr.andVars {
+		ag := aigrdr.AigAnds[v]
+		if !ag.mapped {
+			if err := aigrdr.mapAndsRec(ag, v*2); err != nil {
 				return err
 			}
 		}
@@ -1091,8 +1085,8 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	case 0:
 		ag.dfsColor = 1
 		c0, c1 := ag.children[0], ag.children[1]
-		ag0 := &aigrdr.AigAnds[int(c0>>1)]
-		if !ag0.defined {
+		ag0 := aigrdr.AigAnds[c0>>1]
+		if ag0 == nil {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
@@ -1102,8 +1096,8 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 		}
 		m := aigrdr.litFor(c0)
 
-		ag1 := &aigrdr.AigAnds[int(c1>>1)]
-		if !ag1.defined {
+		ag1 := aigrdr.AigAnds[c1>>1]
+		if ag1 == nil {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
@@ -1191,6 +1185,15 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// capHint is a capacity for n things which are still to be read: a number in
+// a file is no reason to allocate that much.
+func capHint(n uint) int {
+	if n > 1<<10 {
+		return 1 << 10
+	}
+	return int(n)
+}
+
 // the largest variable a z.Lit can have
 const maxVar = 1<<31 - 1
 
-- 
2.43.0


From 4a35d6e8e8b06a13d330d37322121f3da6f3feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 33/93] fix: aiger: comments may end without a newline, and
 reading them may fail

---
 logic/aiger/aiger.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a790cbf..a383b70 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"strings"
 
@@ -1168,21 +1169,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 }
 
 func (ar *aigerReader) readComments(r *bufio.Reader) error {
-	for {
-		comment, err := r.ReadString('\n')
-		// TBD: add comments api
-		if len(comment) > 0 {
-			if err == io.EOF {
-				return PrematureEOF
-			}
-			if err != nil {
-				return err
-			}
-		} else if err == io.EOF {
-			return nil
-		}
-	}
-	panic("unreachable")
+	// TBD: add comments api
+	_, err := io.Copy(ioutil.Discard, r)
+	return err
 }
 
 // capHint is a capacity for n things which are still to be read: a number in
-- 
2.43.0


From da45661130be42943d4886e5e277a65ac653bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 34/93] fix: aiger: report every read error

---
 logic/aiger/aiger.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a383b70..f3e336b 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1125,6 +1125,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1273,6 +1276,9 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		if e == io.EOF {
 			return nil, PrematureEOF
 		}
+		if e != nil {
+			return nil, e
+		}
 		if b == '\n' {
 			if i < 5 {
 				return nil, BadHeader
@@ -1432,6 +1438,9 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From b74cb29db7ece53db3fbe4cdab1a2057e99900bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 35/93] fix: aiger: an and gate which redefines an input or
 latch is an error

---
 logic/aiger/aiger.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f3e336b..97e7e35 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -994,6 +994,12 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
 	aigrdr.AigAnds = make(map[uint]*aigAnd, capHint(hdr.Max+1))
 	aigrdr.AigAnds[0] = &aigAnd{mapped: true} // the constant
+	for _, m := range aigrdr.AigInputs {
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
+	}
+	for _, m := range aigrdr.AigLatches {
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
+	}
 	var i uint
 
 	for i = 0; i < hdr.And; i++ {
@@ -1064,12 +1070,6 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
-	for _, m := range aigrdr.AigInputs {
-		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
-	}
-	for _, m := range aigrdr.AigLatches {
-		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
-	}
 	for _, v := range aigrdr.andVars {
 		ag := aigrdr.AigAnds[v]
 		if !ag.mapped {
-- 
2.43.0


From 58a77accc666ef6e3709717d56610e00af19ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 36/93] fix: aiger: a name for an element which is not there is
 an error

---
 logic/aiger/aiger.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 97e7e35..e0ac379 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -468,7 +468,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if err := aigrdr.readAsciiAnds(hdr, br); err != nil {
 		return nil, err
 	}
-	if err := aigrdr.readSymsAndComments(br); err != nil {
+	if err := aigrdr.readSymsAndComments(hdr, br); err != nil {
 		return nil, err
 	}
 	if err := aigrdr.commit(true); err != nil {
@@ -520,7 +520,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if err := aigrdr.readBinaryAnds(hdr, br); err != nil {
 		return nil, err
 	}
-	if err := aigrdr.readSymsAndComments(br); err != nil {
+	if err := aigrdr.readSymsAndComments(hdr, br); err != nil {
 		return nil, err
 	}
 	if err := aigrdr.commit(false); err != nil {
@@ -1119,7 +1119,9 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	return nil
 }
 
-func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
+func (aigrdr *aigerReader) readSymsAndComments(hdr *aigerHeader, r *bufio.Reader) error {
+	count := map[byte]uint{'i': hdr.In, 'l': hdr.Latch, 'o': hdr.Out, 'b': hdr.Bad,
+		'c': hdr.Constraint, 'j': hdr.Justice, 'f': hdr.Fair}
 	for {
 		b, e := r.ReadByte()
 		if e == io.EOF {
@@ -1148,6 +1150,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 			if err != nil {
 				return err
 			}
+			if index >= count[b] {
+				return InvalidIndex
+			}
 			bs, e := r.ReadByte()
 			if e == io.EOF {
 				return PrematureEOF
-- 
2.43.0


From 078abf47e44b1572ce3a9960a61ebbbcdfc603c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 37/93] fix: z.Vars never allocates variable 0

---
 z/dv.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..a1fa00a 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -104,6 +104,7 @@ func (v *Vars) Inner() Lit {
 		v.free = v.free[:fl-1]
 		return res.Pos()
 	}
+	v.ensureInnerCap(0) // 0 is not a variable
 	w := Var(len(v.i2o))
 	v.ensureInnerCap(w)
 	return w.Pos()
@@ -135,6 +136,11 @@ func (v *Vars) ensureInnerCap(w Var) {
 }
 
 func (v *Vars) ensureOuterCap(w Var) {
+	if len(v.o2i) == 0 {
+		// LitNull maps to itself.
+		v.ensureInnerCap(0)
+		v.o2i = append(v.o2i, 0)
+	}
 	for o := Var(len(v.o2i)); o <= w; o++ {
 		i := Var(len(v.i2o))
 		v.o2i = append(v.o2i, i)
-- 
2.43.0


From 9d8a7ae9fe7fbd322f80b990f543166235b381a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 38/93] fix: a wrapped solver maps every literal of its user

---
 sv.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sv.go b/sv.go
index f6a525f..0d57c6d 100644
--- a/sv.go
+++ b/sv.go
@@ -11,8 +11,9 @@ import (
 )
 
 type svWrap struct {
-	S inter.S
-	V *z.Vars
+	S   inter.S
+	V   *z.Vars
+	max z.Var // of the user's literals
 }
 
 // NewSv creates an Sv implementation
@@ -41,24 +42,34 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	ns := make([]z.Lit, len(ms))
+	for i, m := range ms {
+		ns[i] = w.toInner(m)
+	}
+	w.S.Assume(ns...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
-	w.S.Add(m)
+	w.S.Add(w.toInner(m))
 }
 
 func (w *svWrap) MaxVar() z.Var {
-	return w.S.MaxVar()
+	return w.max
 }
 
 func (w *svWrap) Lit() z.Lit {
-	return w.S.Lit()
+	m := (w.max + 1).Pos()
+	n := w.toInner(m)
+	for w.S.MaxVar() < n.Var() {
+		w.S.Lit()
+	}
+	return m
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
+	n := len(dst)
 	dst = w.S.Why(dst)
-	return w.V.ToOuters(dst)
+	return dst[:n+len(w.V.ToOuters(dst[n:]))]
 }
 
 func (w *svWrap) Value(m z.Lit) bool {
@@ -95,7 +106,16 @@ func (w *svWrap) Reasons(dst []z.Lit, implied z.Lit) []z.Lit {
 
 func (w *svWrap) SCopy() inter.S {
 	c := &svWrap{
-		S: w.S.SCopy(),
-		V: w.V.Copy()}
+		S:   w.S.SCopy(),
+		V:   w.V.Copy(),
+		max: w.max}
 	return c
 }
+
+// toInner maps a literal which the user gives to the solver.
+func (w *svWrap) toInner(m z.Lit) z.Lit {
+	if m.Var() > w.max {
+		w.max = m.Var()
+	}
+	return w.V.ToInner(m)
+}
-- 
2.43.0


From 4195a7289d3972765399c801cfa943b37a2825f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 39/93] fix: gen: RandColor numbers its variables by node and
 color, and forbids every color of an edge

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From fd6702b9aecac079dcd7dc6bc7d5bd0b5aed8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 40/93] fix: gen: PyTriples names the numbers by their own
 elements

---
 gen/pt.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..5b69883 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -44,9 +44,10 @@ func PyTriples(dst inter.Adder, n, k int) {
 	_, ts := pytriples(n)
 	for _, t := range ts {
 		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
+			// numbers are from 1, elements from 0
+			a := PartVar(t.a-1, p, n)
+			b := PartVar(t.b-1, p, n)
+			c := PartVar(t.c-1, p, n)
 			dst.Add(a.Not())
 			dst.Add(b.Not())
 			dst.Add(c.Not())
-- 
2.43.0


From 195c1f3313286374e2f8eeb8732e0831d71cad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 41/93] fix: gen: find the roots of all squares, as in 3^2 +
 4^2 = 5^2

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index 5b69883..d36f0f7 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -92,7 +92,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t)*len(t) <= v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From de4d24a33aa7fb4320b27604c7fbe05995b581f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 42/93] fix: gen: PyTriples is about the triples of [1..n]

---
 gen/pt.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index d36f0f7..42a31b9 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -41,7 +41,7 @@ func Partition(dst inter.Adder, n, k int) {
 // s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
+	ts := pytriplesTo(n)
 	for _, t := range ts {
 		for p := 0; p < k; p++ {
 			// numbers are from 1, elements from 0
@@ -142,6 +142,27 @@ func pytriples(n int) (map[int]int, []triple) {
 	return in, res
 }
 
+// pytriplesTo returns all triples with a < b < c <= n.
+func pytriplesTo(n int) []triple {
+	var res []triple
+	for b := 2; b < n; b++ {
+		c := b + 1
+		for a := 1; a < b; a++ {
+			c2 := a*a + b*b
+			for c*c < c2 {
+				c++
+			}
+			if c > n {
+				break
+			}
+			if c*c == c2 {
+				res = append(res, triple{a, b, c})
+			}
+		}
+	}
+	return res
+}
+
 func counts(ts []triple) []int {
 	res := make([]int, 0, len(ts)+len(ts)/2)
 	for _, t := range ts {
-- 
2.43.0


From 128dea22929d92b3b718961e32e7838445ca20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 43/93] fix: gen: a copied random solver gives the result asked
 for

---
 gen/rands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gen/rands.go b/gen/rands.go
index 81802d1..ca383bc 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -88,6 +88,8 @@ func (r *randS) SCopy() inter.S {
 	defer r.rmu.Unlock()
 	return &randS{
 		dur:    r.dur,
+		res:    r.res,
+		mv:     r.mv,
 		rand:   rand.New(rand.NewSource(11)),
 		cancel: make(chan struct{}),
 		pause:  make(chan struct{})}
-- 
2.43.0


From b22d63b72d76c12df63d929c074296156c5916e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 44/93] fix: gen: a random solver whose solve ran out of time
 can be used again

---
 gen/rands.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/rands.go b/gen/rands.go
index ca383bc..d84cc1d 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -139,7 +139,7 @@ func (r *randS) GoSolve() inter.Solve {
 
 	ctl := &ctl{
 		s:      r,
-		resChn: make(chan int),
+		resChn: make(chan int, 1),
 		cancel: r.cancel,
 		pause:  r.pause}
 
@@ -183,7 +183,7 @@ func (c *ctl) Try(d time.Duration) int {
 		c.s.unlock()
 		return r
 	case <-a:
-		return 0
+		return c.Stop()
 	}
 }
 
-- 
2.43.0


From 09a0f5dbb93d7497a4e1bb51144ab29fe57fc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 45/93] fix: crisp: the major version is the upper 8 bits

---
 crisp/version.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crisp/version.go b/crisp/version.go
index 802ce72..5bce8a5 100644
--- a/crisp/version.go
+++ b/crisp/version.go
@@ -8,15 +8,15 @@ import "fmt"
 type Version uint32
 
 const (
-	V = Version(1 << 23)
+	V = Version(1 << 24)
 )
 
 func (v Version) Major() int {
-	return int(v >> 23)
+	return int(v >> 24)
 }
 
 func (v Version) Minor() int {
-	return int(v & 0xfffff)
+	return int(v & 0xffffff)
 }
 
 func (v Version) String() string {
-- 
2.43.0


From 7b15addd3292c52771cdce4029f99a00c8687ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 46/93] fix: crisp: the string of a unix socket address begins
 with @

---
 crisp/addr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
-- 
2.43.0


From 46e8f6350fe348549949add1c516443a55bf6299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 47/93] fix: crisp: all extension opcodes and no more can be
 installed

---
 crisp/exts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/exts.go b/crisp/exts.go
index 4420dd6..bc1bc95 100644
--- a/crisp/exts.go
+++ b/crisp/exts.go
@@ -49,7 +49,7 @@ func NewExts() *Exts {
 // installed) overflows.  This should not exceed NumExtProtos
 func (e *Exts) Install(id uint16, n uint8) (int, error) {
 	m := uint32(n)
-	if e.Off+m >= uint32(MinProto+NumExtProtos) {
+	if e.Off-uint32(MinProto)+m > uint32(NumExtProtos) {
 		return -1, fmt.Errorf("too many opcodes installed")
 	}
 	res := len(e.D)
-- 
2.43.0


From 958be31f1d7ec6885a15bab01146b188b91b3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 48/93] fix: crisp: varuints beyond 32 bits are an error

---
 crisp/vu32io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..14009dc 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,7 +51,9 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
-
+		if i == 4 && z > 0xf {
+			return 0, ErrVarUint
+		}
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
 			return res, nil
-- 
2.43.0


From 3edd47a0995576f7fa323f1410ae8ff8127823aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 49/93] fix: crisp: writing does not lose data which was
 received but not yet read

---
 crisp/vu32io.go | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 14009dc..3ece62f 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,16 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
+//
+// Reading and writing have separate buffers, as data which was received but not
+// yet read must survive writing: the other side may send without waiting.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
+	buf  []byte // read buffer, buf[r:w] is not yet read
 	r, w int
+	out  []byte // write buffer, out[:n] is not yet written
+	n    int
 }
 
 const (
@@ -35,7 +38,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -137,24 +141,19 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if io.n >= len(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out[io.n] = b
+	io.n++
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
-	if vio.r == vio.w {
-		vio.r = 0
-		vio.w = 0
-	}
+	vio.r = 0
+	vio.w = 0
 	// shouldn't give both zero length read and nil error
 	// but just in case we try a few times
 	for i := 0; i < 10; i++ {
@@ -172,11 +171,11 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := io.n
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:n])
 		m += o
 		if o > 0 {
 			k = 0
@@ -189,7 +188,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.n = 0
 	return nil
 }
-- 
2.43.0


From ad8c58ca72d44321ebbbf99109b7484e6120bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 50/93] fix: crisp: stopping a solve whose result is ready does
 not block

---
 crisp/netsolve.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..01b7a39 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -39,7 +39,6 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 func (s *netsolve) Stop() (int, error) {
 	select {
 	case res := <-s.result:
-		s.cancel <- struct{}{}
 		return res.v, res.e
 	case s.cancel <- struct{}{}:
 		r := <-s.result
-- 
2.43.0


From 439fe344362b5410083729b940adb012dc4a431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 51/93] fix: crisp: a slice which just fits a partial model can
 be used for it

---
 crisp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..e9d132c 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -295,7 +295,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
-- 
2.43.0


From db21fd24536dc809d5f96aaa7e37edfab61dd05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 52/93] fix: crisp: a server with too many extension opcodes is
 an error

---
 crisp/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index e9d132c..4b2f514 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -361,7 +361,9 @@ func (c *Client) GetExts() (int, error) {
 		if d == 0 {
 			break
 		}
-		exts.Install(uint16(d>>16), uint8(d&0xff))
+		if _, e := exts.Install(uint16(d>>16), uint8(d&0xff)); e != nil {
+			return 0, e
+		}
 	}
 	c.exts = exts
 	return len(c.exts.D), nil
-- 
2.43.0


From 538f6071b2a2f4c7618e298e5d442f6f31c2d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 53/93] fix: crisp: the units and empty clauses of a dimacs
 file are sent too

---
 crisp/client.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 4b2f514..1feba42 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -83,15 +83,37 @@ func (c *Client) Hello() error {
 // to the server, returning an error if there was
 // a problem
 func (c *Client) Dimacs(r io.Reader) error {
-	vis := &xo.DimacsVis{}
+	vis := &clauses{}
 	if e := dimacs.ReadCnf(r, vis); e != nil {
 		return e
 	}
-	return c.fromXo(vis.S())
+	for _, m := range vis.ms {
+		if e := c.Add(m); e != nil {
+			return e
+		}
+	}
+	return nil
+}
+
+// type clauses holds the clauses of a dimacs file, each terminated by
+// z.LitNull.
+type clauses struct {
+	ms []z.Lit
 }
 
+func (c *clauses) Init(v, n int) {}
+
+func (c *clauses) Add(m z.Lit) {
+	c.ms = append(c.ms, m)
+}
+
+func (c *clauses) Eof() {}
+
 // TBD: make this stream/buffer the adds instead
 // of loading into client memory.
+//
+// nb these are the clauses which x holds as such: x has simplified what was
+// added to it, and keeps unit clauses elsewhere.
 func (c *Client) fromXo(x *xo.S) error {
 	cdb := x.Cdb
 	D := cdb.CDat.D
-- 
2.43.0


From 9fd63040f62f9a1388037301c7809b8d8d443940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 54/93] fix: crisp: the client reports every error of sending
 an operation

---
 crisp/client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 1feba42..e1ac5aa 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -136,7 +136,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -150,7 +152,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -248,7 +252,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -298,7 +302,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -339,7 +343,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -352,7 +356,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From e0c8afae873a2d501751c58c1e81e754ddc6a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 55/93] fix: crisp: the client forgets a model with the next
 solve or reset

---
 crisp/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crisp/client.go b/crisp/client.go
index e1ac5aa..e3fa3c8 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -181,6 +181,8 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	c.lastSat = 0
+	c.model = nil
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -408,6 +410,9 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.lastSat = 0
+	c.model = nil
+	c.maxVar = 0
 	return nil
 }
 
-- 
2.43.0


From bd9189fdc9f9baafbff10fa0e2429fb3eb978a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 56/93] fix: crisp: the value of a variable which is not in the
 model

---
 crisp/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index e3fa3c8..a068b3c 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -292,10 +292,10 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 		}
 		c.model = m
 	}
-	if m.IsPos() {
-		return c.model[m.Var()], nil
-	}
-	return !c.model[m.Var()], nil
+	// variables beyond the model are false, like those which pad it.
+	v := m.Var()
+	val := int(v) < len(c.model) && c.model[v]
+	return val == m.IsPos(), nil
 }
 
 // ModelFor returns a partial model of the
-- 
2.43.0


From 15870f3cfb46bb9ef7d2f3541e147a5d4dbd8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 57/93] fix: crisp: models of any announced size, and without
 sharing memory with the caller

---
 crisp/client.go | 71 ++++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index a068b3c..bf3e8c7 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -256,31 +256,34 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 	if e := c.checkState(Model); e != nil {
 		return nil, e
 	}
-	var u uint32
-	var n uint32
-	var e error
-	n, e = c.io.readu32Data()
+	vs, e := c.readModel(vs)
 	if e != nil {
 		return vs, e
 	}
-	theCap := n*32 + 1
-	if cap(vs) < int(theCap) {
-		vs = make([]bool, theCap)
-	} else {
-		vs = vs[:theCap]
-	}
-	for i := uint32(0); i < theCap-1; i++ {
-		j := i % 32
-		if j == 0 {
-			u, e = c.io.readu32()
-			if e != nil {
-				return vs, e
-			}
+	// nb vs belongs to the caller.
+	c.model = append([]bool(nil), vs...)
+	return vs, nil
+}
+
+// readModel reads a model or a partial model and places the truth value of
+// element i=1,2,... in dst[i].  Memory is only allocated for values which
+// were received.
+func (c *Client) readModel(dst []bool) ([]bool, error) {
+	n, e := c.io.readu32Data()
+	if e != nil {
+		return dst, e
+	}
+	dst = append(dst[:0], false)
+	for i := uint32(0); i < n; i++ {
+		u, e := c.io.readu32()
+		if e != nil {
+			return dst, e
+		}
+		for j := uint(0); j < 32; j++ {
+			dst = append(dst, u&(1<<j) != 0)
 		}
-		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
-	return vs, nil
+	return dst, nil
 }
 
 // Value implements the inter.NetModel interface
@@ -298,7 +301,8 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 	return val == m.IsPos(), nil
 }
 
-// ModelFor returns a partial model of the
+// ModelFor returns a partial model if the last Solve() was satisfiable: the
+// value of ms[i] is placed in dst[i+1].
 func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if c.lastSat != 1 {
 		return nil, fmt.Errorf("last solve call wasn't sat")
@@ -312,30 +316,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if e := c.io.flush(); e != nil {
 		return nil, e
 	}
-	var u uint32
-	var n uint32
-	var e error
-	n, e = c.io.readu32Data()
-	if e != nil {
-		return nil, e
-	}
-	theCap := n*32 + 1
-	if cap(dst) < int(theCap) {
-		dst = make([]bool, theCap)
-	} else {
-		dst = dst[:theCap]
-	}
-	for i := uint32(0); i < theCap-1; i++ {
-		j := i % 32
-		if j == 0 {
-			u, e = c.io.readu32()
-			if e != nil {
-				return nil, e
-			}
-		}
-		dst[i+1] = u&(1<<j) != 0
-	}
-	return dst, nil
+	return c.readModel(dst)
 }
 
 // Why retrieves a list of failed assumptions from the server
-- 
2.43.0


From f707cb7311d1cb82624bdb1380c1a52ac73231fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 58/93] fix: crisp: the client does not send as literals what
 the server takes as something else

---
 crisp/client.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crisp/client.go b/crisp/client.go
index bf3e8c7..d8a714f 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -135,6 +135,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // Add adds a literal to the clause constraints in the solver.
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
+	if uint32(m) >= uint32(MinProto) {
+		return ErrNotLit
+	}
 	if c.proto != Add {
 		if e := c.checkState(Add); e != nil {
 			return e
@@ -152,6 +155,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
+	if e := checkLits(ms); e != nil {
+		return e
+	}
 	if e := c.checkState(Assume); e != nil {
 		return e
 	}
@@ -307,6 +313,9 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if c.lastSat != 1 {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
+	if e := checkLits(ms); e != nil {
+		return nil, e
+	}
 	if e := c.checkState(ModelFor); e != nil {
 		return nil, e
 	}
@@ -338,6 +347,9 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 	if c.lastSat != -1 {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
+	if e := checkLits(ms); e != nil {
+		return dst, e
+	}
 	if e := c.checkState(FailedFor); e != nil {
 		return dst, e
 	}
@@ -408,6 +420,17 @@ func (c *Client) Close() error {
 	return c.conn.Close()
 }
 
+// checkLits checks that every element of ms can be sent in a null terminated
+// list of literals.
+func checkLits(ms []z.Lit) error {
+	for _, m := range ms {
+		if m == z.LitNull || uint32(m) >= uint32(MinProto) {
+			return ErrNotLit
+		}
+	}
+	return nil
+}
+
 // check's whether we're in the correct state
 // and sends op codes accordingly.
 func (c *Client) checkState(point ProtoPoint) error {
-- 
2.43.0


From b2ea5810dddd53bee674e921a680bdec67bb856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 59/93] fix: crisp: the client returns the error which the
 server sent

---
 crisp/client.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index d8a714f..07ef315 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -231,6 +231,8 @@ func (c *Client) Solve() (int, error) {
 					return 0, e
 				}
 			}
+		case Error:
+			return 0, c.readErr()
 		default:
 			if op >= uint32(MinProto) {
 				return 0, ErrUnknownOp
@@ -275,7 +277,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 // element i=1,2,... in dst[i].  Memory is only allocated for values which
 // were received.
 func (c *Client) readModel(dst []bool) ([]bool, error) {
-	n, e := c.io.readu32Data()
+	n, e := c.readData()
 	if e != nil {
 		return dst, e
 	}
@@ -337,7 +339,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 	if e := c.checkState(Failed); e != nil {
 		return ms, e
 	}
-	return c.io.recv(ms)
+	return c.recv(ms)
 }
 
 // WhySelect retrieves a sub-list of failed assumptions from
@@ -359,7 +361,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 	if e := c.io.flush(); e != nil {
 		return nil, e
 	}
-	return c.io.recv(dst)
+	return c.recv(dst)
 }
 
 // GetExts queries the server for extensions.  Each
@@ -420,6 +422,38 @@ func (c *Client) Close() error {
 	return c.conn.Close()
 }
 
+// readErr reads the code of an <error> op and gives it as an error.
+func (c *Client) readErr() error {
+	u, e := c.io.readu32()
+	if e != nil {
+		return e
+	}
+	return ProtoErr(u)
+}
+
+// readData reads something which is not an op.
+func (c *Client) readData() (uint32, error) {
+	u, e := c.io.readu32Data()
+	if ProtoPoint(u) == Error {
+		return u, c.readErr()
+	}
+	return u, e
+}
+
+// recv reads a null terminated list of literals.
+func (c *Client) recv(dst []z.Lit) ([]z.Lit, error) {
+	for {
+		d, e := c.readData()
+		if e != nil {
+			return dst, e
+		}
+		if d == 0 {
+			return dst, nil
+		}
+		dst = append(dst, z.Lit(d))
+	}
+}
+
 // checkLits checks that every element of ms can be sent in a null terminated
 // list of literals.
 func checkLits(ms []z.Lit) error {
-- 
2.43.0


From 88efb5715a8ef99f5615c8accd299a4b8e8385ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 60/93] fix: crisp: a partial model of variables unknown to the
 server does not crash it

---
 crisp/handler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..087aec1 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -355,7 +355,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
@@ -368,6 +368,15 @@ func (h *Handler) handleModelFor() error {
 	return h.uio.flush()
 }
 
+// value gives the value of m in the last model, in which variables unknown to
+// the solver are false.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-- 
2.43.0


From 83da3da7e8545c11376c4008374499777d28c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 61/93] fix: crisp: the announced length of a key does not
 allocate memory by itself

---
 crisp/handler.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 087aec1..cb48fc3 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -173,15 +173,12 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return e
 	}
-	key := make([]uint32, n)
+	// any key will do, its length is up to the client.
 	for i := uint32(0); i < n; i++ {
-		m, e := h.uio.readu32()
-		if e != nil {
+		if _, e := h.uio.readu32(); e != nil {
 			return e
 		}
-		key[i] = m
 	}
-	// check the key
 	return nil
 }
 
-- 
2.43.0


From 177823dd053046ffc7f818f4479140f5fc9fa7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 62/93] fix: crisp: the handlers of a server which was shut
 down end

---
 crisp/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crisp/server.go b/crisp/server.go
index 0ad87d3..49b1c6b 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -59,6 +59,8 @@ func (s *Server) Serve() error {
 		h := newHandler(i+1, &s.trace)
 		go h.serve(s.connChan)
 	}
+	// nb the handlers serve until this channel is closed.
+	defer close(s.connChan)
 	for {
 		conn, err := s.listener.Accept()
 		if err != nil {
-- 
2.43.0


From 7371a5fc53a1c67fe6154a1081e84c2f1f34047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 63/93] fix: crisp: the server knows whether it is solving

---
 crisp/handler.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index cb48fc3..2262a36 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -28,7 +28,7 @@ type Handler struct {
 	conn      net.Conn
 	uio       *vu32io
 	gini      *gini.Gini
-	solveConn inter.Solve
+	solveConn inter.Solve // nil unless solving
 	proto     ProtoPoint
 	ms        []z.Lit
 	trace     *bool
@@ -80,6 +80,10 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.solveConn != nil {
+		h.solveConn.Stop()
+		h.solveConn = nil
+	}
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
@@ -100,6 +104,10 @@ func (h *Handler) Crisp() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.solveConn != nil && p != Continue && p != End && p != Quit {
+			// the solver is in use
+			return h.Error(ErrOutOfOrder)
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -239,7 +247,7 @@ func (h *Handler) handleSolve() error {
 }
 
 func (h *Handler) handleContinue() error {
-	if h.proto != Solve {
+	if h.solveConn == nil {
 		log.Printf("continue but not solving.\n")
 		return ErrOutOfOrder
 	}
@@ -247,12 +255,16 @@ func (h *Handler) handleContinue() error {
 }
 
 func (h *Handler) handleEnd() error {
-	if h.proto != Solve {
+	if h.solveConn == nil {
 		log.Printf("end but not solving\n")
 		return ErrOutOfOrder
 	}
-	h.proto = End
-	return h.sendRes(h.solveConn.Stop(), true)
+	res := h.solveConn.Stop()
+	h.solveConn = nil
+	if res == 0 {
+		h.proto = End
+	}
+	return h.sendRes(res, true)
 }
 
 func (h *Handler) handleStep() error {
@@ -260,6 +272,9 @@ func (h *Handler) handleStep() error {
 	if res == 0 && done {
 		panic("Test bombed")
 	}
+	if done {
+		h.solveConn = nil
+	}
 	h.steps++
 	return h.sendRes(res, false)
 }
-- 
2.43.0


From 1b9e958ec05a9214163238e621f8d317f0fd3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 64/93] fix: crisp: every error of the client is answered by an
 error

---
 crisp/handler.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 2262a36..12de85e 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -90,7 +90,17 @@ func (h *Handler) cleanup() {
 	h.proto = Unknown
 }
 
+// Crisp speaks the protocol until the client quits or there is an error.  Errors
+// of the client with respect to the protocol are reported to it.
 func (h *Handler) Crisp() error {
+	e := h.crisp()
+	if pe, ok := e.(ProtoErr); ok {
+		return h.Error(pe)
+	}
+	return e
+}
+
+func (h *Handler) crisp() error {
 	if e := h.Hello(); e != nil {
 		return e
 	}
@@ -106,7 +116,7 @@ func (h *Handler) Crisp() error {
 		}
 		if h.solveConn != nil && p != Continue && p != End && p != Quit {
 			// the solver is in use
-			return h.Error(ErrOutOfOrder)
+			return ErrOutOfOrder
 		}
 		switch p {
 		case Key:
@@ -160,7 +170,7 @@ func (h *Handler) Crisp() error {
 		case Quit:
 			return h.handleQuit()
 		default:
-			return h.Error(ErrUnknownOp)
+			return ErrUnknownOp
 		}
 	}
 }
@@ -219,7 +229,8 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			log.Printf("expected data, got %s\n", ProtoPoint(m))
+			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
 	}
@@ -317,7 +328,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 func (h *Handler) handleModel() error {
 	if h.proto != Solve {
 		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -350,7 +361,7 @@ func (h *Handler) handleModel() error {
 
 func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -392,7 +403,7 @@ func (h *Handler) value(m z.Lit) bool {
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -403,7 +414,7 @@ func (h *Handler) handleFailed() error {
 
 func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
-- 
2.43.0


From 292a30fbbc57b526476ea33f29fb3932ab55a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 65/93] fix: crisp: models after unsat and failed assumptions
 after sat are errors

---
 crisp/handler.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 12de85e..0477868 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -29,6 +29,7 @@ type Handler struct {
 	uio       *vu32io
 	gini      *gini.Gini
 	solveConn inter.Solve // nil unless solving
+	res       int         // of the last solve
 	proto     ProtoPoint
 	ms        []z.Lit
 	trace     *bool
@@ -272,6 +273,7 @@ func (h *Handler) handleEnd() error {
 	}
 	res := h.solveConn.Stop()
 	h.solveConn = nil
+	h.res = res
 	if res == 0 {
 		h.proto = End
 	}
@@ -285,6 +287,7 @@ func (h *Handler) handleStep() error {
 	}
 	if done {
 		h.solveConn = nil
+		h.res = res
 	}
 	h.steps++
 	return h.sendRes(res, false)
@@ -325,10 +328,22 @@ func (h *Handler) sendRes(res int, end bool) error {
 	}
 }
 
-func (h *Handler) handleModel() error {
-	if h.proto != Solve {
-		log.Printf("model but not solving.\n")
+// checkRes checks that the last thing done was to solve, with result res, and
+// gives bad if it was another result.
+func (h *Handler) checkRes(res int, bad ProtoErr) error {
+	switch {
+	case h.proto != Solve && h.proto != End:
+		log.Printf("results are asked for but not solving.\n")
 		return ErrOutOfOrder
+	case h.res != res:
+		return bad
+	}
+	return nil
+}
+
+func (h *Handler) handleModel() error {
+	if e := h.checkRes(1, ErrNotSat); e != nil {
+		return e
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -360,8 +375,8 @@ func (h *Handler) handleModel() error {
 }
 
 func (h *Handler) handleModelFor() error {
-	if h.proto != Solve {
-		return ErrOutOfOrder
+	if e := h.checkRes(1, ErrNotSat); e != nil {
+		return e
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -401,9 +416,8 @@ func (h *Handler) value(m z.Lit) bool {
 }
 
 func (h *Handler) handleFailed() error {
-	if h.proto != Solve {
-		log.Printf("failed but not solve\n")
-		return ErrOutOfOrder
+	if e := h.checkRes(-1, ErrNotUnsat); e != nil {
+		return e
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -413,8 +427,8 @@ func (h *Handler) handleFailed() error {
 }
 
 func (h *Handler) handleFailedFor() error {
-	if h.proto != Solve {
-		return ErrOutOfOrder
+	if e := h.checkRes(-1, ErrNotUnsat); e != nil {
+		return e
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
-- 
2.43.0


From aa55eb69ec0d5c4bddade021cae8acc31ba70787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 66/93] fix: ax: Stop stops every solve and every exchange

---
 ax/ax.go | 66 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..b988e12 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -4,6 +4,7 @@
 package ax
 
 import (
+	"sync"
 	"time"
 
 	"github.com/go-air/gini/inter"
@@ -42,7 +43,8 @@ type T interface {
 	// ok is true.
 	TryEx(r *Request) (resp *Response, ok bool)
 
-	// Stop stops the ax.
+	// Stop stops the ax.  Exchanges which are blocked, or are tried
+	// afterwards, have no response.
 	Stop()
 }
 
@@ -77,9 +79,9 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client stops the ax, the stop channel is closed.  Everything which
+// may block selects on it as well: the client's exchanges, the ax, and the u's,
+// which then stop solving.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -132,6 +134,8 @@ func NewT(proto inter.S, cap int) T {
 type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
+	stop     chan struct{} // closed by Stop
+	stopOnce sync.Once
 	uRespChn chan *Response
 	us       []*unit
 	avail    []int
@@ -146,11 +150,12 @@ func newAx(proto inter.S, cap int) *ax {
 	m := &ax{
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
+		stop:     make(chan struct{}),
 		uRespChn: make(chan *Response, 1),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
-	m.us[0] = newUnit(proto, 0)
+	m.us[0] = newUnit(proto, 0, m.stop)
 	m.avail[0] = 0
 	go m.serve()
 	return m
@@ -158,13 +163,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.stop:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.stop:
+		return nil
 	}
 }
 
@@ -189,28 +201,30 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	m.stopOnce.Do(func() { close(m.stop) })
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
+		case <-m.stop:
+			return
 		}
 	}
 }
 
 func (m *ax) handleReq(req *Request) {
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.stop:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -228,7 +242,7 @@ func (m *ax) getunit(req *Request) *unit {
 		ai := m.avail[0]
 		protounit := m.us[ai]
 		m.avail = append(m.avail, len(m.us))
-		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us)))
+		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us), m.stop))
 	}
 
 	//log.Printf("avail %+v/%d/%d\n", m.avail, len(m.us), m.cap)
@@ -252,14 +266,9 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
-}
-
-func (m *ax) shutdown() {
-	for _, u := range m.us {
-		if u != nil {
-			u.cancel <- struct{}{}
-		}
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.stop:
 	}
 }
 
@@ -267,18 +276,18 @@ type unit struct {
 	I      int
 	S      inter.S
 	Solve  inter.Solve
-	cancel chan struct{}
+	cancel <-chan struct{}
 	Start  time.Time
 	Pos    []int // Pos[var] gives count of supplied cubes with positive sign for var
 	Neg    []int
 }
 
-func newUnit(s inter.S, i int) *unit {
+func newUnit(s inter.S, i int, cancel <-chan struct{}) *unit {
 	return &unit{
 		I:      i,
 		S:      s,
 		Solve:  nil,
-		cancel: make(chan struct{}),
+		cancel: cancel,
 		Pos:    make([]int, s.MaxVar()+1),
 		Neg:    make([]int, s.MaxVar()+1)}
 }
@@ -352,7 +361,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel:
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 830f6c81214fa74fd3af68ee77c585ee461436c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 67/93] fix: ax: responses tell the number of pending requests

---
 ax/ax.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ax/ax.go b/ax/ax.go
index b988e12..fda55e0 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -140,6 +140,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int // requests accepted and without response
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -218,6 +219,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		select {
 		case resp := <-m.uRespChn:
@@ -266,6 +268,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	select {
 	case m.respChn <- resp: // shouldn't block if client agrees to API
 	case <-m.stop:
-- 
2.43.0


From 605932df901d044b8300d593bde1627a8af6126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 68/93] fix: gini: an input with another extension is an error

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..5af2a10 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Printf("%s: %s\n", fName, e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From f958c91dd38e8ad333122d9722358f859c46c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 69/93] fix: gini: assumptions hold for icnf inputs as well

---
 cmd/gini/icnf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gini/icnf.go b/cmd/gini/icnf.go
index 501a46a..b15fdfa 100644
--- a/cmd/gini/icnf.go
+++ b/cmd/gini/icnf.go
@@ -65,6 +65,7 @@ func (i *iCnfGini) Assume(m z.Lit) {
 		i.g.Assume(m)
 		return
 	}
+	i.g.Assume(assumptions...)
 	now := time.Now()
 	if i.end.Before(now) {
 		fmt.Printf("s UNKNOWN\n")
@@ -118,7 +119,7 @@ func (i *iCnfAx) Assume(m z.Lit) {
 		i.cube = append(i.cube, m)
 		return
 	}
-	i.cubes = append(i.cubes, i.cube)
+	i.cubes = append(i.cubes, append(i.cube, assumptions...))
 	i.cube = nil
 }
 
-- 
2.43.0


From 0bf766b7f77575cde8970774e5ae299592bc49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 70/93] fix: gini: assumptions which are no literals are errors

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5af2a10..5eba8dc 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net/http"
 	_ "net/http/pprof"
 	"os"
@@ -47,6 +48,9 @@ func (a *assumes) Set(val string) error {
 		if i == 0 {
 			return fmt.Errorf("zero assumption")
 		}
+		if i > math.MaxInt32 || i < -math.MaxInt32 {
+			return fmt.Errorf("assumption out of range")
+		}
 		*a = append(*a, z.Dimacs2Lit(i))
 	}
 	return nil
-- 
2.43.0


From 2b0aee4ce7efe89ce0469ccbd71b8722765c2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 71/93] fix: gini: a negative interval of statistics crashed

---
 cmd/gini/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5eba8dc..da01e75 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -29,7 +29,7 @@ var timeout = flag.Duration("timeout", time.Second*30, "timeout")
 var model = flag.Bool("model", false, "output model (default false)")
 var satcomp = flag.Bool("satcomp", false, "if true, exit 10 sat, 20 unsat and output dimacs (default false)")
 var stats = flag.Bool("stats", false, "if true, print some statistics after solving (default false)")
-var mon = flag.Duration("mon", 0*time.Second, "if non-zero, print statistics during solving (default 0, implies -stats)")
+var mon = flag.Duration("mon", 0*time.Second, "if positive, print statistics during solving (default 0, implies -stats)")
 var crisp = flag.String("crisp", "", "address of crisp server to use")
 var failed = flag.Bool("failed", false, "output failed assumptions")
 
@@ -191,7 +191,7 @@ func runSatComp() {
 
 func runCnfReader(r io.Reader) (int, error) {
 	if *crisp != "" {
-		if *mon != 0 {
+		if *mon > 0 {
 			log.Printf("cannot monitor stats over CRISP, try setting XO_STATS=yes\n")
 		}
 		return runCrispReader(r)
@@ -279,7 +279,7 @@ func runXoReader(r io.Reader) (int, error) {
 	for _, a := range assumptions {
 		x.Assume(z.Lit(a))
 	}
-	if *mon != 0 {
+	if *mon > 0 {
 		return runXoMonitored(x)
 	}
 	st := xo.NewStats()
-- 
2.43.0


From dd5ee15c5e1e6b242b7ab23b1d5ead7d31a9c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 72/93] fix: bench: a new suite has its instances

---
 bench/suite.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 0f81000..be0579c 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -175,7 +175,8 @@ func setupSuite(root string, insts []string) (*Suite, error) {
 func (s *Suite) copyInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
-		p := filepath.Join(s.Root, fmt.Sprintf(iFmt, i, exts(inst)))
+		nm := fmt.Sprintf(iFmt, i, exts(inst))
+		p := filepath.Join(s.Root, nm)
 		w, e := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if e != nil {
 			return e
@@ -190,6 +191,7 @@ func (s *Suite) copyInsts(insts []string) error {
 		}
 		w.Close()
 		r.Close()
+		s.Insts = append(s.Insts, nm)
 	}
 	return nil
 }
@@ -197,10 +199,11 @@ func (s *Suite) copyInsts(insts []string) error {
 func (s *Suite) linkInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
-		p := fmt.Sprintf(iFmt, i, exts(inst))
-		if e := os.Symlink(inst, p); e != nil {
+		nm := fmt.Sprintf(iFmt, i, exts(inst))
+		if e := os.Symlink(inst, nm); e != nil {
 			return e
 		}
+		s.Insts = append(s.Insts, nm)
 	}
 	return nil
 }
-- 
2.43.0


From 52deb871b7df434ff9b14f59f0e8302c025dd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 73/93] fix: bench: links of a linked suite are in it and lead
 to the instances

---
 bench/suite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index be0579c..435dfc2 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -200,7 +200,11 @@ func (s *Suite) linkInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
 		nm := fmt.Sprintf(iFmt, i, exts(inst))
-		if e := os.Symlink(inst, nm); e != nil {
+		org, e := filepath.Abs(inst)
+		if e != nil {
+			return e
+		}
+		if e := os.Symlink(org, filepath.Join(s.Root, nm)); e != nil {
 			return e
 		}
 		s.Insts = append(s.Insts, nm)
-- 
2.43.0


From 010cbc882c60e06fcad91b83ca76a77fde4c63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 74/93] fix: bench: instances without a known extension were
 lost when opening a suite

---
 bench/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index 435dfc2..463a04e 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -284,7 +284,7 @@ func (s *Suite) readInsts() error {
 			continue
 		}
 		j := -1
-		_, e := fmt.Sscanf(nm, "bench-%d.", &j)
+		_, e := fmt.Sscanf(nm, "bench-%d", &j)
 		if e != nil {
 			log.Printf("unexpected file in benchmark dir %s: %s\n", s.Root, nm)
 			continue
-- 
2.43.0


From f5718a3c1cceb7e9d8959570dcefc8fa5aa831f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 75/93] fix: bench: origins and hashes are read as they were
 written

---
 bench/suite.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 463a04e..1f8a305 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -313,7 +313,9 @@ func (s *Suite) readMap() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Map = append(s.Map, strings.TrimSpace(line))
+		if line != "" {
+			s.Map = append(s.Map, strings.TrimSuffix(line, "\n"))
+		}
 		if e == io.EOF {
 			return nil
 		}
@@ -332,7 +334,9 @@ func (s *Suite) readHashes() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Hashes = append(s.Hashes, line)
+		if line != "" {
+			s.Hashes = append(s.Hashes, strings.TrimSuffix(line, "\n"))
+		}
 		if e == io.EOF {
 			return nil
 		}
-- 
2.43.0


From 4feabc24c90db5d69ed678ba48ebc97e467f7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 76/93] fix: bench: selecting runs changed the runs of the
 suite

---
 bench/suite.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 1f8a305..876d5b3 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -119,18 +119,16 @@ func (s *Suite) RemoveRun(name string) error {
 func (s *Suite) RunSelect(filt func(*Run) bool) *Suite {
 	res := &Suite{}
 	*res = *s
-	j := 0
-	for _, run := range res.Runs {
+	res.Runs = nil
+	for _, run := range s.Runs {
 		if !filt(run) {
 			continue
 		}
 		rr := &Run{}
 		*rr = *run
 		rr.Suite = res
-		res.Runs[j] = rr
-		j++
+		res.Runs = append(res.Runs, rr)
 	}
-	res.Runs = res.Runs[:j]
 	return res
 }
 
-- 
2.43.0


From 096e5dd0be5aa557a0719cf69306190b1d85a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 77/93] fix: bench: names which are no names of runs wrote or
 removed other directories

---
 bench/run.go   | 19 +++++++++++++++----
 bench/suite.go |  3 +++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 351a19b..e5897f6 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -91,11 +91,9 @@ func OpenRun(suite *Suite, root string) (*Run, error) {
 // The resulting Run is (unfortunately) not yet openable since there
 // are no results
 func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error) {
-	d, fn := filepath.Split(name)
-	if d != "" {
-		return nil, fmt.Errorf("run name should not contain a directory")
+	if e := checkRunName(name); e != nil {
+		return nil, e
 	}
-	name = fn
 	run := &Run{
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
@@ -150,6 +148,19 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	return run, nil
 }
 
+// checkRunName checks that name names a directory in the
+// directory of runs.
+func checkRunName(name string) error {
+	d, fn := filepath.Split(name)
+	if d != "" {
+		return fmt.Errorf("run name should not contain a directory")
+	}
+	if fn == "" || fn == "." || fn == ".." {
+		return fmt.Errorf("bad run name: '%s'", name)
+	}
+	return nil
+}
+
 func (r *Run) Len() int {
 	return len(r.Suite.Insts)
 }
diff --git a/bench/suite.go b/bench/suite.go
index 876d5b3..64fa331 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -96,6 +96,9 @@ func (s *Suite) Run(name, cmd string, ito, to time.Duration) (*Run, error) {
 
 // RemoveRun removes a run named name from the suite s.
 func (s *Suite) RemoveRun(name string) error {
+	if e := checkRunName(name); e != nil {
+		return e
+	}
 	p := filepath.Join(suiteRunDir(s.Root), name)
 	e := os.RemoveAll(p)
 	if e != nil {
-- 
2.43.0


From 0fe49373e3d83ebb19ce036570969acf6af38336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 78/93] fix: bench: a new run has its name

---
 bench/run.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bench/run.go b/bench/run.go
index e5897f6..3b0628b 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -95,6 +95,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 		return nil, e
 	}
 	run := &Run{
+		Name:        name,
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
 		Os:          runtime.GOOS,
-- 
2.43.0


From 261c71abcb626afa3652ca47a791c000ae92441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 79/93] fix: bench: the environment of a run is the one stored

---
 bench/run.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 3b0628b..bc1f7ec 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -256,17 +257,30 @@ func (r *Run) writeNumCpu() error {
 }
 
 func (r *Run) readEnv() error {
-	env := os.Environ()
-	r.Env = make(map[string]string, len(env))
-	for _, kv := range env {
-		parts := strings.Split(kv, "=")
-		if len(parts) != 2 {
+	s, e := p2s(runEnvPath(r.Root))
+	if e != nil {
+		return e
+	}
+	r.Env = make(map[string]string)
+	for _, kv := range strings.Split(s, "\n") {
+		if kv == "" {
+			continue
+		}
+		i := strings.Index(kv, "=")
+		if i < 0 {
 			return fmt.Errorf("environ %s\n", kv)
 		}
-		r.Env[parts[0]] = parts[1]
+		v := kv[i+1:]
+		if u, e := strconv.Unquote(v); e == nil && strings.HasPrefix(v, "\"") {
+			v = u
+		}
+		r.Env[kv[:i]] = v
 	}
 	return nil
 }
+
+// writeEnv writes lines k=v, with v quoted if it would not be read back
+// otherwise.
 func (r *Run) writeEnv() error {
 	p := runEnvPath(r.Root)
 	f, e := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
@@ -275,6 +289,9 @@ func (r *Run) writeEnv() error {
 	}
 	defer f.Close()
 	for k, v := range r.Env {
+		if strings.HasPrefix(v, "\"") || strings.Contains(v, "\n") {
+			v = strconv.Quote(v)
+		}
 		fmt.Fprintf(f, "%s=%s\n", k, v)
 	}
 	return nil
-- 
2.43.0


From 0e58632dfc98b80192b43900e9cc8535ed05fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 80/93] fix: bench: the stored start of an instance run is its
 start

---
 bench/instrun.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/instrun.go b/bench/instrun.go
index 6c54a67..3614fb5 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -249,6 +249,9 @@ func (ir *InstRun) save() error {
 	}
 	fmt.Fprintf(f, "%d\n", ir.Result)
 	f.Close()
+	if e := t2f(iRunStartPath(p), ir.Start); e != nil {
+		return e
+	}
 	if e := d2f(iRunDurPath(p), ir.Dur); e != nil {
 		return e
 	}
-- 
2.43.0


From d048273b45dd6c443dde9993fc3c713980b84d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 81/93] fix: bench: errors of instance runs are read as they
 were stored

---
 bench/instrun.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 3614fb5..8f36abe 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -67,7 +67,7 @@ func OpenInstRun(run *Run, inst int) (*InstRun, error) {
 	if e != nil {
 		return nil, e
 	}
-	ir.Error = ie
+	ir.Error = strings.TrimSuffix(ie, "\n")
 	return ir, nil
 }
 
-- 
2.43.0


From d888b99892dc7ca835e59612c8026e3d01db19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 82/93] fix: bench: a command which cannot be started is an
 error of the instance run

---
 bench/instrun.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/instrun.go b/bench/instrun.go
index 8f36abe..70d88d8 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -142,6 +142,9 @@ func (ir *InstRun) do() {
 	ialarm := time.After(ir.dur())
 	if e := cmd.Start(); e != nil {
 		log.Printf("error starting command '%s': %s\n", ir.Run.Cmd, e)
+		ir.Error = e.Error()
+		ir.Out.Close()
+		ir.Err.Close()
 		return
 	}
 	var wg sync.WaitGroup
-- 
2.43.0


From a810b4a586003f8935e083ce0df2a9f5d5df75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 83/93] fix: bench: spaces in a command were arguments

---
 bench/instrun.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 70d88d8..d68db9f 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -123,7 +123,10 @@ func (ir *InstRun) chDirAndDo() {
 }
 
 func (ir *InstRun) do() {
-	parts := strings.Split(ir.Run.Cmd, " ")
+	parts := strings.Fields(ir.Run.Cmd)
+	if len(parts) == 0 {
+		parts = append(parts, "") // which cannot be started
+	}
 	parts = append(parts, ir.Run.Suite.Insts[ir.Inst])
 	cmd := exec.Command(parts[0], parts[1:]...)
 	out, e := cmd.StdoutPipe()
-- 
2.43.0


From 0a8aca36490839e68227202dc2d887c285b6e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 84/93] fix: bench: children of a command kept an instance run
 from its timeout

---
 bench/instrun.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index d68db9f..2af8bb7 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -152,7 +152,7 @@ func (ir *InstRun) do() {
 	}
 	var wg sync.WaitGroup
 	go func() {
-		ir.capture(cmd, done, ialarm)
+		ir.capture(cmd, done, ialarm, out, err)
 	}()
 	wg.Add(1)
 	go func() {
@@ -175,11 +175,15 @@ func (ir *InstRun) do() {
 	<-done
 }
 
-func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Time) {
+func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Time, outs ...io.Closer) {
 	for {
 		select {
 		case <-ialarm:
 			cmd.Process.Kill()
+			for _, out := range outs {
+				// other processes may have it open
+				out.Close()
+			}
 			ialarm = nil
 		case e := <-done:
 			if e != nil {
-- 
2.43.0


From 239c6cfa868d9c6f69861cdd2de60f00847c5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 85/93] fix: bench: system times were added to real times

---
 bench/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..e0502f9 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
-- 
2.43.0


From 51ea8074b8ae4641450d46dba35e847aba358ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 86/93] fix: bench: comparisons of incomplete runs crashed or
 took one instance for another

---
 bench/cmp.go       | 29 ++++++++++++++++-------------
 bench/run.go       | 10 ++++++++++
 cmd/bench/bench.go | 14 ++++++++------
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index e0502f9..5d15fb8 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -102,15 +102,15 @@ func NewScatter(r1, r2 *Run, iFilt func(suite *Suite, i int) bool) *Scatter {
 	s.Runs[0] = r1
 	s.Runs[1] = r2
 	s.Xs = make([]time.Duration, 0, len(r1.InstRuns))
+	s.Ys = make([]time.Duration, 0, len(r1.InstRuns))
 	for _, ir := range r1.InstRuns {
-		if iFilt == nil || iFilt(ir.Run.Suite, ir.Inst) {
-			s.Xs = append(s.Xs, ir.Dur)
+		ir2 := r2.instRun(ir.Inst)
+		if ir2 == nil {
+			continue
 		}
-	}
-	s.Ys = make([]time.Duration, 0, len(r1.InstRuns))
-	for _, ir := range r2.InstRuns {
-		if iFilt == nil || iFilt(ir.Run.Suite, ir.Inst) {
-			s.Ys = append(s.Ys, ir.Dur)
+		if iFilt == nil || iFilt(r1.Suite, ir.Inst) {
+			s.Xs = append(s.Xs, ir.Dur)
+			s.Ys = append(s.Ys, ir2.Dur)
 		}
 	}
 	return s
@@ -176,7 +176,7 @@ func (s *Scatter) Utf8(n int) string {
 // of an arbitrary number of runs.
 type Cactus struct {
 	Runs   []*Run  // runs to plot.
-	D      [][]int // D[i] permutation for run i instances sorted according to dur.
+	D      [][]int // D[i] indexes of run i's InstRuns sorted according to dur.
 	MaxDur time.Duration
 }
 
@@ -208,11 +208,10 @@ func NewCactus(suite *Suite, rFilt func(*Run) bool, iFilt func(*Suite, int) bool
 	cactus := &Cactus{
 		MaxDur: maxDur,
 		Runs:   runs}
-	M := len(suite.Runs[0].InstRuns)
 	for _, run := range runs {
-		js := make([]int, 0, M)
-		for j := 0; j < M; j++ {
-			if iFilt == nil || iFilt(suite, j) {
+		js := make([]int, 0, len(run.InstRuns))
+		for j, ir := range run.InstRuns {
+			if iFilt == nil || iFilt(suite, ir.Inst) {
 				js = append(js, j)
 			}
 		}
@@ -349,7 +348,11 @@ func Listing(s *Suite, filt func(*Run) bool) string {
 		col := make([]string, len(s.Insts)+1)
 		col[0] = fmt.Sprintf(" %-10s ", rtrunc(run.Name, 10))
 		for j := range s.Insts {
-			ir := run.InstRuns[j]
+			ir := run.instRun(j)
+			if ir == nil {
+				col[j+1] = fmt.Sprintf(" %s % 8s ", "-", "")
+				continue
+			}
 			s := "s"
 			if ir.Result == -1 {
 				s = "u"
diff --git a/bench/run.go b/bench/run.go
index bc1f7ec..39b379d 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -350,6 +350,16 @@ func (r *Run) readInstRuns() error {
 	return nil
 }
 
+// instRun gives the InstRun of instance i, nil if there is none.
+func (r *Run) instRun(i int) *InstRun {
+	for _, ir := range r.InstRuns {
+		if ir.Inst == i {
+			return ir
+		}
+	}
+	return nil
+}
+
 func p2s(p string) (string, error) {
 	f, e := os.Open(p)
 	if e != nil {
diff --git a/cmd/bench/bench.go b/cmd/bench/bench.go
index 4000e00..4979025 100644
--- a/cmd/bench/bench.go
+++ b/cmd/bench/bench.go
@@ -163,9 +163,10 @@ func (co *cmpOptsT) runFilt() func(*bench.Run) bool {
 
 func satFilt(s *bench.Suite, i int) bool {
 	for _, r := range s.Runs {
-		ir := r.InstRuns[i]
-		if ir.Result == 1 {
-			return true
+		for _, ir := range r.InstRuns {
+			if ir.Inst == i && ir.Result == 1 {
+				return true
+			}
 		}
 	}
 	return false
@@ -173,9 +174,10 @@ func satFilt(s *bench.Suite, i int) bool {
 
 func unsatFilt(s *bench.Suite, i int) bool {
 	for _, r := range s.Runs {
-		ir := r.InstRuns[i]
-		if ir.Result == -1 {
-			return true
+		for _, ir := range r.InstRuns {
+			if ir.Inst == i && ir.Result == -1 {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From eb266f887ed93c83b38a7ba79cc5ec503d06765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 87/93] fix: bench: plots without runs or durations crashed

---
 bench/cmp.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index 5d15fb8..0f4a835 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -147,8 +147,11 @@ func (s *Scatter) Utf8(n int) string {
 	}
 	for i, xd := range s.Xs {
 		yd := s.Ys[i]
-		xr := float64(xd) / float64(maxDur)
-		yr := float64(yd) / float64(maxDur)
+		xr, yr := 0.0, 0.0
+		if maxDur > 0 {
+			xr = float64(xd) / float64(maxDur)
+			yr = float64(yd) / float64(maxDur)
+		}
 		xi := int(xr * float64(n-1))
 		yi := int(yr * float64(n-1))
 		j := idx(xi, yi)
@@ -242,6 +245,9 @@ func (s *irSort) Less(i, j int) bool {
 // Utf8 produces a text image of the cactus data suitable
 // for a utf8 monospaced font terminal.
 func (c *Cactus) Utf8(N int) string {
+	if len(c.Runs) == 0 {
+		return ""
+	}
 	ticks := "¤♠☆Ϟ★Ω▽◇✠♡☼·₁₂₃₄₅₆₇₈₉"
 	_ = ticks
 	M := N * (2*N + 1)
@@ -263,7 +269,10 @@ func (c *Cactus) Utf8(N int) string {
 			jRatio := float64(j) / jDen
 			dj := int(jRatio * float64(N-1))
 			dur := run.InstRuns[p].Dur
-			ratio := float64(dur) / float64(c.MaxDur)
+			ratio := 0.0
+			if c.MaxDur > 0 {
+				ratio = float64(dur) / float64(c.MaxDur)
+			}
 			di := int(ratio * float64(N-1))
 			bidx := idx(dj, di)
 			if buf[bidx] == byte(' ') {
-- 
2.43.0


From 84334103b7ac408c76220e65abd1b379bd95ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 88/93] fix: bench: no directory of a run looked like one

---
 bench/run.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 39b379d..724f19a 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -37,7 +37,7 @@ type Run struct {
 func IsRunDir(root string) bool {
 	for _, p := range []string{
 		root, runCmdPath(root), runDescPath(root), runCommitPath(root),
-		runTimeoutPath(root), runTimesPath(root), runResultsPath(root)} {
+		runTimeoutPath(root), runInstTimeoutPath(root), runStartPath(root)} {
 		_, ste := os.Stat(p)
 		if ste != nil {
 			return false
@@ -464,9 +464,6 @@ func runEnvPath(root string) string {
 func runDescPath(root string) string {
 	return filepath.Join(root, "desc")
 }
-func runTimesPath(root string) string {
-	return filepath.Join(root, "times")
-}
 func runCmdPath(root string) string {
 	return filepath.Join(root, "cmd")
 }
@@ -491,6 +488,3 @@ func runTimeoutPath(root string) string {
 func runInstTimeoutPath(root string) string {
 	return filepath.Join(root, "inst-timeout")
 }
-func runResultsPath(root string) string {
-	return filepath.Join(root, "results")
-}
-- 
2.43.0


From bed5e9661a4b416f7c31d1de4270e5e4555bc55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 89/93] fix: bench: descriptions and commits of runs were
 dropped

---
 bench/run.go       | 10 ++++++++++
 cmd/bench/bench.go | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/bench/run.go b/bench/run.go
index 724f19a..c179882 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -150,6 +150,16 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	return run, nil
 }
 
+// Describe stores a description of r and the commit of its command.
+func (r *Run) Describe(desc, commit string) error {
+	r.Desc = desc
+	r.Commit = commit
+	if e := r.writeDesc(); e != nil {
+		return e
+	}
+	return r.writeCommit()
+}
+
 // checkRunName checks that name names a directory in the
 // directory of runs.
 func checkRunName(name string) error {
diff --git a/cmd/bench/bench.go b/cmd/bench/bench.go
index 4979025..35fceef 100644
--- a/cmd/bench/bench.go
+++ b/cmd/bench/bench.go
@@ -93,6 +93,17 @@ func (r *runOptsT) Run(flags *flag.FlagSet) {
 			fmt.Fprintf(os.Stderr, "error initializing run %s for suite %s: %s\n", *r.Name, arg, e)
 			continue
 		}
+		desc, commit := run.Desc, run.Commit
+		if *r.Desc != "" {
+			desc = *r.Desc
+		}
+		if *r.Commit != "" {
+			commit = *r.Commit
+		}
+		if e := run.Describe(desc, commit); e != nil {
+			fmt.Fprintf(os.Stderr, "error describing run %s for suite %s: %s\n", *r.Name, arg, e)
+			continue
+		}
 		for j := 0; j < run.Len(); j++ {
 			start := time.Now()
 			log.Printf("starting instance %d of %s\n", j, arg)
-- 
2.43.0


From e42f2b6c193aad61c362d3f14b18e29031891a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 90/93] fix: bench: a file in two of the directories could be
 selected twice

---
 bench/sel.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bench/sel.go b/bench/sel.go
index c24f9dd..1680ddc 100644
--- a/bench/sel.go
+++ b/bench/sel.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"os"
 	"path/filepath"
+	"sort"
 )
 
 type walk struct {
@@ -58,9 +59,19 @@ func MatchSelect(pattern string, N int, dirs ...string) []string {
 			log.Printf("couldn't walk %s: %s, skipping.\n", p, e)
 		}
 	}
+	// directories may overlap
+	sort.Strings(w.Collect)
+	j := 0
+	for i, p := range w.Collect {
+		if i == 0 || p != w.Collect[j-1] {
+			w.Collect[j] = p
+			j++
+		}
+	}
+	w.Collect = w.Collect[:j]
 	n := 0
 	orgLen := len(w.Collect)
-	insts := make([]string, 0, N)
+	var insts []string
 	for n < N {
 		if len(w.Collect) == 0 {
 			log.Printf("couldn't select %d, only %d choices.\n", N, orgLen)
-- 
2.43.0


From cad96cdf981f124745104cd78a48ceb158191dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 91/93] fix: xo: copies lost the decay state of the heuristics
 and took hundreds of times longer

---
 internal/xo/cdat.go  | 1 +
 internal/xo/cgc.go   | 4 ++--
 internal/xo/guess.go | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 3027c3a..bf076bd 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -231,6 +231,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 8c4c2a0..6ac34c4 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..2b88abe 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -211,6 +211,14 @@ func (g *Guess) Copy() *Guess {
 		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
 		heat:      make([]float64, len(g.heat), cap(g.heat)),
 		cache:     make([]int8, len(g.cache), cap(g.cache)),
+
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMax:      g.decayMax,
+		decayMin:      g.decayMin,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+
 		bumpInc:   g.bumpInc,
 		bumpDecay: g.bumpDecay,
 		bumpLim:   g.bumpLim}
-- 
2.43.0


From 790e34e8ad2a154c5b8e35e916c0a3e7aa2c1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 92/93] fix: Try without any time forgets the assumptions and
 the last result as any solve does

---
 internal/xo/s.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index bec7b9f..acb903f 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -194,7 +194,7 @@ func (s *S) String() string {
 
 func (s *S) Try(dur time.Duration) int {
 	if dur <= 0 {
-		return 0
+		return s.noSolve()
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
@@ -205,6 +205,23 @@ func (s *S) Try(dur time.Duration) int {
 	return s.Solve()
 }
 
+// noSolve is Solve without any time: it forgets the untested assumptions and
+// the last result as every Solve does.
+func (s *S) noSolve() int {
+	s.lock()
+	defer s.unlock()
+	s.assumptLevel = 0
+	s.assumes = s.assumes[:0]
+	if s.testFailed {
+		return -1
+	}
+	if x := s.cleanupSolve(); x != CNull {
+		s.x = x
+		return -1
+	}
+	return 0
+}
+
 // Method Solve solves the problem added to the solver under
 // assumptions specified by Assume.
 //
-- 
2.43.0


From 7c386206d0b6ea1d4778330451b88842bd33a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 93/93] fix: crisp: Shutdown of a server on a unix socket gave
 an error, and removed the socket of a later server there

---
 crisp/server.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/crisp/server.go b/crisp/server.go
index 49b1c6b..0cfc3d5 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -84,18 +84,9 @@ func (s *Server) Trace(b bool) {
 
 // Shutdown stops listening for connections
 func (s *Server) Shutdown() error {
-	var e error
-	e = s.listener.Close()
-	if s.addr.Network == "unix" {
-		if rme := os.Remove(s.addr.NetAddr); rme != nil {
-			if e != nil {
-				e = fmt.Errorf("shutdown errors: %s, %s", e, rme)
-			} else {
-				e = fmt.Errorf("shutdown error: %s", rme)
-			}
-		}
-	}
-	return e
+	// nb a listener for a unix socket removes the socket once, when closed: by
+	// the time of another call, another server may be there.
+	return s.listener.Close()
 }
 
 // ListenAndServer starts a CRISP server
-- 
2.43.0

