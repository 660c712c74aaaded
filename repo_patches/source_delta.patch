From 973c0831730ebe309a9f93aa13bee19802247bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 01/21] fix: insert late samples at their place in time

The sort.Search predicate was reversed, so a sample older than the newest one
of its series was slotted in at a wrong position and the series was no longer
ordered by time.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From 5e096ca8a3e09acf3d009fdbc8555da92480b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 02/21] fix: forget fully expired series when cleaning

Clean removed the postings of a series without any sample left but kept the
series itself, so samples loaded for it later were stored where no query could
find them. A series without samples made Clean panic.
---
 promq/prom/query.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..48cc456 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -129,6 +130,14 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		}
 	}
 
+	// forget the expired series altogether: a later sample with the same labels
+	// has to start a new series, since the old reference is no longer indexed
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
+
 	s.postings.Delete(postingsToClean)
 	/*
 		// first, find the first timestamp newer than our cutoff
-- 
2.43.0


From eb6c2c2c1949cdf3053ef7c0e592425859e39633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 03/21] fix: do not relock the postings inside IterValues

A matcher that matches the empty string took the read lock while IterValues
held the write lock, so the selection blocked forever.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 48cc456..8efe808 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -208,7 +208,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From ac48b39fa8698deac03ecce4a0b67b6ec2d610d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 04/21] fix: never seek backwards in a series

Seek searched the whole series, so seeking to a time before the current
position moved the iterator back, against the chunkenc.Iterator contract.
---
 promq/prom/query.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 8efe808..5d56e9b 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -299,8 +299,15 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	if s.ind < 0 {
+		s.ind = 0
+	}
+	if s.ind >= len(s.block.data) {
+		return false
+	}
+	// never move backwards
+	s.ind += sort.Search(len(s.block.data)-s.ind, func(ind int) bool {
+		return s.block.data[s.ind+ind].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From e549fb0f9ff48da75eb2cf5a4963f7e109cc16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 05/21] fix: hand out a copy of the stored label values

The internal set was returned and then read without the lock, while updates
were writing to it.
---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..c9e6d9d 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// hand out a copy: the stored set keeps changing after we release the lock
+	return values.Union(nil)
 }
-- 
2.43.0


From 0f64459a4dbf2cfbf006492ca3b6feddd1a6d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 06/21] fix: read the query text under its lock

The periodic query read it while SetQuery could be writing it from the prompt.
---
 promq/prom/multi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..30ad555 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -102,10 +102,14 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	queryText := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryText, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +117,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryText, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From a18ce676ffcc1b411b8d18ffb117684517ad6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 07/21] fix: handle series without points when mapping to the
 screen

---
 promq/term/plot/plot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..c880618 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -184,8 +184,8 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 			lastPt = &pts[len(pts)-1]
 		}
 
-		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		// handle the very last point (if there are any points at all)
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From 0af17ff403b3d4c38fe69bc83963e2b9d0cb865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 08/21] fix: scale values before subtracting the scaled minimum

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index c880618..8c3d712 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -137,7 +137,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(math.Round((scale(y)-scale(g.RangeMin))*rangeScaleFactor))
 	}
 
 	return domain, rng
-- 
2.43.0


From a4f185b310946b042c64ce78f40f4fa2e5dd5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 09/21] fix: terminate on flat or narrow value ranges

---
 promq/term/plot/axes.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..d0cde55 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -115,12 +115,20 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platRngInc := (graph.RangeMax - graph.RangeMin)/rngTicksBase
 		if platRngInc == 0 {
-			platRngInc = graph.RangeMax // just two ticks
+			platRngInc = math.Abs(graph.RangeMax) // just two ticks
 		}
 		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
 			platRngInc = 1
 		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
+		for i := 0; i <= int(rngTicksBase); i++ {
+			x := graph.RangeMin + platRngInc*float64(i)
+			if x > graph.RangeMax {
+				break
+			}
+			// the increment may be too small to make a difference
+			if len(platRngTicks) > 0 && x <= platRngTicks[len(platRngTicks)-1] {
+				continue
+			}
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From 8bdb363b39eb2eb9d042bd25002373de7d2f3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 10/21] fix: keep time ticks within a narrow time range

---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index d0cde55..8856f09 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks (the one @ max is added below)
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
-- 
2.43.0


From 7a11082c27df5698448c2712edae95eddf42f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 11/21] fix: move every line down when scrolling up

---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From 1fde6f9b08f84340bb08c7c51375e66bda05cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 12/21] fix: keep the cursor in the box after a character wider
 than it

---
 promq/term/wrapper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..44edc64 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -123,6 +123,10 @@ func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
 	}
 	t.buf.SetContent(t.cursorCol, t.cursorRow, runes[0], runes[1:], sty)
 	t.cursorCol += width
+	if t.cursorCol > t.cols {
+		// wide character in a box that's narrower still
+		t.cursorCol = t.cols
+	}
 }
 
 func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
-- 
2.43.0


From 01614a78bca9dc046104a5d5657f315c1c80f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 13/21] fix: keep the cursor in the box when it shrinks

---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 44edc64..2d2b3f8 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,20 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+
+	// the box may have shrunk from under the cursor
+	if t.cursorRow >= rows {
+		t.cursorRow = rows-1
+	}
+	if t.cursorRow < 0 { // no rows (now, or until now)
+		t.cursorRow = 0
+	}
+	if t.cursorCol > cols {
+		t.cursorCol = cols
+	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
-- 
2.43.0


From f6eb3f26073b249233e026d8f77bebeff51429e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 14/21] fix: keep the spelling of candidates when filtering
 without case

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..9e0b105 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		candidate := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			candidate = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(candidate, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From 134c1f5c5c0eb541c29db7953cc24616c7875294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 15/21] fix: continue parsing when the previous tokens are
 covered

---
 promq/autocomplete/earley/luthor.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..949f386 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,16 +63,15 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
 			return i
 		}
 	}
-	// return negative i if tks2 covers ws
+	// return the negative length of ws if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From b904f9459cdf4a07726c42f884344fb9b61a9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 16/21] fix: forget the previous tokens when parsing from the
 beginning

---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..2c8630d 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From 47a9b75e2f15be1f529057d482d98eca7a5c3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 17/21] fix: do not suggest anything when nothing could be
 lexed

---
 promq/autocomplete/earley/earley.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 2c8630d..486d433 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -187,7 +187,8 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
 	lastTokenPos := len(tokens) - 1
 	if lastTokenPos < 0 {
-		lastTokenPos = 0
+		// nothing could be lexed, so there's nothing to suggest
+		return nil
 	}
 
 	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
-- 
2.43.0


From 31f44133caef4fcd5df3e4bff38eec48cc2f0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 18/21] fix: add up the offsets of nested token extraction

---
 promq/autocomplete/earley/luthor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 949f386..2944d71 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -191,7 +191,7 @@ func extractTokensWithOffset(query string, offset int) (words Tokens) {
 			if i == 0 {
 				break
 			}
-			subWords := extractTokensWithOffset(substring, int(currItem.Pos))
+			subWords := extractTokensWithOffset(substring, offset+int(currItem.Pos))
 			if len(subWords) > 0 {
 				words = append(words, subWords...)
 			}
-- 
2.43.0


From 07da3c4ed97dc8eba649dbf2e57fbd0a735d06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 19/21] fix: report token ends relative to the whole query

---
 promq/autocomplete/earley/luthor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 2944d71..26e87b0 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -209,7 +209,7 @@ func createTokenFromItem(item parser.Item, offset int) Tokhan {
 		ItemType: item.Typ,
 		Type:     mapParserItemTypeToTokhanType(item),
 		StartPos: int(item.Pos) + offset,
-		EndPos:   int(item.PositionRange().End),
+		EndPos:   int(item.PositionRange().End) + offset,
 	}
 }
 
-- 
2.43.0


From e9e5b98379fb1a8ae9263cde24f32a132698499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 20/21] fix: find the completion prefix by byte position

---
 promq/autocomplete/earley/completer.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..0b74ed1 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,9 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// the separators are all single bytes, so the byte after the last one starts the prefix
+	i := strings.LastIndexAny(query, PromQLTokenSeparators)
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[i+1:]
 }
-- 
2.43.0


From 0d3a2e1302d99b5c2c323b3f736d10949c749ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 21/21] fix: pass the byte position of the cursor to the
 completer

---
 cmd/metrics/autocompleter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..903f645 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -40,7 +40,7 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 	if d.TextBeforeCursor() == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(d.TextBeforeCursor()))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0

