From ffea8f61ab3fd57271795f0a72256cd5d34a8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 01/31] fix: don't recycle stack frames shared with trace
 snapshots

Search and stream snapshots alias the frames computed by a core event. When
the trace was dropped from the collector, the event was recycled and the same
array was overwritten with the stack of an unrelated event, so results that
had already been returned to callers would change.
---
 trace_core.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..9474473 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -360,7 +360,7 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 		cev.what = newNormalStringer(format, args...)
 	}
 
-	cev.stack = cev.stack[:0] // be safe
+	cev.stack = nil // be safe, never re-use the array, see getStack
 
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
@@ -373,6 +373,10 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 	return cev
 }
 
+// getStack returns the frames of the event. Those frames are computed at most
+// once, and are shared with every snapshot of the event, all of which can
+// outlive the event. So, the returned slice must never be modified, and its
+// underlying array must never be re-used by a different event.
 func (cev *coreEvent) getStack() []Frame {
 	if cev.pcn <= 0 {
 		return nil
@@ -401,7 +405,7 @@ func (cev *coreEvent) free() {
 	cev.what.free()
 	cev.what = nil
 	cev.pcn = 0
-	cev.stack = cev.stack[:0]
+	cev.stack = nil
 	trcdebug.CoreEventFreeCount.Add(1)
 	coreEventPool.Put(cev)
 }
-- 
2.43.0


From c92785df5872c22cee9a9292a59b61644b8d0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 02/31] fix: never recycle a trace that callers can still
 reference

When a finished trace was dropped from its collector, the core trace value was
returned to a pool, and re-used for a new trace. But callers can still hold a
reference to the original trace, e.g. a goroutine that outlives its request.
That caller would then observe the ID, state and events of an unrelated trace,
and its (supposedly no-op) calls to Tracef, Errorf, or Finish would modify that
unrelated trace. Events, which are never exposed directly, are still pooled.
---
 internal/trcdebug/counters.go |  5 +++--
 trace_core.go                 | 34 ++++++++++++----------------------
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/internal/trcdebug/counters.go b/internal/trcdebug/counters.go
index 72f2e12..22eeae0 100644
--- a/internal/trcdebug/counters.go
+++ b/internal/trcdebug/counters.go
@@ -6,10 +6,11 @@ var (
 	// CoreTraceNewCount tracks when a new core trace is requested.
 	CoreTraceNewCount atomic.Uint64
 
-	// CoreTraceAllocCount tracks when the core trace pool allocs a new value.
+	// CoreTraceAllocCount tracks when a core trace is allocated.
 	CoreTraceAllocCount atomic.Uint64
 
-	// CoreTraceFreeCount tracks when a core trace returns to the pool.
+	// CoreTraceFreeCount tracks when a core trace is free'd, which returns its
+	// events to the pool.
 	CoreTraceFreeCount atomic.Uint64
 
 	// CoreTraceLostCount tracks when a core trace which is still active
diff --git a/trace_core.go b/trace_core.go
index 9474473..26c67b7 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -101,30 +101,19 @@ type traceContextKey struct{}
 
 var traceContextVal traceContextKey
 
-var coreTracePool = sync.Pool{
-	New: func() any {
-		trcdebug.CoreTraceAllocCount.Add(1)
-		return &coreTrace{}
-	},
-}
-
 // newCoreTrace starts a new trace with the given source and category.
 func newCoreTrace(source, category string) *coreTrace {
 	trcdebug.CoreTraceNewCount.Add(1)
+	trcdebug.CoreTraceAllocCount.Add(1)
 	now := time.Now().UTC()
-	tr := coreTracePool.Get().(*coreTrace)
-	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation
-	tr.source = source
-	tr.category = category
-	tr.start = now
-	tr.errored = false
-	tr.finished = false
-	tr.duration = 0
-	tr.nostackflag = iff(traceNoStacks.Load(), flagNoStack, uint8(0))
-	tr.events = tr.events[:0]
-	tr.eventsmax = int(traceMaxEvents.Load())
-	tr.truncated = 0
-	return tr
+	return &coreTrace{ // not pooled, see Free
+		id:          ulid.MustNew(ulid.Timestamp(now), traceIDEntropy), // defer String computation
+		source:      source,
+		category:    category,
+		start:       now,
+		nostackflag: iff(traceNoStacks.Load(), flagNoStack, uint8(0)),
+		eventsmax:   int(traceMaxEvents.Load()),
+	}
 }
 
 func iff[T any](cond bool, yes, no T) T {
@@ -311,10 +300,11 @@ func (tr *coreTrace) Free() {
 	for _, ev := range tr.events {
 		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
 	}
-	tr.events = tr.events[:0]
+	tr.events = nil
 
+	// The trace itself can't be recycled. Callers may still have a reference to
+	// it, and must never be able to see, or modify, a different trace.
 	trcdebug.CoreTraceFreeCount.Add(1)
-	coreTracePool.Put(tr)
 }
 
 //
-- 
2.43.0


From 2b32c92a6b94af27b4e35455cb88864d252a9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:53 +0000
Subject: [PATCH 03/31] fix: build stream traces without panicking or modifying
 their source

NewStreamTrace panicked for an active trace with no events, when the trace was
wrapped by e.g. LogDecorator; and it removed the stacks of the source trace's
events, when that trace returned its own slice of events.
---
 trace_static.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..e325f2d 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -49,16 +49,11 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+		if all := tr.Events(); len(all) > 0 {
+			events = withoutStacks(all[len(all)-1:])
 		}
 	case !canDetail && !isActive:
-		events = tr.Events()
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
-		}
+		events = withoutStacks(tr.Events())
 	}
 
 	duration := tr.Duration()
@@ -76,6 +71,17 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	}
 }
 
+// withoutStacks returns a copy of the events, each with no stack. The events
+// may still be in use by the trace that produced them, so aren't modified.
+func withoutStacks(events []Event) []Event {
+	res := make([]Event, len(events))
+	for i, ev := range events {
+		ev.Stack = nil
+		res[i] = ev
+	}
+	return res
+}
+
 // ID implements the Trace interface.
 func (st *StaticTrace) ID() string { return st.TraceID }
 
-- 
2.43.0


From 8c9b354cafc959151e708c74ec0c7776375f338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 04/31] fix: don't produce inconsistent static traces from
 traces being modified

If a trace was finished or errored while it was being read, then a stream trace
could claim to be finished but have only its latest event, and a search trace
could claim to be finished with the duration or events of an active trace.
---
 trace_static.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index e325f2d..8b57b26 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,15 +22,24 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	// The trace can be modified while it's being read. Reading finished first,
+	// and errored and duration after events, means a finished static trace is
+	// always complete, and is never inconsistent with its own events.
+	var (
+		finished = tr.Finished()
+		events   = tr.Events()
+		errored  = tr.Errored()
+		duration = tr.Duration()
+	)
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
-		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
-		TraceErrored:  tr.Errored(),
-		TraceEvents:   tr.Events(),
+		TraceDuration: duration,
+		TraceFinished: finished,
+		TraceErrored:  errored,
+		TraceEvents:   events,
 	}
 }
 
@@ -56,6 +65,9 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		events = withoutStacks(tr.Events())
 	}
 
+	// As in NewSearchTrace, the order of these reads is significant, and the
+	// trace must be considered finished only if it was when events were chosen.
+	errored := tr.Errored()
 	duration := tr.Duration()
 	return &StaticTrace{
 		TraceSource:      tr.Source(),
@@ -65,8 +77,8 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
-		TraceErrored:     tr.Errored(),
+		TraceFinished:    !isActive,
+		TraceErrored:     errored,
 		TraceEvents:      events,
 	}
 }
-- 
2.43.0


From f9d31470396645aedc7226aaeedfd96560edd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:08 +0000
Subject: [PATCH 05/31] fix: trimming a search result doesn't trim the trace it
 was made from

When a trace returned its own slice of events, as static traces do, then a
search with a stack depth removed stacks from the trace in the collector.
---
 trace_static.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 8b57b26..355625c 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -142,12 +142,14 @@ func (st *StaticTrace) TrimStacks(depth int) *StaticTrace {
 	if depth < 0 {
 		depth = 0 // negative value means remove all stacks
 	}
+	events := make([]Event, len(st.TraceEvents)) // the original slice may be shared
 	for i, ev := range st.TraceEvents {
 		if len(ev.Stack) > depth {
-			ev.Stack = ev.Stack[:depth]
-			st.TraceEvents[i] = ev
+			ev.Stack = ev.Stack[:depth:depth]
 		}
+		events[i] = ev
 	}
+	st.TraceEvents = events
 	return st
 }
 
-- 
2.43.0


From 36f544e86b3df1e58bc175316744205a31770303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 06/31] fix: normalize search requests with negative buckets

A negative bucket was sorted after zero, and every subsequent normalization of
the same request, e.g. by a remote server, added another zero bucket. That made
responses from different searchers inconsistent, and merging them panicked.
---
 search_types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..d8f26c5 100644
--- a/search_types.go
+++ b/search_types.go
@@ -40,7 +40,10 @@ func (req *SearchRequest) Normalize() []error {
 	sort.Slice(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
-	if req.Bucketing[0] != 0 {
+	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 { // durations can't be negative
+		req.Bucketing = req.Bucketing[1:]
+	}
+	if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {
 		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
 	}
 
-- 
2.43.0


From 6e8e8e6b3f6f846c6685536a9e38e9a42bfdb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 07/31] fix: print IDs, rather than sources, as the IDs in a
 filter

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..8fee7e6 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 54010233c3d42f5b19f7f57976fab0b81a4ce0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 08/31] fix: don't match against a stale query when a filter is
 re-used

The regexp compiled from a filter's query was used indefinitely, even after the
query was changed, so the filter allowed traces that matched the old query.
---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 8fee7e6..3d8db53 100644
--- a/filter.go
+++ b/filter.go
@@ -170,17 +170,21 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
-	if f.regexp != nil {
+	if f.regexp != nil && f.regexp.String() == f.Query {
 		return nil
 	}
 
 	if f.Query == "" {
+		if f.regexp != nil { // avoid writes when possible, filters can be shared
+			f.regexp = nil
+		}
 		return nil
 	}
 
 	re, err := regexp.Compile(f.Query)
 	if err != nil {
 		f.Query = ""
+		f.regexp = nil
 		return fmt.Errorf("invalid, ignoring (%w)", err)
 
 	}
-- 
2.43.0


From 396acdcd271883ab2a995edd2bfacfce9e147be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 09/31] fix: serve an error response, rather than panicking, if
 a search fails

---
 trcweb/trace_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..626227c 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -146,6 +146,10 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
+	if data.Response.Stats == nil { // no response, but stats are still rendered
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
+
 	if n := len(data.Response.Stats.Categories); n >= 100 {
 		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", n))
 	}
-- 
2.43.0


From 08ac33fcc6ff1a2f11606478c2d8365ed198fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 10/31] fix: report problems with a search request to remote
 clients

If a request wasn't valid, or the search failed, then JSON clients would receive
a response with no problems, unlike a client of the collector itself.
---
 trcweb/trace_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 626227c..5530749 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -142,10 +142,15 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		data.Response = *res
 	}
 
+	// Our own problems aren't transmitted, so they need to be in the response.
+	problems := trcutil.FlattenErrors(data.Problems...)
+
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
+	data.Response.Problems = append(problems, data.Response.Problems...)
+
 	if data.Response.Stats == nil { // no response, but stats are still rendered
 		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
 	}
-- 
2.43.0


From 9d65621fb8f37bef4c6619b79465faabb75bb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 11/31] fix: don't modify search stats after they've been
 merged into other stats

The stats which were first merged shared their categories and bucket counts with
the destination, and so were modified by every subsequent merge.
---
 search_stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..ec1ad05 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(other.Bucketing)
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -94,6 +93,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 		ours, ok := ss.Categories[category]
 		if !ok {
 			cp := *theirs
+			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
 			ss.Categories[category] = &cp
 			continue
 		}
@@ -250,6 +250,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	if cs.IsZero() {
 		*cs = *other
+		cs.BucketCounts = append([]int(nil), other.BucketCounts...)
 		return
 	}
 
-- 
2.43.0


From db873be2baf5e92f88003700b519d176c0aab3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 12/31] fix: merge event counts, and don't count the same rate
 twice

Merged category stats, including the overall category, kept the event count of
only one side; and their rates included traces from the other side twice.
---
 search_stats.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index ec1ad05..d9df8b6 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -261,6 +261,12 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates are computed from counts, so need to be merged before them.
+	tracerate := cs.TraceRate() + other.TraceRate()
+	eventrate := cs.EventRate() + other.EventRate()
+
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
@@ -272,8 +278,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0


From 3484ef3c6a2c124d5661037e68f8b1840e95b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 13/31] fix: don't interpret the name of a region as a format
 string

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 535496d..fcd101f 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From 92e4e8bde77cdecbf84b9bdf18c0e1c127b8a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:57 +0000
Subject: [PATCH 14/31] fix: don't overwrite the args of other events when
 using a prefix

If the args passed to Prefix had any additional capacity, then every event would
store its own args in that capacity, changing the args of previous lazy events.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index fcd101f..878f99d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -102,7 +102,7 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 	prefixed := &prefixTrace{
 		Trace:  original,
 		format: format + " ",
-		args:   args,
+		args:   args[:len(args):len(args)], // shared by every event, so append must copy
 	}
 
 	return Put(ctx, prefixed)
-- 
2.43.0


From 88174ef51c907217a5d62c76412d3b3be87e9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 15/31] fix: don't panic on stream requests with an invalid
 stats interval

---
 trcweb/trace_server.go | 2 +-
 trcweb/util.go         | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 5530749..0fdb240 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -266,7 +266,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	}
 
 	var (
-		stats   = parseDefault(r.URL.Query().Get("stats"), time.ParseDuration, 10*time.Second)
+		stats   = parseDefault(r.URL.Query().Get("stats"), parsePositiveDuration, 10*time.Second)
 		sendbuf = parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)
 		tracec  = make(chan trc.Trace, sendbuf)
 		donec   = make(chan struct{})
diff --git a/trcweb/util.go b/trcweb/util.go
index 5c64592..b1e77f5 100644
--- a/trcweb/util.go
+++ b/trcweb/util.go
@@ -1,6 +1,7 @@
 package trcweb
 
 import (
+	"fmt"
 	"net/http"
 	"sort"
 	"time"
@@ -86,6 +87,14 @@ func parseDurationPointer(s string) (*time.Duration, error) {
 	return &d, nil
 }
 
+func parsePositiveDuration(s string) (time.Duration, error) {
+	d, err := time.ParseDuration(s)
+	if err == nil && d <= 0 {
+		err = fmt.Errorf("duration must be positive")
+	}
+	return d, err
+}
+
 func parseBucketing(bs []string) []time.Duration {
 	if len(bs) <= 0 {
 		return nil
-- 
2.43.0


From 570c4e23fb6f0aec3f91023c8825c3baaa5fde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 16/31] fix: escape query parameters in links in the web UI

Queries, sources, categories, or IDs containing characters like & # + or % would
produce links to a different search.
---
 trcweb/assets/traces.html | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..68ab58d 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,18 +105,18 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
 {{ if not (ReflectDeepEqual DefaultBucketing $r.Bucketing) }}
 	{{ range $r.Bucketing }}
-		{{ $query_params = printf "%s&b=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&b=%s" $query_params (QueryEscape .String) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
@@ -386,7 +386,7 @@ function highlightQuery() {
 
 	<!-- Trace top line -->
 	<div class="metadata">
-		{{ $href := printf "id=%s" .ID | SafeURL }}
+		{{ $href := printf "id=%s" (QueryEscape .ID) | SafeURL }}
 
 		<strong><a href="?{{$href}}">{{ .ID }}</a></strong>
 
-- 
2.43.0


From 26b2cdb705e93d9474eabe7e91148b87e6b24a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 17/31] fix: render the web UI when the working directory has
 an entry named root

The name of the parent template was taken as the name of a local asset, so e.g.
programs running in / tried to parse the directory /root as a template.
---
 trcweb/render.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trcweb/render.go b/trcweb/render.go
index 3ca22a4..a2a81b4 100644
--- a/trcweb/render.go
+++ b/trcweb/render.go
@@ -131,8 +131,8 @@ func renderTemplate(ctx context.Context, fs fs.FS, templateName string, userFunc
 		)
 		for _, tp := range templateRoot.Templates() {
 			templateName := tp.Name()
-			if templateName == "" {
-				continue
+			if templateName == "" || templateName == templateRoot.Name() {
+				continue // not an asset
 			}
 			assetName := filepath.Join(localPath, templateName)
 			if _, err := os.Stat(assetName); err != nil {
-- 
2.43.0


From b620ebe65a3908033cbe95d530af9b9963f69f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 18/31] fix: don't modify the trace server, without
 synchronization, in requests

A trace server which wasn't made by NewTraceServer had its fields initialized by
every request that was received before they were set, which was a data race.
---
 trcweb/trace_server.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 0fdb240..5987d90 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -63,18 +63,26 @@ func NewTraceServer(c *trc.Collector) *TraceServer {
 }
 
 func (s *TraceServer) initialize() {
-	if s.Searcher == nil {
-		s.Searcher = s.Collector
+	s.Searcher = s.searcher()
+	s.Streamer = s.streamer()
+}
+
+func (s *TraceServer) searcher() Searcher {
+	if s.Searcher != nil {
+		return s.Searcher
 	}
-	if s.Streamer == nil {
-		s.Streamer = s.Collector
+	return s.Collector
+}
+
+func (s *TraceServer) streamer() Streamer {
+	if s.Streamer != nil {
+		return s.Streamer
 	}
+	return s.Collector
 }
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	s.initialize()
-
 	switch Categorize(r) {
 	case "stream":
 		s.handleStream(w, r)
@@ -135,7 +143,7 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 
 	tr.LazyTracef("search request %s", data.Request)
 
-	res, err := s.Searcher.Search(ctx, &data.Request)
+	res, err := s.searcher().Search(ctx, &data.Request)
 	if err != nil {
 		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
 	} else {
@@ -279,7 +287,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	defer cancel()
 
 	go func() {
-		stats, err := s.Streamer.Stream(ctx, f, tracec)
+		stats, err := s.streamer().Stream(ctx, f, tracec)
 		tr.LazyTracef("%s (error: %v)", stats, err)
 		close(donec)
 	}()
@@ -317,7 +325,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 				}
 
 			case <-stats.C:
-				stats, err := s.Streamer.StreamStats(ctx, tracec)
+				stats, err := s.streamer().StreamStats(ctx, tracec)
 				if err != nil {
 					tr.Errorf("get stats: %v", err)
 					continue
-- 
2.43.0


From 2f38cabeb20c96fa404f65936c5d983b3609c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 19/31] fix: don't record an informational response as the
 final response code

---
 trcweb/middleware.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..d22077c 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -70,7 +70,8 @@ func newInterceptor(w http.ResponseWriter) *interceptor {
 }
 
 func (i *interceptor) WriteHeader(code int) {
-	if i.code == 0 {
+	isFinal := code >= 200 || code == http.StatusSwitchingProtocols // not informational
+	if i.code == 0 && isFinal {
 		i.code = code
 	}
 	i.ResponseWriter.WriteHeader(code)
-- 
2.43.0


From 770eed4d41b0a4fc3c1e1445f05572cad9a69a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:57 +0000
Subject: [PATCH 20/31] fix: record the code that was sent when it's set after
 the response body

A handler that writes a body has already sent a 200, and a subsequent call to
WriteHeader, e.g. via http.Error, has no effect. But the middleware would record
that ineffective code.
---
 trcweb/middleware.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index d22077c..7e8376e 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -78,6 +78,7 @@ func (i *interceptor) WriteHeader(code int) {
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	i.implicitOK()
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
@@ -95,5 +96,14 @@ func (i *interceptor) Written() int {
 }
 
 func (i *interceptor) Flush() {
+	i.implicitOK()
 	i.flush()
 }
+
+// implicitOK is called when the response is first sent. If no code was set at
+// that point, then the response is a 200, and can't be changed afterwards.
+func (i *interceptor) implicitOK() {
+	if i.code == 0 {
+		i.code = http.StatusOK
+	}
+}
-- 
2.43.0


From ffabe3e1c986620f0c87dc89f0218617c12f22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 21/31] fix: don't change the events of a finished trace every
 time they're read

The final event of a truncated trace had the time that it was read, rather than
the time of the most recent event that it represents.
---
 trace_core.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 26c67b7..0410232 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -82,6 +82,7 @@ type coreTrace struct {
 	events      []*coreEvent
 	eventsmax   int
 	truncated   int
+	truncatedAt time.Time
 }
 
 var _ Trace = (*coreTrace)(nil)
@@ -160,7 +161,7 @@ func (tr *coreTrace) Tracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))
 	}
@@ -176,7 +177,7 @@ func (tr *coreTrace) LazyTracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|tr.nostackflag, format, args...))
 	}
@@ -194,7 +195,7 @@ func (tr *coreTrace) Errorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
 	}
@@ -212,12 +213,18 @@ func (tr *coreTrace) LazyErrorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))
 	}
 }
 
+// truncate records an event that can't be stored in the trace.
+func (tr *coreTrace) truncate() {
+	tr.truncated++
+	tr.truncatedAt = time.Now().UTC()
+}
+
 func (tr *coreTrace) Finish() {
 	tr.mtx.Lock()
 	defer tr.mtx.Unlock()
@@ -260,8 +267,12 @@ func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {
 	events := snapshotEvents(latest, stacks)
 
 	if tr.truncated > 0 {
+		when := tr.truncatedAt
+		if n := len(events); n > 0 && events[n-1].When.After(when) { // max events was increased
+			when = events[n-1].When
+		}
 		events = append(events, Event{
-			When:    time.Now().UTC(),
+			When:    when,
 			What:    fmt.Sprintf("(truncated event count %d)", tr.truncated),
 			Stack:   nil,
 			IsError: false,
-- 
2.43.0


From 5fce6ee6ac3ffc0c0892a1c1308b12471ffc1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:43 +0000
Subject: [PATCH 22/31] fix: render percentages of nothing as zero, rather than
 NaN or minint

---
 trcweb/render.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/trcweb/render.go b/trcweb/render.go
index a2a81b4..877472d 100644
--- a/trcweb/render.go
+++ b/trcweb/render.go
@@ -203,10 +203,10 @@ var templateFuncs = template.FuncMap{
 	"SourceLink":           func(fileline string) template.URL { return sourceLinkFunc.Get()(fileline) },
 	"AddInt":               func(i, j int) int { return i + j },
 	"AddFloat":             func(i, j float64) float64 { return i + j },
-	"PercentInt":           func(n, d int) int { return int(100 * float64(n) / float64(d)) },
-	"PercentUint64":        func(n, d uint64) int { return int(100 * float64(n) / float64(d)) },
-	"PercentDuration":      func(n, d time.Duration) int { return int(100 * float64(n) / float64(d)) },
-	"PercentDurationFloat": func(n, d time.Duration) float64 { return 100 * float64(n) / float64(d) },
+	"PercentInt":           func(n, d int) int { return int(percent(n, d)) },
+	"PercentUint64":        func(n, d uint64) int { return int(percent(n, d)) },
+	"PercentDuration":      func(n, d time.Duration) int { return int(percent(n, d)) },
+	"PercentDurationFloat": func(n, d time.Duration) float64 { return percent(n, d) },
 	"TimeNow":              func() time.Time { return time.Now().UTC() },
 	"TimeSince":            func(t time.Time) time.Duration { return time.Since(t) },
 	"TimeDiff":             func(a, b time.Time) time.Duration { return a.Sub(b) },
@@ -237,6 +237,13 @@ var templateFuncs = template.FuncMap{
 	"RenderEvents":         renderEvents,
 }
 
+func percent[T int | uint64 | time.Duration](n, d T) float64 {
+	if d == 0 {
+		return 0
+	}
+	return 100 * float64(n) / float64(d)
+}
+
 func humanizeFunction(s string) string {
 	if index := strings.LastIndex(s, "/"); index > 0 && index < len(s) {
 		s = s[index+1:]
@@ -333,7 +340,7 @@ func renderEvents(st *trc.StaticTrace) []renderEvent {
 			Index:        i,
 			When:         ev.When,
 			Delta:        delta,
-			DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
+			DeltaPercent: percent(delta, st.TraceDuration),
 			Cumulative:   ev.When.Sub(st.TraceStarted),
 			What:         ev.What,
 			IsError:      ev.IsError,
@@ -351,7 +358,7 @@ func renderEvents(st *trc.StaticTrace) []renderEvent {
 		Index:        len(st.TraceEvents),
 		When:         when,
 		Delta:        delta,
-		DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
+		DeltaPercent: percent(delta, st.TraceDuration),
 		Cumulative:   st.TraceDuration,
 		What:         what,
 	})
-- 
2.43.0


From 6b8bb322c2ff095da887b23be2a57ee9d505a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 23/31] fix: don't parse event text as HTML when highlighting
 query matches

---
 trcweb/assets/traces.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 68ab58d..78fff59 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -79,10 +79,13 @@ function highlightQuery() {
 	{{ if .Request.Filter.Query }}
 	let re = new RegExp('('+{{.Request.Filter.Query}}+')');
 	document.getElementById("traces").querySelectorAll(".searchable").forEach(elem => {
-		if (re.test(elem.innerHTML)) {
-			let oldText = elem.textContent.replace(/(<mark class="highlight">|<\/mark>)/gim, ' ');
-			let newText = oldText.replace(re, '<mark class="highlight">$&</mark>');
-			elem.innerHTML = newText;
+		let text = elem.textContent;
+		let match = re.exec(text);
+		if (match != null) {
+			let mark = document.createElement("mark"); // text is untrusted, never parse it as HTML
+			mark.className = "highlight";
+			mark.textContent = match[0];
+			elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));
 			let details = elem.closest("details");
 			if (details != null) {
 				details.open = true;
-- 
2.43.0


From 2e147fa6035c02f8416b17484be60a522af5c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 24/31] fix: don't panic in trc stream with an invalid buffer
 size or interval

---
 cmd/trc/stream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/trc/stream.go b/cmd/trc/stream.go
index 8643d3e..e19e9c4 100644
--- a/cmd/trc/stream.go
+++ b/cmd/trc/stream.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"net/http"
 	"os"
 	"sync"
@@ -40,6 +41,14 @@ func (cfg *streamConfig) Exec(ctx context.Context, args []string) error {
 	ctx, tr := cfg.newTrace(ctx, "stream")
 	defer tr.Finish()
 
+	if cfg.recvBuf < 0 {
+		return fmt.Errorf("invalid receive buffer %d", cfg.recvBuf)
+	}
+
+	if cfg.statsInterval <= 0 {
+		return fmt.Errorf("invalid stats interval %s", cfg.statsInterval)
+	}
+
 	cfg.traces = make(chan trc.Trace, cfg.recvBuf)
 
 	var streaming string
-- 
2.43.0


From adbecfe3618fcf3a7187d40742a70e66671d043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 25/31] fix: don't add a second zero bucket to search requests
 in URLs

---
 trcweb/util.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trcweb/util.go b/trcweb/util.go
index b1e77f5..815f1f6 100644
--- a/trcweb/util.go
+++ b/trcweb/util.go
@@ -115,11 +115,7 @@ func parseBucketing(bs []string) []time.Duration {
 		return nil
 	}
 
-	if ds[0] != 0 {
-		ds = append([]time.Duration{0}, ds...)
-	}
-
-	return ds
+	return ds // normalized with the request
 }
 
 func iff[T any](cond bool, yes, no T) T {
-- 
2.43.0


From a61bed9f4a963b811f3484d13b986bbc246403c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 26/31] fix: close the connection of a stream client that's
 canceled while it connects

A stream client whose context was canceled before the server had sent its
response headers either didn't return until it did, or left the connection
(and the subscription in the server) open forever. It also kept a goroutine
and the connection when Stream returned by itself, until the context was
canceled.
---
 trcweb/trace_server.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 5987d90..6c8f7bd 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -464,11 +464,17 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 
 	// Explicitly don't provide the context to the request, because EventSource
 	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning.
+	// case Read can block for a single retry duration before returning. Instead,
+	// the request has a context of its own, which is canceled after EventSource
+	// is closed, and when we return. Otherwise, a connection that's established
+	// after EventSource is closed would never be closed.
 	//
 	// Also, EventSource directly re-uses this request over reconnect attempts,
 	// which prevents the use of a body, and means we have to encode the filter
 	// in the URL.
+	reqctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
 	var req *http.Request
 	{
 		uri, err := url.Parse(c.URI)
@@ -485,7 +491,7 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 		uri.RawQuery = query.Encode()
 
-		r, err := http.NewRequest("GET", uri.String(), nil)
+		r, err := http.NewRequestWithContext(reqctx, "GET", uri.String(), nil)
 		if err != nil {
 			return err
 		}
@@ -497,8 +503,12 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 
 	es := eventsource.New(req, c.RetryInterval)
 	go func() {
-		<-ctx.Done()
-		es.Close()
+		select {
+		case <-ctx.Done():
+			es.Close()
+			cancel()
+		case <-reqctx.Done():
+		}
 	}()
 
 	for {
-- 
2.43.0


From 785c6dd621d6aeb9f3c45f15f512572cb041f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:14 +0000
Subject: [PATCH 27/31] fix: log events whose format doesn't fit their args as
 a single line

---
 decorators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..66a6501 100644
--- a/decorators.go
+++ b/decorators.go
@@ -91,8 +91,8 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = ltr.id + " " + strings.TrimSuffix(format, "\n") + "\n"
-	fmt.Fprintf(ltr.dst, format, args...)
+	text := fmt.Sprintf(format, args...) // not part of a larger format, as it may not fit the args
+	fmt.Fprintf(ltr.dst, "%s %s\n", ltr.id, strings.TrimSuffix(text, "\n"))
 }
 
 func (ltr *logTrace) Free() {
-- 
2.43.0


From 9083a45c478689e15634014f78d1a18778b6a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:52 +0000
Subject: [PATCH 28/31] fix: don't modify category stats when their rates are
 read or merged

---
 search_stats.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index d9df8b6..d63de96 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -143,8 +143,8 @@ type CategoryStats struct {
 	Oldest       time.Time `json:"oldest"`
 	Newest       time.Time `json:"newest"`
 
-	tracerate float64
-	eventrate float64
+	tracerate float64 // only if merged
+	eventrate float64 // only if merged
 }
 
 // NewCategoryStats returns an empty category stats for the given category, and
@@ -191,15 +191,11 @@ func (cs *CategoryStats) TotalCount() int {
 }
 
 // TraceRate is an approximate measure of traces per second in this category.
-func (cs *CategoryStats) TraceRate() (r float64) {
+func (cs *CategoryStats) TraceRate() float64 {
 	if cs.tracerate != 0 {
 		return cs.tracerate
 	}
 
-	defer func() {
-		cs.tracerate = r
-	}()
-
 	var (
 		total      = cs.TotalCount()
 		delta      = time.Since(cs.Oldest)
@@ -217,15 +213,11 @@ func (cs *CategoryStats) TraceRate() (r float64) {
 }
 
 // EventRate is an approximate measure of events per second in this category.
-func (cs *CategoryStats) EventRate() (r float64) {
+func (cs *CategoryStats) EventRate() float64 {
 	if cs.eventrate != 0 {
 		return cs.eventrate
 	}
 
-	defer func() {
-		cs.eventrate = r
-	}()
-
 	var (
 		total      = cs.EventCount
 		delta      = time.Since(cs.Oldest)
-- 
2.43.0


From 587617c1c9108512f93c3df406b7000bf5e4fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:11 +0000
Subject: [PATCH 29/31] fix: reject responses of search servers which aren't
 valid responses to the request

---
 trcweb/trace_server.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 6c8f7bd..22475aa 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -233,11 +233,45 @@ func (c *SearchClient) Search(ctx context.Context, req *trc.SearchRequest) (_ *t
 		return nil, fmt.Errorf("decode search response: %w", err)
 	}
 
+	if err := validateResponse(&res.Response, req); err != nil {
+		return nil, fmt.Errorf("invalid search response: %w", err)
+	}
+
 	tr.LazyTracef("%s -> total %d, matched %d, returned %d", c.uri, res.Response.TotalCount, res.Response.MatchCount, len(res.Response.Traces))
 
 	return &res.Response, nil
 }
 
+// validateResponse returns an error if a response which was received from a
+// server isn't usable as a response to the request.
+func validateResponse(res *trc.SearchResponse, req *trc.SearchRequest) error {
+	for i, tr := range res.Traces {
+		if tr == nil {
+			return fmt.Errorf("trace %d is empty", i)
+		}
+	}
+
+	if res.Stats == nil {
+		return fmt.Errorf("no stats")
+	}
+
+	expect := trc.SearchRequest{Bucketing: append([]time.Duration{}, req.Bucketing...)}
+	expect.Normalize()
+
+	buckets := len(expect.Bucketing)
+	if have, want := len(res.Stats.Bucketing), buckets; have != want {
+		return fmt.Errorf("stats have %d buckets, want %d", have, want)
+	}
+
+	for category, cs := range res.Stats.Categories {
+		if cs == nil || len(cs.BucketCounts) != buckets {
+			return fmt.Errorf("category %q has bad stats", category)
+		}
+	}
+
+	return nil
+}
+
 //
 //
 //
-- 
2.43.0


From 09c7d81b5ea58d92f1288f783665d1934554e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:17 +0000
Subject: [PATCH 30/31] fix: accept URIs without a scheme whose host begins
 with http

---
 cmd/trc/main.go        | 2 +-
 trcweb/trace_server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/trc/main.go b/cmd/trc/main.go
index f59c394..a14c456 100644
--- a/cmd/trc/main.go
+++ b/cmd/trc/main.go
@@ -131,7 +131,7 @@ func exec(ctx context.Context, stdin io.Reader, stdout, stderr io.Writer, args [
 			continue
 		}
 
-		if !strings.HasPrefix(uri, "http") {
+		if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 			uri = "http://" + uri
 		}
 
diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 22475aa..63c5f34 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -183,7 +183,7 @@ var _ trc.Searcher = (*SearchClient)(nil)
 // NewSearchClient returns a search client using the given HTTP client to query
 // the given search server URI.
 func NewSearchClient(client HTTPClient, uri string) *SearchClient {
-	if !strings.HasPrefix(uri, "http") {
+	if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 		uri = "http://" + uri
 	}
 	return &SearchClient{
@@ -442,7 +442,7 @@ func (c *StreamClient) initialize() {
 		c.HTTPClient = http.DefaultClient
 	}
 
-	if c.URI != "" && !strings.HasPrefix(c.URI, "http") {
+	if c.URI != "" && !strings.HasPrefix(c.URI, "http://") && !strings.HasPrefix(c.URI, "https://") {
 		c.URI = "http://" + c.URI
 	}
 
-- 
2.43.0


From dc1784fe3c44f69f477fed27bdd70856ab79185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 31/31] fix: read and cancel streams without a data race in the
 stream client

Stream called Close on an EventSource that was being read by another goroutine.
EventSource has no synchronization, so canceling a stream client while it was
connecting could panic. It also reconnected without any delay until it had been
connected once, was not canceled while waiting to reconnect, and ignored the
HTTPClient of the stream client. Read events with a Decoder instead, in a loop
that uses the context, the interval, and the client.
---
 trcweb/trace_server.go | 160 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 135 insertions(+), 25 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 63c5f34..0f9974d 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"mime"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -496,19 +497,9 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 	}()
 
-	// Explicitly don't provide the context to the request, because EventSource
-	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning. Instead,
-	// the request has a context of its own, which is canceled after EventSource
-	// is closed, and when we return. Otherwise, a connection that's established
-	// after EventSource is closed would never be closed.
-	//
-	// Also, EventSource directly re-uses this request over reconnect attempts,
-	// which prevents the use of a body, and means we have to encode the filter
-	// in the URL.
-	reqctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
+	// The event source re-uses this request over reconnect attempts, which
+	// prevents the use of a body, and means we have to encode the filter in the
+	// URL.
 	var req *http.Request
 	{
 		uri, err := url.Parse(c.URI)
@@ -525,7 +516,7 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 		uri.RawQuery = query.Encode()
 
-		r, err := http.NewRequestWithContext(reqctx, "GET", uri.String(), nil)
+		r, err := http.NewRequestWithContext(ctx, "GET", uri.String(), nil)
 		if err != nil {
 			return err
 		}
@@ -535,19 +526,12 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		req = r
 	}
 
-	es := eventsource.New(req, c.RetryInterval)
-	go func() {
-		select {
-		case <-ctx.Done():
-			es.Close()
-			cancel()
-		case <-reqctx.Done():
-		}
-	}()
+	es := newEventSource(c.HTTPClient, req, c.RetryInterval)
+	defer es.close()
 
 	for {
-		ev, err := es.Read()
-		if errors.Is(err, eventsource.ErrClosed) {
+		ev, err := es.read()
+		if ctx.Err() != nil || errors.Is(err, eventsource.ErrClosed) {
 			return nil
 		}
 		if err != nil {
@@ -583,3 +567,129 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 	}
 }
+
+// eventSource reads events from a stream server, reconnecting as necessary. It's
+// used instead of eventsource.EventSource, which can't be closed while it's being
+// read, can't be canceled while it's connecting or waiting to reconnect, retries
+// a failing initial connection without waiting, and only works with the default
+// HTTP client.
+type eventSource struct {
+	client      HTTPClient
+	request     *http.Request
+	retry       time.Duration
+	lastEventID string
+	body        io.ReadCloser
+	decoder     *eventsource.Decoder
+}
+
+func newEventSource(client HTTPClient, req *http.Request, retry time.Duration) *eventSource {
+	req.Header.Set("accept", "text/event-stream")
+	req.Header.Set("cache-control", "no-cache")
+	return &eventSource{
+		client:  client,
+		request: req,
+		retry:   retry,
+	}
+}
+
+// read the next event. It returns an error when the request's context is
+// canceled, or the server gives an unrecoverable response. Other errors cause a
+// reconnect.
+func (es *eventSource) read() (eventsource.Event, error) {
+	for {
+		if es.body == nil {
+			if err := es.connect(); err != nil {
+				return eventsource.Event{}, err
+			}
+		}
+
+		var ev eventsource.Event
+		err := es.decoder.Decode(&ev)
+		if errors.Is(err, eventsource.ErrInvalidEncoding) {
+			continue
+		}
+		if err != nil {
+			es.close()
+			if err := es.wait(); err != nil {
+				return eventsource.Event{}, err
+			}
+			continue
+		}
+
+		if len(ev.Data) == 0 {
+			continue
+		}
+
+		if ev.ID != "" || ev.ResetID {
+			es.lastEventID = ev.ID
+		}
+
+		if ms, err := strconv.Atoi(ev.Retry); err == nil {
+			es.retry = time.Duration(ms) * time.Millisecond
+		}
+
+		return ev, nil
+	}
+}
+
+func (es *eventSource) connect() error {
+	for {
+		es.request.Header.Set("last-event-id", es.lastEventID)
+
+		resp, err := es.client.Do(es.request)
+		if err != nil {
+			if err := es.wait(); err != nil {
+				return err
+			}
+			continue
+		}
+
+		mediatype, _, _ := mime.ParseMediaType(resp.Header.Get("content-type"))
+
+		switch {
+		case resp.StatusCode >= 500: // assumed to be temporary
+			resp.Body.Close()
+			if err := es.wait(); err != nil {
+				return err
+			}
+
+		case resp.StatusCode == http.StatusNoContent:
+			resp.Body.Close()
+			return eventsource.ErrClosed
+
+		case resp.StatusCode != http.StatusOK:
+			resp.Body.Close()
+			return fmt.Errorf("endpoint returned unrecoverable status %q", resp.Status)
+
+		case mediatype != "text/event-stream":
+			resp.Body.Close()
+			return fmt.Errorf("invalid content type %q", resp.Header.Get("content-type"))
+
+		default:
+			es.body, es.decoder = resp.Body, eventsource.NewDecoder(resp.Body)
+			return nil
+		}
+	}
+}
+
+// wait for the retry interval, or until the request's context is canceled.
+func (es *eventSource) wait() error {
+	ctx := es.request.Context()
+
+	timer := time.NewTimer(es.retry)
+	defer timer.Stop()
+
+	select {
+	case <-timer.C:
+		return ctx.Err()
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
+func (es *eventSource) close() {
+	if es.body != nil {
+		es.body.Close()
+		es.body = nil
+	}
+}
-- 
2.43.0

