package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"pgregory.net/rapid"
)

var bg = context.Background()

// ---- C07 ------------------------------------------------------------------

func TestC07(t *testing.T) {
	check(t, "history", "histories of NewTrace in several categories and SetCategorySize with valid and invalid sizes, compared with a reference model of each category after every resize and at the end; non-trivial: traces are dropped and the size was changed", 1500, func(rt *rapid.T, k *kase) {
		type entry struct {
			ft *fakeTrace
			tr trc.Trace
		}
		var (
			ff        = &fakeFactory{}
			fake      = rapid.Bool().Draw(rt, "fake")
			cfg       = trc.CollectorConfig{Source: "src"}
			capac     = 1000
			cats      = rapid.SliceOfNDistinct(genName(), 1, 4, rapid.ID[string]).Draw(rt, "cats")
			model     = map[string][]string{}
			dropped   = map[string]bool{}
			entries   = map[string]entry{}
			all       []string
			resizes   = 0
			decorated = rapid.Bool().Draw(rt, "decorated")
			many      = sometimes(rt, "many")
		)
		if many {
			cats = append(cats, fillers(rt, "c")...)
		}
		if fake {
			cfg.NewTrace = ff.new
		}
		if decorated {
			cfg.Decorators = append(cfg.Decorators, trc.LogDecorator(io.Discard))
		}
		col := trc.NewCollector(cfg)
		k.notef("cats=%q fake=%v", cats, fake)
		trim := func(cat string) {
			for len(model[cat]) > capac {
				dropped[model[cat][0]] = true
				model[cat] = model[cat][1:]
			}
		}
		verify := func() {
			total := 0
			want := map[string]bool{}
			for _, cat := range cats {
				total += len(model[cat])
				for _, id := range model[cat] {
					want[id] = true
				}
			}
			res, err := col.Search(bg, &trc.SearchRequest{Limit: 250})
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			if res.TotalCount != total {
				rt.Fatalf("collector has %d traces, want %d (size %d, %s)", res.TotalCount, total, capac, showModel(model))
			}
			have := map[string]bool{}
			for _, st := range res.Traces {
				if have[st.TraceID] {
					rt.Fatalf("trace %s is in the collector twice", st.TraceID)
				}
				have[st.TraceID] = true
				if !contains(model[st.TraceCategory], st.TraceID) {
					rt.Fatalf("trace %s (category %q) should have been dropped (size %d, %s)", st.TraceID, st.TraceCategory, capac, showModel(model))
				}
			}
			if total <= 250 && !reflect.DeepEqual(have, want) {
				rt.Fatalf("collector has %q, want %q (size %d)", sortedKeys(have), sortedKeys(want), capac)
			}
			for _, cat := range cats {
				n := 0
				if cs := res.Stats.Categories[cat]; cs != nil {
					n = cs.TotalCount()
				}
				if n != len(model[cat]) {
					rt.Fatalf("category %q has %d traces, want %d (size %d)", cat, n, len(model[cat]), capac)
				}
			}
			for id, e := range entries {
				if e.ft == nil {
					continue
				}
				want := 0
				if dropped[id] {
					want = 1
				}
				if e.ft.frees != want {
					rt.Fatalf("trace %s (dropped: %v) was freed %d times", id, dropped[id], e.ft.frees)
				}
			}
		}
		steps := rapid.IntRange(1, 60).Draw(rt, "steps")
		for s := 0; s < steps; s++ {
			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case op == 0:
				n := rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{0, -1, -100, 1, 2, 3, 50})).Draw(rt, "size")
				if got := col.SetCategorySize(n); got != col {
					rt.Fatalf("SetCategorySize returned a different collector")
				}
				if n > 0 {
					capac = n
					resizes++
				}
				for _, cat := range cats {
					trim(cat)
				}
				k.notef("resize %d", n)
				verify()
			default:
				cat := rapid.SampledFrom(cats).Draw(rt, "cat")
				burst := 1
				if op == 9 {
					burst = rapid.IntRange(2, 20).Draw(rt, "burst")
				}
				spread := many && op == 8 // over all categories
				if spread {
					burst = len(cats)
				}
				for i := 0; i < burst; i++ {
					if spread {
						cat = cats[i]
					}
					ff.next = &fakeTrace{id: fmt.Sprintf("%05d", len(all)), started: baseTime.Add(time.Duration(len(all)) * time.Second)}
					_, tr := col.NewTrace(bg, cat)
					id := tr.ID()
					all = append(all, id)
					e := entry{tr: tr}
					if fake {
						e.ft = ff.next
					}
					entries[id] = e
					model[cat] = append(model[cat], id)
					trim(cat)
					if (len(all)+s)%3 == 0 {
						tr.Finish()
					}
				}
				k.notef("new %q x%d", cat, burst)
			}
		}
		verify()
		k.interesting(len(dropped) > 0 && resizes > 0)
		k.label(len(dropped) > 0, "dropped")
	})

	checkN(t, "default-size", "more than 1000 traces are created in one category of a collector with default settings, or of up to 20000 traces, and a few traces in up to 3000 other categories; non-trivial: over 1000 traces", 20, 100, func(rt *rapid.T, k *kase) {
		n := rapid.SampledFrom([]int{999, 1000, 1001, 1010, 1500, 2003}).Draw(rt, "n")
		other := rapid.IntRange(1, 5).Draw(rt, "other")
		others := rapid.SampledFrom([]int{1, 1, 5, 300, 1100, 3000}).Draw(rt, "others")
		size := rapid.SampledFrom([]int{0, 0, 1, 1000, 4100, 20000}).Draw(rt, "size")
		if size > 1000 {
			n = size + rapid.IntRange(-1, 5).Draw(rt, "over")
		}
		k.notef("n=%d other=%d of %d, size %d", n, other, others, size)
		k.interesting(n > 1000)
		col := trc.NewDefaultCollector()
		if rapid.Bool().Draw(rt, "new") {
			col = trc.NewCollector(trc.CollectorConfig{})
		}
		if size > 0 {
			col.SetCategorySize(size)
		} else {
			size = 1000
		}
		var ids []string
		for i := 0; i < other*others; i++ {
			col.NewTrace(bg, fmt.Sprint("other", i%others))
		}
		for i := 0; i < n; i++ {
			_, tr := col.NewTrace(bg, "cat")
			ids = append(ids, tr.ID())
			tr.Finish()
		}
		kept := min(n, size)
		other = min(other, size)
		res, err := col.Search(bg, &trc.SearchRequest{Limit: 1})
		if err != nil || res.TotalCount != kept+other*others || res.Stats.Categories["cat"].TotalCount() != kept || len(res.Stats.Categories) != 1+others {
			rt.Fatalf("after %d+%d*%d traces: %v, total %d, %d categories", n, other, others, err, res.TotalCount, len(res.Stats.Categories))
		}
		for i := 0; i < others; i++ {
			if have := res.Stats.Categories[fmt.Sprint("other", i)].TotalCount(); have != other {
				rt.Fatalf("category %d of %d others has %d traces, want %d", i, others, have, other)
			}
		}
		for from := 0; from < n; from += 200 {
			to := min(from+200, n)
			if n > 2500 && from > 200 && to < n-200 && (to < n-kept || from > n-kept+200) {
				continue // only the ends, and the oldest that are kept
			}
			want := 0
			for i := from; i < to; i++ {
				if i >= n-kept {
					want++
				}
			}
			res, err := col.Search(bg, &trc.SearchRequest{Limit: 250, Filter: trc.Filter{IDs: ids[from:to]}})
			if err != nil || len(res.Traces) != want {
				rt.Fatalf("traces %d to %d of %d: %d are kept, want %d", from, to, n, len(res.Traces), want)
			}
			for i, st := range res.Traces {
				if st.TraceID != ids[to-1-i] {
					rt.Fatalf("traces %d to %d of %d: trace %s is kept, want %s", from, to, n, st.TraceID, ids[to-1-i])
				}
			}
		}
	})
}

func showModel(m map[string][]string) string {
	var res []string
	for _, cat := range sortedKeys(m) {
		res = append(res, fmt.Sprintf("%q:%d", cat, len(m[cat])))
	}
	return strings.Join(res, " ")
}

// ---- C08 ------------------------------------------------------------------

func verifySearch(rt *rapid.T, what string, res *trc.SearchResponse, err error, want modelResult, norm *trc.SearchRequest, problems int, sources []string) {
	rt.Helper()
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	if err := tracesEqual(res.Traces, want.traces); err != nil {
		rt.Fatalf("%s: %s: %v", what, showRequest(norm), err)
	}
	if res.TotalCount != want.total {
		rt.Fatalf("%s: total count %d, want %d", what, res.TotalCount, want.total)
	}
	if res.MatchCount != want.match {
		rt.Fatalf("%s: match count %d, want %d", what, res.MatchCount, want.match)
	}
	if res.Request == nil {
		rt.Fatalf("%s: response has no request", what)
	}
	if err := requestEqual(res.Request, norm); err != nil {
		rt.Fatalf("%s: request in response: %v", what, err)
	}
	if len(res.Problems) != problems {
		rt.Fatalf("%s: problems %q, want %d", what, res.Problems, problems)
	}
	if fmt.Sprintf("%q", res.Sources) != fmt.Sprintf("%q", sources) {
		rt.Fatalf("%s: sources %q, want %q", what, res.Sources, sources)
	}
	if res.Duration < 0 {
		rt.Fatalf("%s: duration %s", what, res.Duration)
	}
}

func genCats(rt *rapid.T) []string {
	cats := rapid.SliceOfNDistinct(genName(), 1, 6, rapid.ID[string]).Draw(rt, "cats")
	if sometimes(rt, "manycats") {
		cats = append(cats, fillers(rt, "c")...)
	}
	return cats
}

func TestC08(t *testing.T) {
	check(t, "search", "a collector with generated traces (ties in start times, IDs unrelated to start times, several categories, active and finished) is searched with generated requests, and compared with a reference search; source traces stay unmodified; non-trivial: some but not all traces are selected, or the limit cuts off matches", 1500, func(rt *rapid.T, k *kase) {
		w := genWorld(rt, worldConfig{source: "src", minN: 0, maxN: 25, cats: genCats(rt), capacity: rapid.SampledFrom([]int{0, 0, 3, 7}).Draw(rt, "cap")})
		before := make([]snapshot, len(w.all))
		for i, ft := range w.all {
			before[i] = snap(ft)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "searches"); i < n; i++ {
			req := genRequest(w.pools, true).Draw(rt, "req")
			if rapid.IntRange(0, 2).Draw(rt, "simple") == 0 {
				req.Filter = trc.Filter{}
			}
			norm, problems := modelNormalize(req)
			k.notef("%d traces %s", len(w.all), showRequest(req))
			want := w.model.search(norm)
			res, err := w.col.Search(bg, req)
			verifySearch(rt, "search", res, err, want, norm, problems, []string{"src"})
			if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, w.retained())); err != nil {
				rt.Fatalf("stats: %v", err)
			}
			if res.Request != req {
				rt.Fatalf("request in response isn't the request")
			}
			k.interesting((want.match > 0 && want.match < want.total) || len(want.traces) < want.match)
			k.label(len(want.traces) < want.match, "limit cuts off")
			k.label(want.match == 0, "nothing matches")
			k.label(problems > 0, "invalid query")
		}
		for i, ft := range w.all {
			if err := before[i].equal(snap(ft)); err != nil {
				rt.Fatalf("search modified trace %s: %v", ft.id, err)
			}
		}
	})

	checkN(t, "large", "as search, with several hundred traces, so that the maximum limit of 250 matters; non-trivial: over 250 traces match", 25, 300, func(rt *rapid.T, k *kase) {
		cats := genCats(rt)
		if rapid.IntRange(0, 4).Draw(rt, "spread") == 4 {
			cats = append(cats, fillers(rt, "d")...)
		}
		w := genWorld(rt, worldConfig{source: "src", minN: 240, maxN: 320, cats: cats, plain: true})
		for i := 0; i < 3; i++ {
			req := genRequest(w.pools, true).Draw(rt, "req")
			if i < 2 {
				req.Filter = trc.Filter{}
				req.Limit = rapid.SampledFrom([]int{249, 250, 251, 1000}).Draw(rt, "limit")
			}
			norm, problems := modelNormalize(req)
			k.notef("%d traces %s", len(w.all), showRequest(req))
			want := w.model.search(norm)
			res, err := w.col.Search(bg, req)
			verifySearch(rt, "search", res, err, want, norm, problems, []string{"src"})
			k.interesting(want.match > 250)
		}
	})

	checkN(t, "huge", "as search, with 1100 to 14000 traces in up to 300 categories, of default and larger size, and with statistics; non-trivial: over 250 traces match", 150, 3000, func(rt *rapid.T, k *kase) {
		w := hugeWorld(rt)
		for i := 0; i < 2; i++ {
			req := genRequest(w.pools, true).Draw(rt, "req")
			if i == 0 {
				req.Filter = trc.Filter{}
			}
			norm, problems := modelNormalize(req)
			k.notef("%d traces %s", len(w.all), showRequest(req))
			want := w.model.search(norm)
			res, err := w.col.Search(bg, req)
			verifySearch(rt, "search", res, err, want, norm, problems, []string{"src"})
			if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, w.retained())); err != nil {
				rt.Fatalf("stats: %v", err)
			}
			k.interesting(want.match > 250)
		}
	})

	check(t, "real", "real traces from the collector, some active, some finished, searched by ID, category, state and text; the result contains the live state of each; non-trivial: at least 3 traces", 300, func(rt *rapid.T, k *kase) {
		col := trc.NewCollector(trc.CollectorConfig{Source: "real"})
		cats := []string{"a", "b", "c"}
		type live struct {
			tr   trc.Trace
			want []wantEvent
		}
		var traces []live
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "n"); i < n; i++ {
			_, tr := col.NewTrace(bg, rapid.SampledFrom(cats).Draw(rt, "cat"))
			l := live{tr: tr}
			for j, m := 0, rapid.IntRange(0, 4).Draw(rt, "m"); j < m; j++ {
				c := genCall().Draw(rt, "call")
				c.apply(tr)
				l.want = append(l.want, wantEvent{c.text(), c.iserr})
			}
			if rapid.Bool().Draw(rt, "fin") {
				tr.Finish()
			}
			traces = append(traces, l)
		}
		req := &trc.SearchRequest{Limit: rapid.IntRange(1, 15).Draw(rt, "limit"), StackDepth: rapid.SampledFrom([]int{0, -1, 1, 2}).Draw(rt, "depth")}
		switch rapid.IntRange(0, 5).Draw(rt, "kind") {
		case 1:
			req.Filter.Category = "a"
		case 2:
			req.Filter.IsActive = true
		case 3:
			req.Filter.IsFinished = true
		case 4:
			req.Filter.IsErrored = true
		case 5:
			req.Filter.Query = rapid.SampledFrom([]string{"foo", "a", "verifharness", "testing"}).Draw(rt, "q")
		}
		k.notef("%d traces, %s", len(traces), showRequest(req))
		k.interesting(len(traces) >= 3)
		t0 := time.Now()
		res, err := col.Search(bg, copyRequest(req))
		t1 := time.Now()
		if err != nil {
			rt.Fatalf("search: %v", err)
		}
		i := 0
		for j := len(traces) - 1; j >= 0 && i < req.Limit; j-- {
			l := traces[j]
			if !modelAllow(req.Filter, l.tr) {
				continue
			}
			if i >= len(res.Traces) || res.Traces[i].TraceID != l.tr.ID() {
				rt.Fatalf("%s: result %d of %d isn't trace %s", showRequest(req), i, len(res.Traces), l.tr.ID())
			}
			st := res.Traces[i]
			if err := eventsMatch(st.TraceEvents, l.want); err != nil {
				rt.Fatalf("result %d: %v", i, err)
			}
			for e, ev := range st.TraceEvents {
				full := l.tr.Events()[e].Stack
				want := len(full)
				switch {
				case req.StackDepth < 0:
					want = 0
				case req.StackDepth > 0:
					want = min(want, req.StackDepth)
				}
				if len(ev.Stack) != want || (want > 0 && !reflect.DeepEqual(ev.Stack, full[:want])) {
					rt.Fatalf("result %d, event %d, depth %d: stack %v, of %v", i, e, req.StackDepth, ev.Stack, full)
				}
			}
			if st.TraceFinished != l.tr.Finished() || st.TraceErrored != l.tr.Errored() || st.TraceSource != "real" || st.TraceCategory != l.tr.Category() || !st.TraceStarted.Equal(l.tr.Started()) {
				rt.Fatalf("result %d: %+v doesn't match its trace", i, st)
			}
			if st.TraceFinished && st.TraceDuration != l.tr.Duration() {
				rt.Fatalf("result %d: duration %s, want %s", i, st.TraceDuration, l.tr.Duration())
			}
			if lo, hi := t0.Sub(l.tr.Started()), t1.Sub(l.tr.Started()); !st.TraceFinished && (st.TraceDuration < lo || st.TraceDuration > hi) {
				rt.Fatalf("result %d: duration of active trace %s isn't in [%s, %s]", i, st.TraceDuration, lo, hi)
			}
			i++
		}
		if i != len(res.Traces) {
			rt.Fatalf("%s: %d results, want %d", showRequest(req), len(res.Traces), i)
		}
		if res.TotalCount != len(traces) {
			rt.Fatalf("total %d, want %d", res.TotalCount, len(traces))
		}
	})

	check(t, "consistent-snapshots", "a trace is modified (event, error, finish) by its own methods being called at generated points while the library reads it; a result that's finished has every event and the final outcome, and a result with an error event is errored; non-trivial: a modification happens between two reads", 1500, func(rt *rapid.T, k *kase) {
		st, final := readWhileModified(rt, k, func(tr trc.Trace) *trc.StaticTrace { return trc.NewSearchTrace(tr) })
		if st.TraceFinished {
			if err := eventsEqual(stripStacks(st.TraceEvents), stripStacks(final.TraceEvents)); err != nil {
				rt.Fatalf("finished search trace differs from the trace: %v", err)
			}
		}
	})
}

func stripStacks(evs []trc.Event) []trc.Event {
	res := copyEvents(evs)
	for i := range res {
		res[i].Stack = nil
	}
	return res
}

// trickyTrace is modified at certain points while it's being read.
type trickyTrace struct {
	*fakeTrace
	reads   int
	script  map[int][]int // read index: operations
	applied int
}

func (tr *trickyTrace) step() {
	for _, op := range tr.script[tr.reads] {
		if tr.fakeTrace.finished {
			continue
		}
		tr.applied++
		switch op {
		case 0:
			tr.fakeTrace.Tracef("mid %d", tr.reads)
		case 1:
			tr.fakeTrace.Errorf("mid error %d", tr.reads)
		case 2:
			tr.fakeTrace.mtx.Lock()
			tr.fakeTrace.duration += time.Second
			tr.fakeTrace.mtx.Unlock()
			tr.fakeTrace.Finish()
		}
	}
	tr.reads++
}

func (tr *trickyTrace) ID() string              { tr.step(); return tr.fakeTrace.ID() }
func (tr *trickyTrace) Source() string          { tr.step(); return tr.fakeTrace.Source() }
func (tr *trickyTrace) Category() string        { tr.step(); return tr.fakeTrace.Category() }
func (tr *trickyTrace) Started() time.Time      { tr.step(); return tr.fakeTrace.Started() }
func (tr *trickyTrace) Duration() time.Duration { tr.step(); return tr.fakeTrace.Duration() }
func (tr *trickyTrace) Finished() bool          { tr.step(); return tr.fakeTrace.Finished() }
func (tr *trickyTrace) Errored() bool           { tr.step(); return tr.fakeTrace.Errored() }
func (tr *trickyTrace) Events() []trc.Event     { tr.step(); return tr.fakeTrace.Events() }

type trickyDetailTrace struct{ *trickyTrace }

func (tr *trickyDetailTrace) EventsDetail(n int, stacks bool) []trc.Event {
	evs := tr.Events()
	if n > 0 && n < len(evs) {
		evs = evs[len(evs)-n:]
	}
	return evs
}

func readWhileModified(rt *rapid.T, k *kase, read func(trc.Trace) *trc.StaticTrace) (st, final *trc.StaticTrace) {
	ft := &fakeTrace{id: "id", source: "src", category: "cat", started: baseTime, duration: time.Second}
	for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "n"); i < n; i++ {
		ft.Tracef("before %d", i)
	}
	tt := &trickyTrace{fakeTrace: ft, script: map[int][]int{}}
	for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "mods"); i < n; i++ {
		at := rapid.IntRange(0, 9).Draw(rt, "at")
		op := rapid.SampledFrom([]int{0, 1, 2, 2}).Draw(rt, "op")
		tt.script[at] = append(tt.script[at], op)
		k.notef("at %d op %d", at, op)
	}
	detail := rapid.Bool().Draw(rt, "detail")
	if detail {
		st = read(&trickyDetailTrace{tt})
	} else {
		st = read(tt)
	}
	k.notef("detail=%v", detail)
	k.interesting(tt.applied > 0)
	k.label(st.TraceFinished, "result is finished")
	final = modelStatic(ft, 0)
	for _, ev := range st.TraceEvents {
		if ev.IsError && !st.TraceErrored {
			rt.Fatalf("result has an error event, but isn't errored")
		}
	}
	if st.TraceFinished {
		if !final.TraceFinished {
			rt.Fatalf("result is finished, but the trace isn't")
		}
		if st.TraceErrored != final.TraceErrored {
			rt.Fatalf("finished result has errored %v, the trace has %v", st.TraceErrored, final.TraceErrored)
		}
		if st.TraceDuration != final.TraceDuration {
			rt.Fatalf("finished result has duration %s, the trace has %s", st.TraceDuration, final.TraceDuration)
		}
	}
	return st, final
}

// ---- C09 ------------------------------------------------------------------

func TestC09(t *testing.T) {
	check(t, "long", "queries for a text in one of up to 10000 events, at any position of up to 5000 bytes; non-trivial: at least 100 events", 25, verifyLongQuery)

	check(t, "allow", "generated filters against generated traces, in plain, core, decorated and recycled form, used with and without Normalize, and via JSON; Allow is the conjunction of the conditions in a reference model; non-trivial: the filter has at least 2 conditions, or a query", 8000, func(rt *rapid.T, k *kase) {
		st := genStatic().Draw(rt, "trace")
		pools := filterPools{sources: []string{st.TraceSource}, ids: []string{st.TraceID}, cats: []string{st.TraceCategory}}
		f := genFilter(pools, true).Draw(rt, "filter")
		if rapid.IntRange(0, 3).Draw(rt, "exactmin") == 0 {
			d := st.TraceDuration + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "delta"))
			f.MinDuration = &d
		}
		if f.Query != "" && len(st.TraceEvents) > 0 && rapid.IntRange(0, 2).Draw(rt, "target") == 0 {
			ev := st.TraceEvents[rapid.IntRange(0, len(st.TraceEvents)-1).Draw(rt, "ev")]
			targets := []string{ev.What}
			for _, fr := range ev.Stack {
				targets = append(targets, fr.Function, modelCompact(fr))
			}
			if s := rapid.SampledFrom(targets).Draw(rt, "tgt"); s != "" {
				f.Query = "^" + quoteMeta(s) + "$"
			}
		}
		k.notef("%s on %+v", showFilter(f), *st)
		var tr trc.Trace = st
		if rapid.IntRange(0, 3).Draw(rt, "wrap") == 0 {
			tr = trc.LogDecorator(io.Discard)(&fakeTrace{id: st.TraceID, source: st.TraceSource, category: st.TraceCategory, started: st.TraceStarted, duration: st.TraceDuration, finished: st.TraceFinished, errored: st.TraceErrored, events: st.TraceEvents})
		}
		original := copyStatic(st)
		want := modelAllow(f, st)
		k.label(want, "allowed")
		n := 0
		for _, b := range []bool{len(f.Sources) > 0, len(f.IDs) > 0, f.Category != "", f.IsActive, f.IsFinished, f.IsSuccess, f.IsErrored, f.MinDuration != nil} {
			if b {
				n++
			}
		}
		k.interesting(n >= 2 || f.Query != "")

		fresh := copyFilter(f)
		if have := fresh.Allow(tr); have != want {
			rt.Fatalf("filter %s: Allow: have %v, want %v", showFilter(f), have, want)
		}
		if have := fresh.Allow(tr); have != want {
			rt.Fatalf("filter %s: second Allow: have %v, want %v", showFilter(f), have, want)
		}
		norm := copyFilter(f)
		errs := norm.Normalize()
		wantErrs := 0
		wantNorm := copyFilter(f)
		if !validRegexp(f.Query) {
			wantErrs = 1
			wantNorm.Query = ""
		}
		if len(errs) != wantErrs {
			rt.Fatalf("filter %s: Normalize: errors %v, want %d", showFilter(f), errs, wantErrs)
		}
		if err := filterEqual(norm, wantNorm); err != nil {
			rt.Fatalf("filter %s: after Normalize: %v", showFilter(f), err)
		}
		if have := norm.Allow(tr); have != want {
			rt.Fatalf("filter %s: Allow after Normalize: have %v, want %v", showFilter(f), have, want)
		}
		if errs := norm.Normalize(); len(errs) != 0 {
			rt.Fatalf("filter %s: second Normalize: %v", showFilter(f), errs)
		}
		copied := norm
		if have := copied.Allow(tr); have != want {
			rt.Fatalf("filter %s: Allow of a copy: have %v, want %v", showFilter(f), have, want)
		}
		buf, err := json.Marshal(f)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		var decoded trc.Filter
		if err := json.Unmarshal(buf, &decoded); err != nil {
			rt.Fatalf("unmarshal: %v", err)
		}
		if err := filterEqual(f, decoded); err != nil {
			rt.Fatalf("JSON round trip: %v", err)
		}
		if have := decoded.Allow(tr); have != want {
			rt.Fatalf("filter %s: Allow after JSON: have %v, want %v", showFilter(f), have, want)
		}
		if err := staticEqual(original, st); err != nil {
			rt.Fatalf("Allow modified the trace: %v", err)
		}
	})

	check(t, "reuse", "one filter value is used repeatedly, with its fields changed in between; its verdict depends only on its current fields; non-trivial: the query is changed after it was used", 3000, func(rt *rapid.T, k *kase) {
		sts := rapid.SliceOfN(genStatic(), 1, 3).Draw(rt, "traces")
		var f trc.Filter
		used := ""
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "n"); i < n; i++ {
			st := rapid.SampledFrom(sts).Draw(rt, "trace")
			next := genFilter(filterPools{ids: []string{st.TraceID}, sources: []string{st.TraceSource}, cats: []string{st.TraceCategory}}, true).Draw(rt, "filter")
			f.Sources, f.IDs, f.Category, f.IsActive, f.IsFinished, f.MinDuration, f.IsSuccess, f.IsErrored, f.Query = next.Sources, next.IDs, next.Category, next.IsActive, next.IsFinished, next.MinDuration, next.IsSuccess, next.IsErrored, next.Query
			k.interesting(used != "" && f.Query != used)
			if rapid.Bool().Draw(rt, "normalize") {
				f.Normalize()
			}
			k.notef("%s", showFilter(next))
			if have, want := f.Allow(st), modelAllow(next, st); have != want {
				rt.Fatalf("use %d: filter %s (previous query %q): Allow: have %v, want %v", i, showFilter(next), used, have, want)
			}
			used = f.Query
		}
	})

	check(t, "string", "the operator-readable form of generated filters names every condition with its value, and nothing else; non-trivial: at least 2 conditions", 2000, func(rt *rapid.T, k *kase) {
		f := genFilter(filterPools{}, true).Draw(rt, "filter")
		s := f.String()
		k.notef("%s -> %q", showFilter(f), s)
		n := 0
		expect := func(cond bool, name string, vals ...string) {
			if !cond {
				return
			}
			n++
			for _, v := range append(vals, name) {
				if !strings.Contains(s, v) {
					rt.Fatalf("filter %s: String %q doesn't contain %q", showFilter(f), s, v)
				}
			}
		}
		expect(len(f.Sources) > 0, "Sources", fmt.Sprint(f.Sources))
		expect(len(f.IDs) > 0, "IDs", fmt.Sprint(f.IDs))
		expect(f.Category != "", "Category", f.Category)
		expect(f.IsActive, "IsActive")
		expect(f.IsFinished, "IsFinished")
		expect(f.IsSuccess, "IsSuccess")
		expect(f.IsErrored, "IsErrored")
		expect(f.MinDuration != nil, "MinDuration", fmt.Sprint(deref(f.MinDuration)))
		expect(f.Query != "", "Query", f.Query)
		if n == 0 && s != "(allow all)" {
			rt.Fatalf("empty filter: String %q", s)
		}
		k.interesting(n >= 2)
	})
}

func deref(d *time.Duration) time.Duration {
	if d == nil {
		return 0
	}
	return *d
}

// ---- C10 ------------------------------------------------------------------

func verifyLongQuery(rt *rapid.T, k *kase) {
	defer trc.SetTraceMaxEvents(1000)
	trc.SetTraceMaxEvents(10000)
	n := rapid.SampledFrom([]int{10000, 1001, 1000, 999, 500, 100, 64, 33, 10, 2}).Draw(rt, "events")
	target := n - 1 - rapid.IntRange(0, n-1).Draw(rt, "index")
	length := rapid.SampledFrom([]int{0, 100, 1000, 5000}).Draw(rt, "length")
	if n > 2000 {
		length = 0
	}
	where := rapid.IntRange(0, length).Draw(rt, "position")
	_, tr := trc.New(bg, "src", "cat")
	for i := 0; i < n; i++ {
		switch {
		case i == target && i%2 == 0:
			tr.LazyTracef("%s%s%s", strings.Repeat("x", where), "needle", strings.Repeat("y", length-where))
		case i == target:
			tr.Errorf("%s%s%s", strings.Repeat("x", where), "needle", strings.Repeat("y", length-where))
		default:
			tr.Tracef("%d", i)
		}
	}
	finished := rapid.Bool().Draw(rt, "finished")
	if finished {
		tr.Finish()
	}
	k.notef("needle is event %d of %d, at %d of %d", target, n, where, length)
	k.interesting(n >= 100)
	for q, want := range map[string]bool{"needle": true, "needly": false, "^x*needley*$": true, "needle$": where == length} {
		f := trc.Filter{Query: q}
		if have := f.Allow(tr); have != want {
			rt.Fatalf("query %q: Allow: have %v, want %v", q, have, want)
		}
		f.IsActive = !finished
		f.IsFinished = finished
		if have := f.Allow(tr); have != want {
			rt.Fatalf("query %q, and finished %v: Allow: have %v, want %v", q, finished, have, want)
		}
	}
}

func TestC10(t *testing.T) {
	check(t, "normalize", "generated requests, incl. unsorted, duplicate, negative, missing and many buckets, all limits, and invalid queries; compared with a reference normalization; idempotent, also after JSON; the default bucketing is never modified; non-trivial: custom bucketing or an out of range limit", 5000, func(rt *rapid.T, k *kase) {
		req := genRequest(filterPools{}, true).Draw(rt, "req")
		norm, problems := modelNormalize(req)
		k.notef("%s", showRequest(req))
		k.interesting(len(req.Bucketing) > 0 || req.Limit <= 0 || req.Limit > 250)
		k.label(len(req.Bucketing) > 12, "many buckets")
		have := copyRequest(req)
		if len(req.Bucketing) == 0 {
			have.Bucketing = nil
		}
		errs := have.Normalize()
		if err := requestEqual(have, norm); err != nil {
			rt.Fatalf("request %s: have %s, want %s: %v", showRequest(req), showRequest(have), showRequest(norm), err)
		}
		if len(errs) != problems {
			rt.Fatalf("request %s: errors %v, want %d", showRequest(req), errs, problems)
		}
		again := copyRequest(have)
		if errs := have.Normalize(); len(errs) != 0 {
			rt.Fatalf("request %s: second Normalize: errors %v", showRequest(req), errs)
		}
		if err := requestEqual(have, again); err != nil {
			rt.Fatalf("request %s: second Normalize: %v", showRequest(req), err)
		}
		buf, err := json.Marshal(have)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		var decoded trc.SearchRequest
		if err := json.Unmarshal(buf, &decoded); err != nil {
			rt.Fatalf("unmarshal: %v", err)
		}
		if errs := decoded.Normalize(); len(errs) != 0 {
			rt.Fatalf("request %s: Normalize after JSON: errors %v", showRequest(req), errs)
		}
		if err := requestEqual(&decoded, again); err != nil {
			rt.Fatalf("request %s: Normalize after JSON: %v", showRequest(req), err)
		}
		if !reflect.DeepEqual(trc.DefaultBucketing, originalDefaultBucketing) {
			rt.Fatalf("request %s: default bucketing became %v", showRequest(req), trc.DefaultBucketing)
		}
		if s := have.String(); s == "" {
			rt.Fatalf("empty string representation")
		}
	})

	check(t, "via-search", "generated requests given to a collector; the response's request and stats use the normalized form, and the problem is reported; non-trivial: custom bucketing, limit, or invalid query", 1500, func(rt *rapid.T, k *kase) {
		w := genWorld(rt, worldConfig{source: "s", minN: 0, maxN: 6, cats: []string{"a", "b"}, plain: true})
		req := genRequest(w.pools, true).Draw(rt, "req")
		norm, problems := modelNormalize(req)
		k.notef("%s", showRequest(req))
		k.interesting(len(req.Bucketing) > 0 || req.Limit <= 0 || req.Limit > 250 || problems > 0)
		var s trc.Searcher = w.col
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 1:
			s = trc.MultiSearcher{w.col}
		case 2:
			s = trc.MultiSearcher{trcweb.NewSearchClient(directClient{trcweb.NewTraceServer(w.col)}, "http://x")}
		}
		res, err := s.Search(bg, req)
		verifySearch(rt, "search", res, err, w.model.search(norm), norm, problems, []string{"s"})
		if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, w.retained())); err != nil {
			rt.Fatalf("request %s: stats: %v", showRequest(req), err)
		}
		if !reflect.DeepEqual(trc.DefaultBucketing, originalDefaultBucketing) {
			rt.Fatalf("request %s: default bucketing became %v", showRequest(req), trc.DefaultBucketing)
		}
	})
}

// directClient is an HTTP client that directly calls a handler.
type directClient struct{ http.Handler }

func (dc directClient) Do(r *http.Request) (*http.Response, error) {
	rec := httptest.NewRecorder()
	if r.Body == nil {
		r.Body = http.NoBody
	}
	dc.ServeHTTP(rec, r)
	return rec.Result(), nil
}

// ---- C11 ------------------------------------------------------------------

func rateBounds(n int, oldest, t0, t1 time.Time) (lo, hi float64) {
	if n == 0 {
		return 0, 0
	}
	d0, d1 := t0.Sub(oldest).Seconds(), t1.Sub(oldest).Seconds()
	if d0 <= 0 {
		return 0, math.Inf(1)
	}
	return float64(n) / d1 * (1 - 1e-9), float64(n) / d0 * (1 + 1e-9)
}

func TestC11(t *testing.T) {
	check(t, "observe", "generated traces with durations on, just below and just above bucket boundaries are observed, directly or by a search with an unrelated filter and limit, and compared with a reference model, incl. rates and overall; non-trivial: at least 2 categories and a finished trace", 2000, func(rt *rapid.T, k *kase) {
		norm, _ := modelNormalize(&trc.SearchRequest{Bucketing: genBucketing().Draw(rt, "bucketing")})
		bucketing := norm.Bucketing
		clock := &worldClock{now: rapid.SampledFrom([]time.Time{baseTime, time.Now().UTC().Add(-10 * time.Second)}).Draw(rt, "base"), prefix: "M"}
		w := genWorld(rt, worldConfig{source: "src", minN: 0, maxN: 20, cats: genCats(rt), plain: rapid.Bool().Draw(rt, "plain"), clock: clock})
		for _, ft := range w.all {
			if rapid.IntRange(0, 2).Draw(rt, "edge") == 0 {
				b := rapid.SampledFrom(bucketing).Draw(rt, "bucket")
				if d := b + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "delta")); d >= 0 {
					ft.duration = d
				}
			}
		}
		want := modelStats(bucketing, w.retained())
		var have *trc.SearchStats
		if rapid.Bool().Draw(rt, "direct") {
			have = trc.NewSearchStats(bucketing)
			order := rapid.Permutation(w.retained()).Draw(rt, "order")
			if cut := rapid.IntRange(0, len(order)).Draw(rt, "cut"); true {
				have.Observe(order[:cut]...)
				for _, tr := range order[cut:] {
					have.Observe(tr)
				}
			}
		} else {
			req := genRequest(w.pools, false).Draw(rt, "req")
			req.Bucketing = append([]time.Duration(nil), bucketing...)
			res, err := w.col.Search(bg, req)
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			if res.TotalCount != len(w.retained()) {
				rt.Fatalf("total count %d, want %d", res.TotalCount, len(w.retained()))
			}
			have = res.Stats
		}
		k.notef("%v %d traces %s", bucketing, len(w.all), describeWorld(w))
		for _, mc := range want {
			k.interesting(len(want) >= 2 && mc.buckets[0] > 0)
		}
		if rapid.Bool().Draw(rt, "rates-first") {
			verifyRates(rt, have, want)
		}
		if err := statsMatch(have, bucketing, want); err != nil {
			rt.Fatalf("%v: %v", bucketing, err)
		}
		verifyRates(rt, have, want)
		if err := statsMatch(have, bucketing, want); err != nil {
			rt.Fatalf("after rates: %v: %v", bucketing, err)
		}
		if have.IsZero() {
			rt.Fatalf("stats with bucketing are zero")
		}
		for cat, cs := range have.Categories {
			if cs.IsZero() {
				rt.Fatalf("category stats of %q are zero", cat)
			}
		}
	})

	check(t, "large", "stats of hundreds to thousands of traces with pseudo-random status, durations and start times in up to 40 categories, some of them very uneven, are compared with the reference model; non-trivial: a category has at least 100 traces", 60, func(rt *rapid.T, k *kase) {
		norm, _ := modelNormalize(&trc.SearchRequest{Bucketing: genBucketing().Draw(rt, "bucketing")})
		n := rapid.IntRange(100, 3000).Draw(rt, "n")
		ncats := rapid.SampledFrom([]int{1, 2, 3, 12, 40}).Draw(rt, "cats")
		active, errored := rapid.IntRange(0, 100).Draw(rt, "active"), rapid.IntRange(0, 100).Draw(rt, "errored")
		rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed")))
		traces := make([]trc.Trace, n)
		for i := range traces {
			cat := rnd.Intn(ncats)
			if rnd.Intn(2) == 0 {
				cat = 0
			}
			ft := &fakeTrace{
				id:       fmt.Sprint("ID", i),
				source:   "src",
				category: fmt.Sprint("cat", cat),
				started:  baseTime.Add(time.Duration(rnd.Intn(1000)-500) * time.Second),
				duration: durationList[rnd.Intn(len(durationList))],
				finished: rnd.Intn(100) >= active,
				errored:  rnd.Intn(100) < errored,
			}
			ft.events = make([]trc.Event, rnd.Intn(5))
			if rnd.Intn(50) == 0 {
				ft.events = make([]trc.Event, rnd.Intn(1500))
			}
			traces[i] = ft
		}
		want := modelStats(norm.Bucketing, traces)
		k.notef("%d traces in %d categories, bucketing %v", n, len(want), norm.Bucketing)
		for _, mc := range want {
			k.interesting(mc.total() >= 100)
		}
		have := trc.NewSearchStats(norm.Bucketing)
		have.Observe(traces...)
		if err := statsMatch(have, norm.Bucketing, want); err != nil {
			rt.Fatalf("%v", err)
		}
		verifyRates(rt, have, want)
	})
}

func describeWorld(w *world) string {
	var sb strings.Builder
	for _, ft := range w.all {
		fmt.Fprintf(&sb, "[%s %q fin=%v err=%v %s ev=%d]", ft.id, ft.category, ft.finished, ft.errored, ft.duration, len(ft.events))
	}
	return sb.String()
}

// verifyRates checks trace and event rates, which must only be called before
// anything else has asked for a rate, or within a short time of that.
func verifyRates(rt *rapid.T, have *trc.SearchStats, want map[string]*modelCategory) {
	rt.Helper()
	t0 := time.Now().Add(-time.Minute) // rates may have been computed, and cached, a bit earlier
	var haves, haveEs []float64
	cats := sortedKeys(want)
	for _, cat := range cats {
		haves = append(haves, have.Categories[cat].TraceRate())
		haveEs = append(haveEs, have.Categories[cat].EventRate())
	}
	overall := have.Overall()
	oTrace, oEvent := overall.TraceRate(), overall.EventRate()
	t1 := time.Now()
	var sumT, sumE, loT, loE float64 // rates fall as time goes by
	for i, cat := range cats {
		if d := t1.Sub(want[cat].oldest); d > -time.Second && d < time.Second {
			return // except at first, as traces in the future have none
		}
		sumT, sumE = sumT+haves[i], sumE+haveEs[i]
		loT, loE = loT+have.Categories[cat].TraceRate(), loE+have.Categories[cat].EventRate()
	}
	for i, cat := range cats {
		mc := want[cat]
		start := t0
		if t0.Sub(mc.oldest) < time.Second { // recent, so can't tolerate much
			start = mc.oldest.Add(time.Second)
		}
		if mc.oldest.After(t1.Add(-time.Second)) {
			continue
		}
		lo, hi := rateBounds(mc.total(), mc.oldest, start, t1)
		if haves[i] < lo || haves[i] > hi {
			rt.Fatalf("category %q: trace rate %v, want [%v, %v]", cat, haves[i], lo, hi)
		}
		lo, hi = rateBounds(mc.events, mc.oldest, start, t1)
		if haveEs[i] < lo || haveEs[i] > hi {
			rt.Fatalf("category %q: event rate %v, want [%v, %v]", cat, haveEs[i], lo, hi)
		}
	}
	if sumT > 0 && (oTrace < loT*(1-1e-6) || oTrace > sumT*(1+1e-6)) {
		rt.Fatalf("overall trace rate %v isn't the sum [%v, %v]", oTrace, loT, sumT)
	}
	if sumE > 0 && (oEvent < loE*(1-1e-6) || oEvent > sumE*(1+1e-6)) {
		rt.Fatalf("overall event rate %v isn't the sum [%v, %v]", oEvent, loE, sumE)
	}
}

// ---- C12 ------------------------------------------------------------------

type statsCopy struct {
	bucketing []time.Duration
	cats      map[string]trc.CategoryStats
}

func copyStats(ss *trc.SearchStats) statsCopy {
	res := statsCopy{cats: map[string]trc.CategoryStats{}}
	res.bucketing = append(res.bucketing, ss.Bucketing...)
	for cat, cs := range ss.Categories {
		res.cats[cat] = trc.CategoryStats{Category: cs.Category, EventCount: cs.EventCount, ActiveCount: cs.ActiveCount, BucketCounts: append([]int{}, cs.BucketCounts...), ErroredCount: cs.ErroredCount, Oldest: cs.Oldest, Newest: cs.Newest}
	}
	return res
}

func genParts(rt *rapid.T, k *kase, bucketing []time.Duration) (all []trc.Trace, parts [][]trc.Trace) {
	n := rapid.IntRange(1, 5).Draw(rt, "parts")
	cats := genCats(rt)
	parts = make([][]trc.Trace, n)
	clock := &worldClock{now: baseTime, prefix: "M"}
	for i := range parts {
		w := genWorld(rt, worldConfig{source: fmt.Sprint("src", i), minN: 0, maxN: 6, cats: cats, plain: true, clock: clock})
		parts[i] = w.retained()
		all = append(all, parts[i]...)
		k.notef("part %s", describeWorld(w))
	}
	return all, parts
}

func TestC12(t *testing.T) {
	check(t, "union", "traces are split over several stats, optionally sent as JSON, and merged in a generated order and grouping, into empty, zero or populated stats; the result equals that of observing everything at once, and nothing that was merged is modified, then or by later merges; non-trivial: at least 2 parts share a category", 2500, func(rt *rapid.T, k *kase) {
		norm, _ := modelNormalize(&trc.SearchRequest{Bucketing: genBucketing().Draw(rt, "bucketing")})
		all, parts := genParts(rt, k, norm.Bucketing)
		want := modelStats(norm.Bucketing, all)
		nodes := make([]*trc.SearchStats, len(parts))
		seen := map[string]int{}
		for i := range parts {
			nodes[i] = trc.NewSearchStats(append([]time.Duration(nil), norm.Bucketing...))
			nodes[i].Observe(parts[i]...)
			for cat := range nodes[i].Categories {
				seen[cat]++
				k.interesting(seen[cat] >= 2)
			}
			if rapid.IntRange(0, 2).Draw(rt, "json") == 0 {
				buf, err := json.Marshal(nodes[i])
				if err != nil {
					rt.Fatalf("marshal: %v", err)
				}
				var decoded trc.SearchStats
				if err := json.Unmarshal(buf, &decoded); err != nil {
					rt.Fatalf("unmarshal: %v", err)
				}
				nodes[i] = &decoded
			}
		}
		type frozen struct {
			ss *trc.SearchStats
			cp statsCopy
		}
		var inputs []frozen
		merge := func(dst, src *trc.SearchStats) {
			if src != nil {
				inputs = append(inputs, frozen{src, copyStats(src)})
			}
			dst.Merge(src)
		}
		for len(nodes) > 1 {
			i := rapid.IntRange(0, len(nodes)-1).Draw(rt, "i")
			j := rapid.IntRange(0, len(nodes)-2).Draw(rt, "j")
			if j >= i {
				j++
			}
			a, b := nodes[i], nodes[j]
			var dst *trc.SearchStats
			how := rapid.IntRange(0, 3).Draw(rt, "how")
			k.notef("merge %d %d how %d", i, j, how)
			switch how {
			case 0, 1:
				dst = a
				merge(dst, b)
			case 2:
				dst = trc.NewSearchStats(norm.Bucketing)
				merge(dst, a)
				merge(dst, b)
			case 3:
				dst = &trc.SearchStats{}
				merge(dst, a)
				merge(dst, b)
			}
			if rapid.IntRange(0, 4).Draw(rt, "nop") == 0 {
				merge(dst, nil)
				merge(dst, &trc.SearchStats{})
				merge(dst, trc.NewSearchStats(norm.Bucketing))
			}
			var next []*trc.SearchStats
			for x, nd := range nodes {
				if x != i && x != j {
					next = append(next, nd)
				}
			}
			nodes = append(next, dst)
			// Something which is the destination of a merge is no longer frozen.
			var keep []frozen
			for _, in := range inputs {
				if in.ss != dst {
					keep = append(keep, in)
				}
			}
			inputs = keep
		}
		final := nodes[0]
		if err := statsMatch(final, norm.Bucketing, want); err != nil {
			rt.Fatalf("merged stats: %v", err)
		}
		for i, in := range inputs {
			if now := copyStats(in.ss); !reflect.DeepEqual(now, in.cp) {
				rt.Fatalf("stats %d were modified after being merged: %+v, had been %+v", i, now, in.cp)
			}
		}
		// The rate of a merged category is the sum of the rates of its parts.
		for cat := range want {
			var lo, hi, elo, ehi float64
			t1 := time.Now()
			t0 := t1.Add(-time.Minute)
			have, haveE := final.Categories[cat].TraceRate(), final.Categories[cat].EventRate()
			t1 = time.Now()
			for _, part := range parts {
				if mc := modelStats(norm.Bucketing, part)[cat]; mc != nil {
					l, h := rateBounds(mc.total(), mc.oldest, t0, t1)
					lo, hi = lo+l, hi+h
					l, h = rateBounds(mc.events, mc.oldest, t0, t1)
					elo, ehi = elo+l, ehi+h
				}
			}
			if have < lo*(1-1e-6) || have > hi*(1+1e-6) {
				rt.Fatalf("category %q: merged trace rate %v, want [%v, %v]", cat, have, lo, hi)
			}
			if haveE < elo*(1-1e-6) || haveE > ehi*(1+1e-6) {
				rt.Fatalf("category %q: merged event rate %v, want [%v, %v]", cat, haveE, elo, ehi)
			}
		}
	})

	check(t, "categories", "stats of single categories, of the same or different name, are merged in a generated order, into zero or populated category stats, with interleaved reads of the rates; the result is the sum, and categories that were merged in aren't modified, then or later; non-trivial: at least 2 categories are merged", 1500, func(rt *rapid.T, k *kase) {
		norm, _ := modelNormalize(&trc.SearchRequest{Bucketing: genBucketing().Draw(rt, "bucketing")})
		_, parts := genParts(rt, k, norm.Bucketing)
		var (
			cats  []*trc.CategoryStats
			mcats = map[string]*modelCategory{}
		)
		for i, part := range parts {
			ss := trc.NewSearchStats(norm.Bucketing)
			ss.Observe(part...)
			ms := modelStats(norm.Bucketing, part)
			for _, cat := range sortedKeys(ss.Categories) {
				cats = append(cats, ss.Categories[cat])
				mcats[fmt.Sprint(i, cat)] = ms[cat]
			}
		}
		k.interesting(len(cats) >= 2)
		cats = rapid.Permutation(cats).Draw(rt, "order")
		dst := &trc.CategoryStats{}
		if !dst.IsZero() {
			rt.Fatalf("zero value isn't zero")
		}
		switch {
		case len(cats) > 0 && rapid.Bool().Draw(rt, "populated"):
			dst, cats = cats[0], cats[1:]
		case rapid.Bool().Draw(rt, "named"):
			dst = trc.NewCategoryStats("named", norm.Bucketing)
		}
		name := dst.Category
		var copies []trc.CategoryStats
		cp := func(cs *trc.CategoryStats) trc.CategoryStats {
			return copyStats(&trc.SearchStats{Categories: map[string]*trc.CategoryStats{"": cs}}).cats[""]
		}
		var tr, er float64
		rates := rapid.Bool().Draw(rt, "rates")
		start := cp(dst)
		if rates {
			tr, er = dst.TraceRate(), dst.EventRate()
		}
		for _, cs := range cats {
			if rates {
				tr, er = tr+cs.TraceRate(), er+cs.EventRate()
			}
			copies = append(copies, cp(cs))
			dst.Merge(cs)
			if rapid.IntRange(0, 3).Draw(rt, "nop") == 0 {
				dst.Merge(&trc.CategoryStats{})
			}
		}
		if want := modelOverall(norm.Bucketing, mcats); len(mcats) > 0 {
			if err := categoryMatches(dst, want); err != nil {
				rt.Fatalf("merged category: %v", err)
			}
			if name != "" && dst.Category != name {
				rt.Fatalf("category %q is named %q after a merge", name, dst.Category)
			}
		} else if !dst.IsZero() && name == "" {
			rt.Fatalf("merging nothing gives %+v", dst)
		}
		for i, cs := range cats {
			if now := cp(cs); !reflect.DeepEqual(now, copies[i]) {
				rt.Fatalf("category stats %d were modified by a merge: %+v, had been %+v", i, now, copies[i])
			}
		}
		if rates {
			// Rates fall as time goes by.
			have, haveE := dst.TraceRate(), dst.EventRate()
			lo, elo := start.TraceRate(), start.EventRate()
			for _, cs := range cats {
				if d := time.Since(cs.Oldest); d > -time.Second && d < time.Second {
					return // traces in the future have no rate, so theirs doesn't fall
				}
				fresh := cp(cs)
				lo, elo = lo+fresh.TraceRate(), elo+fresh.EventRate()
			}
			if have < lo*(1-1e-6) || have > tr*(1+1e-6) {
				rt.Fatalf("trace rate %v, want [%v, %v]", have, lo, tr)
			}
			if haveE < elo*(1-1e-6) || haveE > er*(1+1e-6) {
				rt.Fatalf("event rate %v, want [%v, %v]", haveE, elo, er)
			}
		}
	})
}

// ---- C13 ------------------------------------------------------------------

type stubSearcher func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error)

func (s stubSearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return s(ctx, req)
}

func TestC13(t *testing.T) {
	check(t, "union", "several searchers (collectors, nested multi searchers, remote servers, failing ones, ones that return partial results) behind a MultiSearcher, compared with the union of their reference results; responses of the individual searchers stay unmodified; non-trivial: at least 2 working searchers with traces", 700, func(rt *rapid.T, k *kase) {
		clock := &worldClock{now: baseTime, prefix: "M"}
		cats := genCats(rt)
		var (
			worlds    []*world
			ms        trc.MultiSearcher
			wantProbs []string // substrings
			pools     filterPools
			retained  []trc.Trace
			sources   = map[string]bool{}
			responses = map[*trc.SearchResponse]*responseCopy{}
			depth     int
		)
		remember := func(s trc.Searcher) trc.Searcher {
			return stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				return s.Search(ctx, req)
			})
		}
		serial := 0
		n := rapid.IntRange(0, 5).Draw(rt, "n")
		if sometimes(rt, "many") {
			n = rapid.OneOf(rapid.IntRange(6, 40), rapid.IntRange(6, 40), rapid.IntRange(65, 140)).Draw(rt, "n")
			k.label(true, "many searchers")
		}
		var gen func() (trc.Searcher, []*world)
		gen = func() (trc.Searcher, []*world) {
			serial++
			kind := rapid.IntRange(0, 8).Draw(rt, "kind")
			k.notef("searcher %d", kind)
			switch {
			case kind == 4:
				msg := fmt.Sprintf("failure %03d.", serial)
				if rapid.Bool().Draw(rt, "common") {
					msg = "connection refused" // each of them is a problem
				}
				wantProbs = append(wantProbs, msg)
				return stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return nil, errors.New(msg) }), nil
			case kind == 5:
				wantProbs = append(wantProbs, "")
				return stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) { return nil, nil }), nil
			case kind == 6 && depth == 0:
				depth++
				var nested trc.MultiSearcher
				var ws []*world
				for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "nested"); i < n; i++ {
					s, w := gen()
					nested, ws = append(nested, s), append(ws, w...)
				}
				depth--
				return nested, ws
			}
			maxN := 8
			if n > 5 {
				maxN = 2
			}
			w := genWorld(rt, worldConfig{source: rapid.SampledFrom([]string{"s1", "s2", "s3", "日本", "z&y", "default", " s1", "S1"}).Draw(rt, "source"), minN: 0, maxN: maxN, cats: cats, clock: clock, maxEvents: 2})
			k.notef("%s", describeWorld(w))
			worlds = append(worlds, w)
			pools.ids = append(pools.ids, w.pools.ids...)
			pools.sources = append(pools.sources, w.pools.sources...)
			retained = append(retained, w.retained()...)
			sources[w.model.source] = true
			switch kind {
			case 7:
				msg := fmt.Sprintf("partial %03d.", serial)
				wantProbs = append(wantProbs, msg)
				return stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
					res, _ := w.col.Search(ctx, req)
					return res, errors.New(msg)
				}), []*world{w}
			case 8:
				return trcweb.NewSearchClient(directClient{trcweb.NewTraceServer(w.col)}, "http://x"), []*world{w}
			case 3:
				msg := fmt.Sprintf("problem %03d.", serial)
				wantProbs = append(wantProbs, msg)
				extra := genName().Draw(rt, "extra")
				sources[extra] = true
				return stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
					res, err := w.col.Search(ctx, req)
					res.Sources = append(res.Sources, extra)
					res.Problems = append(res.Problems, msg)
					return res, err
				}), []*world{w}
			}
			return w.col, []*world{w}
		}
		working := 0
		for i := 0; i < n; i++ {
			s, ws := gen()
			if len(ws) > 0 && rapid.Bool().Draw(rt, "remember") {
				s = remember(s)
			}
			// Keep the response, to see if it's modified.
			s2 := s
			s = stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				res, err := s2.Search(ctx, req)
				if res != nil {
					statsMtx.Lock()
					responses[res] = copyResponse(res)
					statsMtx.Unlock()
				}
				return res, err
			})
			ms = append(ms, s)
			for _, w := range ws {
				if len(w.all) > 0 {
					working++
				}
			}
		}
		pools.cats = cats
		req := genRequest(pools, true).Draw(rt, "req")
		norm, problems := modelNormalize(req)
		k.notef("%s", showRequest(req))
		k.interesting(working >= 2)
		k.label(len(wantProbs) > 0, "failures")
		k.label(len(ms) == 0, "no searchers")

		var want modelResult
		// A nested searcher limits its own traces, which doesn't change the
		// result, but every searcher's match count is included.
		for _, w := range worlds {
			r := w.model.search(norm)
			want.total += r.total
			want.match += r.match
			want.traces = append(want.traces, r.traces...)
		}
		newestFirst(want.traces)
		if len(want.traces) > norm.Limit {
			want.traces = want.traces[:norm.Limit]
		}
		var (
			res *trc.SearchResponse
			err error
		)
		finishes(rt, "multi search", func() { res, err = ms.Search(bg, req) })
		verifySearch(rt, "multi search", res, err, want, norm, problems+len(wantProbs), sortedKeys(sources))
		have := append([]string(nil), res.Problems...)
		for _, p := range wantProbs {
			if p == "" {
				continue // any text will do
			}
			found := false
			for i := range have {
				if strings.Contains(have[i], p) {
					have = append(have[:i], have[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				rt.Fatalf("problem %q isn't reported in %q", p, res.Problems)
			}
		}
		if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, retained)); err != nil {
			rt.Fatalf("stats: %v", err)
		}
		for r, cp := range responses {
			if err := cp.unchanged(r); err != nil {
				rt.Fatalf("response of a searcher was modified: %v", err)
			}
		}
		// And it can be repeated, with the same result. If that's not possible
		// because the context is canceled, then that's reported.
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if rapid.IntRange(0, 3).Draw(rt, "canceled") == 0 {
			cancel()
		}
		res2, err := ms.Search(ctx, req)
		if ctx.Err() != nil && (err != nil || len(res2.Problems) > len(wantProbs)) {
			return
		}
		verifySearch(rt, "repeated multi search", res2, err, want, norm, len(wantProbs), sortedKeys(sources))
	})

	check(t, "slow", "searchers that respond in a generated order, some after others have been merged, or have failed; the result doesn't depend on the order; non-trivial: at least 2 searchers", 150, func(rt *rapid.T, k *kase) {
		clock := &worldClock{now: baseTime, prefix: "M"}
		n := rapid.IntRange(1, 5).Draw(rt, "n")
		order := rapid.Permutation(seq(n)).Draw(rt, "order")
		failures := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "failures")
		k.notef("order %v failures %d", order, failures)
		k.interesting(n >= 2)
		var (
			ms    trc.MultiSearcher
			want  modelResult
			all   []trc.Trace
			turns = make([]chan struct{}, n+1)
			srcs  []string
		)
		for i := range turns {
			turns[i] = make(chan struct{})
		}
		req := &trc.SearchRequest{Limit: rapid.IntRange(1, 12).Draw(rt, "limit")}
		norm, _ := modelNormalize(req)
		for i := 0; i < n; i++ {
			w := genWorld(rt, worldConfig{source: fmt.Sprint("s", i), minN: 0, maxN: 5, cats: []string{"a", "b"}, clock: clock, plain: true})
			k.notef("%s", describeWorld(w))
			r := w.model.search(norm)
			want.total += r.total
			want.match += r.match
			want.traces = append(want.traces, r.traces...)
			all = append(all, w.retained()...)
			srcs = append(srcs, w.model.source)
			pos := order[i]
			ms = append(ms, stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				<-turns[pos]
				defer close(turns[pos+1])
				if failures > 0 {
					time.Sleep(time.Millisecond)
				}
				if err := ctx.Err(); err != nil { // as would a remote searcher
					return nil, err
				}
				return w.col.Search(ctx, req)
			}))
		}
		for i := 0; i < failures; i++ {
			ms = append(ms, stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				return nil, errors.New("failure")
			}))
		}
		ms = rapid.Permutation(ms).Draw(rt, "ms")
		newestFirst(want.traces)
		if len(want.traces) > norm.Limit {
			want.traces = want.traces[:norm.Limit]
		}
		close(turns[0])
		var (
			res *trc.SearchResponse
			err error
		)
		finishes(rt, "multi search", func() { res, err = ms.Search(bg, req) })
		verifySearch(rt, "multi search", res, err, want, norm, failures, srcs)
		if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, all)); err != nil {
			rt.Fatalf("stats: %v", err)
		}
	})

	check(t, "shared", "searchers that keep their responses, and return the same ones to several multi searches and trace servers (HTML and JSON) at once; each result is the union of the responses, and those stay unmodified (also with the race detector); non-trivial: at least 2 responses with a common category", 60, func(rt *rapid.T, k *kase) {
		clock := &worldClock{now: baseTime, prefix: "M"}
		var (
			n    = rapid.IntRange(1, 4).Draw(rt, "n")
			ms   trc.MultiSearcher
			kept []*trc.SearchResponse
			cps  []*responseCopy
			all  []trc.Trace
			want modelResult
			srcs []string
			seen = map[string]int{}
		)
		req := trc.SearchRequest{Limit: rapid.IntRange(1, 12).Draw(rt, "limit")}
		norm, _ := modelNormalize(&req)
		for i := 0; i < n; i++ {
			w := genWorld(rt, worldConfig{source: fmt.Sprint("s", i), minN: 0, maxN: 5, cats: []string{"a", "b"}, clock: clock, plain: true})
			k.notef("%s", describeWorld(w))
			r := w.model.search(norm)
			want.total += r.total
			want.match += r.match
			want.traces = append(want.traces, r.traces...)
			all = append(all, w.retained()...)
			srcs = append(srcs, w.model.source)
			r0 := req
			res, err := w.col.Search(bg, &r0)
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			for cat := range res.Stats.Categories {
				seen[cat]++
			}
			kept, cps = append(kept, res), append(cps, copyResponse(res))
			ms = append(ms, stubSearcher(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
				return res, nil
			}))
		}
		k.interesting(seen["a"] >= 2 || seen["b"] >= 2)
		newestFirst(want.traces)
		if len(want.traces) > norm.Limit {
			want.traces = want.traces[:norm.Limit]
		}
		var wg sync.WaitGroup
		results := make([]*trc.SearchResponse, 3)
		errs := make([]error, len(results))
		pages := make([]*httptest.ResponseRecorder, 2)
		finishes(rt, "searches", func() {
			for i := range results {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					r0 := req
					results[i], errs[i] = ms.Search(bg, &r0)
				}(i)
			}
			for i := range pages {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					pages[i] = httptest.NewRecorder()
					r := httptest.NewRequest("GET", "/", nil)
					r.Header.Set("accept", []string{"text/html", "application/json"}[i])
					(&trcweb.TraceServer{Searcher: ms[0]}).ServeHTTP(pages[i], r)
				}(i)
			}
			wg.Wait()
		})
		for i, res := range results {
			verifySearch(rt, "multi search", res, errs[i], want, norm, 0, srcs)
			if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, all)); err != nil {
				rt.Fatalf("stats: %v", err)
			}
		}
		for _, page := range pages {
			if page.Code != 200 {
				rt.Fatalf("page: HTTP %d", page.Code)
			}
		}
		for i, res := range kept {
			if err := cps[i].unchanged(res); err != nil {
				rt.Fatalf("response %d was modified: %v", i, err)
			}
		}
	})
}

func seq(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i
	}
	return res
}

type responseCopy struct {
	sources, problems []string
	total, match      int
	traces            []*trc.StaticTrace
	stats             statsCopy
}

func copyResponse(res *trc.SearchResponse) *responseCopy {
	cp := &responseCopy{
		sources:  append([]string{}, res.Sources...),
		problems: append([]string{}, res.Problems...),
		total:    res.TotalCount,
		match:    res.MatchCount,
	}
	for _, st := range res.Traces {
		cp.traces = append(cp.traces, copyStatic(st))
	}
	if res.Stats != nil {
		cp.stats = copyStats(res.Stats)
	}
	return cp
}

func (cp *responseCopy) unchanged(res *trc.SearchResponse) error {
	now := copyResponse(res)
	if err := tracesEqual(now.traces, cp.traces); err != nil {
		return err
	}
	now.traces, cp.traces = nil, nil
	if !reflect.DeepEqual(now, cp) {
		return fmt.Errorf("%+v vs. %+v", now, cp)
	}
	return nil
}

// ---- C14 ------------------------------------------------------------------

func TestC14(t *testing.T) {
	remote := func(rt *rapid.T, k *kase, client trcweb.HTTPClient, uri string, w *world, s trc.Searcher, failures int, expectSources []string, retained []trc.Trace, model func(*trc.SearchRequest) modelResult) {
		req := genRequest(w.pools, true).Draw(rt, "req")
		if rapid.IntRange(0, 59).Draw(rt, "large") == 0 { // but below 1MB
			for i, n := 0, rapid.IntRange(1000, 20000).Draw(rt, "ids"); i < n; i++ {
				req.Filter.IDs = append(req.Filter.IDs, fmt.Sprintf("other-id-%06d", i))
			}
			k.label(true, "large request")
		}
		norm, problems := modelNormalize(req)
		problems += failures
		k.notef("%s %s", showRequest(req), describeWorld(w))
		want := model(norm)
		k.interesting(len(want.traces) > 0)
		k.label(problems > 0, "invalid query")

		local, err := s.Search(bg, copyRequest(req))
		verifySearch(rt, "local search", local, err, want, norm, problems, expectSources)

		sc := trcweb.NewSearchClient(client, uri)
		res, err := sc.Search(bg, copyRequest(req))
		verifySearch(rt, "remote search", res, err, want, norm, problems, expectSources)
		if err := statsMatch(res.Stats, norm.Bucketing, modelStats(norm.Bucketing, retained)); err != nil {
			rt.Fatalf("remote stats: %v", err)
		}
		lp, rp := append([]string(nil), local.Problems...), append([]string(nil), res.Problems...)
		sort.Strings(lp)
		sort.Strings(rp)
		if !reflect.DeepEqual(lp, rp) {
			rt.Fatalf("local problems %q, remote problems %q", lp, rp)
		}
	}

	check(t, "direct", "generated collectors with text of all kinds are searched directly and via a client and server (without a network), and both are compared with the reference search; non-trivial: at least one trace is returned", 900, func(rt *rapid.T, k *kase) {
		source := genName().Draw(rt, "source")
		if source == "" {
			source = "default"
		}
		w := genWorld(rt, worldConfig{source: source, minN: 0, maxN: 12, cats: genCats(rt)})
		uri := rapid.SampledFrom([]string{"http://host/path", "host/path", "https://host", "http:80/path", "httpd:8080/", "https.host/a?b=http://c", "http://httpd", "10.0.0.1:80"}).Draw(rt, "uri")
		url := uri
		if !strings.HasPrefix(url, "http://") && !strings.HasPrefix(url, "https://") {
			url = "http://" + url
		}
		client := clientFunc(func(r *http.Request) (*http.Response, error) {
			if r.URL.String() != url {
				return nil, fmt.Errorf("request to %s, want %s", r.URL, url)
			}
			return directClient{trcweb.NewTraceServer(w.col)}.Do(r)
		})
		remote(rt, k, client, uri, w, w.col, 0, []string{source}, w.retained(), w.model.search)
	})

	checkN(t, "large", "as direct, with responses of up to 30 MB; non-trivial: the response is over 1 MB", 15, 100, func(rt *rapid.T, k *kase) {
		const source = "src"
		w := genWorld(rt, worldConfig{source: source, minN: 20, maxN: 250, cats: []string{"a", "b", "c"}, plain: true})
		size := rapid.SampledFrom([]int{25, 1, 3, 6, 12}).Draw(rt, "MB") << 20
		per := size / len(w.all)
		for i, ft := range w.all {
			n := rapid.SampledFrom([]int{1, 10, 100}).Draw(rt, "events")
			for j := 0; j < n; j++ {
				ft.events = append(ft.events, trc.Event{When: ft.started, What: strings.Repeat(string(rune('a'+(i+j)%26)), per/n)})
			}
		}
		req := &trc.SearchRequest{Limit: 250}
		norm, _ := modelNormalize(req)
		want := w.model.search(norm)
		k.notef("%d traces, %d bytes each", len(w.all), per)
		k.interesting(true)
		sc := trcweb.NewSearchClient(directClient{trcweb.NewTraceServer(w.col)}, "http://host/path")
		res, err := sc.Search(bg, req)
		verifySearch(rt, "remote search", res, err, want, norm, 0, []string{source})
	})

	check(t, "network", "as direct, over a real HTTP connection, with servers in front of a collector, or of a multi searcher of other remote servers; non-trivial: at least one trace is returned", 120, func(rt *rapid.T, k *kase) {
		clock := &worldClock{now: baseTime, prefix: "M"}
		n := rapid.IntRange(1, 3).Draw(rt, "n")
		cats := genCats(rt)
		var (
			worlds []*world
			ms     trc.MultiSearcher
			srcs   []string
			all    []trc.Trace
			pools  filterPools
			close  []func()
		)
		defer func() {
			for _, f := range close {
				f()
			}
		}()
		serve := func(h http.Handler) *httptest.Server {
			srv := httptest.NewServer(h)
			close = append(close, func() { closeServer(srv) })
			return srv
		}
		client := &http.Client{Transport: &http.Transport{}}
		defer client.CloseIdleConnections()
		for i := 0; i < n; i++ {
			w := genWorld(rt, worldConfig{source: fmt.Sprint("src", i), minN: 0, maxN: 6, cats: cats, clock: clock, maxEvents: 2})
			worlds = append(worlds, w)
			srcs = append(srcs, w.model.source)
			all = append(all, w.retained()...)
			pools.ids = append(pools.ids, w.pools.ids...)
			ms = append(ms, trcweb.NewSearchClient(client, serve(trcweb.NewTraceServer(w.col)).URL))
		}
		failures := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "failures")
		for i := 0; i < failures; i++ {
			msg := fmt.Sprint("failure ", i)
			ms = append(ms, stubSearcher(func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
				return nil, errors.New(msg)
			}))
		}
		k.label(failures > 0, "failing searcher")
		pools.cats, pools.sources = cats, srcs
		w0 := &world{col: worlds[0].col, model: worlds[0].model, pools: pools}
		for _, w := range worlds {
			w0.all = append(w0.all, w.all...)
		}
		srv := serve(&trcweb.TraceServer{Collector: trc.NewDefaultCollector(), Searcher: ms})
		uri := srv.URL
		if rapid.Bool().Draw(rt, "noscheme") {
			uri = strings.TrimPrefix(uri, "http://")
		}
		remote(rt, k, client, uri, w0, ms, failures, srcs, all, func(norm *trc.SearchRequest) modelResult {
			var want modelResult
			for _, w := range worlds {
				r := w.model.search(norm)
				want.total += r.total
				want.match += r.match
				want.traces = append(want.traces, r.traces...)
			}
			newestFirst(want.traces)
			if len(want.traces) > norm.Limit {
				want.traces = want.traces[:norm.Limit]
			}
			return want
		})
	})

	check(t, "faults", "the server or connection fails in a generated way (status codes, truncated, empty or garbage bodies, JSON that isn't a search response, transport errors); the client returns an error, and a multi searcher reports it as a problem next to the results of the working searchers; non-trivial: always", 400, func(rt *rapid.T, k *kase) {
		w := genWorld(rt, worldConfig{source: "good", minN: 1, maxN: 4, cats: []string{"a"}, plain: true})
		good := trcweb.NewTraceServer(w.col)
		rec := httptest.NewRecorder()
		good.ServeHTTP(rec, httptest.NewRequest("GET", "/?json", nil))
		body := rec.Body.Bytes()
		kind := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(rt, "kind")
		k.interesting(true)
		var client trcweb.HTTPClient
		switch kind {
		case 0:
			code := rapid.SampledFrom([]int{201, 204, 301, 400, 401, 404, 500, 502, 503}).Draw(rt, "code")
			k.notef("code %d", code)
			client = directClient{http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { rw.WriteHeader(code); rw.Write(body) })}
		case 1:
			n := rapid.IntRange(0, len(body)-3).Draw(rt, "truncate")
			k.notef("truncated to %d", n)
			client = directClient{http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { rw.Write(body[:n]) })}
		case 2:
			k.notef("garbage")
			client = directClient{http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { io.WriteString(rw, "<html>not JSON</html>") })}
		case 3:
			k.notef("transport error")
			client = clientFunc(func(*http.Request) (*http.Response, error) { return nil, errors.New("connection refused") })
		case 4:
			n := rapid.IntRange(0, len(body)-3).Draw(rt, "break")
			k.notef("broken after %d", n)
			client = clientFunc(func(*http.Request) (*http.Response, error) {
				return &http.Response{StatusCode: 200, Body: io.NopCloser(io.MultiReader(strings.NewReader(string(body[:n])), errReader{}))}, nil
			})
		case 5:
			what := rapid.SampledFrom([]string{"null", "{}", `{"status":"ok"}`, `{"response":null}`, `{"response":{}}`, `{"error":"x"}`, "[]", "12",
				"trace", "category", "bucket", "stats", "counts"}).Draw(rt, "what")
			k.notef("JSON: %s", what)
			body := []byte(what)
			if !json.Valid(body) { // almost a response
				var data map[string]any
				if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil {
					rt.Fatalf("response: %v", err)
				}
				res := data["response"].(map[string]any)
				stats := res["stats"].(map[string]any)
				cats := stats["categories"].(map[string]any)
				switch what {
				case "trace":
					res["traces"] = append(res["traces"].([]any), nil)
				case "category":
					cats["b"] = nil
				case "bucket":
					stats["bucketing"] = append(stats["bucketing"].([]any), 1e12)
				case "stats":
					res["stats"] = nil
				case "counts":
					cats["a"].(map[string]any)["bucket_counts"] = []int{1}
				}
				body, _ = json.Marshal(data)
			}
			client = directClient{http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { rw.Write(body) })}
		}
		bad := trcweb.NewSearchClient(client, "http://bad")
		res, err := bad.Search(bg, &trc.SearchRequest{})
		if err == nil {
			rt.Fatalf("no error, response %+v", res)
		}
		ms := trc.MultiSearcher{bad, trcweb.NewSearchClient(directClient{good}, "http://good")}
		req := &trc.SearchRequest{}
		norm, _ := modelNormalize(req)
		res, err = ms.Search(bg, req)
		verifySearch(rt, "multi search", res, err, w.model.search(norm), norm, 1, []string{"good"})
		if !strings.Contains(res.Problems[0], bareError(bad)) {
			rt.Fatalf("problem %q isn't the error %q", res.Problems[0], bareError(bad))
		}
	})

	check(t, "mutated", "parts of a server's valid response are replaced with other JSON values, removed or repeated; the client returns an error, or a response that a multi searcher, a trace server (HTML and JSON) and another client can use without a panic or failure; non-trivial: the client returns no error", 160, func(rt *rapid.T, k *kase) {
		w := genWorld(rt, worldConfig{source: "good", minN: 1, maxN: 4, cats: []string{"a", "b"}, plain: true})
		rec := httptest.NewRecorder()
		trcweb.NewTraceServer(w.col).ServeHTTP(rec, httptest.NewRequest("GET", "/?json", nil))
		var data any
		if err := json.Unmarshal(rec.Body.Bytes(), &data); err != nil {
			rt.Fatalf("response: %v", err)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "n"); i < n; i++ {
			data = mutateJSON(rt, k, data, "")
		}
		body, err := json.Marshal(data)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		client := trcweb.NewSearchClient(directClient{http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { rw.Write(body) })}, "http://mutated")
		_, err = client.Search(bg, &trc.SearchRequest{})
		k.interesting(err == nil)
		ms := trc.MultiSearcher{client, w.col, client}
		res, err := ms.Search(bg, &trc.SearchRequest{})
		if err != nil || res == nil {
			rt.Fatalf("multi search: %+v, %v", res, err)
		}
		for _, s := range []trcweb.Searcher{client, ms} {
			srv := &trcweb.TraceServer{Searcher: s}
			for _, accept := range []string{"text/html", "application/json"} {
				rec := httptest.NewRecorder()
				r := httptest.NewRequest("GET", "/", nil)
				r.Header.Set("accept", accept)
				srv.ServeHTTP(rec, r)
				if rec.Code != 200 {
					rt.Fatalf("%s: HTTP %d %s", accept, rec.Code, rec.Body.String())
				}
			}
			if _, err := trcweb.NewSearchClient(directClient{srv}, "http://proxy").Search(bg, &trc.SearchRequest{}); err != nil {
				rt.Fatalf("via another server: %v", err)
			}
		}
	})
}

// mutateJSON changes a random part of a JSON value.
func mutateJSON(rt *rapid.T, k *kase, v any, path string) any {
	if rapid.IntRange(0, 9).Draw(rt, "here") > 0 {
		switch x := v.(type) {
		case map[string]any:
			if len(x) > 0 {
				key := rapid.SampledFrom(sortedKeys(x)).Draw(rt, "key")
				switch rapid.IntRange(0, 19).Draw(rt, "how") {
				case 1:
					k.notef("delete %s.%s", path, key)
					delete(x, key)
				case 2:
					other := rapid.SampledFrom(sortedKeys(x)).Draw(rt, "other")
					k.notef("copy %s.%s to %s", path, other, key)
					x[key] = x[other]
				default:
					x[key] = mutateJSON(rt, k, x[key], path+"."+key)
				}
				return x
			}
		case []any:
			if len(x) > 0 {
				i := rapid.IntRange(0, len(x)-1).Draw(rt, "index")
				switch rapid.IntRange(0, 9).Draw(rt, "how") {
				case 1:
					k.notef("delete %s[%d]", path, i)
					return append(append([]any{}, x[:i]...), x[i+1:]...)
				case 2:
					k.notef("repeat %s[%d]", path, i)
					return append(append([]any{}, x...), x[i])
				default:
					x[i] = mutateJSON(rt, k, x[i], fmt.Sprintf("%s[%d]", path, i))
				}
				return x
			}
		}
	}
	values := []any{nil, map[string]any{}, []any{}, "", "<b>", 0, -1, 1.5, 1 << 40, true, []any{nil}, map[string]any{"x": nil}, baseTime, time.Time{}}
	if _, isString := v.(string); isString {
		values = append(values, "other", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z")
	}
	if _, isNumber := v.(float64); isNumber {
		values = append(values, 3, int64(math.MaxInt64), int64(math.MinInt64))
	}
	res := rapid.SampledFrom(values).Draw(rt, "value")
	k.notef("%s = %v", path, res)
	return res
}

func bareError(s trc.Searcher) string {
	_, err := s.Search(bg, &trc.SearchRequest{})
	if err == nil {
		return "no error"
	}
	return err.Error()
}

type clientFunc func(*http.Request) (*http.Response, error)

func (f clientFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }
