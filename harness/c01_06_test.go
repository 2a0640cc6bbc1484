package harness

import (
	"context"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"pgregory.net/rapid"
)

// traceMaker produces a trace in one of the ways that users can get one.
type traceMaker struct {
	kind      string
	collector *trc.Collector // may be nil
	ctx       context.Context
	tr        trc.Trace
	cancel    func()
}

var makerKinds = []string{"core", "decorated", "collector", "collector+log", "collector+sub", "orphan", "put"}

func makeTrace(kind, source, category string) *traceMaker {
	m := &traceMaker{kind: kind, cancel: func() {}}
	ctx := context.Background()
	ident := func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} }
	switch kind {
	case "core":
		m.ctx, m.tr = trc.New(ctx, source, category)
	case "decorated":
		m.ctx, m.tr = trc.New(ctx, source, category, ident, trc.LogDecorator(io.Discard))
	case "collector":
		m.collector = trc.NewCollector(trc.CollectorConfig{Source: source})
		m.ctx, m.tr = m.collector.NewTrace(ctx, category)
	case "collector+log":
		m.collector = trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{trc.LogDecorator(io.Discard), ident}})
		m.ctx, m.tr = m.collector.NewTrace(ctx, category)
	case "collector+sub":
		m.collector = trc.NewCollector(trc.CollectorConfig{Source: source})
		ctx2, cancel := context.WithCancel(ctx)
		ch := make(chan trc.Trace) // everything dropped
		done := make(chan struct{})
		go func() { defer close(done); m.collector.Stream(ctx2, trc.Filter{}, ch) }()
		until := subscribedDeadline()
		for {
			if _, err := m.collector.StreamStats(ctx, ch); err == nil || until() {
				break
			}
			runtime.Gosched()
		}
		m.cancel = func() { cancel(); <-done }
		m.ctx, m.tr = m.collector.NewTrace(ctx, category)
	case "orphan":
		m.tr = trc.Get(ctx)
		m.ctx, m.tr = trc.Put(ctx, m.tr)
	case "put":
		_, tr := trc.New(ctx, source, category)
		m.ctx, _ = trc.Put(ctx, tr)
		m.tr = trc.Get(m.ctx)
	}
	return m
}

// ---- C01 ------------------------------------------------------------------

func TestC01(t *testing.T) {
	check(t, "sequence", "random sequence of Tracef/LazyTracef/Errorf/LazyErrorf calls with generated formats and args, interleaved with reads, on a trace made in one of seven ways; non-trivial: at least 2 events of which one is an error or lazy", 700, func(rt *rapid.T, k *kase) {
		kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		tr := m.tr
		k.notef("%s", kind)
		k.label(true, kind)

		var want []wantEvent
		var before, after []time.Time
		errored := false
		n := rapid.IntRange(0, 40).Draw(rt, "n")
		for i := 0; i < n; i++ {
			c := genCall().Draw(rt, "call")
			k.notef("%s", c)
			t0 := time.Now()
			c.apply(tr)
			t1 := time.Now()
			want = append(want, wantEvent{c.text(), c.iserr})
			before, after = append(before, t0), append(after, t1)
			errored = errored || c.iserr
			if rapid.IntRange(0, 5).Draw(rt, "read") == 0 {
				if err := eventsMatch(tr.Events(), want); err != nil {
					rt.Fatalf("after %d calls: %v", i+1, err)
				}
			}
			if tr.Errored() != errored {
				rt.Fatalf("after %s: Errored: have %v, want %v", c, tr.Errored(), errored)
			}
			k.interesting(len(want) >= 2 && (c.lazy || c.iserr))
		}
		if rapid.Bool().Draw(rt, "finish") {
			tr.Finish()
			k.label(true, "finished before the read")
		}
		for read := 0; read < 2; read++ {
			have := tr.Events()
			if err := eventsMatch(have, want); err != nil {
				rt.Fatalf("final read %d: %v", read, err)
			}
			for i, ev := range have {
				if ev.When.Before(before[i].Add(-time.Millisecond)) || ev.When.After(after[i].Add(time.Millisecond)) {
					rt.Fatalf("event %d: when %s isn't during the call [%s, %s]", i, ev.When, before[i], after[i])
				}
				if i > 0 && ev.When.Before(have[i-1].When) {
					rt.Fatalf("event %d is older than its predecessor", i)
				}
				if ev.When.Before(tr.Started()) {
					rt.Fatalf("event %d: %s is before the trace was started, %s", i, ev.When, tr.Started())
				}
			}
		}
		if m.collector != nil { // the same events are visible in a search
			res, err := m.collector.Search(context.Background(), &trc.SearchRequest{})
			if err != nil || len(res.Traces) != 1 {
				rt.Fatalf("search: %v, %+v", err, res)
			}
			if err := eventsMatch(res.Traces[0].TraceEvents, want); err != nil {
				rt.Fatalf("search: %v", err)
			}
			if res.Traces[0].TraceErrored != errored {
				rt.Fatalf("search: errored %v, want %v", res.Traces[0].TraceErrored, errored)
			}
		}
	})

	checkN(t, "long", "traces with up to the maximum of 10000 events, with texts of up to 2 MB and up to 40 args, read occasionally; non-trivial: over 100 events, or over 1000 bytes", 60, 1000, func(rt *rapid.T, k *kase) {
		max := rapid.SampledFrom([]int{100, 500, 1000, 3000, 10000}).Draw(rt, "max")
		trc.SetTraceMaxEvents(max)
		defer trc.SetTraceMaxEvents(1000)
		m := makeTrace(rapid.SampledFrom(makerKinds).Draw(rt, "kind"), "src", "cat")
		defer m.cancel()
		tr := m.tr
		var want []wantEvent
		errored := false
		for len(want) < max && rapid.IntRange(0, 9).Draw(rt, "more") > 0 {
			c := call{lazy: rapid.Bool().Draw(rt, "lazy"), iserr: rapid.IntRange(0, 9).Draw(rt, "iserr") == 9}
			repeat := 1
			switch rapid.IntRange(0, 3).Draw(rt, "what") {
			case 0, 1: // many events
				repeat = min(max-len(want), rapid.OneOf(rapid.IntRange(1, 3000), rapid.SampledFrom([]int{1, 63, 64, 65, 255, 256, 257, 1000, 10000})).Draw(rt, "repeat"))
			case 2: // long text
				n := rapid.OneOf(rapid.IntRange(1, 5000), rapid.SampledFrom([]int{255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 1<<20 + 1, 1<<21 + 1})).Draw(rt, "length")
				if rapid.Bool().Draw(rt, "literal") {
					c.format = strings.Repeat("x", n)
				} else {
					c.format, c.args = "%s|", []any{strings.Repeat("y", n)}
				}
			case 3: // many args
				for i, n := 0, rapid.IntRange(1, 40).Draw(rt, "args"); i < n; i++ {
					c.format += "%v "
					c.args = append(c.args, i*7)
				}
			}
			k.notef("%d events of %d bytes, %d args, lazy %v", repeat, len(c.text()), len(c.args), c.lazy)
			for i := 0; i < repeat; i++ {
				c := c
				if repeat > 1 {
					c.format, c.args = "event %d", []any{len(want)}
				}
				c.apply(tr)
				want = append(want, wantEvent{c.text(), c.iserr})
				k.interesting(len(want) > 100 || len(c.text()) > 1000)
			}
			errored = errored || c.iserr
			if rapid.IntRange(0, 3).Draw(rt, "read") == 0 {
				if err := eventsMatch(tr.Events(), want); err != nil {
					rt.Fatalf("%v", err)
				}
			}
		}
		if rapid.Bool().Draw(rt, "finish") {
			tr.Finish()
		}
		if err := eventsMatch(tr.Events(), want); err != nil {
			rt.Fatalf("%v", err)
		}
		if err := eventsMatch(trc.NewSearchTrace(tr).TraceEvents, want); err != nil {
			rt.Fatalf("search trace: %v", err)
		}
		if tr.Errored() != errored {
			rt.Fatalf("Errored: have %v, want %v", tr.Errored(), errored)
		}
	})

	check(t, "lazy", "events whose args are mutable values that change before, between and after reads; eager text is fixed at the call, lazy text at the first read; non-trivial: a lazy arg is mutated between call and first read", 700, func(rt *rapid.T, k *kase) {
		kind := rapid.SampledFrom([]string{"core", "collector", "orphan", "put"}).Draw(rt, "kind")
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		handles, prefixes := []trc.Trace{m.tr}, []string{""}
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "prefixes"); i < n; i++ {
			ctx, _ := trc.Put(m.ctx, handles[i])
			_, h := trc.Prefix(ctx, "p%d", i)
			handles, prefixes = append(handles, h), append(prefixes, prefixes[i]+fmt.Sprintf("p%d ", i))
		}
		k.label(len(handles) > 1, "prefixed")
		pad := ""
		if sometimes(rt, "long") {
			pad = strings.Repeat("p", rapid.SampledFrom([]int{30, 130, 260, 1030, 4100, 70000}).Draw(rt, "pad"))
		}
		// Events whose whole text may be empty.
		label := rapid.SampledFrom([]string{"v=", "v=", ""}).Draw(rt, "label")
		values := []string{"init", "init", ""}
		k.label(label == "", "text may be empty")
		// More args, before and after the one that changes.
		var argsBefore, argsAfter []any
		formatBefore, formatAfter, textBefore, textAfter := "", "", "", ""
		if rapid.IntRange(0, 3).Draw(rt, "more") == 0 {
			for i, n := 0, rapid.IntRange(0, 12).Draw(rt, "before"); i < n; i++ {
				argsBefore, formatBefore, textBefore = append(argsBefore, i), formatBefore+"%d,", textBefore+fmt.Sprint(i, ",")
			}
			for i, n := 0, rapid.IntRange(0, 12).Draw(rt, "after"); i < n; i++ {
				argsAfter, formatAfter, textAfter = append(argsAfter, i), formatAfter+",%d", textAfter+fmt.Sprint(",", i)
			}
			k.label(true, "many args")
		}
		type slot struct {
			prefix string
			arg    *mutable
			lazy   bool
			fixed  bool
			want   string
		}
		var slots []*slot
		var calls []call
		read := func() {
			evs := m.tr.Events()
			if len(evs) != len(slots) {
				rt.Fatalf("%d events, want %d", len(evs), len(slots))
			}
			for i, s := range slots {
				if !s.fixed {
					s.fixed, s.want = true, s.prefix+pad+textBefore+label+s.arg.val.Load().(string)+textAfter
				}
				if evs[i].What != s.want {
					rt.Fatalf("event %d (lazy %v): have %q, want %q", i, calls[i].lazy, evs[i].What, s.want)
				}
			}
		}
		next := 0
		steps := rapid.IntRange(1, 30).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			switch op := rapid.IntRange(0, 5).Draw(rt, "op"); {
			case op <= 1:
				next++
				arg := newMutable("")
				if v := rapid.SampledFrom(values).Draw(rt, "init"); v != "" {
					arg = newMutable(fmt.Sprint(v, next))
				}
				c := call{lazy: rapid.Bool().Draw(rt, "lazy"), iserr: rapid.Bool().Draw(rt, "err"), format: pad + formatBefore + label + "%v" + formatAfter, args: append(append(argsBefore[:len(argsBefore):len(argsBefore)], arg), argsAfter...)}
				k.notef("lazy=%v err=%v", c.lazy, c.iserr)
				h := rapid.IntRange(0, len(handles)-1).Draw(rt, "handle")
				c.apply(handles[h])
				s := &slot{prefix: prefixes[h], arg: arg, lazy: c.lazy}
				if !c.lazy {
					s.fixed, s.want = true, s.prefix+pad+textBefore+label+arg.val.Load().(string)+textAfter
				} else if arg.count.Load() != 0 {
					rt.Fatalf("lazy arg evaluated during the call")
				}
				slots, calls = append(slots, s), append(calls, c)
			case op <= 3 && len(slots) > 0:
				j := rapid.IntRange(0, len(slots)-1).Draw(rt, "j")
				next++
				if rapid.IntRange(0, 4).Draw(rt, "empty") == 0 {
					slots[j].arg.val.Store("")
				} else {
					slots[j].arg.val.Store(fmt.Sprint("mut", next))
				}
				k.notef("mutate %d", j)
				k.interesting(slots[j].lazy && !slots[j].fixed)
				k.label(slots[j].fixed, "mutated after it was fixed")
			case op == 4:
				for j, s := range slots {
					if !s.fixed && s.arg.count.Load() != 0 {
						rt.Fatalf("lazy arg of event %d evaluated before the first read", j)
					}
				}
				k.notef("read")
				read()
			case op == 5 && rapid.IntRange(0, 3).Draw(rt, "fin") == 0:
				k.notef("finish")
				m.tr.Finish()
				read()
				for j, s := range slots {
					s.arg.val.Store("late" + fmt.Sprint(j))
				}
				read()
				return
			}
		}
		read()
		read()
	})
}

type mutable struct {
	val   atomic.Value
	count atomic.Int64
}

func newMutable(s string) *mutable { m := &mutable{}; m.val.Store(s); return m }

func (m *mutable) String() string { m.count.Add(1); return m.val.Load().(string) }

// ---- C02 ------------------------------------------------------------------

func TestC02(t *testing.T) {
	check(t, "frozen", "build a trace, derive handles from it before and after it's finished (prefix, region, decorators, context, nested collector traces), finish via any of them, then apply late calls via any of them; non-trivial: at least one late event call", 700, func(rt *rapid.T, k *kase) {
		kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
		small := rapid.IntRange(0, 4).Draw(rt, "small") == 0 // so that it can be truncated
		if small {
			trc.SetTraceMaxEvents(10)
			defer trc.SetTraceMaxEvents(1000)
		}
		t0 := time.Now()
		m := makeTrace(kind, "src", "cat")
		t1 := time.Now()
		defer m.cancel()
		k.notef("%s", kind)
		k.label(true, kind)

		handles := []trc.Trace{m.tr}
		ctxs := []context.Context{m.ctx}
		var ends []func()
		derive := func() {
			ctx := ctxs[rapid.IntRange(0, len(ctxs)-1).Draw(rt, "ctx")]
			switch rapid.IntRange(0, 4).Draw(rt, "derive") {
			case 0:
				c, tr := trc.Prefix(ctx, "p%d", len(handles))
				ctxs, handles = append(ctxs, c), append(handles, tr)
				k.notef("prefix")
			case 1:
				c, tr, end := trc.Region(ctx, "region")
				ctxs, handles, ends = append(ctxs, c), append(handles, tr), append(ends, end)
				k.notef("region")
			case 2:
				c, tr := trc.Put(ctx, trc.LogDecorator(io.Discard)(trc.Get(ctx)))
				ctxs, handles = append(ctxs, c), append(handles, tr)
				k.notef("log")
			case 3:
				handles = append(handles, trc.Get(ctx))
			case 4:
				other := trc.NewDefaultCollector()
				c, tr := other.NewTrace(ctx, "nested")
				ctxs, handles = append(ctxs, c), append(handles, tr)
				k.notef("nested")
			}
		}
		pick := func() trc.Trace { return handles[rapid.IntRange(0, len(handles)-1).Draw(rt, "h")] }

		for i, n := 0, rapid.IntRange(0, 14).Draw(rt, "early"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(rt, "d") == 0 {
				derive()
			} else {
				genCall().Draw(rt, "call").apply(pick())
			}
		}
		if m.tr.Finished() {
			rt.Fatalf("finished before Finish")
		}
		d0 := m.tr.Duration()
		d1 := m.tr.Duration()
		if d0 < 0 || d1 < d0 {
			rt.Fatalf("duration of an active trace: %s then %s", d0, d1)
		}
		t2 := time.Now()
		if kind == "core" && rapid.IntRange(0, 3).Draw(rt, "instant") == 0 { // as short as possible, in addition
			for i := 0; i < 50; i++ {
				_, tr := trc.New(context.Background(), "src", "cat")
				tr.Finish()
				d := tr.Duration()
				for t := time.Now(); time.Since(t) < 2*time.Microsecond; {
				}
				if again := tr.Duration(); again != d {
					rt.Fatalf("duration of a finished trace was %s, now is %s", d, again)
				}
			}
			t2 = time.Now()
		}
		pick().Finish()
		t3 := time.Now()

		frozen := snap(m.tr)
		if !frozen.finished {
			rt.Fatalf("not finished after Finish")
		}
		if lo, hi := t2.Sub(t1), t3.Sub(t0); frozen.duration < lo || frozen.duration > hi {
			rt.Fatalf("duration %s isn't in [%s, %s]", frozen.duration, lo, hi)
		}
		if n := len(frozen.events); n >= 2 {
			k.label(strings.HasPrefix(frozen.events[n-1].What, "(truncated"), "truncated")
		}
		verify := func(what string) {
			for i, h := range handles {
				now := snap(h)
				if err := frozen.equal(now); err != nil {
					rt.Fatalf("after %s: via handle %d: finished trace changed: %v", what, i, err)
				}
			}
			if m.collector != nil {
				res, err := m.collector.Search(context.Background(), &trc.SearchRequest{Filter: trc.Filter{IDs: []string{frozen.id}}})
				if err != nil || len(res.Traces) != 1 {
					rt.Fatalf("search: %v", err)
				}
				if err := frozen.equal(snap(res.Traces[0])); err != nil {
					rt.Fatalf("after %s: search: finished trace changed: %v", what, err)
				}
			}
		}
		verify("finish")
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "late"); i < n; i++ {
			what := ""
			switch rapid.IntRange(0, 6).Draw(rt, "op") {
			case 0:
				what = "finish"
				pick().Finish()
			case 1:
				what = "derive"
				derive()
			case 2:
				if len(ends) > 0 {
					what = "region end"
					ends[0]()
					ends = ends[1:]
					k.interesting(true)
				}
			case 3:
				what = "set max events"
				trc.SetMaxEvents(pick(), rapid.IntRange(0, 30).Draw(rt, "max"))
			case 4:
				what = "sleep"
				time.Sleep(time.Duration(rapid.IntRange(1, 50).Draw(rt, "us")) * time.Microsecond)
			default:
				c := genCall().Draw(rt, "call")
				what = c.String()
				c.apply(pick())
				k.interesting(true)
			}
			k.notef("late %s", what)
			if rapid.IntRange(0, 2).Draw(rt, "v") == 0 {
				verify(what)
			}
		}
		verify("all late calls")
	})

	check(t, "evicted", "finished traces are evicted from a small collector, then written to via stale handles while new traces are being made; non-trivial: a late write to an evicted trace after newer traces were created", 300, func(rt *rapid.T, k *kase) {
		runRecycling(rt, k, true)
	})

	check(t, "schedules", "late calls from several goroutines racing with Finish; what Finish's caller sees when it returns is final; non-trivial: at least 2 writers", 150, func(rt *rapid.T, k *kase) {
		kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		writers := rapid.IntRange(1, 4).Draw(rt, "writers")
		perw := rapid.IntRange(1, 60).Draw(rt, "perw")
		yields := rapid.IntRange(0, 100).Draw(rt, "yields")
		k.notef("%s writers=%d perw=%d yields=%d", kind, writers, perw, yields)
		k.interesting(writers >= 2)
		var wg sync.WaitGroup
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < perw; i++ {
					switch (w + i) % 4 {
					case 0:
						m.tr.Tracef("%d %d", w, i)
					case 1:
						m.tr.LazyTracef("%d %d", w, i)
					case 2:
						m.tr.LazyErrorf("%d %d", w, i)
					case 3:
						m.tr.Finish()
					}
				}
			}(w)
		}
		for i := 0; i < yields; i++ {
			runtime.Gosched()
		}
		m.tr.Finish()
		frozen := snap(m.tr)
		wg.Wait()
		if err := frozen.equal(snap(m.tr)); err != nil {
			rt.Fatalf("finished trace changed: %v", err)
		}
	})
}

// ---- C03 ------------------------------------------------------------------

var limitList = []int{-1000000, -1, 0, 1, 5, 9, 10, 11, 12, 15, 20, 33, 100, 9999, 10000, 10001, 20000, 1 << 40}

func clampMax(n int) int {
	if n < 10 {
		return 10
	}
	if n > 10000 {
		return 10000
	}
	return n
}

type limitModel struct {
	max       int
	stored    []wantEvent
	truncated int
	errored   bool
}

func (lm *limitModel) add(what string, iserr bool) {
	lm.errored = lm.errored || iserr
	if len(lm.stored) >= lm.max {
		lm.truncated++
		return
	}
	lm.stored = append(lm.stored, wantEvent{what, iserr})
}

func (lm *limitModel) want() []wantEvent {
	if lm.truncated == 0 {
		return lm.stored
	}
	res := append([]wantEvent(nil), lm.stored[1:]...)
	return append(res, wantEvent{fmt.Sprintf("(truncated event count %d)", lm.truncated), false})
}

func TestC03(t *testing.T) {
	defer trc.SetTraceMaxEvents(1000)
	checkN(t, "default", "a trace with default settings gets a number of events around 1000, or 70000; non-trivial: over 1000", 12, 60, func(rt *rapid.T, k *kase) {
		n := rapid.SampledFrom([]int{998, 999, 1000, 1001, 1002, 1003, 1500, 70000}).Draw(rt, "n")
		lm := &limitModel{max: 1000}
		_, tr := trc.New(context.Background(), "src", "cat")
		for i := 0; i < n; i++ {
			what := fmt.Sprint("ev", i)
			iserr := i == n-1
			if iserr {
				tr.LazyErrorf("ev%d", i)
			} else {
				tr.Tracef("ev%d", i)
			}
			lm.add(what, iserr)
		}
		k.notef("n=%d", n)
		k.interesting(n > 1000)
		if err := eventsMatch(tr.Events(), lm.want()); err != nil {
			rt.Fatalf("%d events, default limit: %v", n, err)
		}
		if !tr.Errored() {
			rt.Fatalf("not errored")
		}
	})

	check(t, "limits", "the global limit is set to generated values, incl. ones outside of the valid range, traces are made in between, and each gets events around its own limit; per-trace SetMaxEvents mixed in; non-trivial: at least one trace is truncated", 250, func(rt *rapid.T, k *kase) {
		defer trc.SetTraceMaxEvents(1000)
		trc.SetTraceStacks(rapid.Bool().Draw(rt, "stacks"))
		defer trc.SetTraceStacks(true)
		type live struct {
			tr   trc.Trace
			lm   *limitModel
			n    int
			can  bool
			name string
		}
		var traces []*live
		current := 1000
		steps := rapid.IntRange(2, 25).Draw(rt, "steps")
		big := 0
		for s := 0; s < steps; s++ {
			switch op := rapid.IntRange(0, 7).Draw(rt, "op"); {
			case op == 0:
				v := rapid.OneOf(rapid.SampledFrom(limitList), rapid.IntRange(-3, 60)).Draw(rt, "limit")
				trc.SetTraceMaxEvents(v)
				current = clampMax(v)
				k.notef("global %d", v)
			case op <= 2 || len(traces) == 0:
				kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
				if kind == "collector+sub" {
					kind = "collector"
				}
				m := makeTrace(kind, "src", "cat")
				_, can := m.tr.(interface{ SetMaxEvents(int) })
				traces = append(traces, &live{tr: m.tr, lm: &limitModel{max: current}, can: can, name: kind})
				k.notef("new %s", kind)
			case op == 3:
				l := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "i")]
				v := rapid.OneOf(rapid.SampledFrom(limitList), rapid.IntRange(-3, 60)).Draw(rt, "limit")
				got, ok := trc.SetMaxEvents(l.tr, v)
				if got != l.tr {
					rt.Fatalf("SetMaxEvents returned a different trace")
				}
				if ok != l.can {
					rt.Fatalf("SetMaxEvents: ok %v, but trace implements SetMaxEvents: %v", ok, l.can)
				}
				if (l.name == "core" || l.name == "orphan" || l.name == "put") && !ok {
					rt.Fatalf("SetMaxEvents isn't supported by %s traces", l.name)
				}
				if ok {
					l.lm.max = clampMax(v)
				}
				k.notef("set %d", v)
			default:
				l := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "i")]
				n := 0
				switch rapid.IntRange(0, 30).Draw(rt, "count") % 5 {
				case 4: // a lot of truncated events
					if rapid.IntRange(0, 3).Draw(rt, "lots") == 0 {
						n = rapid.IntRange(900, 2500).Draw(rt, "n")
						k.label(true, "lots")
						break
					}
					fallthrough
				case 0:
					n = rapid.IntRange(1, 5).Draw(rt, "n")
				case 1, 2: // to just around the limit
					n = l.lm.max - len(l.lm.stored) + rapid.IntRange(-1, 3).Draw(rt, "n")
				case 3:
					n = rapid.IntRange(5, 40).Draw(rt, "n")
				}
				if n > 3000 {
					if big++; big > 1 {
						n = 20
					}
				}
				errAt := rapid.IntRange(0, 80).Draw(rt, "errAt")
				for j := 0; j < n; j++ {
					c := call{lazy: j%2 == 0, iserr: j == n-1-errAt, format: "ev %d", args: []any{l.n}}
					l.n++
					c.apply(l.tr)
					l.lm.add(c.text(), c.iserr)
				}
				k.notef("%d events", n)
				k.interesting(l.lm.truncated > 0)
				k.label(n > 3000, "large limit")
			}
		}
		for i, l := range traces {
			if rapid.Bool().Draw(rt, "fin") {
				l.tr.Finish()
			}
			have := l.tr.Events()
			if err := eventsMatch(have, l.lm.want()); err != nil {
				rt.Fatalf("trace %d (%s), limit %d, %d calls: %v", i, l.name, l.lm.max, l.n, err)
			}
			for j := 1; j < len(have); j++ {
				if have[j].When.Before(have[j-1].When) {
					rt.Fatalf("trace %d: event %d older than its predecessor", i, j)
				}
			}
			if l.tr.Errored() != l.lm.errored {
				rt.Fatalf("trace %d (%s), limit %d, %d calls: errored %v, want %v", i, l.name, l.lm.max, l.n, l.tr.Errored(), l.lm.errored)
			}
			if err := eventsMatch(trc.NewSearchTrace(l.tr).TraceEvents, l.lm.want()); err != nil {
				rt.Fatalf("trace %d (%s), search trace: %v", i, l.name, err)
			}
			if err := eventsMatch(trc.NewStreamTrace(l.tr).TraceEvents, streamWant(l.tr.Finished(), l.lm.want())); err != nil {
				rt.Fatalf("trace %d (%s), stream trace: %v", i, l.name, err)
			}
		}
	})
}

// streamWant is what a stream trace should contain of the given events.
func streamWant(finished bool, evs []wantEvent) []wantEvent {
	if finished || len(evs) == 0 {
		return evs
	}
	return evs[len(evs)-1:]
}

// ---- C04 ------------------------------------------------------------------

func TestC04(t *testing.T) {
	check(t, "schedules", "several goroutines add events to one trace (made in one of seven ways, shared directly or via prefixes), others read it, one may finish it half way, under the race detector; non-trivial: at least 2 writers with at least 10 events", 120, func(rt *rapid.T, k *kase) {
		limit := rapid.SampledFrom([]int{1000, 1000, 10, 50}).Draw(rt, "limit")
		trc.SetTraceMaxEvents(limit)
		defer trc.SetTraceMaxEvents(1000)
		kind := rapid.SampledFrom(makerKinds).Draw(rt, "kind")
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		tr := m.tr
		var (
			writers  = rapid.IntRange(1, 6).Draw(rt, "writers")
			perw     = rapid.IntRange(1, 80).Draw(rt, "perw")
			readers  = rapid.IntRange(0, 3).Draw(rt, "readers")
			finishAt = rapid.IntRange(-100, writers*perw).Draw(rt, "finishAt") // after this many events
			errEvery = rapid.IntRange(2, 20).Draw(rt, "errEvery")
			spin     = rapid.IntRange(0, 3).Draw(rt, "spin")
		)
		k.notef("%s limit=%d writers=%d perw=%d readers=%d finishAt=%d errEvery=%d", kind, limit, writers, perw, readers, finishAt, errEvery)
		k.interesting(writers >= 2 && writers*perw >= 10)
		k.label(finishAt >= 0, "finish half way")
		k.label(limit < writers*perw, "truncated")

		handles, prefixes := []trc.Trace{tr}, []string{""} // shared by the writers
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(rt, "prefixes"); i < n; i++ {
			on := rapid.IntRange(0, i).Draw(rt, "on")
			ctx, _ := trc.Put(m.ctx, handles[on])
			_, h := trc.Prefix(ctx, "<%s/%d>", "prefix", i)
			handles, prefixes = append(handles, h), append(prefixes, prefixes[on]+fmt.Sprintf("<prefix/%d> ", i))
		}
		k.label(len(handles) > 1, "prefixed")

		type result struct{ begin, end, sure []bool }
		var (
			wg                   sync.WaitGroup
			count                atomic.Int64
			finishing, finished  atomic.Bool // set before and after the call to Finish
			stop                 atomic.Bool
			mustHave, mustntHave = make([][]bool, writers), make([][]bool, writers)
			problems             = make(chan error, 1000)
			snaps                = make([][][]trc.Event, readers)
		)
		problem := func(format string, args ...any) {
			select {
			case problems <- fmt.Errorf(format, args...):
			default:
			}
		}
		_ = result{}
		start := make(chan struct{})
		for w := 0; w < writers; w++ {
			mustHave[w], mustntHave[w] = make([]bool, perw), make([]bool, perw)
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for i := 0; i < perw; i++ {
					h := handles[(w+i)%len(handles)]
					mustntHave[w][i] = finished.Load()
					c := call{lazy: (w+i)%2 == 0, iserr: i%errEvery == errEvery-1, format: "%d %d", args: []any{w, i}}
					c.apply(h)
					mustHave[w][i] = !finishing.Load()
					if c.iserr && mustHave[w][i] && !h.Errored() {
						problem("trace isn't errored after an error event")
					}
					count.Add(1)
					for s := 0; s < spin; s++ {
						runtime.Gosched()
					}
				}
			}(w)
		}
		for r := 0; r < readers; r++ {
			wg.Add(1)
			go func(r int) {
				defer wg.Done()
				<-start
				for !stop.Load() && len(snaps[r]) < 30 {
					wasFinished := tr.Finished()
					d := tr.Duration()
					evs := tr.Events()
					if wasFinished && tr.Duration() != d {
						problem("duration of finished trace changed")
					}
					if !wasFinished && tr.Duration() < d && !tr.Finished() {
						problem("duration of active trace decreased")
					}
					snaps[r] = append(snaps[r], evs)
					st := trc.NewStreamTrace(tr)
					if st.TraceFinished && len(st.TraceEvents) < len(evs) {
						problem("finished stream trace has %d events, after %d were read", len(st.TraceEvents), len(evs))
					}
					runtime.Gosched()
				}
			}(r)
		}
		if finishAt >= 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for count.Load() < int64(finishAt) {
					runtime.Gosched()
				}
				finishing.Store(true)
				tr.Finish()
				finished.Store(true)
				if !tr.Finished() {
					problem("not finished after Finish")
				}
			}()
		}
		finishes(rt, "concurrent use of a trace", func() {
			close(start)
			for count.Load() < int64(writers*perw) {
				runtime.Gosched()
			}
			stop.Store(true)
			wg.Wait()
		})
		select {
		case err := <-problems:
			rt.Fatalf("%v", err)
		default:
		}

		final := tr.Events()
		next := make([]int, writers)
		stored, truncated := 0, 0
		for i, ev := range final {
			if i > 0 && ev.When.Before(final[i-1].When) {
				rt.Fatalf("event %d (%q) is older than its predecessor (%q)", i, ev.What, final[i-1].What)
			}
			if strings.HasPrefix(ev.What, "(truncated") {
				if i != len(final)-1 {
					rt.Fatalf("truncation event isn't last")
				}
				if _, err := fmt.Sscanf(ev.What, "(truncated event count %d)", &truncated); err != nil {
					rt.Fatalf("bad truncation event %q", ev.What)
				}
				continue
			}
			var w, n int
			text := ev.What[strings.LastIndex(ev.What, "> ")+1:]
			if _, err := fmt.Sscanf(text, "%d %d", &w, &n); err != nil || w < 0 || n < 0 || w >= writers || n >= perw || ev.What != prefixes[(w+n)%len(handles)]+fmt.Sprintf("%d %d", w, n) {
				rt.Fatalf("corrupt event %q", ev.What)
			}
			// If the trace is truncated, then the very first event isn't returned.
			if n != next[w] && !(limit < writers*perw && next[w] == 0 && n == 1) {
				rt.Fatalf("writer %d: event %d follows event %d", w, n, next[w]-1)
			}
			next[w] = n + 1
			if want := n%errEvery == errEvery-1; ev.IsError != want {
				rt.Fatalf("event %q: error %v, want %v", ev.What, ev.IsError, want)
			}
			if mustntHave[w][n] {
				rt.Fatalf("event %q was added after the trace was finished", ev.What)
			}
			stored++
		}
		if len(final) > limit {
			rt.Fatalf("%d events, limit is %d", len(final), limit)
		}
		certain, possible := 0, 0
		for w := range mustHave {
			for i := range mustHave[w] {
				if mustHave[w][i] {
					certain++
				}
				if !mustntHave[w][i] {
					possible++
				}
			}
		}
		total := stored + truncated
		if truncated > 0 {
			total++
		}
		if total < certain || total > possible {
			rt.Fatalf("%d events are accounted for, want between %d and %d", total, certain, possible)
		}
		if truncated == 0 {
			for w := range mustHave {
				for i := range mustHave[w] {
					if mustHave[w][i] && i >= next[w] {
						rt.Fatalf("event %d of writer %d is lost", i, w)
					}
				}
			}
			for r := range snaps {
				for _, s := range snaps[r] {
					if len(s) > len(final) {
						rt.Fatalf("reader saw %d events, but there are only %d", len(s), len(final))
					}
					if err := eventsEqual(s, final[:len(s)]); err != nil {
						rt.Fatalf("reader saw events that aren't a prefix of the final events: %v", err)
					}
				}
			}
		}
		if err := eventsEqual(final, tr.Events()); err != nil {
			rt.Fatalf("events differ between reads: %v", err)
		}
	})

	check(t, "lazy-readers", "several goroutines read the same unread lazy events, whose args change on every evaluation, at the same time; all of them see the same text; non-trivial: at least 2 readers", 120, func(rt *rapid.T, k *kase) {
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		readers := rapid.IntRange(1, 6).Draw(rt, "readers")
		kind := rapid.SampledFrom([]string{"core", "collector", "put"}).Draw(rt, "kind")
		k.notef("%s n=%d readers=%d", kind, n, readers)
		k.interesting(readers >= 2)
		m := makeTrace(kind, "src", "cat")
		defer m.cancel()
		for i := 0; i < n; i++ {
			m.tr.LazyTracef("%v", &counter{})
		}
		results := make([][]trc.Event, readers)
		finishes(rt, "concurrent reads of a trace", func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for r := range results {
				wg.Add(1)
				go func(r int) {
					defer wg.Done()
					<-start
					if r%2 == 0 {
						results[r] = m.tr.Events()
					} else {
						results[r] = trc.NewSearchTrace(m.tr).TraceEvents
					}
				}(r)
			}
			close(start)
			wg.Wait()
		})
		for r := range results {
			if err := eventsEqual(results[0], results[r]); err != nil {
				rt.Fatalf("readers 0 and %d differ: %v", r, err)
			}
		}
	})
}

type counter struct{ n atomic.Int64 }

func (c *counter) String() string { return fmt.Sprint("eval ", c.n.Add(1)) }

// ---- C05 ------------------------------------------------------------------

const crockford = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"

func ulidMillis(id string) (int64, error) {
	if len(id) != 26 {
		return 0, fmt.Errorf("ID %q isn't 26 characters", id)
	}
	n := new(big.Int)
	for i := 0; i < 10; i++ {
		j := strings.IndexByte(crockford, id[i])
		if j < 0 {
			return 0, fmt.Errorf("ID %q isn't a ULID", id)
		}
		n.Mul(n, big.NewInt(32)).Add(n, big.NewInt(int64(j)))
	}
	for i := 10; i < 26; i++ {
		if strings.IndexByte(crockford, id[i]) < 0 {
			return 0, fmt.Errorf("ID %q isn't a ULID", id)
		}
	}
	return n.Int64(), nil
}

func TestC05(t *testing.T) {
	var allMtx sync.Mutex
	all := map[string]bool{} // IDs over all cases
	check(t, "identity", "traces made in all ways by several goroutines, through collectors small enough to evict and recycle; every ID is unique, and every trace keeps its ID, source, category and start time for ever, also via derived handles and after being finished and evicted; non-trivial: evictions occur", 150, func(rt *rapid.T, k *kase) {
		source := genName().Draw(rt, "source")
		cats := rapid.SliceOfN(genName(), 1, 4).Draw(rt, "cats")
		capacity := rapid.IntRange(1, 8).Draw(rt, "cap")
		workers := rapid.IntRange(1, 4).Draw(rt, "workers")
		per := rapid.IntRange(1, 60).Draw(rt, "per")
		finishEvery := rapid.IntRange(1, 3).Draw(rt, "finishEvery")
		k.notef("source=%q cats=%q cap=%d workers=%d per=%d finishEvery=%d", source, cats, capacity, workers, per, finishEvery)
		k.interesting(workers*per > capacity*len(cats))
		col := trc.NewCollector(trc.CollectorConfig{Source: source})
		col.SetCategorySize(capacity)
		wantSource := source
		if wantSource == "" {
			wantSource = "default"
		}
		type made struct {
			tr               trc.Trace
			id, source, cat  string
			started, t0, t1  time.Time
			wantSrc, wantCat string
		}
		results := make([][]made, workers)
		finishes(rt, "creating traces", func() {
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := 0; i < per; i++ {
						cat := cats[(w+i)%len(cats)]
						m := made{t0: time.Now(), wantSrc: wantSource, wantCat: cat}
						switch (w*7 + i) % 5 {
						case 0:
							_, m.tr = trc.New(context.Background(), source, cat)
							m.wantSrc = source
						case 1:
							m.tr = trc.Get(context.Background())
							m.wantSrc, m.wantCat = "", "(orphan)"
						default:
							_, m.tr = col.NewTrace(context.Background(), cat)
						}
						m.t1 = time.Now()
						m.id, m.source, m.cat, m.started = m.tr.ID(), m.tr.Source(), m.tr.Category(), m.tr.Started()
						m.tr.Tracef("x")
						if i%finishEvery == 0 {
							m.tr.Finish()
						}
						results[w] = append(results[w], m)
					}
				}(w)
			}
			wg.Wait()
		})
		allMtx.Lock()
		defer allMtx.Unlock()
		for w := range results {
			for i, m := range results[w] {
				if all[m.id] {
					rt.Fatalf("ID %q isn't unique", m.id)
				}
				all[m.id] = true
				if m.source != m.wantSrc || m.cat != m.wantCat {
					rt.Fatalf("trace has source %q and category %q, want %q and %q", m.source, m.cat, m.wantSrc, m.wantCat)
				}
				if m.started.Before(m.t0) || m.started.After(m.t1) {
					rt.Fatalf("started %s isn't when it was created", m.started)
				}
				ms, err := ulidMillis(m.id)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				if want := m.started.UnixMilli(); ms != want {
					rt.Fatalf("ID %q has timestamp %d, but trace started at %d", m.id, ms, want)
				}
				if workers == 1 && i > 0 {
					prev := results[w][i-1]
					if prev.started.UnixNano() <= m.started.UnixNano() && prev.id >= m.id { // unless the clock was changed
						rt.Fatalf("ID %q of a newer trace sorts before ID %q", m.id, prev.id)
					}
				}
				ctx, _ := trc.Put(context.Background(), m.tr)
				_, pre := trc.Prefix(ctx, "prefix")
				for _, h := range []trc.Trace{m.tr, pre, trc.LogDecorator(io.Discard)(m.tr), trc.NewSearchTrace(m.tr), trc.NewStreamTrace(m.tr)} {
					if h.ID() != m.id || h.Source() != m.source || h.Category() != m.cat || !h.Started().Equal(m.started) {
						rt.Fatalf("identity of trace %s changed: have (%s %q %q %s), had (%s %q %q %s)", m.id, h.ID(), h.Source(), h.Category(), h.Started(), m.id, m.source, m.cat, m.started)
					}
				}
			}
		}
	})
}

// ---- C06 ------------------------------------------------------------------

// held is something handed out by the library, and what it was at that time.
type held struct {
	what string
	live *trc.StaticTrace
	copy *trc.StaticTrace
}

// runRecycling drives a small collector through creations, writes, finishes,
// searches, streams and resizes, keeping hold of everything that's handed out.
func runRecycling(rt *rapid.T, k *kase, lateWrites bool) {
	type live struct {
		tr       trc.Trace
		id, cat  string
		want     []wantEvent
		errored  bool
		finished bool
		evicted  bool
		late     bool
		frozen   snapshot
	}
	var (
		ctx     = context.Background()
		capac   = rapid.IntRange(1, 5).Draw(rt, "cap")
		cats    = []string{"a", "b"}
		col     = trc.NewDefaultCollector().SetCategorySize(capac)
		traces  []*live
		byCat   = map[string][]*live{} // retained, oldest first
		holds   []held
		slices  []struct{ live, copy []trc.Event }
		serial  int
		subch   = make(chan trc.Trace, 10000)
		evicted = 0
	)
	if rapid.Bool().Draw(rt, "log") {
		col.SetDecorators(trc.LogDecorator(io.Discard))
	}
	k.notef("cap=%d", capac)
	subctx, cancel := context.WithCancel(ctx)
	subdone := make(chan struct{})
	streaming := rapid.Bool().Draw(rt, "streaming")
	if streaming {
		go func() { defer close(subdone); col.Stream(subctx, trc.Filter{}, subch) }()
		for {
			if _, err := col.StreamStats(ctx, subch); err == nil {
				break
			}
			runtime.Gosched()
		}
	} else {
		close(subdone)
	}
	stopStream := sync.OnceFunc(func() { cancel(); <-subdone })
	defer stopStream()

	trim := func(cat string) {
		for len(byCat[cat]) > capac {
			byCat[cat][0].evicted = true
			byCat[cat] = byCat[cat][1:]
			evicted++
		}
	}
	verify := func(l *live) {
		if l.tr.ID() != l.id || l.tr.Category() != l.cat {
			rt.Fatalf("trace %s (%s) became %s (%s)", l.id, l.cat, l.tr.ID(), l.tr.Category())
		}
		if l.tr.Finished() != l.finished {
			rt.Fatalf("trace %s: finished %v, want %v", l.id, l.tr.Finished(), l.finished)
		}
		if l.tr.Errored() != l.errored {
			rt.Fatalf("trace %s: errored %v, want %v", l.id, l.tr.Errored(), l.errored)
		}
		evs := l.tr.Events()
		if l.evicted && l.finished && len(evs) == 0 {
			return // released, which is fine
		}
		if err := eventsMatch(evs, l.want); err != nil {
			rt.Fatalf("trace %s (%s, finished %v, evicted %v): %v", l.id, l.cat, l.finished, l.evicted, err)
		}
		for _, ev := range evs {
			if len(ev.Stack) == 0 || !strings.Contains(ev.Stack[0].Function, "verifharness") {
				rt.Fatalf("trace %s: event %q has unexpected stack %v", l.id, ev.What, ev.Stack)
			}
		}
	}
	hold := func(what string, st *trc.StaticTrace) {
		holds = append(holds, held{what, st, copyStatic(st)})
	}

	steps := rapid.IntRange(5, 70).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		op := rapid.IntRange(0, 12).Draw(rt, "op")
		switch {
		case op <= 3 || len(traces) == 0:
			cat := rapid.SampledFrom(cats).Draw(rt, "cat")
			_, tr := col.NewTrace(ctx, cat)
			l := &live{tr: tr, id: tr.ID(), cat: cat}
			if tr.Finished() || tr.Errored() || len(tr.Events()) != 0 || tr.Category() != cat || tr.Source() != "default" || time.Since(tr.Started()) > time.Minute {
				rt.Fatalf("new trace isn't pristine: %+v", snap(tr))
			}
			for _, other := range traces {
				if other.id == l.id {
					rt.Fatalf("new trace has the ID of another trace")
				}
			}
			traces = append(traces, l)
			byCat[cat] = append(byCat[cat], l)
			trim(cat)
			k.notef("new %s", cat)
		case op <= 7:
			l := traces[len(traces)-1-rapid.IntRange(0, min(len(traces)-1, 3*capac)).Draw(rt, "i")]
			if l.finished && !lateWrites {
				continue
			}
			n := rapid.IntRange(1, 4).Draw(rt, "n")
			if len(l.want) < 400 && seldom(rt, "burst") {
				n = rapid.SampledFrom([]int{20, 60, 110, 270, 520}).Draw(rt, "n")
			}
			format := "event %d"
			if sometimes(rt, "long") {
				format += strings.Repeat(".", rapid.SampledFrom([]int{60, 130, 260, 520, 1100, 5000}).Draw(rt, "length"))
			}
			lazy, iserr := rapid.Bool().Draw(rt, "lazy"), rapid.IntRange(0, 5).Draw(rt, "err") == 0
			for j := 0; j < n; j++ {
				serial++
				if j < 4 {
					lazy, iserr = rapid.Bool().Draw(rt, "lazy"), rapid.IntRange(0, 5).Draw(rt, "err") == 0
				}
				c := call{lazy: lazy, iserr: iserr, format: format, args: []any{serial}}
				// Vary the call stack of events.
				if serial%2 == 0 {
					c.apply(l.tr)
				} else {
					func() { c.apply(l.tr) }()
				}
				if !l.finished {
					l.want = append(l.want, wantEvent{c.text(), c.iserr})
					l.errored = l.errored || c.iserr
				} else {
					k.interesting(lateWrites && l.evicted)
					k.label(l.evicted, "late write to evicted trace")
				}
				k.label(l.evicted && !l.finished, "write to evicted active trace")
			}
			k.notef("write %s", l.cat)
		case op <= 9:
			l := traces[len(traces)-1-rapid.IntRange(0, min(len(traces)-1, 2*capac)).Draw(rt, "i")]
			if l.finished && !lateWrites {
				continue
			}
			l.tr.Finish()
			l.finished = true
			k.notef("finish")
		case op == 10:
			depth := rapid.SampledFrom([]int{0, 0, 1, 2, -1}).Draw(rt, "depth")
			res, err := col.Search(ctx, &trc.SearchRequest{Limit: 250, StackDepth: depth})
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			for _, st := range res.Traces {
				hold("search result", st)
			}
			k.notef("search")
		case op == 11:
			l := traces[rapid.IntRange(0, len(traces)-1).Draw(rt, "i")]
			evs := l.tr.Events()
			slices = append(slices, struct{ live, copy []trc.Event }{evs, copyEvents(evs)})
			hold("stream trace", trc.NewStreamTrace(l.tr))
			k.notef("read")
		case op == 12:
			capac = rapid.IntRange(1, 5).Draw(rt, "cap")
			col.SetCategorySize(capac)
			for _, cat := range cats {
				trim(cat)
			}
			k.notef("resize %d", capac)
		}
		if streaming {
			for len(subch) > 0 {
				hold("streamed trace", (<-subch).(*trc.StaticTrace))
			}
		}
	}
	stopStream()
	if !lateWrites {
		k.interesting(evicted > 0 && len(holds) > 0)
	}
	k.label(streaming, "streaming")
	for _, l := range traces {
		verify(l)
	}
	for _, h := range holds {
		if err := staticEqual(h.copy, h.live); err != nil {
			rt.Fatalf("%s changed after it was handed out: %v", h.what, err)
		}
	}
	for _, s := range slices {
		if err := eventsEqual(s.copy, s.live); err != nil {
			rt.Fatalf("events changed after they were handed out: %v", err)
		}
	}
}

func TestC06(t *testing.T) {
	check(t, "history", "histories of creating, writing, finishing, searching, streaming and resizing a small collector, while keeping every search result, streamed trace and event slice, and comparing them and all live traces with the model at the end; non-trivial: evictions occur while results are held", 500, func(rt *rapid.T, k *kase) {
		runRecycling(rt, k, false)
	})
	check(t, "history-late-writes", "as history, also with late writes to finished and evicted traces; non-trivial: a late write to an evicted trace", 300, func(rt *rapid.T, k *kase) {
		runRecycling(rt, k, true)
	})
	check(t, "big-churn", "many traces with many events are created, finished and evicted while a few active and a few finished results are held; non-trivial: always", 12, func(rt *rapid.T, k *kase) {
		capac := rapid.IntRange(1, 50).Draw(rt, "cap")
		nev := rapid.IntRange(1, 20).Draw(rt, "nev")
		rounds := rapid.IntRange(50, 300).Draw(rt, "rounds")
		if rapid.IntRange(0, 3).Draw(rt, "large") == 3 {
			nev, rounds = rapid.SampledFrom([]int{65, 129, 257, 600, 1000}).Draw(rt, "nev"), 40
		}
		k.notef("cap=%d nev=%d rounds=%d", capac, nev, rounds)
		k.interesting(true)
		col := trc.NewDefaultCollector().SetCategorySize(capac)
		var holds []held
		type act struct {
			tr   trc.Trace
			want []wantEvent
		}
		var actives []act
		for r := 0; r < rounds; r++ {
			_, tr := col.NewTrace(context.Background(), "cat")
			if len(tr.Events()) != 0 || tr.Errored() || tr.Finished() {
				rt.Fatalf("new trace isn't pristine: %+v", snap(tr))
			}
			var want []wantEvent
			for i := 0; i < nev; i++ {
				c := call{lazy: i%2 == 0, iserr: i%5 == 4, format: "r%d i%d", args: []any{r, i}}
				c.apply(tr)
				want = append(want, wantEvent{c.text(), c.iserr})
			}
			if r%10 == 0 {
				actives = append(actives, act{tr, want})
			} else {
				tr.Finish()
			}
			if r%20 == 0 {
				res, err := col.Search(context.Background(), &trc.SearchRequest{Limit: 5})
				if err != nil {
					rt.Fatalf("search: %v", err)
				}
				for _, st := range res.Traces {
					holds = append(holds, held{"search result", st, copyStatic(st)})
				}
			}
		}
		for _, a := range actives {
			if err := eventsMatch(a.tr.Events(), a.want); err != nil {
				rt.Fatalf("active trace %s: %v", a.tr.ID(), err)
			}
			if a.tr.Finished() {
				rt.Fatalf("active trace %s is finished", a.tr.ID())
			}
		}
		for _, h := range holds {
			if err := staticEqual(h.copy, h.live); err != nil {
				rt.Fatalf("%s changed after it was handed out: %v", h.what, err)
			}
		}
	})
}
